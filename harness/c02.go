package main

import (
	"fmt"
	"runtime"
	"strings"

	zmq "github.com/luxfi/zmq/v4"
	"github.com/luxfi/zmq/v4/internal/zzmc/mc"
)

// item is a message that may be delivered in one of several forms, or not at
// all where the specification leaves that open.
type item struct {
	forms    [][]string
	optional bool
}

type allowed []item

// expect gives what a receiver of kind k may deliver of a byte stream.
func expect(k string, b []byte) (a allowed) {
	msgs, cmds, _ := decStream(b)
	grey := greyFrom(b)
	for i, m := range msgs {
		it := item{optional: i >= grey || cmds[i]}
		if cmds[i] && k != "REP" {
			continue // a command is no message, and can be told from one
		}
		switch k {
		case "ROUTER":
			m = append([]string{"peer"}, m...)
		case "REP":
			j := 0
			for j < len(m) && m[j] != "" {
				j++
			}
			if j == len(m) {
				continue
			}
			m = m[j+1:]
		case "REQ":
			if len(m) > 1 && m[0] == "" {
				m = m[1:]
			} else { // no reply at all
				it.optional = true
				if len(m) > 1 {
					it.forms = append(it.forms, m[1:])
				}
			}
		case "XPUB", "PUB":
			if len(m) == 1 && len(m[0]) > 0 && m[0][0] < 2 {
				continue // subscription
			}
		}
		it.forms = append(it.forms, m)
		a = append(a, it)
	}
	return a
}

// greyFrom is the index of the first message whose flags the specification
// does not define: reserved bits, or a command mixed with message frames.
func greyFrom(b []byte) int {
	for i := 0; ; i++ {
		n, cmd := 0, false
		for {
			if len(b) < 2 {
				return 1 << 30
			}
			fl, l := b[0], uint64(b[1])
			b = b[2:]
			if fl&2 != 0 {
				if len(b) < 7 {
					return 1 << 30
				}
				for _, x := range b[:7] {
					l = l<<8 | uint64(x)
				}
				b = b[7:]
			}
			if fl&^7 != 0 || fl&5 == 5 || fl&4 != 0 && n > 0 || cmd {
				return i
			}
			if l > uint64(len(b)) {
				return 1 << 30
			}
			b = b[l:]
			n++
			cmd = cmd || fl&4 != 0
			if fl&1 == 0 {
				break
			}
		}
	}
}

func (a allowed) ok(got [][]string) bool {
	if len(a) == 0 {
		return len(got) == 0
	}
	if len(got) > 0 {
		for _, f := range a[0].forms {
			if sameFrames(f, got[0]) && a[1:].ok(got[1:]) {
				return true
			}
		}
	}
	return a[0].optional && a[1:].ok(got)
}

// collector receives in the background.
type collector struct {
	got  [][]string
	errs int
}

func collect(s zmq.Socket) *collector {
	c := &collector{}
	go func() {
		for c.errs < 12 {
			m, err := s.Recv()
			if err != nil {
				c.errs++
				continue
			}
			if m.Type == zmq.CmdMsg {
				continue
			}
			c.got = append(c.got, frames(m))
		}
	}()
	return c
}

func totalAlloc() uint64 {
	var ms runtime.MemStats
	runtime.ReadMemStats(&ms)
	return ms.TotalAlloc
}

// hostile runs one stream against a receiver of kind k, then a good peer.
func hostile(t *mc.T, k string, b []byte, linger bool) {
	s := kinds[k](bg, opts(zmq.WithAutomaticReconnect(false))...)
	defer func() { closeAll(t, s) }()
	pk := partner(k)
	var p *rawPeer
	var l *rawServer
	if k == "REQ" {
		l = rawListen(t, 1)
		var g group
		g.Go(func() { p = l.accept("NULL", pk, "peer") })
		dial(t, s, ep(1))
		g.Wait()
		send(t, s, "question")
	} else {
		listen(t, s, ep(1))
		p = rawDial(t, 1, pk, "peer")
	}
	big := len(b) > 4096
	var before uint64
	if !big {
		before = totalAlloc()
	}
	exp := expect(k, b)
	var c *collector
	if k != "PUB" {
		c = collect(s)
	}
	t.Step("hostile stream")
	var g group
	g.Go(func() {
		p.write(b)
		if !linger {
			p.c.Close()
		}
	})
	mc.Settle()
	if !big {
		if n := totalAlloc() - before; n > 64<<20 {
			t.Failf("allocation on the word of a length field", "%d bytes were allocated for a stream of %d bytes", n, len(b))
		}
	}
	if c != nil && !exp.ok(c.got) {
		t.Failf("wrong messages from a faulty stream", "%s delivered %q of stream %q, expected %+v", k, c.got, b, exp)
	}
	// behaving peers are served
	t.Step("good peer after a bad one")
	good := "good"
	switch k {
	case "PUB", "XPUB":
		q := rawDial(t, 1, pk, "other")
		q.write(encMsgS("\x01go"))
		mc.Settle()
		send(t, s, "good")
		m, err := q.readMsg()
		if err != nil || !sameFrames(m, []string{"good"}) {
			t.Failf("good peer not served", "%s: after stream %q the other subscriber got %q, %v", k, b, m, err)
		}
		if k == "XPUB" {
			q.write(encMsgS("up"))
			mc.Settle()
			if n := len(c.got); n == 0 || !sameFrames(c.got[n-1], []string{"up"}) {
				t.Failf("good peer not served", "XPUB: after stream %q delivered %q", b, c.got)
			}
		}
		q.c.Close()
	case "REQ":
		p.c.Close()
		l2 := rawListen(t, 2)
		var q *rawPeer
		g.Go(func() {
			q = l2.accept("NULL", pk, "other")
			m, err := q.readMsg()
			if err != nil || !sameFrames(m, []string{"", "again"}) {
				t.Failf("good peer not served", "REQ: after stream %q the other server got %q, %v", b, m, err)
			}
			q.write(encMsgS("", "good"))
		})
		dial(t, s, ep(2))
		mc.Settle()
		for i := 0; ; i++ {
			if err := s.Send(msg("again")); err == nil {
				break
			} else if i > 3 {
				t.Failf("good peer not served", "REQ: after stream %q Send: %v", b, err)
			}
		}
		g.Wait()
		m, err := s.Recv()
		if err != nil || show(m) != good {
			t.Failf("good peer not served", "REQ: after stream %q Recv: %q, %v", b, show(m), err)
		}
		q.c.Close()
		l2.l.Close()
		l.l.Close()
	default:
		q := rawDial(t, 1, pk, "other")
		if k == "REP" {
			q.write(encMsgS("", good))
		} else {
			q.write(encMsgS(good))
		}
		mc.Settle()
		w := []string{good}
		if k == "ROUTER" {
			w = []string{"other", good}
		}
		if n := len(c.got); n == 0 || !sameFrames(c.got[n-1], w) {
			t.Failf("good peer not served", "%s: after stream %q delivered %q", k, b, c.got)
		}
		c.got = c.got[:len(c.got)-1]
		if !exp.ok(c.got) {
			t.Failf("wrong messages from a faulty stream", "%s later delivered %q of stream %q", k, c.got, b)
		}
		q.c.Close()
	}
	p.c.Close()
	if l != nil {
		l.l.Close()
	}
	g.Wait()
	t.Outcome(fmt.Sprint(len(exp)))
}

// streams are valid streams and the positions of their header bytes.
func streams(k string) (out [][]byte, hdr [][]int) {
	add := func(parts ...[]byte) {
		var b []byte
		var h []int
		for _, p := range parts {
			h = append(h, len(b), len(b)+1)
			if p[0]&2 != 0 {
				for j := 2; j < 9; j++ {
					h = append(h, len(b)+j)
				}
			}
			b = append(b, p...)
		}
		out = append(out, b)
		hdr = append(hdr, h)
	}
	f := func(s string, more bool) []byte { return encFrame([]byte(s), more, false) }
	longForm := func(s string, more bool) []byte {
		fl := byte(2)
		if more {
			fl = 3
		}
		return append([]byte{fl, 0, 0, 0, 0, 0, 0, 0, byte(len(s))}, s...)
	}
	switch k {
	case "REP":
		add(f("", true), f("a", false), f("", true), f("", true), f("b", false))
		add(f("id", true), f("", true), f("ab", true), f("c", false), f("x", false), f("", true), f("z", false))
		add(longForm("", true), longForm("xyz", false), f("", true), f("q", false))
		add(encCmd("PING", nil), f("", true), f("q", false))
	case "REQ":
		add(f("", true), f("a", false), f("", true), f("b", true), f("", false))
		add(longForm("", true), longForm("xyz", false), f("", true), f("q", false))
		add(f("", true), f("", true), f("", true), f("b", true), f("c", false), f("", true), f("", true), f("", true), f("", false))
		add(f("", true), encFrame([]byte(blob(1, 256)), false, false), f("", true), f("q", false))
	case "PUB", "XPUB":
		add(f("\x01g", false), f("\x00g", false), f("\x01", false))
		add(f("\x01a", true), f("b", false), f("", false), f("\x02c", false), f("\x01g", false))
		add(f("\x00never", false), longForm("\x01go", false), encCmd("SUBSCRIBE", []byte("g")), f("\x01", false))
	default:
		add(f("a", false), f("b", true), f("", true), f("cc", false))
		add(f("", false), longForm("xyz", true), longForm("", false), f("q", false))
		add(encFrame([]byte(blob(1, 256)), true, false), f("t", false), f("u", false))
		add(f("", true), f("", true), f("", true), f("d", true), f("e", true), f("", false), f("v", false))
		add(f("m", false), encCmd("PING", []byte("\x00\x00ctx")), f("n", false))
	}
	return
}

func init() {
	for _, k := range []string{"PULL", "PAIR", "DEALER", "SUB", "XSUB", "ROUTER", "REP", "REQ", "PUB", "XPUB"} {
		ss, hs := streams(k)
		reg(mc.Scenario{Name: "c02/truncated/" + k, Prop: []string{"C02"}, Quick: 0, Deep: 1, Fn: func(t *mc.T) {
			i := mc.Choose(len(ss))
			b := ss[i]
			n := len(b)
			if n > 120 {
				// every byte near the headers, and the ends
				n = 60
			}
			c := mc.Choose(n + 1)
			if len(b) > 120 && c > 30 {
				c = len(b) - (60 - c)
			}
			hostile(t, k, b[:c], mc.Choose(2) == 1)
		}})
		reg(mc.Scenario{Name: "c02/corrupt/" + k, Prop: []string{"C02"}, Quick: 0, Deep: 1, Fn: func(t *mc.T) {
			i := mc.Choose(len(ss))
			b := append([]byte(nil), ss[i]...)
			pos := pick(hs[i])
			v := pick([]byte{0, 1, 2, 3, 4, 5, 6, 7, 8, 0x10, 0x7f, 0x80, 0xff})
			b[pos] = v
			hostile(t, k, b, mc.Choose(2) == 1)
		}})
		depth := 3
		alpha := []byte{0, 1, 2, 3, 4, 5, 0xff, 'g'}
		strs := func(depth int) func(t *mc.T) {
			return func(t *mc.T) {
				var b []byte
				for len(b) < depth {
					c := mc.Choose(len(alpha) + 1)
					if c == 0 {
						break
					}
					b = append(b, alpha[c-1])
				}
				hostile(t, k, b, false)
			}
		}
		reg(mc.Scenario{Name: "c02/strings/" + k, Prop: []string{"C02"}, NoCache: true, Quick: 0, Deep: -1, Fn: strs(depth)})
		reg(mc.Scenario{Name: "c02/strings-deep/" + k, Prop: []string{"C02"}, NoCache: true, Quick: -1, Deep: 0, DeepShards: 3, SplitChoose: true, Fn: strs(5)})
		reg(mc.Scenario{Name: "c02/lengths/" + k, Prop: []string{"C02"}, Quick: 1, Deep: 2, Fn: func(t *mc.T) {
			// a length field that promises more than comes
			n := pick([]uint64{1 << 20, 1 << 27, 1 << 30, 1 << 32, 1 << 40, 1 << 62, 1<<63 - 1, 1 << 63, 1<<64 - 1})
			var b []byte
			if k == "REP" || k == "REQ" {
				b = append(b, 1, 0)
			}
			b = append(b, byte(2+mc.Choose(2)))
			for i := 7; i >= 0; i-- {
				b = append(b, byte(n>>(8*i)))
			}
			b = append(b, strings.Repeat("z", pick([]int{0, 10}))...)
			hostile(t, k, b, mc.Choose(2) == 1)
		}})
	}

	// Peers that fault while others are sending: the others' streams are complete.
	for _, k := range []string{"PULL", "PAIR", "DEALER", "SUB", "ROUTER", "REP"} {
		reg(mc.Scenario{Name: "c02/beside/" + k, Prop: []string{"C02"}, Quick: 2, Deep: 3, DeepShards: 2, Fn: func(t *mc.T) {
			s := kinds[k](bg, opts(zmq.WithAutomaticReconnect(false))...)
			listen(t, s, ep(1))
			good := rawDial(t, 1, partner(k), "good")
			bad := rawDial(t, 1, partner(k), "bad")
			c := collect(s)
			d := func(f string) []byte {
				if k == "REP" {
					return encMsgS("", f, "x")
				}
				return encMsgS(f, "x")
			}
			tail := pick([][]byte{{1}, {1, 5, 'a'}, {3, 0x80, 0, 0, 0, 0, 0, 0, 0}, {4, 3, 9, 'a', 'b'}})
			var g group
			g.Go(func() { good.write(d("g1")); good.write(d("g2")); good.write(d("g3")) })
			g.Go(func() { bad.write(append(d("b1"), tail...)); bad.c.Close() })
			g.Wait()
			mc.Settle()
			var gs, bs []string
			for _, m := range c.got {
				if k == "ROUTER" {
					m = m[1:]
				}
				if len(m) != 2 || m[1] != "x" {
					t.Failf("partial message delivered", "%s delivered %q", k, c.got)
				}
				if m[0][0] == 'g' {
					gs = append(gs, m[0])
				} else {
					bs = append(bs, m[0])
				}
			}
			want(t, "messages of the good peer", strings.Join(gs, " "), "g1 g2 g3")
			want(t, "messages of the bad peer", strings.Join(bs, " "), "b1")
			t.Outcome(fmt.Sprint(c.errs))
			closeAll(t, s)
			good.c.Close()
		}})
	}
}
