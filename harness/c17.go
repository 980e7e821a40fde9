package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"net"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/luxfi/zmq/v4/internal/zzmc/mc"
	sim "github.com/luxfi/zmq/v4/internal/zzmc/xnet"
	"github.com/luxfi/zmq/v4/networking"
)

// node is a transport under test with what its handlers were given.
type node struct {
	t    *mc.T
	tr   *networking.Transport
	id   string
	n    int // of its ports
	got  logbook
	exp  []string
	sent uint64
	recv uint64
	bad  uint64
}

func newNode(t *mc.T, id string, n int) *node {
	a := &node{t: t, id: id, n: n, tr: networking.New(bg, networking.Config{NodeID: id, BasePort: 5000 + n})}
	if err := a.tr.Start(); err != nil {
		t.Failf("start failed", "Start of %s: %v", id, err)
	}
	return a
}

// hear registers a handler for messages of a type.
func (a *node) hear(typ string) {
	a.tr.RegisterHandler(typ, func(m *networking.Message) { a.got.add("%s", line(typ, m)) })
}

// line writes a message as its handler saw it.
func line(handler string, m *networking.Message) string {
	var c bytes.Buffer
	if len(m.Data) > 0 {
		if err := json.Compact(&c, m.Data); err != nil {
			return "bad data " + string(m.Data)
		}
	}
	l := fmt.Sprintf("%s: %s %s>%s %x %d %d %s", handler, m.Type, m.From, m.To, m.SessionID, m.Height, m.Round, c.String())
	if m.Timestamp == 0 {
		l += " without time"
	}
	return l
}

func (a *node) connect(b *node) {
	if err := a.tr.ConnectPeer(b.id, 5000+b.n); err != nil {
		a.t.Failf("connect failed", "%s to %s: %v", a.id, b.id, err)
	}
}

func body(typ, data string) *networking.Message {
	return &networking.Message{Type: typ, SessionID: []byte("s" + data), Height: 7, Round: 3, Data: json.RawMessage(`"` + data + `"`)}
}

// expect notes that a message of a will be handled by b.
func (b *node) expect(from *node, to, typ, data string) {
	m := body(typ, data)
	m.From, m.To, m.Timestamp = from.id, to, 1
	b.recv++
	b.exp = append(b.exp, line(typ, m))
}

func (a *node) send(b *node, typ, data string) {
	a.sent++
	if err := a.tr.Send(b.id, body(typ, data)); err != nil {
		a.t.Failf("send failed", "%s to %s: %v", a.id, b.id, err)
	}
}

func (a *node) broadcast(typ, data string) {
	a.sent++
	if err := a.tr.Broadcast(body(typ, data)); err != nil {
		a.t.Failf("send failed", "broadcast of %s: %v", a.id, err)
	}
}

// check compares what was handled and counted with what should have been.
func (a *node) check() {
	got := a.got.all()
	sort.Strings(got)
	sort.Strings(a.exp)
	if strings.Join(got, ";") != strings.Join(a.exp, ";") {
		a.t.Failf("wrong messages handled", "%s handled %q, expected %q", a.id, got, a.exp)
	}
	s, r, d := a.tr.GetMetrics()
	if s != a.sent || r != a.recv || d != a.bad {
		a.t.Failf("wrong counts", "%s counted %d sent, %d received, %d dropped; expected %d, %d, %d", a.id, s, r, d, a.sent, a.recv, a.bad)
	}
}

func (a *node) peers(ids ...string) {
	got := append([]string(nil), a.tr.GetPeers()...)
	exp := append([]string(nil), ids...)
	sort.Strings(got)
	sort.Strings(exp)
	if strings.Join(got, ",") != strings.Join(exp, ",") {
		a.t.Failf("wrong peers", "%s has peers %q, expected %q", a.id, got, exp)
	}
}

func stopAll(t *mc.T, ns ...*node) {
	for _, a := range ns {
		t.Step("Stop of " + a.id)
		a.tr.Stop()
	}
	t.Step("end")
	mc.Settle()
	if n := sim.Sim.OpenConns(); n > 0 {
		t.Failf("connections left", "%d connections after Stop", n)
	}
	if n := sim.Sim.Listeners(); n > 0 {
		t.Failf("listeners left", "%d listeners after Stop", n)
	}
}

func nodes(t *mc.T, n int) []*node {
	var ns []*node
	for i := 0; i < n; i++ {
		id := string(rune('A' + i))
		if n == 3 { // names that begin alike
			id = []string{"N1", "N12", "N"}[i]
		}
		a := newNode(t, id, i+1)
		a.hear("x")
		a.hear("xx")
		a.hear("")
		ns = append(ns, a)
	}
	return ns
}

func mesh(ns []*node) {
	for _, a := range ns {
		for _, b := range ns {
			if a != b {
				a.connect(b)
			}
		}
	}
	mc.Settle()
}

func init() {
	// everyone sends to everyone and broadcasts at once
	for _, c := range []struct{ n, each, quick, deep int }{{2, 1, 1, 2}, {2, 2, 0, 1}, {3, 1, 0, 1}} {
		reg(mc.Scenario{Name: fmt.Sprintf("c17/mesh/%d-%d", c.n, c.each), Prop: []string{"C17"}, Quick: c.quick, Deep: c.deep, QuickShards: 2, DeepShards: 6, Fn: func(t *mc.T) {
			ns := nodes(t, c.n)
			mesh(ns)
			var g group
			for _, a := range ns {
				for _, b := range ns {
					for k := 0; k < c.each && a != b; k++ {
						d := fmt.Sprint(a.id, b.id, k)
						b.expect(a, b.id, "x", d)
						b.expect(a, "", "x", d)
						a.sent++
					}
				}
			}
			for _, a := range ns {
				g.Go(func() {
					for _, b := range ns {
						for k := 0; k < c.each && a != b; k++ {
							d := fmt.Sprint(a.id, b.id, k)
							if err := a.tr.Send(b.id, body("x", d)); err != nil {
								t.Failf("send failed", "%v", err)
							}
						}
					}
				})
			}
			// a broadcast reaches all: one per addressee and message
			for _, a := range ns {
				g.Go(func() {
					for _, b := range ns {
						for k := 0; k < c.each && a != b; k++ {
							if err := a.tr.Broadcast(body("x", fmt.Sprint(a.id, b.id, k))); err != nil {
								t.Failf("broadcast failed", "%v", err)
							}
						}
					}
				})
			}
			g.Wait()
			for _, a := range ns {
				for _, b := range ns {
					for k := 0; k < c.each && a != b; k++ {
						a.sent++
						for _, o := range ns { // the third parties
							if o != a && o != b {
								o.expect(a, "", "x", fmt.Sprint(a.id, b.id, k))
							}
						}
					}
				}
			}
			mc.Settle()
			for _, a := range ns {
				a.check()
			}
			stopAll(t, ns...)
		}})
	}

	// every history of connections, messages and handlers
	hist := func(depth, size int) func(t *mc.T) {
		return func(t *mc.T) {
			ns := nodes(t, size)
			conn := map[[2]int]bool{}
			var order [][]string
			order = make([][]string, size)
			heard := []bool{true, true, true}
			trace := ""
			for i := 0; i < depth; i++ {
				k := mc.Choose(1 + 4*size)
				if k == 0 {
					break
				}
				x := (k - 1) % size
				a, b := ns[x], ns[(x+1)%size]
				if i&1 == 1 && size > 2 {
					b = ns[(x+2)%size]
				}
				y := b.n - 1
				d := fmt.Sprint("m", i)
				switch (k - 1) / size {
				case 0: // connecting twice changes nothing
					a.connect(b)
					if !conn[[2]int{x, y}] {
						order[x] = append(order[x], b.id)
					}
					conn[[2]int{x, y}] = true
					trace += "+"
				case 1:
					if conn[[2]int{x, y}] || i > 0 {
						a.tr.DisconnectPeer(b.id)
						delete(conn, [2]int{x, y})
						var o []string
						for _, id := range order[x] {
							if id != b.id {
								o = append(o, id)
							}
						}
						order[x] = o
						trace += "-"
					}
				case 2:
					if conn[[2]int{x, y}] {
						a.send(b, "x", d)
						b.recv++
						if heard[y] {
							b.recv--
							b.expect(a, b.id, "x", d)
						}
						trace += "s"
					} else if a.tr.Send(b.id, body("x", d)) == nil {
						t.Failf("send to unknown peer accepted", "%s to %s", a.id, b.id)
					}
				case 3:
					if i == depth-1 || trace != "" && strings.HasSuffix(trace, "b") {
						heard[x] = !heard[x]
						if heard[x] {
							a.hear("x")
						} else {
							a.tr.UnregisterHandler("x")
						}
						trace += "h"
						break
					}
					a.broadcast("x", d)
					for j, o := range ns {
						if conn[[2]int{j, x}] && j != x {
							o.recv++
							if heard[j] {
								o.recv--
								o.expect(a, "", "x", d)
							}
						}
					}
					trace += "b"
				}
				mc.Settle()
				for j, o := range ns {
					o.check()
					o.peers(order[j]...)
				}
			}
			t.Outcome(trace)
			stopAll(t, ns...)
		}
	}
	reg(mc.Scenario{Name: "c17/history/2", Prop: []string{"C17"}, Quick: 0, Deep: 1, QuickShards: 4, DeepShards: 6, SplitChoose: true, Fn: hist(4, 2)})
	reg(mc.Scenario{Name: "c17/history/3", Prop: []string{"C17"}, Quick: 0, Deep: 0, QuickShards: 4, DeepShards: 4, SplitChoose: true, Fn: hist(3, 3)})
	reg(mc.Scenario{Name: "c17/history-deep/2", Prop: []string{"C17"}, Quick: -1, Deep: 0, DeepShards: 4, SplitChoose: true, Fn: hist(6, 2)})
	reg(mc.Scenario{Name: "c17/history-deep/3", Prop: []string{"C17"}, Quick: -1, Deep: 0, DeepShards: 4, SplitChoose: true, Fn: hist(5, 3)})

	// several peers, known by names of the caller's choice, connected and forgotten in any order
	aliases := func(size, depth int) func(t *mc.T) {
		return func(t *mc.T) {
			a, bs := newNode(t, "A", 1), []*node{newNode(t, "B", 2), newNode(t, "C", 3)}
			a.hear("x")
			for _, b := range bs {
				b.hear("x")
			}
			all := []string{"p", "pq", "B", "p "}[:size]
			conn := map[string]*node{}
			for k := 0; k < size+depth; k++ {
				i, on := k, true
				if k >= size {
					c := mc.Choose(2 * size)
					i, on = c>>1, c&1 == 1
				}
				id, b := all[i], bs[i&1]
				if on {
					if err := a.tr.ConnectPeer(id, 5000+b.n); err != nil {
						t.Failf("connect failed", "%q: %v", id, err)
					}
					conn[id] = b
				} else {
					a.tr.DisconnectPeer(id)
					delete(conn, id)
				}
				a.peers(keys(conn)...)
			}
			mc.Settle()
			for _, id := range all {
				b, known := conn[id]
				if !known {
					if a.tr.Send(id, body("x", "lost")) == nil {
						t.Failf("send to unknown peer accepted", "%q", id)
					}
					continue
				}
				b.expect(a, id, "x", "to "+id)
				a.sent++
				if err := a.tr.Send(id, body("x", "to "+id)); err != nil {
					t.Failf("send failed", "%q: %v", id, err)
				}
				a.expect(b, "", "x", "all")
			}
			for _, b := range bs {
				b.broadcast("x", "all")
			}
			mc.Settle()
			for _, o := range append(bs, a) {
				o.check()
			}
			t.Outcome(fmt.Sprint(len(conn)))
			stopAll(t, append(bs, a)...)
		}
	}
	reg(mc.Scenario{Name: "c17/aliases", Prop: []string{"C17"}, Quick: 0, Deep: 0, QuickShards: 2, DeepShards: 2, SplitChoose: true, Fn: aliases(4, 3)})
	reg(mc.Scenario{Name: "c17/aliases-deep", Prop: []string{"C17"}, Quick: -1, Deep: 0, DeepShards: 4, SplitChoose: true, Fn: aliases(4, 5)})

	// every field arrives as it was sent, by either way
	reg(mc.Scenario{Name: "c17/fields", Prop: []string{"C17"}, Quick: 0, Deep: 1, QuickShards: 2, DeepShards: 4, SplitChoose: true, Fn: func(t *mc.T) {
		a, b := newNode(t, pick([]string{"A", "", "\u00e9\"\\", strings.Repeat("n", 255)}), 1), newNode(t, "B", 2)
		typ := pick([]string{"x", "", "a\"b\n\u2028", "<&>"})
		b.hear(typ)
		b.hear("other")
		a.connect(b)
		b.connect(a)
		mc.Settle()
		m := &networking.Message{Type: typ, From: "forged"}
		direct := mc.Choose(2) == 1
		switch mc.Choose(4) {
		case 1:
			m.SessionID, m.Height, m.Round, m.Data = []byte{0, 255, 10, 13}, 1<<64-1, 1<<32-1, json.RawMessage(`{"a":[1,2,null],"b":"\u2028<&>\u00e9"}`)
		case 2:
			m.SessionID, m.Height, m.Round, m.Data = []byte{}, 1<<53+1, 1, json.RawMessage(` [ 1.50e+3 , { "k" : "" } ] `)
		case 3:
			m.SessionID, m.Data = []byte(blob(0, 300)), json.RawMessage(`"`+strings.Repeat("d", 70000)+`"`)
		}
		w := *m
		w.From, w.Timestamp = a.id, 1
		var err error
		if direct {
			w.To = "B"
			err = a.tr.Send("B", m)
		} else {
			err = a.tr.Broadcast(m)
		}
		if err != nil {
			t.Failf("send failed", "%v", err)
		}
		// the encoding may write characters of strings in another form
		var got *networking.Message
		norm := func(l string) string { return strings.NewReplacer(`\u2028`, "\u2028", `\u003c`, "<", `\u003e`, ">", `\u0026`, "&", `\u00e9`, "\u00e9").Replace(l) }
		_ = got
		mc.Settle()
		l := b.got.all()
		if len(l) != 1 || norm(l[0]) != norm(line(typ, &w)) {
			t.Failf("message changed", "got %.400q, expected %.400q", l, line(typ, &w))
		}
		a.sent, b.recv = 1, 1
		b.exp = l
		a.check()
		b.check()
		stopAll(t, a, b)
	}})

	// input of peers that are no transports
	reg(mc.Scenario{Name: "c17/malformed", Prop: []string{"C17"}, Quick: 0, Deep: 1, QuickShards: 2, DeepShards: 4, SplitChoose: true, Fn: func(t *mc.T) {
		b := nodes(t, 1)[0]
		r := rawDial(t, 1001, "DEALER", "r")
		// and a publisher
		var g group
		var p *rawPeer
		pub, rtr := rawListen(t, 9), rawListen(t, 1009)
		g.Go(func() { p = pub.accept("NULL", "PUB", "") })
		g.Go(func() { rtr.accept("NULL", "ROUTER", "") })
		if err := b.tr.ConnectPeer("P", 5009); err != nil {
			t.Failf("connect failed", "%v", err)
		}
		g.Wait()
		for i := 0; i < 2; i++ {
			in := pick([]string{"", "x", "{", `{"type":"x","height":-1}`, `{"type":5}`, `[]`, `{"type":"x","from":"A"}garbage`, "\x00", `{"type":"x","session_id":"*"}`, `{"type":"x","from":"r","height":1,"timestamp":5}`, `{"type":"none","from":"r"}`, `{"type":"x","from":"A"}`})
			frames := []string{in}
			if mc.Choose(2) == 1 {
				p.write(encMsgS(frames...))
			} else {
				r.write(encMsgS(frames...))
			}
			switch {
			case strings.Contains(in, "timestamp"):
				b.recv++
				b.exp = append(b.exp, "x: x r>  1 0 ")
			case strings.Contains(in, "none"):
				b.recv++
			case in == `{"type":"x","from":"A"}`: // its own broadcast, sent back
			default:
				b.bad++
			}
			mc.Settle()
			b.check()
		}
		stopB := b
		g.Go(func() { stopB.tr.Stop() })
		g.Wait()
		r.c.Close()
		p.c.Close()
		pub.l.Close()
		rtr.l.Close()
	}})

	// a peer that is connected twice, or from two goroutines, is one peer
	reg(mc.Scenario{Name: "c17/connect-twice", Prop: []string{"C17"}, Quick: 1, Deep: 2, QuickShards: 2, DeepShards: 6, Fn: func(t *mc.T) {
		ns := nodes(t, 2)
		a, b := ns[0], ns[1]
		var g group
		for i := 0; i < 2; i++ {
			g.Go(func() { a.connect(b) })
		}
		g.Wait()
		a.connect(b)
		mc.Settle()
		a.peers("B")
		a.send(b, "x", "d")
		b.expect(a, "B", "x", "d")
		b.broadcast("x", "e")
		a.expect(b, "", "x", "e")
		mc.Settle()
		a.check()
		b.check()
		a.tr.DisconnectPeer("nobody")
		a.peers("B")
		a.tr.DisconnectPeer("B")
		a.peers()
		if a.tr.Send("B", body("x", "y")) == nil {
			t.Failf("send to disconnected peer accepted", "")
		}
		b.broadcast("x", "z")
		mc.Settle()
		a.check()
		b.check()
		stopAll(t, ns...)
	}})

	// a connection that fails leaves nothing, and may be tried again
	for _, half := range []bool{false, true} {
		reg(mc.Scenario{Name: fmt.Sprintf("c17/connect-fails/%v", half), Prop: []string{"C17"}, Quick: 0, Deep: 1, DeepShards: 4, Fn: func(t *mc.T) {
			a := nodes(t, 1)[0]
			var p *rawPeer
			var l *rawServer
			var g group
			if half { // only its broadcasts can be reached
				l = rawListen(t, 2)
				g.Go(func() { p = l.accept("NULL", "PUB", "") })
			}
			t.Step("connecting to a peer that is not there")
			if a.tr.ConnectPeer("B", 5002) == nil {
				t.Failf("connection to nobody", "")
			}
			a.peers()
			if a.tr.Send("B", body("x", "y")) == nil {
				t.Failf("send to unknown peer accepted", "")
			}
			g.Wait()
			if half {
				mc.Settle()
				p.write(encMsgS(`{"type":"x","from":"B","timestamp":1}`)) // reaches nobody
				p.c.Close()
				l.l.Close()
			}
			mc.Settle()
			a.check()
			b := newNode(t, "B", 2)
			b.hear("x")
			a.connect(b)
			a.peers("B")
			mc.Settle()
			b.broadcast("x", "z")
			a.expect(b, "", "x", "z")
			a.send(b, "x", "d")
			b.expect(a, "B", "x", "d")
			mc.Settle()
			a.check()
			b.check()
			stopAll(t, a, b)
		}})
	}

	// retries
	reg(mc.Scenario{Name: "c17/retry", Prop: []string{"C17"}, Quick: 0, Deep: 1, Fn: func(t *mc.T) {
		n := mc.Choose(4) // 0 is the default
		d := time.Duration(mc.Choose(2)) * 30 * time.Millisecond
		tr := networking.New(bg, networking.Config{NodeID: "A", BasePort: 5001, MaxRetries: n, RetryDelay: d})
		a := &node{t: t, tr: tr, id: "A", n: 1}
		if err := tr.Start(); err != nil {
			t.Failf("start failed", "%v", err)
		}
		if n == 0 {
			n = 3
		}
		if d == 0 {
			d = 100 * time.Millisecond
		}
		var total time.Duration
		for i := 1; i < n; i++ {
			total += time.Duration(i) * d
		}
		start := time.Now()
		t.Step("send to an unknown peer")
		if tr.SendWithRetry("B", body("x", "y")) == nil {
			t.Failf("send to unknown peer accepted", "")
		}
		if e := time.Since(start); e != total {
			t.Failf("wrong number of retries", "failed after %v, configured: %d tries, %v", e, n, d)
		}
		a.check()
		// a peer that appears in between gets the message once
		b := newNode(t, "B", 2)
		b.hear("x")
		after := time.Duration(mc.Choose(3)) * d
		var g group
		g.Go(func() {
			time.Sleep(after)
			a.connect(b)
		})
		mc.Settle()
		err := tr.SendWithRetry("B", body("x", "z"))
		if err == nil {
			a.sent++
			b.expect(a, "B", "x", "z")
		} else if after < total {
			t.Failf("retries gave up", "%v, peer connected after %v", err, after)
		}
		g.Wait()
		if err := tr.BroadcastWithRetry(body("x", "w")); err != nil {
			t.Failf("broadcast failed", "%v", err)
		}
		a.sent++
		mc.Settle()
		a.check()
		b.check()
		stopAll(t, a, b)
	}})

	// a peer that restarts is reached again
	reg(mc.Scenario{Name: "c17/restart", Prop: []string{"C17"}, Quick: 0, Deep: 1, DeepShards: 4, Fn: func(t *mc.T) {
		ns := nodes(t, 2)
		a, b := ns[0], ns[1]
		mesh(ns)
		for i := 0; i < 2; i++ {
			b.tr.Stop()
			time.Sleep(time.Second)
			b = newNode(t, "B", 2)
			b.hear("x")
			time.Sleep(time.Second)
			a.peers("B")
			b.peers()
			a.send(b, "x", fmt.Sprint("d", i))
			b.expect(a, "B", "x", fmt.Sprint("d", i))
			b.broadcast("x", fmt.Sprint("e", i))
			a.expect(b, "", "x", fmt.Sprint("e", i))
			mc.Settle()
			a.check()
			b.check()
		}
		stopAll(t, a, b)
	}})

	// handlers come and go while messages arrive: each is handled by a handler that was
	// registered in between, never by two
	reg(mc.Scenario{Name: "c17/handlers", Prop: []string{"C17"}, Quick: 1, Deep: 3, DeepShards: 4, Fn: func(t *mc.T) {
		b := newNode(t, "B", 2)
		var log logbook
		h := func(name string) networking.MessageHandler {
			return func(m *networking.Message) { log.add("%s%d", name, m.Height) }
		}
		b.tr.RegisterHandler("x", h("old"))
		b.tr.RegisterHandler("y", h("y"))
		b.tr.RegisterHandler("nil", nil)
		r := rawDial(t, 1002, "DEALER", "r")
		mc.Settle()
		var g group
		g.Go(func() {
			for i := 0; i < 3; i++ {
				r.write(encMsgS(fmt.Sprintf(`{"type":%q,"from":"r","height":%d,"timestamp":1}`, []string{"x", "y", "nil"}[i], i)))
			}
		})
		g.Go(func() {
			b.tr.RegisterHandler("x", h("new"))
		})
		g.Wait()
		mc.Settle()
		l := log.all()
		sort.Strings(l)
		s := strings.Join(l, " ")
		if s != "old0 y1" && s != "new0 y1" {
			t.Failf("wrong handler", "handled %s", s)
		}
		b.recv = 3
		if _, n, d := b.tr.GetMetrics(); n != 3 || d != 0 {
			t.Failf("wrong counts", "%d received, %d dropped", n, d)
		}
		r.c.Close()
		stopAll(t, b)
	}})

	// every history of registrations: the last one of a type counts
	registry := func(depth int) func(t *mc.T) {
		return func(t *mc.T) {
			b := newNode(t, "B", 2)
			r := rawDial(t, 1002, "DEALER", "r")
			mc.Settle()
			var log logbook
			now := map[string]string{}
			types := []string{"x", "y", "", "xy"}
			for i := 0; i < depth; i++ {
				k := mc.Choose(1 + 2*len(types))
				if k == 0 {
					break
				}
				typ := types[(k-1)>>1]
				if k&1 == 1 {
					name := fmt.Sprint(i)
					b.tr.RegisterHandler(typ, func(m *networking.Message) { log.add("%s:%s", m.Type, name) })
					now[typ] = name
				} else {
					b.tr.UnregisterHandler(typ)
					delete(now, typ)
				}
			}
			var exp []string
			for _, typ := range append(types, "other") {
				r.write(encMsgS(fmt.Sprintf(`{"type":%q,"from":"r","timestamp":1}`, typ)))
				if name, ok := now[typ]; ok {
					exp = append(exp, typ+":"+name)
				}
			}
			mc.Settle()
			got := log.all()
			sort.Strings(got)
			sort.Strings(exp)
			want(t, "handled messages", strings.Join(got, " "), strings.Join(exp, " "))
			if _, n, d := b.tr.GetMetrics(); n != 5 || d != 0 {
				t.Failf("wrong counts", "%d received, %d dropped", n, d)
			}
			t.Outcome(fmt.Sprint(len(exp)))
			r.c.Close()
			stopAll(t, b)
		}
	}
	reg(mc.Scenario{Name: "c17/registry", Prop: []string{"C17"}, Quick: 0, Deep: 0, SplitChoose: true, Fn: registry(4)})
	reg(mc.Scenario{Name: "c17/registry-deep", Prop: []string{"C17"}, Quick: -1, Deep: 0, DeepShards: 2, SplitChoose: true, Fn: registry(5)})

	// direct messages of peers of another make, whose envelopes have any number of frames
	reg(mc.Scenario{Name: "c17/envelope", Prop: []string{"C17"}, Quick: 1, Deep: 2, Fn: func(t *mc.T) {
		b := newNode(t, "B", 2)
		b.hear("x")
		kind := pick([]string{"DEALER", "REQ"})
		r := rawDial(t, 1002, kind, pick([]string{"r", ""}))
		mc.Settle()
		pre := pick([][]string{{""}, {"", ""}, {"a"}, {"a", "", "b"}, {`{"type":"x","from":"r"}`}, {}})
		if kind == "REQ" && len(pre) == 0 {
			pre = []string{""}
		}
		for i := 0; i < 2; i++ {
			d := fmt.Sprint("d", i)
			j, err := json.Marshal(&networking.Message{Type: "x", From: "r", To: "B", SessionID: []byte("s" + d), Height: 7, Round: 3, Data: json.RawMessage(`"` + d + `"`), Timestamp: 1})
			if err != nil {
				t.Failf("harness", "%v", err)
			}
			r.write(encMsgS(append(append([]string(nil), pre...), string(j))...))
			b.expect(&node{id: "r"}, "B", "x", d)
		}
		mc.Settle()
		b.check()
		t.Outcome("ok")
		r.c.Close()
		stopAll(t, b)
	}})

	// a slow handler does not hold up other messages
	reg(mc.Scenario{Name: "c17/slow-handler", Prop: []string{"C17"}, Quick: 0, Deep: 2, Fn: func(t *mc.T) {
		ns := nodes(t, 2)
		a, b := ns[0], ns[1]
		mesh(ns)
		stop := make(chan bool)
		b.tr.RegisterHandler("slow", func(*networking.Message) { <-stop })
		for i := 0; i < 12; i++ {
			a.send(b, "slow", "s")
			b.recv++
		}
		a.send(b, "x", "d")
		b.expect(a, "B", "x", "d")
		mc.Settle()
		b.check()
		close(stop)
		stopAll(t, ns...)
	}})

	// a handler may use the transport that called it
	uses := map[string]func(a, b *node, m *networking.Message) error{
		"send":       func(a, b *node, m *networking.Message) error { return b.tr.Send(m.From, body("x", "re")) },
		"retry":      func(a, b *node, m *networking.Message) error { return b.tr.SendWithRetry(m.From, body("x", "re")) },
		"broadcast":  func(a, b *node, m *networking.Message) error { return b.tr.Broadcast(body("x", "re")) },
		"register":   func(a, b *node, m *networking.Message) error { b.tr.RegisterHandler("y", nil); return nil },
		"replace":    func(a, b *node, m *networking.Message) error { b.tr.RegisterHandler("call", nil); return nil },
		"peers":      func(a, b *node, m *networking.Message) error { b.tr.GetPeers(); b.tr.GetMetrics(); return nil },
		"disconnect": func(a, b *node, m *networking.Message) error { b.tr.DisconnectPeer("A"); return nil },
		"connect":    func(a, b *node, m *networking.Message) error { return b.tr.ConnectPeer("A2", 5001) },
		"stop":       func(a, b *node, m *networking.Message) error { b.tr.Stop(); return nil },
	}
	for _, use := range keys(uses) {
		reg(mc.Scenario{Name: "c17/reentrant/" + use, Prop: []string{"C17"}, Quick: 1, Deep: 2, Fn: func(t *mc.T) {
			ns := nodes(t, 2)
			a, b := ns[0], ns[1]
			mesh(ns)
			done := make(chan error, 8)
			b.tr.RegisterHandler("call", func(m *networking.Message) { done <- uses[use](a, b, m) })
			var g group
			if mc.Choose(2) == 1 {
				g.Go(func() { b.tr.RegisterHandler("z", nil) })
			}
			t.Step("a handler that uses its transport")
			if mc.Choose(2) == 1 {
				a.tr.Broadcast(body("call", "d"))
			} else {
				a.tr.Send("B", body("call", "d"))
			}
			if err := <-done; err != nil {
				t.Failf("use in a handler fails", "%s: %v", use, err)
			}
			g.Wait()
			mc.Settle()
			t.Step("stop")
			for _, n := range ns {
				n.tr.Stop()
			}
		}})
	}

	// Stop at any moment ends everything
	ops := map[string]func(a, b *node){
		"send":       func(a, b *node) { a.tr.Send("B", body("x", "d")) },
		"broadcast":  func(a, b *node) { a.tr.Broadcast(body("x", "d")) },
		"receive":    func(a, b *node) { b.tr.Send("A", body("x", "d")); b.tr.Broadcast(body("x", "d")) },
		"connect":    func(a, b *node) { a.tr.ConnectPeer("B2", 5002) },
		"connect-no": func(a, b *node) { a.tr.ConnectPeer("C", 5004) },
		"disconnect": func(a, b *node) { a.tr.DisconnectPeer("B") },
		"peer-stops": func(a, b *node) { b.tr.Stop() },
		"stop":       func(a, b *node) { a.tr.Stop() },
		"accept":     func(a, b *node) { b.tr.ConnectPeer("A2", 5001) },
		"retry":      func(a, b *node) { a.tr.SendWithRetry("nobody", body("x", "d")) },
	}
	for _, op := range keys(ops) {
		q := 1
		if op == "accept" || op == "connect" {
			q = 0
		}
		reg(mc.Scenario{Name: "c17/stop/" + op, Prop: []string{"C17"}, Quick: q, Deep: 2, DeepShards: 4, Fn: func(t *mc.T) {
			ns := nodes(t, 2)
			a, b := ns[0], ns[1]
			a.connect(b)
			b.connect(a)
			mc.Settle()
			var g group
			g.Go(func() { ops[op](a, b) })
			g.Go(func() {
				t.Step("Stop returns")
				a.tr.Stop()
			})
			g.Wait()
			t.Step("a node at the same place")
			if op != "peer-stops" {
				b.tr.Stop()
			}
			mc.Settle()
			if n := sim.Sim.OpenConns(); n > 0 {
				t.Failf("connections left", "%d connections after Stop", n)
			}
			if n := sim.Sim.Listeners(); n > 0 {
				t.Failf("listeners left", "%d listeners after Stop", n)
			}
			for _, f := range []func() error{
				func() error { return a.tr.Broadcast(body("x", "d")) },
				func() error { return a.tr.Send("B", body("x", "d")) },
				func() error { return a.tr.ConnectPeer("D", 5004) },
			} {
				t.Step("use after Stop")
				if f() == nil {
					t.Failf("use after Stop accepted", "")
				}
			}
			t.Step("Stop again")
			a.tr.Stop()
			t.Step("end")
			c := newNode(t, "A", 1)
			stopAll(t, c)
		}})
	}

	// a peer that does not answer holds nothing else up
	reg(mc.Scenario{Name: "c17/silent", Prop: []string{"C17"}, Quick: 0, Deep: 1, QuickShards: 2, DeepShards: 4, SplitChoose: true, Fn: func(t *mc.T) {
		ns := nodes(t, 3)
		a, b, c := ns[0], ns[1], ns[2]
		a.connect(b)
		b.connect(a)
		mc.Settle()
		how := mc.Choose(3)
		var ls []*rawServer
		var g, h group
		switch how { // 2: nobody is there at all
		case 0:
			ls = append(ls, rawListen(t, 9))
		case 1:
			ls = append(ls, rawListen(t, 9), rawListen(t, 1009))
		}
		for i, l := range ls {
			h.Go(func() {
				if how == 1 && i == 0 { // the broadcasts are there
					p := l.accept("NULL", "PUB", "")
					defer p.c.Close()
				}
				for {
					p, err := l.l.Accept()
					if err != nil {
						return
					}
					defer p.Close()
				}
			})
		}
		var failed error
		g.Go(func() { failed = a.tr.ConnectPeer("X", 5009) })
		twice := mc.Choose(2) == 1
		if twice {
			g.Go(func() { a.tr.ConnectPeer("X", 5009) })
		}
		mc.Settle()
		start := mc.Elapsed()
		for i := 0; i < 2; i++ {
			x := fmt.Sprint(i)
			switch mc.Choose(4) {
			case 0:
				t.Step("sending beside a connection that does not come up")
				a.send(b, "x", x)
				b.expect(a, b.id, "x", x)
				b.send(a, "x", x)
				a.expect(b, a.id, "x", x)
			case 1:
				t.Step("broadcasting beside a connection that does not come up")
				a.broadcast("x", x)
				b.expect(a, "", "x", x)
				b.broadcast("x", x)
				a.expect(b, "", "x", x)
			case 2:
				t.Step("connecting beside a connection that does not come up")
				a.connect(c)
				c.connect(a)
				mc.Settle()
				a.send(c, "x", x)
				c.expect(a, c.id, "x", x)
				a.tr.DisconnectPeer(c.id)
				c.tr.DisconnectPeer(a.id)
				a.peers(b.id)
			case 3:
				t.Step("handlers beside a connection that does not come up")
				a.tr.UnregisterHandler("y")
				a.tr.DisconnectPeer("Y")
			}
			mc.Settle()
		}
		a.peers(b.id)
		a.check()
		b.check()
		c.check()
		if d := mc.Elapsed() - start; d != 0 {
			t.Failf("something waited for a silent peer", "%v", d)
		}
		if mc.Choose(2) == 1 {
			t.Step("Stop beside a connection that does not come up")
			a.tr.Stop()
			g.Wait()
			if d := mc.Elapsed() - start; d > 500*time.Millisecond {
				t.Failf("Stop waited for a silent peer", "%v", d)
			}
		}
		for _, l := range ls { // with its connections
			l.l.Close()
		}
		h.Wait()
		g.Wait()
		if failed == nil {
			t.Failf("connection to nobody", "")
		}
		t.Outcome(fmt.Sprint(how))
		stopAll(t, a, b, c)
	}})

	// ports in use
	reg(mc.Scenario{Name: "c17/start-fails", Prop: []string{"C17"}, Quick: 1, Deep: 3, Fn: func(t *mc.T) {
		which := mc.Choose(2)
		l, err := net.Listen("tcp", fmt.Sprint("127.0.0.1:", 5001+1000*which))
		if err != nil {
			t.Failf("harness", "%v", err)
		}
		tr := networking.New(bg, networking.Config{NodeID: "A", BasePort: 5001})
		if tr.Start() == nil {
			t.Failf("started on a port in use", "")
		}
		t.Step("Stop after a failed start")
		tr.Stop()
		l.Close()
		stopAll(t, newNode(t, "A", 1))
		tr = networking.New(bg, networking.DefaultConfig("A", 5001))
		t.Step("Stop without a start")
		tr.Stop()
		t.Step("end")
	}})

	// the context ends a transport as well
	reg(mc.Scenario{Name: "c17/cancel", Prop: []string{"C17"}, Quick: 1, Deep: 2, DeepShards: 4, Fn: func(t *mc.T) {
		ctx, cancel := context.WithCancel(bg)
		b := newNode(t, "B", 2)
		b.hear("x")
		tr := networking.New(ctx, networking.DefaultConfig("A", 5001))
		if err := tr.Start(); err != nil {
			t.Failf("start failed", "%v", err)
		}
		a := &node{t: t, tr: tr, id: "A", n: 1}
		a.connect(b)
		b.connect(a)
		cancel()
		t.Step("Stop after cancellation")
		tr.Stop()
		t.Step("end")
		if tr.Send("B", body("x", "d")) == nil || tr.Broadcast(body("x", "d")) == nil {
			t.Failf("use after Stop accepted", "")
		}
		stopAll(t, b)
	}})

	// a node that is its own peer hears its direct messages but not its broadcasts
	reg(mc.Scenario{Name: "c17/self", Prop: []string{"C17"}, Quick: 1, Deep: 2, DeepShards: 4, Fn: func(t *mc.T) {
		a := nodes(t, 1)[0]
		a.connect(a)
		mc.Settle()
		a.peers("A")
		a.broadcast("x", "b")
		a.send(a, "x", "d")
		a.expect(a, "A", "x", "d")
		mc.Settle()
		a.check()
		stopAll(t, a)
	}})

	// all operations at once, watched for data races
	for _, pair := range []string{"send/send", "send/broadcast", "send/disconnect", "connect/send", "connect/disconnect", "handlers/receive", "metrics/receive", "peers/connect", "broadcast/accept", "retry/connect", "stop/connect", "stop/send", "stop/receive"} {
		reg(mc.Scenario{Name: "c17/race/" + strings.ReplaceAll(pair, "/", "+"), Prop: []string{"C17", "C18"}, Race: true, RaceBound: 1, Quick: 0, Deep: 1, DeepShards: 2, Fn: func(t *mc.T) {
			ns := nodes(t, 2)
			a, b := ns[0], ns[1]
			a.connect(b)
			b.connect(a)
			mc.Settle()
			var g group
			var once sync.Once
			for _, op := range strings.Split(pair, "/") {
				g.Go(func() {
					switch op {
					case "handlers":
						a.hear("y")
						a.tr.UnregisterHandler("x")
					case "metrics":
						a.tr.GetMetrics()
						a.tr.GetNodeID()
					case "peers":
						a.tr.GetPeers()
					case "stop":
						once.Do(a.tr.Stop)
					default:
						ops[op](a, b)
					}
				})
			}
			g.Wait()
			mc.Settle()
			stopAll(t, a, b)
		}})
	}
}
