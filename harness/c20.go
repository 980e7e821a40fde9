package main

import (
	"bytes"
	"fmt"
	"strings"

	zmq "github.com/luxfi/zmq/v4"
	"github.com/luxfi/zmq/v4/internal/zzmc/mc"
	sim "github.com/luxfi/zmq/v4/internal/zzmc/xnet"
)

// owned is a message whose memory is known: frames with spare room behind them,
// in a slice with spare room behind it, all of it watched.
type owned struct {
	m     zmq.Msg
	slots [][]byte // the whole of the frame slice
	mem   [][]byte // the whole of each frame
	was   [][]byte
}

func own(frames ...string) *owned {
	o := &owned{}
	for _, f := range append(frames, "spare", "spare") {
		b := append([]byte(f), "##spare##"...)
		o.mem = append(o.mem, b)
		o.was = append(o.was, append([]byte(nil), b...))
		o.slots = append(o.slots, b[:len(f)])
	}
	o.m = zmq.Msg{Frames: o.slots[:len(frames)]}
	return o
}

// same fails when any of the memory has changed.
func (o *owned) same(t *mc.T, what string) {
	for i, b := range o.mem {
		if !bytes.Equal(b, o.was[i]) || len(o.slots[i]) != len(b)-9 || len(o.slots[i]) > 0 && &o.slots[i][0] != &b[0] {
			t.Failf("message modified by "+what, "frame %d was %q, is %q", i, o.was[i], b)
		}
	}
	if len(o.m.Frames) != len(o.mem)-2 || &o.slots[0] != &o.m.Frames[:1][0] {
		t.Failf("message modified by "+what, "%d frames", len(o.m.Frames))
	}
}

// spoil overwrites everything reachable from a message.
func spoil(m zmq.Msg) {
	for _, f := range m.Frames {
		f = f[:cap(f)]
		for i := range f {
			f[i] = '!'
		}
	}
	fs := m.Frames[:cap(m.Frames)]
	for i := range fs {
		fs[i] = []byte("spoiled")
	}
}

// drain reads a raw peer's messages in the background.
func drain(p *rawPeer) *logbook {
	var got logbook
	go func() {
		for {
			m, err := p.readMsg()
			if err != nil {
				return
			}
			got.add("%s", showS(m))
		}
	}()
	return &got
}

// rawKind is how a raw peer is spoken to by a socket of a kind: its type and what the
// socket puts before a message to it.
func rawKind(kind string) (typ string, pre []string) {
	switch kind {
	case "ROUTER":
		return "DEALER", []string{"r"}
	case "REQ":
		return "REP", nil
	}
	return partner(kind), nil
}

func init() {
	bodies := [][]string{{"x"}, {"a", "b"}, {"", "x", ""}, {blob(1, 300), "y"}}

	// the caller reuses a message as soon as Send has returned
	for _, kind := range []string{"PUSH", "PAIR", "DEALER", "REQ", "ROUTER"} {
		for _, m := range []string{"NULL", "PLAIN"} {
			reg(mc.Scenario{Name: "c20/reuse/" + kind + "/" + m, Prop: []string{"C20"}, Quick: 1, Deep: 3, QuickShards: 1, DeepShards: 4, SplitChoose: true, Race: m == "NULL", RaceBound: 1, Fn: func(t *mc.T) {
				s := kinds[kind](bg, opts(mech(m))...)
				listen(t, s, ep(1))
				typ, pre := rawKind(kind)
				p := rawDialMech(t, 1, m, typ, "r")
				if mc.Choose(2) == 1 {
					sim.SetBuf(sim.Peer(p.c), 5) // the socket has to wait for its reader
				}
				mc.Settle()
				got := drain(p)
				var exp []string
				multi := mc.Choose(2) == 1
				for i := 0; i < 2; i++ {
					b := bodies[(i+mc.Choose(2))*2%4]
					o := own(append(append([]string{}, pre...), b...)...)
					var err error
					if multi {
						err = s.SendMulti(o.m)
					} else {
						err = s.Send(o.m)
					}
					if err != nil {
						t.Failf("send failed", "%v", err)
					}
					o.same(t, "Send")
					spoil(o.m)
					if kind == "REQ" {
						b = append([]string{""}, b...)
					}
					exp = append(exp, showS(b))
				}
				mc.Settle()
				if l := got.all(); strings.Join(l, ";") != strings.Join(exp, ";") {
					t.Failf("message changed after Send returned", "peer got %q, was sent %q", l, exp)
				}
				closeAll(t, s)
				p.c.Close()
			}})
		}
	}

	// over inproc, and to several peers
	for _, tr := range []string{"tcp", "inproc"} {
		for _, kind := range []string{"PUSH", "DEALER", "PAIR"} {
			reg(mc.Scenario{Name: "c20/reuse-" + tr + "/" + kind, Prop: []string{"C20"}, Quick: 1, Deep: 2, DeepShards: 4, Race: true, RaceBound: 1, Fn: func(t *mc.T) {
				e := endpoint(tr, 1)
				s := kinds[kind](bg, opts()...)
				listen(t, s, e)
				n := 2
				if kind == "PAIR" {
					n = 1
				}
				var ps []zmq.Socket
				for i := 0; i < n; i++ {
					p := kinds[map[string]string{"PUSH": "PULL", "DEALER": "DEALER", "PAIR": "PAIR"}[kind]](bg, opts()...)
					dial(t, p, e)
					ps = append(ps, p)
				}
				mc.Settle()
				for i := 0; i < 2; i++ {
					o := own(fmt.Sprint("m", i), "", "z")
					if err := s.Send(o.m); err != nil {
						t.Failf("send failed", "%v", err)
					}
					spoil(o.m)
				}
				for i := 0; i < 2; i++ {
					for _, p := range ps {
						m := recvOK(t, p)
						want(t, "message", show(m), fmt.Sprintf("m%d,,z", i))
						spoil(m)
					}
				}
				closeAll(t, append(ps, s)...)
			}})
		}
	}

	// no kind of socket modifies what it sends, not even its spare memory
	for _, kind := range noStream {
		if kind == "SUB" || kind == "PULL" {
			continue
		}
		reg(mc.Scenario{Name: "c20/unmodified/" + kind, Prop: []string{"C20"}, Quick: 0, Deep: 2, Race: true, RaceBound: 0, Fn: func(t *mc.T) {
			m := pick([]string{"NULL", "PLAIN"})
			s := kinds[kind](bg, opts(mech(m))...)
			listen(t, s, ep(1))
			typ, pre := rawKind(kind)
			p := rawDialMech(t, 1, m, typ, "r")
			switch kind {
			case "PUB", "XPUB":
				p.write(encMsgS("\x01"))
			case "REP":
				p.write(encMsgS("", "q"))
				recv(t, s)
			}
			mc.Settle()
			got := drain(p)
			b := pick(bodies)
			o := own(append(append([]string{}, pre...), b...)...)
			var g group
			n := 2
			if kind == "REP" {
				n = 1
			}
			for i := 0; i < n; i++ { // also when it is sent twice at once
				multi := i == 1
				g.Go(func() {
					f := s.Send
					if multi {
						f = s.SendMulti
					}
					if err := f(o.m); err != nil {
						t.Failf("send failed", "%v", err)
					}
				})
			}
			g.Wait()
			mc.Settle()
			o.same(t, "Send")
			if kind == "REQ" || kind == "REP" {
				b = append([]string{""}, b...)
			}
			for i := 0; i < n; i++ {
				if l := got.all(); len(l) != n || l[i] != showS(b) {
					t.Failf("wrong message", "got %q, was sent %q %d times", l, b, n)
				}
			}
			closeAll(t, s)
			o.same(t, "Close")
			p.c.Close()
		}})
	}

	// what is done to a received message changes none of the others
	for _, kind := range noStream {
		if kind == "PUSH" || kind == "PUB" || kind == "REQ" {
			continue
		}
		for _, m := range []string{"NULL", "PLAIN"} {
			reg(mc.Scenario{Name: "c20/received/" + kind + "/" + m, Prop: []string{"C20"}, Quick: 0, Deep: 2, Race: m == "NULL", RaceBound: 0, Fn: func(t *mc.T) {
				s := kinds[kind](bg, opts(mech(m))...)
				if kind == "SUB" {
					subscribe(t, s, "")
				}
				listen(t, s, ep(1))
				typ := partner(kind)
				a, b := rawDialMech(t, 1, m, typ, "a"), rawDialMech(t, 1, m, typ, "b")
				mc.Settle()
				early := mc.Choose(2) == 1 // whether messages wait while others are changed
				n := 3
				put := func(i int) {
					fs := []string{fmt.Sprint("m", i), blob(i, 5), ""}
					if kind == "REP" {
						fs = append([]string{"hop", ""}, fs...)
					}
					a.write(encMsgS(fs...))
					fs[len(fs)-1] = "b"
					b.write(encMsgS(fs...))
				}
				for i := 0; i < n && early; i++ {
					put(i)
				}
				got := map[string][]string{"a": nil, "b": nil}
				var held []zmq.Msg
				var heldWas []string
				repA, repB := drain(a), drain(b)
				for i := 0; i < n; i++ {
					if !early {
						put(i)
					}
					for k := 0; k < 2; k++ {
						r := recvOK(t, s)
						fs := frames(r)
						from := "a"
						if len(fs) > 0 && fs[len(fs)-1] == "b" {
							from = "b"
						}
						if kind == "ROUTER" {
							if len(fs) == 0 || fs[0] != from {
								t.Failf("message changed", "label %q of a message from %q", fs, from)
							}
							fs = fs[1:]
						}
						got[from] = append(got[from], showS(fs))
						if k == 0 { // one is kept as it is
							held = append(held, r)
							heldWas = append(heldWas, show(r))
						} else {
							spoil(r)
						}
						switch kind {
						case "REP":
							if k == 0 {
								spoil(zmq.Msg{Frames: append([][]byte{}, r.Frames...)})
								heldWas[len(heldWas)-1] = show(r)
							}
							send(t, s, "re", from, fmt.Sprint(len(got[from])-1))
						case "ROUTER":
							send(t, s, from, "re", from, fmt.Sprint(len(got[from])-1))
						}
						for h := range held {
							want(t, "content of a message held by the receiver", show(held[h]), heldWas[h])
						}
					}
				}
				mc.Settle()
				var rep = map[string]string{"a": strings.Join(repA.all(), ";"), "b": strings.Join(repB.all(), ";")}
				for _, from := range []string{"a", "b"} {
					var exp, re []string
					for i := 0; i < n; i++ {
						l := ""
						if from == "b" {
							l = "b"
						}
						exp = append(exp, showS([]string{fmt.Sprint("m", i), blob(i, 5), l}))
						switch kind {
						case "REP":
							re = append(re, fmt.Sprintf("hop,,re,%s,%d", from, i))
						case "ROUTER":
							re = append(re, fmt.Sprintf("re,%s,%d", from, i))
						}
					}
					want(t, "messages of "+from, strings.Join(got[from], ";"), strings.Join(exp, ";"))
					if kind == "REP" || kind == "ROUTER" {
						want(t, "replies to "+from, rep[from], strings.Join(re, ";"))
					}
				}
				closeAll(t, s)
				a.c.Close()
				b.c.Close()
			}})
		}
	}

	// replies received by REQ
	reg(mc.Scenario{Name: "c20/received/REQ", Prop: []string{"C20"}, Quick: 1, Deep: 3, DeepShards: 2, Race: true, RaceBound: 1, Fn: func(t *mc.T) {
		r, s := zmq.NewReq(bg, opts()...), zmq.NewRep(bg, opts()...)
		listen(t, s, ep(1))
		dial(t, r, ep(1))
		var kept []zmq.Msg
		for i := 0; i < 3; i++ {
			send(t, r, "q", fmt.Sprint(i))
			q := recvOK(t, s)
			want(t, "request", show(q), fmt.Sprint("q,", i))
			q.Frames[0] = append(q.Frames[0][:1], fmt.Sprint("re", i)...)
			if err := s.Send(q); err != nil { // in the memory of the request
				t.Failf("send failed", "%v", err)
			}
			a := recvOK(t, r)
			want(t, "reply", show(a), fmt.Sprintf("qre%d,%d", i, i))
			spoil(q)
			if i == 1 {
				spoil(a)
			} else {
				kept = append(kept, a)
			}
		}
		want(t, "reply held by the receiver", show(kept[0]), "qre0,0")
		want(t, "reply held by the receiver", show(kept[1]), "qre2,2")
		closeAll(t, r, s)
	}})

	// subscribers own their copies, whatever the transport
	for _, tr := range []string{"tcp", "inproc", "ipc"} {
		for _, kind := range []string{"PUB", "XPUB"} {
			reg(mc.Scenario{Name: "c20/fan-out/" + kind + "-" + tr, Prop: []string{"C20"}, Quick: 1, Deep: 2, DeepShards: 4, Race: true, RaceBound: 1, Fn: func(t *mc.T) {
				e := endpoint(tr, 1)
				s := kinds[kind](bg, opts()...)
				listen(t, s, e)
				subs := []zmq.Socket{zmq.NewSub(bg, opts()...), zmq.NewSub(bg, opts()...)}
				for _, c := range subs {
					subscribe(t, c, "")
					dial(t, c, e)
				}
				mc.Settle()
				o := own("m", "body")
				for i := 0; i < 2; i++ {
					if err := s.Send(o.m); err != nil {
						t.Failf("send failed", "%v", err)
					}
				}
				var g group
				for _, c := range subs {
					g.Go(func() {
						for i := 0; i < 2; i++ {
							m := recvOK(t, c)
							want(t, "publication", show(m), "m,body")
							spoil(m)
						}
					})
				}
				g.Wait()
				o.same(t, "publication")
				closeAll(t, append(subs, s)...)
			}})
		}
	}

	// a received message that is forwarded may be reused as well
	reg(mc.Scenario{Name: "c20/forward", Prop: []string{"C20"}, Quick: 1, Deep: 2, DeepShards: 4, Race: true, RaceBound: 1, Fn: func(t *mc.T) {
		in, out := zmq.NewPull(bg, opts()...), zmq.NewPush(bg, opts()...)
		listen(t, in, ep(1))
		listen(t, out, ep(2))
		a, b, c := rawDial(t, 1, "PUSH", ""), rawDial(t, 2, "PULL", ""), rawDial(t, 2, "PULL", "")
		mc.Settle()
		gb, gc := drain(b), drain(c)
		var exp []string
		for i := 0; i < 3; i++ {
			a.write(encMsgS(fmt.Sprint("m", i), ""))
			exp = append(exp, fmt.Sprintf("m%d,", i))
		}
		for i := 0; i < 3; i++ {
			m := recvOK(t, in)
			if err := out.Send(m); err != nil {
				t.Failf("send failed", "%v", err)
			}
			spoil(m)
		}
		mc.Settle()
		want(t, "forwarded messages", strings.Join(gb.all(), ";"), strings.Join(exp, ";"))
		want(t, "forwarded messages", strings.Join(gc.all(), ";"), strings.Join(exp, ";"))
		closeAll(t, in, out)
		a.c.Close()
		b.c.Close()
		c.c.Close()
	}})

	// Clone is deep and equal, whatever the message and whichever is changed afterwards
	reg(mc.Scenario{Name: "c20/clone", Prop: []string{"C20"}, Quick: 0, Deep: 0, Fn: func(t *mc.T) {
		n := mc.Choose(4)
		var fs []string
		for i := 0; i < n; i++ {
			fs = append(fs, pick([]string{"", "x", "abc", blob(2, 300)}))
		}
		o := own(fs...)
		m := o.m
		switch mc.Choose(3) {
		case 1: // nil for empty
			for i := range m.Frames {
				if len(m.Frames[i]) == 0 {
					m.Frames[i] = nil
				}
			}
			if n == 0 {
				m.Frames = nil
			}
		case 2: // frames that share memory with one another
			b := []byte(strings.Join(fs, ""))
			k := 0
			for i := range m.Frames {
				m.Frames[i] = b[k : k+len(fs[i])]
				k += len(fs[i])
			}
		}
		c := m.Clone()
		d := c.Clone()
		for _, x := range []zmq.Msg{m, c, d} {
			if !sameFrames(frames(x), fs) {
				t.Failf("clone differs", "%q became %q", fs, frames(x))
			}
			if string(x.Bytes()) != strings.Join(fs, "") {
				t.Failf("wrong Bytes", "%q of %q", x.Bytes(), fs)
			}
		}
		all := []zmq.Msg{m, c, d}
		k := mc.Choose(3)
		if n > 0 {
			spoil(all[k])
			for i, x := range all {
				if i != k && !sameFrames(frames(x), fs) {
					t.Failf("clone shares memory", "%q became %q", fs, frames(x))
				}
			}
			// and the frames of a clone are apart from one another
			if k != 1 {
				for i := range c.Frames {
					f := c.Frames[i][:cap(c.Frames[i])]
					for j := range f {
						f[j] = '?'
					}
					c.Frames[i] = append(c.Frames[i], "more"...)
					for j := i + 1; j < n; j++ {
						if string(c.Frames[j]) != fs[j] {
							t.Failf("frames of a clone share memory", "frame %d changed with frame %d", j, i)
						}
					}
				}
			}
		}
	}})

	// making messages, and Bytes
	reg(mc.Scenario{Name: "c20/making", Prop: []string{"C20"}, Quick: 0, Deep: 0, Fn: func(t *mc.T) {
		var fs []string
		for i := mc.Choose(4); i > 0; i-- {
			fs = append(fs, pick([]string{"", "x", "abc"}))
		}
		ss := append([]string(nil), fs...)
		m, k := zmq.NewMsgFromString(ss), zmq.NewMsgFromString(ss)
		for i := range ss {
			ss[i] = "changed"
		}
		b := m.Bytes()
		for i := range b {
			b[i] = '!'
		}
		_ = append(b[:0], strings.Repeat("!", cap(b))...)
		if !sameFrames(frames(m), fs) || string(m.Bytes()) != strings.Join(fs, "") {
			t.Failf("message changed through Bytes", "%q became %q", fs, frames(m))
		}
		spoil(m)
		if !sameFrames(frames(k), fs) {
			t.Failf("messages share memory", "%q became %q", fs, frames(k))
		}
		x := strings.Join(fs, "")
		want(t, "message", show(zmq.NewMsgString(x)), x)
		want(t, "message", string(zmq.NewMsg([]byte(x)).Frames[0]), x)
	}})

	// the same on connections, for messages and commands
	for _, m := range []string{"NULL", "PLAIN"} {
		reg(mc.Scenario{Name: "c20/conn/" + m, Prop: []string{"C20"}, Quick: 0, Deep: 1, Fn: func(t *mc.T) {
			a, b := openPair(t, m)
			body := []byte("body##")[:4]
			for i := 0; i < 2; i++ {
				body = append(body[:0], fmt.Sprint("bod", i)...)
				if err := a.SendCmd("NAME", body); err != nil {
					t.Failf("send failed", "%v", err)
				}
				if string(body[:6]) != fmt.Sprint("bod", i, "##") {
					t.Failf("body modified by SendCmd", "%q", body[:6])
				}
				copy(body, "!!!!")
				o := own(fmt.Sprint("m", i), "z")
				if err := a.SendMsg(o.m); err != nil {
					t.Failf("send failed", "%v", err)
				}
				o.same(t, "SendMsg")
				spoil(o.m)
			}
			var cs []zmq.Cmd
			var ms []zmq.Msg
			for i := 0; i < 2; i++ {
				c, err := b.RecvCmd()
				if err != nil {
					t.Failf("recv failed", "%v", err)
				}
				cs = append(cs, c)
				r, err := b.RecvMsg()
				if err != nil {
					t.Failf("recv failed", "%v", err)
				}
				ms = append(ms, r)
			}
			k := mc.Choose(2)
			if cs[1-k].Name != "NAME" || string(cs[1-k].Body) != fmt.Sprint("bod", 1-k) {
				t.Failf("wrong command", "%q", cs)
			}
			spoil(zmq.Msg{Frames: [][]byte{cs[k].Body}})
			spoil(ms[k])
			want(t, "command", string(cs[1-k].Body), fmt.Sprint("bod", 1-k))
			want(t, "message", show(ms[1-k]), fmt.Sprintf("m%d,z", 1-k))
			a.Close()
			b.Close()
		}})
	}
}
