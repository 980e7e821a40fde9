package main

import (
	"fmt"
	"strings"
	"time"

	zmq "github.com/luxfi/zmq/v4"
	"github.com/luxfi/zmq/v4/internal/zzmc/mc"
	sim "github.com/luxfi/zmq/v4/internal/zzmc/xnet"
)

// stages are the points at which a peer falls silent: so many bytes of its
// stream. Negative: bytes after the handshake.
func partOf(k string) []byte {
	var b []byte
	switch k {
	case "PUB", "XPUB":
		b = encMsgS("\x01topic")
	case "REP":
		b = encMsgS("", "question")
	default:
		b = encMsgS("part", strings.Repeat("y", 300))
	}
	return b
}

// converse is one conversation of a well-behaved raw peer with a socket.
func converse(t *mc.T, k string, s zmq.Socket, p *rawPeer, x string) {
	read := func(exp ...string) {
		t.Step("a message reaches a peer beside a faulty one")
		m, err := p.readMsg()
		if err != nil {
			t.Failf("connection ended", "beside a faulty peer: %v", err)
		}
		wantFrames(t, "message", m, exp)
	}
	get := func(exp ...string) zmq.Msg {
		t.Step("receiving beside a faulty peer")
		m, err := s.Recv()
		if err != nil {
			t.Failf("recv failed", "beside a faulty peer: %v", err)
		}
		wantFrames(t, "message", frames(m), exp)
		return m
	}
	put := func(f ...string) {
		if err := p.write(encMsgS(f...)); err != nil {
			t.Failf("connection ended", "beside a faulty peer: %v", err)
		}
	}
	mc.Settle() // the connection is up
	switch k {
	case "PULL", "SUB", "XSUB":
		put("b", x)
		get("b", x)
	case "PUSH":
		send(t, s, "b", x)
		read("b", x)
	case "PAIR", "DEALER":
		put("b", x)
		get("b", x)
		send(t, s, "r", x)
		read("r", x)
	case "ROUTER":
		put("b", x)
		get(p.own, "b", x)
		send(t, s, p.own, "r", x)
		read("r", x)
	case "REP":
		put("", "b", x)
		get("b", x)
		send(t, s, "r", x)
		read("", "r", x)
	case "REQ":
		send(t, s, "b", x)
		read("", "b", x)
		put("", "r", x)
		get("r", x)
	case "PUB", "XPUB":
		put("\x01b" + x)
		mc.Settle()
		send(t, s, "b"+x, x)
		read("b"+x, x)
	}
}

func init() {
	for _, k := range noStream {
		// A listening socket beside a peer that falls silent at any byte.
		reg(mc.Scenario{Name: "c23/silent/" + k, Prop: []string{"C23"}, Quick: 1, Deep: 2, DeepShards: 4, SplitChoose: true, Fn: func(t *mc.T) {
			s := kinds[k](bg, opts(zmq.WithAutomaticReconnect(false))...)
			listen(t, s, ep(1))
			if k == "SUB" {
				subscribe(t, s, "")
			}
			hs := append(encGreeting("NULL", false), encCmd("READY", encMeta("Socket-Type", partner(k), "Identity", "silent"))...)
			part := partOf(k)
			at := []int{0, 1, 11, 63, 64, 65, 66, 80, len(hs) - 1}
			if k != "REQ" { // it talks to one server at a time
				at = append(at, len(hs), len(hs)+1, len(hs)+2, len(hs)+3, len(hs)+len(part)-1)
				if k != "PUB" && k != "XPUB" {
					at = append(at, len(hs)+8, len(hs)+10)
				}
			}
			early := mc.Choose(2) == 1
			n := pick(at)
			var b *rawPeer
			if early {
				b = rawDial(t, 1, partner(k), "good")
				converse(t, k, s, b, "0")
			}
			a := &rawPeer{t: t, c: rawDialConn(t, 1)}
			var g group
			a.write(append(hs[:len(hs):len(hs)], part...)[:n])
			g.Go(func() { // what it is sent does not matter
				for {
					if _, err := a.readN(1); err != nil {
						return
					}
				}
			})
			if mc.Choose(2) == 1 {
				mc.Settle()
			}
			start := mc.Elapsed()
			if !early {
				b = rawDial(t, 1, partner(k), "good")
			}
			converse(t, k, s, b, "1")
			c := rawDial(t, 1, partner(k), "later")
			if k != "PUSH" && k != "REQ" && k != "PAIR" && k != "DEALER" {
				converse(t, k, s, c, "2")
				converse(t, k, s, b, "3")
			}
			if d := mc.Elapsed() - start; d != 0 {
				t.Failf("a peer had to wait for a faulty one", "%v", d)
			}
			t.Outcome(fmt.Sprint(n))
			closeAll(t, s)
			a.c.Close()
			g.Wait()
			b.c.Close()
			c.c.Close()
		}})

		// A dialing socket beside a server that falls silent at any byte.
		reg(mc.Scenario{Name: "c23/silent-dialed/" + k, Prop: []string{"C23"}, Quick: 1, Deep: 2, DeepShards: 2, SplitChoose: true, Fn: func(t *mc.T) {
			s := kinds[k](bg, opts(zmq.WithAutomaticReconnect(false))...)
			if k == "SUB" {
				subscribe(t, s, "")
			}
			hs := append(encGreeting("NULL", false), encCmd("READY", encMeta("Socket-Type", partner(k), "Identity", "silent"))...)
			part := partOf(k)
			at := []int{0, 1, 63, 64, 66, len(hs) - 1}
			if k != "REQ" {
				at = append(at, len(hs), len(hs)+1, len(hs)+2, len(hs)+len(part)-1)
			}
			n := pick(at)
			la, lb := rawListen(t, 1), rawListen(t, 2)
			var g, h group
			g.Go(func() { s.Dial(ep(1)) })
			c, err := la.l.Accept()
			if err != nil {
				t.Failf("harness", "raw accept: %v", err)
			}
			a := &rawPeer{t: t, c: c}
			a.write(append(hs[:len(hs):len(hs)], part...)[:n])
			h.Go(func() {
				for {
					if _, err := a.readN(1); err != nil {
						return
					}
				}
			})
			if mc.Choose(2) == 1 {
				mc.Settle()
			}
			start := mc.Elapsed()
			var b *rawPeer
			var d group
			d.Go(func() { b = lb.accept("NULL", partner(k), "good") })
			t.Step("dialing beside a faulty server")
			dial(t, s, ep(2))
			d.Wait()
			converse(t, k, s, b, "1")
			if d := mc.Elapsed() - start; d != 0 {
				t.Failf("a peer had to wait for a faulty one", "%v", d)
			}
			t.Outcome(fmt.Sprint(n))
			closeAll(t, s)
			a.c.Close()
			g.Wait()
			h.Wait()
			b.c.Close()
			la.l.Close()
			lb.l.Close()
		}})
	}

	// A peer that does not read what it is sent.
	for _, k := range []string{"PUSH", "PAIR", "DEALER", "ROUTER", "REP", "REQ", "PUB", "XPUB", "SUB", "XSUB"} {
		reg(mc.Scenario{Name: "c23/unread/" + k, Prop: []string{"C23"}, Quick: 2, Deep: 3, DeepShards: 4, SplitChoose: true, Fn: func(t *mc.T) {
			// what holds the socket's other business up ends with its time-out
			s := kinds[k](bg, opts(zmq.WithTimeout(time.Minute), zmq.WithAutomaticReconnect(false))...)
			listen(t, s, ep(1))
			early := mc.Choose(2) == 1
			buf := pick([]int{1, 2, 6})
			a := rawDial(t, 1, partner(k), "stalled")
			mc.Settle()
			sim.SetBuf(sim.Peer(a.c), buf)
			var b *rawPeer
			if early {
				b = rawDial(t, 1, partner(k), "good")
				mc.Settle()
			}
			start := mc.Elapsed()
			var g group
			switch k {
			case "REP":
				a.write(encMsgS("", "q"))
				want(t, "request", recv(t, s), "q")
				g.Go(func() { s.Send(msg("a long reply", "in two")) })
			case "ROUTER":
				g.Go(func() { s.Send(msg("stalled", "all", "m1")) })
			case "PUB", "XPUB":
				a.write(encMsgS("\x01"))
				mc.Settle()
				send(t, s, "all", "m1")
			case "SUB":
				g.Go(func() { s.SetOption(zmq.OptionSubscribe, "from") })
			case "XSUB":
				g.Go(func() { s.Send(msg("\x01from")) })
			default:
				g.Go(func() { s.Send(msg("all", "m1")) })
			}
			mc.Settle()
			if early && (k == "PUSH" || k == "PAIR" || k == "DEALER") {
				t.Step("a message reaches a peer beside one that does not read")
				m, err := b.readMsg()
				if err != nil {
					t.Failf("connection ended", "%v", err)
				}
				wantFrames(t, "message", m, []string{"all", "m1"})
			}
			if !early {
				t.Step("connecting beside a peer that does not read")
				b = rawDial(t, 1, partner(k), "good")
			}
			if k == "SUB" || k == "XSUB" && early {
				t.Step("a subscription reaches a peer beside one that does not read")
				m, err := b.readMsg()
				if err != nil {
					t.Failf("connection ended", "%v", err)
				}
				wantFrames(t, "subscription", m, []string{"\x01from"})
			}
			if k == "SUB" {
				// changes go on, at the latest with the time-out for the one that does not read
				g.Go(func() {
					s.SetOption(zmq.OptionSubscribe, "more")
				})
				m, err := b.readMsg()
				if err != nil {
					t.Failf("connection ended", "%v", err)
				}
				wantFrames(t, "subscription", m, []string{"\x01more"})
			}
			switch k {
			case "PUSH", "REQ":
			case "PAIR", "DEALER", "SUB", "XSUB":
				b.write(encMsgS("from b"))
				t.Step("receiving beside a peer that does not read")
				want(t, "message", recv(t, s), "from b")
			default:
				converse(t, k, s, b, "1")
				converse(t, k, s, b, "2")
			}
			// the socket can still dial, and lose a peer
			l := rawListen(t, 2)
			var c *rawPeer
			var d group
			d.Go(func() { c = l.accept("NULL", partner(k), "third") })
			t.Step("dialing beside a peer that does not read")
			dial(t, s, ep(2))
			d.Wait()
			t.Step("losing a peer beside one that does not read")
			b.c.Close()
			mc.Settle()
			switch k {
			case "PUSH", "PAIR", "DEALER", "REQ", "SUB", "XSUB":
			default:
				converse(t, k, s, c, "3")
			}
			if d := mc.Elapsed() - start; d != 0 {
				t.Failf("a peer had to wait for one that does not read", "%v", d)
			}
			t.Outcome(fmt.Sprint(early))
			t.Step("closing beside a peer that does not read")
			closeAll(t, s)
			if d := mc.Elapsed() - start; d != 0 {
				t.Failf("Close had to wait for a peer that does not read", "%v", d)
			}
			g.Wait()
			a.c.Close()
			c.c.Close()
			l.l.Close()
		}})
	}

	// Many faulty peers at once: none of what they wait for is a resource that runs out.
	for _, k := range noStream {
		reg(mc.Scenario{Name: "c23/crowd/" + k, Prop: []string{"C23"}, Quick: 0, Deep: 1, SplitChoose: true, Fn: func(t *mc.T) {
			s := kinds[k](bg, opts(zmq.WithTimeout(time.Minute), zmq.WithAutomaticReconnect(false))...)
			listen(t, s, ep(1))
			n := pick([]int{2, 4, 9, 33, 130})
			place := pick([]int{0, n / 2, n}) // of the good one among them
			unread := mc.Choose(2) == 1       // or they never complete the handshake
			var b *rawPeer
			var cs []*rawPeer
			start := mc.Elapsed()
			var g group
			for i := 0; i <= n; i++ {
				if i == place {
					t.Step("connecting beside many faulty peers")
					b = rawDial(t, 1, partner(k), "good")
				}
				if i == n {
					break
				}
				var c *rawPeer
				if unread {
					c = rawDial(t, 1, partner(k), fmt.Sprint("stalled", i))
					mc.Settle()
					switch k {
					case "PUB", "XPUB":
						c.write(encMsgS("\x01"))
					}
					sim.SetBuf(sim.Peer(c.c), 2)
				} else {
					c = &rawPeer{t: t, c: rawDialConn(t, 1)}
					c.write(encGreeting("NULL", false)[:i%65])
				}
				cs = append(cs, c)
			}
			mc.Settle()
			if unread {
				switch k {
				case "REP":
					for i, c := range cs {
						c.write(encMsgS("", "q", fmt.Sprint(i)))
						mc.Settle()
						m, err := s.Recv()
						if err != nil {
							t.Failf("recv failed", "%v", err)
						}
						wantFrames(t, "request", frames(m), []string{"q", fmt.Sprint(i)})
						t.Step("answering many that do not read")
						g.Go(func() { s.Send(msg("a long reply", "in two")) })
						mc.Settle()
					}
				case "ROUTER":
					for i := range cs {
						g.Go(func() { s.Send(msg(fmt.Sprint("stalled", i), "all", "m1")) })
					}
				case "PUB", "XPUB":
					for i := 0; i < 3; i++ {
						send(t, s, "all", "m1")
					}
				case "SUB":
					g.Go(func() { s.SetOption(zmq.OptionSubscribe, "from") })
				case "XSUB":
					g.Go(func() { s.Send(msg("\x01from")) })
				case "PUSH", "PAIR", "DEALER":
					g.Go(func() { s.Send(msg("all", "m1")) })
				}
				mc.Settle()
				x := []string{"\x01from"}
				switch k {
				case "PUSH", "PAIR", "DEALER":
					x = []string{"all", "m1"}
					fallthrough
				case "SUB", "XSUB":
					t.Step("a message reaches a peer beside many that do not read")
					m, err := b.readMsg()
					if err != nil {
						t.Failf("connection ended", "%v", err)
					}
					wantFrames(t, "message", m, x)
				}
			}
			switch {
			case unread && (k == "PUSH" || k == "REQ"):
			case unread && (k == "PAIR" || k == "DEALER"):
				b.write(encMsgS("from b"))
				t.Step("receiving beside many that do not read")
				want(t, "message", recv(t, s), "from b")
			default:
				converse(t, k, s, b, "1")
				converse(t, k, s, b, "2")
			}
			t.Step("connecting beside many faulty peers")
			d := rawDial(t, 1, partner(k), "last")
			if !unread && k != "REQ" && k != "PUSH" && k != "PAIR" && k != "DEALER" {
				converse(t, k, s, d, "3")
			}
			if d := mc.Elapsed() - start; d != 0 {
				t.Failf("a peer had to wait for faulty ones", "%v", d)
			}
			t.Step("closing beside many faulty peers")
			closeAll(t, s)
			if d := mc.Elapsed() - start; d != 0 {
				t.Failf("Close had to wait for faulty peers", "%v", d)
			}
			g.Wait()
			for _, c := range append(cs, b, d) {
				c.c.Close()
			}
		}})
	}
}
