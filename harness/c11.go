package main

import (
	"context"
	"fmt"
	"net"
	"strings"
	"time"

	zmq "github.com/luxfi/zmq/v4"
	"github.com/luxfi/zmq/v4/internal/zzmc/mc"
	sim "github.com/luxfi/zmq/v4/internal/zzmc/xnet"
)

// can tells whether sockets of a kind send and receive.
func canSend(k string) bool { return k != "PULL" && k != "SUB" && k != "XSUB" }
func canRecv(k string) bool { return k != "PUSH" && k != "PUB" && k != "XPUB" }

// ended checks an operation of a socket that is being or has been closed: it
// ends with an error, and without time passing.
func ended(t *mc.T, what string, f func() error) {
	at := mc.Elapsed()
	t.Step(what + " on a closed socket")
	err := f()
	if err == nil {
		t.Failf("operation on a closed socket succeeds", "%s returned nil", what)
	}
	if d := mc.Elapsed() - at; d != 0 {
		t.Failf("operation on a closed socket blocks", "%s took %v", what, d)
	}
}

func recvErr(s zmq.Socket) func() error {
	return func() error { _, err := s.Recv(); return err }
}

// allEnded tries every operation.
func allEnded(t *mc.T, s zmq.Socket, e string) {
	ended(t, "Recv", recvErr(s))
	ended(t, "Send", func() error { return s.Send(msg("x", "y")) })
	ended(t, "SendMulti", func() error { return s.SendMulti(msg("x", "y")) })
	ended(t, "Listen", func() error { return s.Listen(e) })
	ended(t, "Dial", func() error { return s.Dial(e) })
	ended(t, "Close", s.Close)
	s.Type()
	s.Addr()
	s.GetOption(zmq.OptionHWM)
	if tp, ok := s.(zmq.Topics); ok {
		tp.Topics()
	}
}

// shut closes a socket; that takes no time.
func shut(t *mc.T, s zmq.Socket) {
	at := mc.Elapsed()
	t.Step("close of " + string(s.Type()))
	if err := s.Close(); err != nil {
		t.Failf("close failed", "Close of %s: %v", s.Type(), err)
	}
	if d := mc.Elapsed() - at; d != 0 {
		t.Failf("close delayed", "Close of %s took %v", s.Type(), d)
	}
	t.Step("after the close")
}

// nothingLeft checks connections and listeners once nothing moves.
func nothingLeft(t *mc.T) {
	mc.Settle()
	if n := sim.Sim.OpenConns(); n != 0 {
		t.Failf("connection left open", "%d ends are open after Close", n)
	}
	if n := sim.Sim.Listeners(); n != 0 {
		t.Failf("listener left open", "%d listeners are open after Close", n)
	}
}

// reusable binds the address again.
func reusable(t *mc.T, e string) {
	s := zmq.NewPull(bg, opts()...)
	if err := s.Listen(e); err != nil {
		t.Failf("address not usable again", "Listen(%s): %v", e, err)
	}
	shut(t, s)
}

func init() {
	trs := []string{"tcp", "inproc", "ipc"}

	// sockets that are not connected
	for _, k := range kindNames {
		reg(mc.Scenario{Name: "c11/alone/" + k, Prop: []string{"C11"}, Quick: 1, Deep: 2, Fn: func(t *mc.T) {
			o := opts(zmq.WithDialerMaxRetries(mc.Choose(2)), zmq.WithDialerRetry(time.Second))
			s := kinds[k](bg, o...)
			e := endpoint(pick(trs), 1)
			how := mc.Choose(4)
			if how&1 != 0 {
				listen(t, s, e)
			}
			if how&2 != 0 {
				if err := s.Dial(endpoint("tcp", 7)); err == nil {
					t.Failf("dial without listener succeeds", "")
				}
			}
			shut(t, s)
			allEnded(t, s, e)
			nothingLeft(t)
			reusable(t, e)
		}})
	}

	// connected sockets with messages under way, closed in either order
	for _, k := range kindNames[:11] {
		for _, p := range strings.Fields(compat[k]) {
			reg(mc.Scenario{Name: "c11/pair/" + k + "/" + p, Prop: []string{"C11"}, Quick: 1, Deep: 2, DeepShards: 2, SplitChoose: true, Fn: func(t *mc.T) {
				tr := pick(trs)
				n := mc.Choose(3) * 2
				rec := mc.Choose(2) == 1
				a := kinds[k](bg, opts(zmq.WithAutomaticReconnect(rec), zmq.WithDialerMaxRetries(1), zmq.WithDialerRetry(time.Second))...)
				b := kinds[p](bg, opts(zmq.WithAutomaticReconnect(rec), zmq.WithDialerMaxRetries(1), zmq.WithDialerRetry(time.Second))...)
				e := endpoint(tr, 1)
				connect(t, a, b, mc.Choose(2) == 1, e)
				if p == "SUB" {
					subscribe(t, b, "")
				}
				if p == "XSUB" {
					send(t, b, "\x01")
				}
				for i := 0; i < n; i++ {
					if canSend(k) {
						a.Send(msg(fmt.Sprint("m", i), "", "x"))
					}
				}
				shut(t, a)
				allEnded(t, a, e)
				shut(t, b)
				allEnded(t, b, e)
				nothingLeft(t)
				reusable(t, e)
			}})
		}
	}

	// operations under way when the socket closes
	for _, k := range kindNames {
		for _, peer := range []bool{false, true} {
			name := k
			if peer {
				name += "/peer"
				if k == "STREAM" {
					continue
				}
			}
			reg(mc.Scenario{Name: "c11/pending/" + name, Prop: []string{"C11"}, Quick: 2, Deep: 3, DeepShards: 2, Weight: 2, Fn: func(t *mc.T) {
				s := kinds[k](bg, opts(zmq.WithAutomaticReconnect(false))...)
				var rp *rawPeer
				if peer {
					listen(t, s, ep(1))
					rp = rawDial(t, 1, partner(k), "peer")
					mc.Settle()
				}
				var g group
				op := mc.Choose(4)
				switch op {
				case 0:
					g.Go(func() {
						for i := 0; ; i++ {
							if _, err := s.Recv(); err != nil {
								return
							}
						}
					})
				case 1:
					g.Go(func() {
						for i := 0; ; i++ {
							if err := s.Send(msg("peer", "m")); err != nil || i > 1 {
								return
							}
						}
					})
				case 2:
					g.Go(func() { s.Listen(ep(2)); s.Listen(ep(3)) })
				default:
					g.Go(func() { s.Recv() })
					g.Go(func() { s.Send(msg("peer", "m")) })
				}
				shut(t, s)
				at := mc.Elapsed()
				t.Step("pending operation")
				g.Wait()
				if d := mc.Elapsed() - at; d != 0 {
					t.Failf("pending operation does not end", "operation %d ended %v after Close", op, d)
				}
				if rp != nil {
					t.Step("end of the connection at the peer")
					for {
						if _, _, err := rp.readFrame(); err != nil {
							break
						}
					}
					rp.c.Close()
				}
				allEnded(t, s, ep(4))
				nothingLeft(t)
			}})
		}
	}

	// a Send that waits for a peer that does not read
	for _, k := range []string{"PUSH", "PAIR", "DEALER", "REQ", "REP", "ROUTER", "PUB", "XPUB"} {
		reg(mc.Scenario{Name: "c11/stalled/" + k, Prop: []string{"C11"}, Quick: 1, Deep: 2, DeepShards: 2, Fn: func(t *mc.T) {
			s := kinds[k](bg, opts(zmq.WithAutomaticReconnect(false))...)
			listen(t, s, ep(1))
			p := rawDial(t, 1, partner(k), "peer")
			mc.Settle()
			if k == "PUB" || k == "XPUB" {
				p.write(encMsgS("\x01"))
			}
			if k == "REP" {
				p.write(encMsgS("", "question"))
				recv(t, s)
			}
			mc.Settle()
			sim.SetBuf(sim.Peer(p.c), 3)
			var g group
			errs := 0
			for i := 0; i < 2; i++ {
				g.Go(func() {
					if err := s.Send(msg("peer", "body")); err != nil {
						errs++
					}
				})
			}
			if mc.Choose(2) == 1 {
				mc.Settle()
			}
			shut(t, s)
			at := mc.Elapsed()
			t.Step("pending send")
			g.Wait()
			if d := mc.Elapsed() - at; d != 0 {
				t.Failf("pending operation does not end", "Send ended %v after Close", d)
			}
			for {
				if _, err := p.readN(1); err != nil {
					break
				}
			}
			p.c.Close()
			allEnded(t, s, ep(4))
			nothingLeft(t)
			t.Outcome(fmt.Sprint(errs))
		}})
	}

	// handshakes under way, at every byte
	for _, server := range []bool{true, false} {
		for _, m := range []string{"NULL", "PLAIN"} {
			reg(mc.Scenario{Name: fmt.Sprintf("c11/handshake/%v/%s", role{m, server}, m), Prop: []string{"C11"}, Quick: 1, Deep: 2, SplitChoose: true, DeepShards: 4, Fn: func(t *mc.T) {
				b := peerBytes(m, "PUSH", "id", server)
				n := pick([]int{0, 1, 10, 32, 63, 64, 65, 66, len(b) - 1, len(b)})
				if n < len(b) && mc.Choose(2) == 1 {
					n = min(n+30, len(b))
				}
				s := zmq.NewPull(bg, opts(mech(m), zmq.WithAutomaticReconnect(false))...)
				var c net.Conn
				var err error
				var g group
				if server {
					listen(t, s, ep(1))
					if c, err = net.Dial("tcp", "127.0.0.1:5001"); err != nil {
						t.Failf("harness", "%v", err)
					}
				} else {
					l := rawListen(t, 1)
					g.Go(func() {
						err := s.Dial(ep(1))
						t.Outcome(fmt.Sprint(err == nil))
						if err == nil && n < len(b) {
							t.Failf("dial succeeds without handshake", "")
						}
					})
					if c, err = l.l.Accept(); err != nil {
						t.Failf("harness", "%v", err)
					}
					l.l.Close()
				}
				c.Write(b[:n])
				if mc.Choose(2) == 1 {
					mc.Settle()
				}
				shut(t, s)
				at := mc.Elapsed()
				t.Step("handshake under way")
				g.Wait()
				buf := make([]byte, 256)
				for {
					if _, err := c.Read(buf); err != nil {
						break
					}
				}
				if d := mc.Elapsed() - at; d != 0 {
					t.Failf("pending operation does not end", "the handshake ended %v after Close", d)
				}
				c.Close()
				allEnded(t, s, ep(4))
				nothingLeft(t)
			}})
		}
	}

	// arrivals while the socket closes, on every transport
	for _, k := range []string{"PULL", "PUB", "SUB", "REP", "ROUTER", "XPUB", "DEALER"} {
		reg(mc.Scenario{Name: "c11/arrivals/" + k, Prop: []string{"C11"}, Quick: 2, Deep: 3, QuickShards: 1, DeepShards: 4, SplitChoose: true, Weight: 2, Fn: func(t *mc.T) {
			tr := pick(trs)
			rec := mc.Choose(2) == 1
			s := kinds[k](bg, opts()...)
			e := endpoint(tr, 1)
			listen(t, s, e)
			var g group
			o := kinds[partner(k)](bg, opts(zmq.WithAutomaticReconnect(rec), zmq.WithDialerMaxRetries(1), zmq.WithDialerRetry(time.Second))...)
			g.Go(func() { o.Dial(e) })
			shut(t, s)
			t.Step("dial of a peer")
			g.Wait()
			shut(t, o)
			nothingLeft(t)
			reusable(t, e)
		}})
	}

	// Listen and Dial under way while the socket closes
	for _, k := range []string{"PULL", "PUSH", "SUB", "PUB", "REQ", "REP", "ROUTER"} {
		reg(mc.Scenario{Name: "c11/opening/" + k, Prop: []string{"C11"}, Quick: 2, Deep: 3, QuickShards: 1, DeepShards: 4, SplitChoose: true, Weight: 2, Fn: func(t *mc.T) {
			tr := pick(trs)
			s := kinds[k](bg, opts(zmq.WithAutomaticReconnect(mc.Choose(2) == 1), zmq.WithDialerMaxRetries(1))...)
			o := kinds[partner(k)](bg, opts()...)
			e, f := endpoint(tr, 1), endpoint(tr, 2)
			listen(t, o, f)
			var g group
			if mc.Choose(2) == 1 {
				g.Go(func() { s.Listen(e) })
			} else {
				g.Go(func() { s.Dial(f) })
			}
			shut(t, s)
			at := mc.Elapsed()
			t.Step("Listen or Dial under way")
			g.Wait()
			if d := mc.Elapsed() - at; d > time.Second {
				t.Failf("pending operation does not end", "%v after Close", d)
			}
			shut(t, o)
			nothingLeft(t)
			reusable(t, e)
			reusable(t, f)
		}})
	}

	// a Dial that keeps trying
	reg(mc.Scenario{Name: "c11/retrying", Prop: []string{"C11"}, Quick: 1, Deep: 2, Fn: func(t *mc.T) {
		d := 250 * time.Millisecond
		s := zmq.NewPush(bg, opts(zmq.WithDialerMaxRetries(pick([]int{-1, 10})), zmq.WithDialerRetry(d))...)
		var g group
		g.Go(func() {
			if err := s.Dial(ep(1)); err == nil {
				t.Failf("dial without listener succeeds", "")
			}
		})
		time.Sleep(time.Duration(mc.Choose(3)) * 300 * time.Millisecond)
		shut(t, s)
		at := mc.Elapsed()
		t.Step("dial that keeps trying")
		g.Wait()
		if x := mc.Elapsed() - at; x > d {
			t.Failf("pending operation does not end", "Dial went on for %v after Close", x)
		}
		nothingLeft(t)
	}})

	// queues that are full when the socket closes
	for _, k := range []string{"PULL", "SUB", "PAIR", "DEALER", "ROUTER", "REP", "XPUB", "XSUB", "PUB"} {
		reg(mc.Scenario{Name: "c11/full/" + k, Prop: []string{"C11"}, Quick: 1, Deep: 2, Fn: func(t *mc.T) {
			s := kinds[k](bg, opts(zmq.WithAutomaticReconnect(false))...)
			listen(t, s, ep(1))
			var ps []*rawPeer
			for i := 0; i < 2; i++ {
				p := rawDial(t, 1, partner(k), fmt.Sprint("p", i))
				for j := 0; j < 14; j++ {
					p.write(encMsgS("", fmt.Sprint("m", j)))
				}
				ps = append(ps, p)
			}
			if mc.Choose(2) == 1 {
				mc.Settle()
			}
			for i := mc.Choose(3) * 7; i > 0 && canRecv(k); i-- {
				s.Recv()
			}
			shut(t, s)
			for _, p := range ps {
				t.Step("end of the connection at the peer")
				buf := make([]byte, 64)
				for {
					if _, err := p.c.Read(buf); err != nil {
						break
					}
				}
				p.c.Close()
			}
			allEnded(t, s, ep(4))
			nothingLeft(t)
		}})
	}

	// Close from several goroutines: one of them closes
	reg(mc.Scenario{Name: "c11/twice", Prop: []string{"C11"}, Quick: 1, Deep: 2, DeepShards: 2, Fn: func(t *mc.T) {
		k := pick(kindNames)
		tr := pick(trs)
		s := kinds[k](bg, opts()...)
		e := endpoint(tr, 1)
		listen(t, s, e)
		var g group
		ok := 0
		for i := 0; i < 2; i++ {
			g.Go(func() {
				if s.Close() == nil {
					ok++
				}
			})
		}
		g.Wait()
		if ok != 1 {
			t.Failf("wrong verdict of a second Close", "%d of 2 succeed", ok)
		}
		// somebody else may have taken the address
		o := zmq.NewPull(bg, opts()...)
		mc.Settle()
		listen(t, o, e)
		ended(t, "Close", s.Close)
		p := zmq.NewPush(bg, opts()...)
		dial(t, p, e)
		send(t, p, "m")
		want(t, "message", recv(t, o), "m")
		closeAll(t, p, o)
		nothingLeft(t)
	}})

	// the peer notices and can go over to a socket that takes the address
	for _, tr := range trs {
		reg(mc.Scenario{Name: "c11/takeover/" + tr, Prop: []string{"C11"}, Quick: 1, Deep: 2, DeepShards: 2, Fn: func(t *mc.T) {
			e := endpoint(tr, 1)
			s := zmq.NewPull(bg, opts()...)
			listen(t, s, e)
			p := zmq.NewPush(bg, opts(zmq.WithAutomaticReconnect(false))...)
			dial(t, p, e)
			send(t, p, "one")
			want(t, "message", recv(t, s), "one")
			mc.Settle()
			shut(t, s)
			mc.Settle()
			if n := sim.Sim.OpenConns(); n != 0 && tr != "inproc" {
				// the PUSH side may only notice on its next write
				p.Send(msg("lost"))
				mc.Settle()
			}
			o := zmq.NewPull(bg, opts()...)
			listen(t, o, e)
			dial(t, p, e)
			mc.Settle()
			for i := 0; i < 2; i++ {
				p.Send(msg("two"))
			}
			want(t, "message", recv(t, o), "two")
			closeAll(t, p, o)
			nothingLeft(t)
		}})
	}

	// cancelling the parent context, then closing
	reg(mc.Scenario{Name: "c11/cancelled", Prop: []string{"C11"}, Quick: 1, Deep: 2, Fn: func(t *mc.T) {
		k := pick(kindNames[:11])
		e := endpoint(pick(trs), 1)
		ctx, cancel := context.WithCancel(bg)
		s := kinds[k](ctx, opts()...)
		listen(t, s, e)
		o := kinds[partner(k)](bg, opts(zmq.WithAutomaticReconnect(false))...)
		dial(t, o, e)
		if mc.Choose(2) == 1 {
			mc.Settle()
		}
		cancel()
		if mc.Choose(2) == 1 {
			mc.Settle()
		}
		shut(t, s)
		allEnded(t, s, e)
		shut(t, o)
		nothingLeft(t)
		reusable(t, e)
	}})

	// STREAM: raw bytes, closed from either side
	reg(mc.Scenario{Name: "c11/stream", Prop: []string{"C11"}, Quick: 1, Deep: 2, Fn: func(t *mc.T) {
		s := zmq.NewStream(bg, opts()...)
		listen(t, s, ep(1))
		c, err := net.Dial("tcp", "127.0.0.1:5001")
		if err != nil {
			t.Failf("harness", "%v", err)
		}
		if mc.Choose(2) == 1 {
			c.Write([]byte("GET"))
		}
		var g group
		g.Go(func() { s.Recv() })
		if mc.Choose(2) == 1 {
			mc.Settle()
		}
		shut(t, s)
		t.Step("end of the connection at the peer")
		buf := make([]byte, 10)
		for {
			if _, err := c.Read(buf); err != nil {
				break
			}
		}
		g.Wait()
		c.Close()
		allEnded(t, s, ep(2))
		nothingLeft(t)
	}})
}
