package main

import (
	"context"
	"errors"
	"fmt"
	"strings"
	"time"

	zmq "github.com/luxfi/zmq/v4"
	"github.com/luxfi/zmq/v4/internal/zzmc/mc"
	sim "github.com/luxfi/zmq/v4/internal/zzmc/xnet"
)

// relay is a running proxy.
type relay struct {
	front, back zmq.Socket
	cancel      context.CancelFunc
	over        bool
	done        chan error
}

func startProxy(t *mc.T, fk, bk string) *relay {
	ctx, cancel := context.WithCancel(bg)
	p := &relay{front: kinds[fk](ctx, opts()...), back: kinds[bk](ctx, opts()...), cancel: cancel, done: make(chan error, 1)}
	listen(t, p.front, ep(1))
	listen(t, p.back, ep(2))
	p.run(t)
	return p
}

func (p *relay) run(t *mc.T) {
	go func() {
		err := zmq.Proxy(p.front, p.back)
		if err == nil {
			t.Failf("proxy ended without error", "")
		}
		p.over = true
		p.done <- err
	}()
}

// running fails when the proxy has returned although no side failed.
func (p *relay) running(t *mc.T) {
	if p.over {
		t.Failf("proxy returned", "Proxy returned %v although no side failed", <-p.done)
	}
}

// end closes the sockets and waits for the proxy.
func (p *relay) end(t *mc.T) {
	p.running(t)
	t.Step("end of the proxy")
	p.front.Close()
	t.Step("Proxy returns once a side is closed")
	<-p.done
	p.back.Close()
	p.cancel()
	t.Step("end")
}

func reply(t *mc.T, s zmq.Socket, n int, name string) func() {
	return func() {
		for i := 0; i < n; i++ {
			m, err := s.Recv()
			if err != nil {
				return
			}
			fs := append(frames(m), name)
			if err := s.Send(msg(fs...)); err != nil {
				t.Failf("send failed", "reply: %v", err)
			}
		}
	}
}

// stub is a socket that receives what is in in and then waits or fails, and that fails to
// send failAt.
type stub struct {
	zmq.Socket // nil
	name       string
	in, out    []string
	next       int
	rerr, serr error
	failAt     string
	closed     chan struct{}
}

func newStub(name string) *stub { return &stub{name: name, closed: make(chan struct{})} }

func (s *stub) Recv() (zmq.Msg, error) {
	mc.Yield()
	if s.next < len(s.in) {
		s.next++
		return msg(s.in[s.next-1]), nil
	}
	if s.rerr != nil {
		return zmq.Msg{}, s.rerr
	}
	<-s.closed
	return zmq.Msg{}, errors.New("closed")
}

func (s *stub) Send(m zmq.Msg) error {
	mc.Yield()
	fs := strings.Join(frames(m), ",")
	if s.serr != nil && fs == s.failAt {
		return s.serr
	}
	s.out = append(s.out, fs)
	return nil
}

func (s *stub) SendMulti(m zmq.Msg) error { return s.Send(m) }
func (s *stub) Type() zmq.SocketType      { return zmq.Pair }
func (s *stub) Close() error              { close(s.closed); return nil }

// in reads n messages of a raw peer.
func in(t *mc.T, p *rawPeer, n int, what string) []string {
	var got []string
	for i := 0; i < n; i++ {
		m, err := p.readMsg()
		if err != nil {
			t.Failf("message not forwarded", "%s: %v after %q", what, err, got)
		}
		got = append(got, strings.Join(m, ","))
	}
	return got
}

func init() {
	shapes := [][]string{{"x"}, {""}, {"", "x"}, {"x", ""}, {"a", "b", "c"}, {"", "", ""}, {blob(1, 255)}, {blob(2, 256), "z"}}

	// requests and replies through a ROUTER-DEALER proxy are those of a direct connection
	for _, c := range []struct{ clients, n, quick, deep int }{{1, 1, 2, 3}, {1, 3, 1, 2}, {2, 1, 1, 2}, {2, 2, 1, 2}, {3, 2, 0, 1}} {
		reg(mc.Scenario{Name: fmt.Sprintf("c15/request/%d-%d", c.clients, c.n), Prop: []string{"C15"}, Quick: c.quick, Deep: c.deep, QuickShards: 2, DeepShards: 6, Fn: func(t *mc.T) {
			p := startProxy(t, "ROUTER", "DEALER")
			w := zmq.NewRep(bg, opts()...)
			dial(t, w, ep(2))
			go reply(t, w, c.clients*c.n, "w")()
			clients := []zmq.Socket{w}
			mc.Settle()
			var g group
			for i := 0; i < c.clients; i++ {
				r := zmq.NewReq(bg, opts()...)
				clients = append(clients, r)
				g.Go(func() {
					dial(t, r, ep(1))
					for k := 0; k < c.n; k++ {
						q := fmt.Sprintf("c%d.%d", i, k)
						send(t, r, q, "")
						want(t, "reply through the proxy", recv(t, r), q+",,w")
					}
				})
			}
			g.Wait()
			mc.Settle()
			p.end(t)
			closeAll(t, clients...)
		}})
	}

	// every shape of request and reply
	reg(mc.Scenario{Name: "c15/request-shapes", Prop: []string{"C15"}, Quick: 0, Deep: 1, Fn: func(t *mc.T) {
		p := startProxy(t, "ROUTER", "DEALER")
		w, r := zmq.NewRep(bg, opts()...), zmq.NewReq(bg, opts()...)
		dial(t, w, ep(2))
		dial(t, r, ep(1))
		for k := 0; k < 2; k++ {
			q, a := pick(shapes), pick(shapes)
			send(t, r, q...)
			want(t, "request through the proxy", recv(t, w), showS(q))
			send(t, w, a...)
			want(t, "reply through the proxy", recv(t, r), showS(a))
		}
		p.end(t)
		closeAll(t, w, r)
	}})

	// streams of messages both ways at once
	for _, k := range []struct {
		fk, bk, fp, bp string
		n, quick, deep int
	}{
		{"PAIR", "PAIR", "PAIR", "PAIR", 2, 1, 3}, {"DEALER", "DEALER", "DEALER", "DEALER", 2, 1, 2}, {"PAIR", "DEALER", "PAIR", "ROUTER", 2, 1, 2},
		{"ROUTER", "DEALER", "DEALER", "DEALER", 2, 1, 2}, {"PAIR", "PAIR", "PAIR", "PAIR", 30, 0, 1}, {"ROUTER", "DEALER", "DEALER", "ROUTER", 30, 0, 1},
	} {
		reg(mc.Scenario{Name: fmt.Sprintf("c15/streams/%s-%s-%s-%d", k.fk, k.bk, k.bp, k.n), Prop: []string{"C15"}, Quick: k.quick, Deep: k.deep, QuickShards: 2, DeepShards: 4, Fn: func(t *mc.T) {
			p := startProxy(t, k.fk, k.bk)
			f, b := rawDial(t, 1, k.fp, "f"), rawDial(t, 2, k.bp, "b")
			if k.n > 10 { // more than fits: each stage has to wait for the next
				sim.SetBuf(f.c, 64)
				sim.SetBuf(b.c, 64)
				for _, c := range []*rawPeer{f, b} {
					sim.SetBuf(sim.Peer(c.c), 64)
				}
			}
			mc.Settle()
			pre := ""
			if k.fk == "ROUTER" {
				pre = "f,"
			}
			var there, back, thereIn, backIn []string
			for i := 0; i < k.n; i++ {
				m := fmt.Sprintf("m%d", i)
				there = append(there, m+",,x")
				thereIn = append(thereIn, pre+m+",,x")
				back = append(back, m+",")
				backIn = append(backIn, m+",")
			}
			var g group
			g.Go(func() {
				for _, m := range there {
					f.write(encMsgS(strings.Split(m, ",")...))
				}
			})
			g.Go(func() {
				for _, m := range back {
					b.write(encMsgS(strings.Split(pre+m, ",")...))
				}
			})
			g.Go(func() { want(t, "messages to the backend", strings.Join(in(t, b, k.n, "to the backend"), ";"), strings.Join(thereIn, ";")) })
			g.Go(func() {
				want(t, "messages to the frontend", strings.Join(in(t, f, k.n, "to the frontend"), ";"), strings.Join(backIn, ";"))
			})
			g.Wait()
			mc.Settle()
			p.running(t)
			// and nothing twice
			more := 0
			for _, c := range []*rawPeer{f, b} {
				go func() {
					if m, err := c.readMsg(); err == nil {
						t.Failf("message forwarded twice", "%q", m)
					}
					more++
				}()
			}
			mc.Settle()
			p.end(t)
			f.c.Close()
			b.c.Close()
		}})
	}

	// one direction does not wait for the other
	for dir := 0; dir < 2; dir++ {
		reg(mc.Scenario{Name: fmt.Sprintf("c15/one-way-blocked/%d", dir), Prop: []string{"C15"}, Quick: 0, Deep: 1, Fn: func(t *mc.T) {
			p := startProxy(t, "PAIR", "PAIR")
			x, y := rawDial(t, 1, "PAIR", ""), rawDial(t, 2, "PAIR", "")
			if dir == 1 {
				x, y = y, x
			}
			sim.SetBuf(sim.Peer(y.c), 8)
			sim.SetBuf(y.c, 8)
			mc.Settle()
			for i := 0; i < 20; i++ { // y does not read any of them
				x.write(encMsgS(fmt.Sprintf("stuck%02d", i)))
			}
			mc.Settle()
			for i := 0; i < 15; i++ {
				y.write(encMsgS(fmt.Sprint("m", i)))
				want(t, "message the other way", strings.Join(in(t, x, 1, "the other way"), ""), fmt.Sprint("m", i))
			}
			for i := 0; i < 20; i++ {
				want(t, "message after the wait", strings.Join(in(t, y, 1, "after the wait"), ""), fmt.Sprintf("stuck%02d", i))
			}
			p.end(t)
			x.c.Close()
			y.c.Close()
		}})
	}

	// every shape of message, each way
	for _, k := range [][4]string{{"PAIR", "PAIR", "PAIR", "PAIR"}, {"DEALER", "PAIR", "DEALER", "PAIR"}, {"ROUTER", "DEALER", "DEALER", "DEALER"}, {"DEALER", "ROUTER", "DEALER", "DEALER"}} {
		reg(mc.Scenario{Name: "c15/shapes/" + k[0] + "-" + k[1], Prop: []string{"C15"}, Quick: 0, Deep: 1, Fn: func(t *mc.T) {
			p := startProxy(t, k[0], k[1])
			f, b := rawDial(t, 1, k[2], "f"), rawDial(t, 2, k[3], "b")
			mc.Settle()
			for i := 0; i < 3; i++ {
				sh := pick(shapes)
				out, exp := sh, sh
				from, to := f, b
				fk, tk, tid := k[0], k[1], "b"
				if mc.Choose(2) == 1 {
					from, to = b, f
					fk, tk, tid = k[1], k[0], "f"
				}
				if fk == "ROUTER" { // labels what it receives
					exp = append([]string{from.id0()}, exp...)
				}
				if tk == "ROUTER" { // takes the addressee from what it sends
					out = append([]string{tid}, out...)
				}
				from.write(encMsgS(out...))
				m, err := to.readMsg()
				if err != nil {
					t.Failf("message not forwarded", "%v", err)
				}
				if !sameFrames(m, exp) {
					t.Failf("message changed by the proxy", "%q became %q", shape(exp), shape(m))
				}
			}
			p.end(t)
			f.c.Close()
			b.c.Close()
		}})
	}

	// publications through an XSUB-XPUB proxy
	reg(mc.Scenario{Name: "c15/publications", Prop: []string{"C15"}, Quick: 1, Deep: 2, QuickShards: 2, DeepShards: 4, Fn: func(t *mc.T) {
		p := startProxy(t, "XSUB", "XPUB")
		pub := rawDial(t, 1, "PUB", "")
		mc.Settle()
		send(t, p.front, "\x01")
		if m, err := pub.readMsg(); err != nil || !sameFrames(m, []string{"\x01"}) {
			t.Failf("subscription not sent", "%q %v", m, err)
		}
		a, b := zmq.NewSub(bg, opts()...), zmq.NewSub(bg, opts()...)
		subscribe(t, a, "")
		subscribe(t, b, "b")
		dial(t, a, ep(2))
		dial(t, b, ep(2))
		mc.Settle()
		for _, m := range []string{"a1", "b1", "a2", "b2"} {
			pub.write(encMsgS(m, ""))
		}
		for _, m := range []string{"a1", "b1", "a2", "b2"} {
			want(t, "publication", recv(t, a), m+",")
		}
		for _, m := range []string{"b1", "b2"} {
			want(t, "publication", recv(t, b), m+",")
		}
		ma, mb := noMore(t, "a", a), noMore(t, "b", b)
		mc.Settle()
		ma()
		mb()
		p.end(t)
		closeAll(t, a, b)
		pub.c.Close()
	}})

	// a missing socket is refused at once, and the other is left alone
	reg(mc.Scenario{Name: "c15/missing", Prop: []string{"C15"}, Quick: 1, Deep: 2, Fn: func(t *mc.T) {
		a, b := zmq.NewPair(bg, opts()...), zmq.NewPair(bg, opts()...)
		listen(t, a, ep(1))
		dial(t, b, ep(1))
		for _, f := range []func() error{func() error { return zmq.Proxy(nil, a) }, func() error { return zmq.Proxy(a, nil) }, func() error { return zmq.Proxy(nil, nil) }} {
			t.Step("Proxy without a socket")
			if f() == nil {
				t.Failf("proxy without a socket accepted", "")
			}
			send(t, b, "m")
			want(t, "message", recv(t, a), "m")
		}
		closeAll(t, a, b)
	}})

	// a side that fails ends the proxy with an error, and only that
	for _, how := range []string{"close-front", "close-back", "cancel", "lose-front", "lose-back"} {
		reg(mc.Scenario{Name: "c15/failure/" + how, Prop: []string{"C15"}, Quick: 1, Deep: 3, DeepShards: 4, Fn: func(t *mc.T) {
			p := startProxy(t, "DEALER", "PAIR")
			f, b := rawDial(t, 1, "DEALER", ""), rawDial(t, 2, "PAIR", "")
			f.write(encMsgS("m1"))
			want(t, "message", strings.Join(in(t, b, 1, "to the backend"), ""), "m1")
			b.write(encMsgS("m2"))
			want(t, "message", strings.Join(in(t, f, 1, "to the frontend"), ""), "m2")
			time.Sleep(time.Hour)
			p.running(t)
			t.Step("failure of a side")
			switch how {
			case "close-front":
				p.front.Close()
			case "close-back":
				p.back.Close()
			case "cancel":
				p.cancel()
			case "lose-front":
				sim.Sim.Break(f.c)
			case "lose-back":
				b.c.Close()
			}
			t.Step("Proxy returns when a side fails")
			<-p.done
			t.Step("end")
			p.front.Close()
			p.back.Close()
			p.cancel()
			f.c.Close()
			b.c.Close()
		}})
	}

	// sockets that fail at any point of a history: what was received goes out in order up to
	// the failure, nothing after it, and Proxy reports the failure
	reg(mc.Scenario{Name: "c15/any-failure", Prop: []string{"C15"}, Quick: 1, Deep: 2, DeepShards: 4, SplitChoose: true, Fn: func(t *mc.T) {
		f, b := newStub("f"), newStub("b")
		var expected []error
		for _, d := range []struct{ from, to *stub }{{f, b}, {b, f}} {
			n := mc.Choose(3)
			for i := 0; i < n; i++ {
				d.from.in = append(d.from.in, fmt.Sprint(d.from.name, i))
			}
			switch k := mc.Choose(2 + n); {
			case k == 0: // no failure
			case k == 1:
				d.from.rerr = errors.New("recv " + d.from.name)
				expected = append(expected, d.from.rerr)
			default:
				d.to.serr, d.to.failAt = errors.New("send "+d.to.name), d.from.in[k-2]
				expected = append(expected, d.to.serr)
			}
		}
		done := make(chan error, 1)
		over := false
		go func() {
			done <- zmq.Proxy(f, b)
			over = true
		}()
		mc.Settle()
		for _, d := range []struct{ from, to *stub }{{f, b}, {b, f}} {
			exp := d.from.in
			for i, m := range exp {
				if m == d.to.failAt {
					exp = exp[:i]
				}
			}
			got := strings.Join(d.to.out, " ")
			if len(expected) == 0 || len(expected) == 1 && !over {
				want(t, "messages forwarded", got, strings.Join(exp, " "))
			} else if !strings.HasPrefix(strings.Join(exp, " ")+" ", got) { // may end with the other direction
				t.Failf("wrong messages forwarded", "%s, not a prefix of %s", got, exp)
			}
		}
		if !over && len(expected) > 0 {
			t.Failf("proxy goes on after a failure", "%v", expected)
		}
		if over {
			err := <-done
			ok := false
			for _, e := range expected {
				ok = ok || errors.Is(err, e)
			}
			if !ok {
				t.Failf("wrong error of the proxy", "%v, not one of %v", err, expected)
			}
		}
		f.Close()
		b.Close()
		if !over {
			t.Step("Proxy returns once its sockets are closed")
			<-done
		}
	}})

	// clients that come and go do not end a ROUTER-DEALER proxy, nor does one that goes
	// away before its reply
	for _, n := range []int{2, 3} {
		reg(mc.Scenario{Name: fmt.Sprintf("c15/clients-come-and-go/%d", n), Prop: []string{"C15"}, Quick: 3 - n, Deep: 4 - n, QuickShards: 2, DeepShards: 4, Fn: func(t *mc.T) {
			p := startProxy(t, "ROUTER", "DEALER")
			w := zmq.NewRep(bg, opts()...)
			dial(t, w, ep(2))
			go reply(t, w, n, "w")()
			for i := 0; i < n; i++ {
				c := rawDial(t, 1, "REQ", "")
				c.write(encMsgS("", fmt.Sprint("q", i)))
				want(t, "reply", strings.Join(in(t, c, 1, "reply"), ""), fmt.Sprintf(",q%d,w", i))
				if mc.Choose(2) == 1 {
					sim.Sim.Break(c.c)
				}
				c.c.Close()
				if i > 0 {
					mc.Settle()
				}
				p.running(t)
			}
			p.end(t)
			closeAll(t, w)
		}})
	}

	// messages that arrive before the other side has a peer are forwarded to the first one
	reg(mc.Scenario{Name: "c15/late", Prop: []string{"C15"}, Quick: 1, Deep: 3, DeepShards: 4, Fn: func(t *mc.T) {
		p := startProxy(t, "PAIR", "PAIR")
		f := rawDial(t, 1, "PAIR", "")
		for i := 0; i < 3; i++ {
			f.write(encMsgS(fmt.Sprint("m", i), ""))
		}
		if mc.Choose(2) == 1 {
			time.Sleep(10 * time.Second)
		}
		p.running(t)
		b := rawDial(t, 2, "PAIR", "")
		want(t, "messages", strings.Join(in(t, b, 3, "to a late peer"), ";"), "m0,;m1,;m2,")
		p.end(t)
		f.c.Close()
		b.c.Close()
	}})

	// messages that were already waiting when the proxy starts
	reg(mc.Scenario{Name: "c15/waiting", Prop: []string{"C15"}, Quick: 1, Deep: 3, DeepShards: 4, Fn: func(t *mc.T) {
		p := &relay{front: zmq.NewPair(bg, opts()...), back: zmq.NewPair(bg, opts()...), cancel: func() {}, done: make(chan error, 1)}
		listen(t, p.front, ep(1))
		listen(t, p.back, ep(2))
		f, b := rawDial(t, 1, "PAIR", ""), rawDial(t, 2, "PAIR", "")
		for i := 0; i < 3; i++ {
			f.write(encMsgS(fmt.Sprint("m", i)))
			b.write(encMsgS(fmt.Sprint("n", i)))
		}
		mc.Settle()
		p.run(t)
		want(t, "messages", strings.Join(in(t, b, 3, "to the backend"), ";"), "m0;m1;m2")
		want(t, "messages", strings.Join(in(t, f, 3, "to the frontend"), ";"), "n0;n1;n2")
		p.end(t)
		f.c.Close()
		b.c.Close()
	}})

	// two proxies in a row
	reg(mc.Scenario{Name: "c15/chain", Prop: []string{"C15"}, Quick: 0, Deep: 1, DeepShards: 4, Fn: func(t *mc.T) {
		p := startProxy(t, "ROUTER", "DEALER")
		q := &relay{front: zmq.NewRouter(bg, opts()...), back: zmq.NewDealer(bg, opts()...), cancel: func() {}, done: make(chan error, 1)}
		dial(t, q.front, ep(2))
		listen(t, q.back, ep(3))
		q.run(t)
		w := zmq.NewRep(bg, opts()...)
		dial(t, w, ep(3))
		go reply(t, w, 4, "w")()
		mc.Settle()
		var g group
		var cs []zmq.Socket
		for i := 0; i < 2; i++ {
			c := zmq.NewReq(bg, opts()...)
			cs = append(cs, c)
			dial(t, c, ep(1))
			g.Go(func() {
				for k := 0; k < 2; k++ {
					m := fmt.Sprintf("%d.%d", i, k)
					send(t, c, m, "", blob(k, 300))
					want(t, "reply", recv(t, c), showS([]string{m, "", blob(k, 300), "w"}))
				}
			})
		}
		g.Wait()
		q.end(t)
		p.front.Close()
		<-p.done
		p.back.Close()
		closeAll(t, append(cs, w)...)
	}})
}

// id0 is the identity the peer announced in its handshake.
func (p *rawPeer) id0() string { return p.own }
