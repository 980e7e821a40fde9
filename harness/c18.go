package main

import (
	"fmt"
	"net"
	"strings"
	"sync"
	"time"

	zmq "github.com/luxfi/zmq/v4"
	"github.com/luxfi/zmq/v4/internal/zzmc/mc"
	sim "github.com/luxfi/zmq/v4/internal/zzmc/xnet"
)

// arena is a socket with peers, for operations that run at once.
type arena struct {
	t    *mc.T
	kind string
	s    zmq.Socket
	mu   sync.Mutex
	cs   []net.Conn
	ls   []net.Listener
	a, b *rawPeer
	spot int
}

func (x *arena) keep(c net.Conn) {
	x.mu.Lock()
	x.cs = append(x.cs, c)
	x.mu.Unlock()
}

// join connects a raw peer without insisting: the socket may be closing.
func (x *arena) join(id string) *rawPeer {
	c, err := net.Dial("tcp", "127.0.0.1:5001")
	if err != nil {
		return nil
	}
	x.keep(c)
	p := &rawPeer{t: x.t, c: c}
	if x.kind == "STREAM" || p.handshake(partner(x.kind), id, false) != nil {
		return nil
	}
	return p
}

// host runs a raw peer that can be dialed.
func (x *arena) host(n int) {
	l, err := net.Listen("tcp", fmt.Sprint("127.0.0.1:", 5000+n))
	if err != nil {
		x.t.Failf("harness", "%v", err)
	}
	x.mu.Lock()
	x.ls = append(x.ls, l)
	x.mu.Unlock()
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			x.keep(c)
			p := &rawPeer{t: x.t, c: c}
			p.handshake(partner(x.kind), fmt.Sprint("h", n), true)
		}
	}()
}

func newArena(t *mc.T, kind string) *arena {
	x := &arena{t: t, kind: kind, s: kinds[kind](bg, opts(zmq.WithTimeout(time.Second), zmq.WithDialerMaxRetries(1))...)}
	listen(t, x.s, ep(1))
	x.host(2)
	x.host(3)
	if kind == "SUB" {
		subscribe(t, x.s, "a")
	}
	x.a, x.b = x.join("a"), x.join("b")
	dial(t, x.s, ep(3))
	mc.Settle()
	for _, p := range []*rawPeer{x.a, x.b} {
		x.chat(p)
	}
	mc.Settle()
	return x
}

// chat has a peer send what the socket's kind has a use for.
func (x *arena) chat(p *rawPeer) {
	switch x.kind {
	case "PUB", "XPUB":
		p.write(append(encMsgS("\x01a"), encMsgS("hello")...))
	case "REP", "REQ":
		p.write(encMsgS("", "a"))
	case "PUSH":
	default:
		p.write(append(encMsgS("a", "1"), encMsgS("a2")...))
	}
}

func (x *arena) do(op string) {
	s := x.s
	m := msg("a", "body")
	switch op {
	case "send":
		s.Send(m)
		if x.kind == "ROUTER" {
			s.Send(msg("b", "body"))
		}
	case "multi":
		s.SendMulti(m)
	case "recv":
		if r, err := s.Recv(); err == nil {
			spoil(r)
		}
	case "listen": // elsewhere, which is refused
		s.Listen(ep(5))
	case "dial":
		s.Dial(ep(2))
	case "dial-no":
		s.Dial(ep(6))
	case "subscribe":
		s.SetOption(zmq.OptionSubscribe, "b")
		s.SetOption(zmq.OptionUnsubscribe, "a")
	case "option":
		s.SetOption(zmq.OptionIdentity, "i")
		s.SetOption("other", 1)
		s.GetOption(zmq.OptionHWM)
		s.SetOption(zmq.OptionHWM, 5) // nothing after it: no lock orders its effect before another's
	case "query":
		s.Type()
		if a := s.Addr(); a != nil {
			_ = a.String()
		}
		s.GetOption("other")
		if q, ok := s.(zmq.Topics); ok {
			for _, k := range q.Topics() {
				_ = k
			}
		}
	case "close":
		s.Close()
	case "join":
		if p := x.join("c"); p != nil {
			x.chat(p)
		}
	case "break":
		sim.Sim.Break(x.a.c)
	case "leave":
		x.b.c.Close()
	case "incoming":
		switch x.kind {
		case "PUB", "XPUB":
			x.a.write(append(encMsgS("\x01b"), encMsgS("\x00a")...))
		default:
			x.chat(x.a)
		}
	case "ping":
		x.a.write(encCmd("PING", []byte{0, 1}))
	case "twin": // two calls in a row of what often goes together
		s.Send(m)
		s.Recv()
	}
}

// end closes everything; whatever is still going on has to end with it.
func (x *arena) end(g *group) {
	x.t.Step("everything ends with Close")
	x.s.Close()
	g.Wait()
	x.mu.Lock()
	defer x.mu.Unlock()
	for _, l := range x.ls {
		l.Close()
	}
	for _, c := range x.cs {
		c.Close()
	}
	x.t.Step("end")
}

func init() {
	ops := []string{"send", "multi", "recv", "dial", "subscribe", "option", "query", "close", "join", "break", "leave", "incoming", "ping", "listen", "dial-no", "twin"}

	// every pair of operations, at once, on every kind of socket
	for _, kind := range noStream {
		reg(mc.Scenario{Name: "c18/pairs/" + kind, Prop: []string{"C18"}, Quick: 0, Deep: 1, QuickShards: 1, DeepShards: 4, SplitChoose: true, Race: true, RaceBound: 0, Fn: func(t *mc.T) {
			i := mc.Choose(len(ops))
			j := i + mc.Choose(len(ops)-i)
			x := newArena(t, kind)
			var g group
			for _, op := range []string{ops[i], ops[j]} {
				g.Go(func() { x.do(op) })
			}
			mc.Settle()
			x.end(&g)
		}})

		// and of three, one of which changes the connections
		reg(mc.Scenario{Name: "c18/triples/" + kind, Prop: []string{"C18"}, Quick: -1, Deep: 0, DeepShards: 1, SplitChoose: true, Race: true, RaceBound: -1, Fn: func(t *mc.T) {
			k := pick([]string{"close", "join", "break", "dial"})
			i := mc.Choose(len(ops))
			j := i + mc.Choose(len(ops)-i)
			x := newArena(t, kind)
			var g group
			for _, op := range []string{k, ops[i], ops[j]} {
				g.Go(func() { x.do(op) })
			}
			mc.Settle()
			x.end(&g)
		}})

		// all at once
		reg(mc.Scenario{Name: "c18/all/" + kind, Prop: []string{"C18"}, Quick: 0, Deep: 1, DeepShards: 2, Race: true, RaceBound: 0, Fn: func(t *mc.T) {
			x := newArena(t, kind)
			var g group
			for _, op := range ops {
				g.Go(func() { x.do(op) })
			}
			mc.Settle()
			x.end(&g)
		}})
	}

	// the pairs most likely to meet, more thoroughly
	for _, kind := range noStream {
		for _, pair := range []string{"send/send", "send/break", "recv/break", "close/send", "close/recv", "close/join", "close/dial", "close/close", "join/query", "break/query", "break/break", "join/send", "incoming/query", "incoming/send", "dial/break"} {
			if strings.HasPrefix(pair, "incoming") && kind != "PUB" && kind != "XPUB" {
				continue
			}
			reg(mc.Scenario{Name: "c18/deep-pairs/" + kind + "/" + strings.ReplaceAll(pair, "/", "+"), Prop: []string{"C18"}, Quick: -1, Deep: 2, DeepShards: 2, Race: true, RaceBound: -1, Fn: func(t *mc.T) {
				x := newArena(t, kind)
				var g group
				for _, op := range strings.Split(pair, "/") {
					g.Go(func() { x.do(op) })
				}
				mc.Settle()
				x.end(&g)
			}})
		}
	}

	// a socket that is not listening yet: Listen at once with everything else
	for _, kind := range noStream {
		reg(mc.Scenario{Name: "c18/listen/" + kind, Prop: []string{"C18"}, Quick: 0, Deep: 2, Race: true, RaceBound: 1, Fn: func(t *mc.T) {
			x := &arena{t: t, kind: kind, s: kinds[kind](bg, opts(zmq.WithTimeout(time.Second), zmq.WithDialerMaxRetries(1))...)}
			x.host(2)
			op := pick([]string{"query", "close", "dial", "option", "subscribe", "send", "recv", "listen", "join"})
			var g group
			g.Go(func() { x.s.Listen(ep(1)) })
			g.Go(func() { x.do(op) })
			mc.Settle()
			x.end(&g)
		}})
	}

	// both ends are sockets, over each transport
	pairs := [][2]string{{"PUSH", "PULL"}, {"PUB", "SUB"}, {"XPUB", "XSUB"}, {"REQ", "REP"}, {"DEALER", "ROUTER"}, {"PAIR", "PAIR"}}
	for _, tr := range []string{"tcp", "inproc"} {
		for _, k := range pairs {
			reg(mc.Scenario{Name: "c18/ends/" + tr + "-" + k[0], Prop: []string{"C18"}, Quick: 0, Deep: 1, QuickShards: 1, DeepShards: 2, SplitChoose: true, Race: true, RaceBound: 0, Fn: func(t *mc.T) {
				both := []string{"send", "recv", "query", "close", "subscribe"}
				i, j := pick(both), pick(both)
				e := endpoint(tr, 1)
				a, b := kinds[k[0]](bg, opts(zmq.WithTimeout(time.Second))...), kinds[k[1]](bg, opts(zmq.WithTimeout(time.Second))...)
				x, y := &arena{t: t, kind: k[0], s: a}, &arena{t: t, kind: k[1], s: b}
				listen(t, a, e)
				dial(t, b, e)
				if k[1] == "SUB" {
					subscribe(t, b, "")
				}
				if k[1] == "XSUB" {
					send(t, b, "\x01")
				}
				mc.Settle()
				var g group
				g.Go(func() { x.do(i) })
				g.Go(func() { y.do(j) })
				g.Go(func() { x.do("send") })
				mc.Settle()
				x.s.Close()
				y.end(&g)
			}})
		}
	}
}
