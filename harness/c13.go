package main

import (
	"fmt"
	"net"
	"strings"
	"time"

	zmq "github.com/luxfi/zmq/v4"
	"github.com/luxfi/zmq/v4/internal/zzmc/mc"
	sim "github.com/luxfi/zmq/v4/internal/zzmc/xnet"
)

const delay = 250 * time.Millisecond

// dialsTo counts the connection attempts to an endpoint.
func dialsTo(n int) (c int) {
	for _, d := range sim.Sim.DialLog {
		if strings.HasSuffix(d.Addr, fmt.Sprint(":", 5000+n)) {
			c++
		}
	}
	return
}

func lose(c net.Conn, reset bool) {
	if reset {
		sim.Sim.Break(c)
	}
	c.Close()
}

// endpointPeer is a raw peer behind an endpoint that socket under test dials.
type endpointPeer struct {
	t    *mc.T
	n    int
	typ  string
	l    *rawServer
	p    *rawPeer
	got  []string
	ups  int
	quit bool
}

func newEndpoint(t *mc.T, n int, typ string) *endpointPeer {
	return &endpointPeer{t: t, n: n, typ: typ, l: rawListen(t, n)}
}

// serve accepts connections, one after the other, and logs what comes in.
func (e *endpointPeer) serve(g *group) {
	g.Go(func() {
		for {
			c, err := e.l.l.Accept()
			if err != nil {
				return
			}
			p := &rawPeer{t: e.t, c: c, mech: "NULL"}
			if err := p.handshake(e.typ, fmt.Sprint("e", e.n), true); err != nil {
				c.Close()
				continue
			}
			e.p = p
			e.ups++
			for {
				m, err := p.readMsg()
				if err != nil {
					break
				}
				e.got = append(e.got, showS(m))
				if e.typ == "REP" {
					p.write(encMsgS(m...))
				}
			}
			c.Close()
		}
	})
}

func (e *endpointPeer) stop() {
	e.l.l.Close()
	if e.p != nil {
		e.p.c.Close()
	}
}

// use makes the socket exchange a message with the peer and tells whether it could.
func use(t *mc.T, s zmq.Socket, e *endpointPeer, what string) bool {
	k := string(s.Type())
	switch {
	case k == "PUB" || k == "XPUB":
		e.p.write(encMsgS("\x01"))
		mc.Settle()
		n := len(e.got)
		send(t, s, what)
		mc.Settle()
		return len(e.got) == n+1 && e.got[n] == what
	case k == "REQ":
		if s.Send(msg(what)) != nil {
			return false
		}
		for {
			m, err := s.Recv()
			if err != nil || show(m) == what {
				return err == nil
			}
		}
	case k == "REP" || canRecv(k):
		fs := []string{what}
		if k == "REP" {
			fs = []string{"", what}
		}
		if e.p.write(encMsgS(fs...)) != nil {
			return false
		}
		m := frames(recvOK(t, s))
		ok := m[len(m)-1] == what
		if k != "REP" {
			return ok
		}
		n := len(e.got)
		send(t, s, "re")
		mc.Settle()
		return ok && len(e.got) == n+1 && e.got[n] == ",re"
	}
	n := len(e.got)
	if s.Send(msg(what)) != nil {
		return false
	}
	mc.Settle()
	return len(e.got) == n+1 && e.got[n] == what
}

// sendErr sends and returns the error.
func sendErr(s zmq.Socket, multi bool, fs []string) error {
	if multi {
		return s.SendMulti(msg(fs...))
	}
	return s.Send(msg(fs...))
}

// notice lets a socket that only notices when it writes see a loss.
func notice(s zmq.Socket) {
	mc.Settle()
	if k := string(s.Type()); !canRecv(k) || k == "REQ" {
		s.Send(msg("lost"))
	}
	mc.Settle()
}

func init() {
	// attempts of Dial: number and spacing
	reg(mc.Scenario{Name: "c13/attempts", Prop: []string{"C13"}, Quick: 0, Deep: 2, Fn: func(t *mc.T) {
		n := pick([]int{0, 1, 2, 5})
		d := pick([]time.Duration{time.Millisecond, delay, time.Minute})
		k := pick(kindNames)
		tr := mc.Choose(2)
		s := kinds[k](bg, opts(zmq.WithDialerMaxRetries(n), zmq.WithDialerRetry(d))...)
		e := []string{ep(1), "ipc:///tmp/verif-sim-1"}[tr]
		if err := s.Dial(e); err == nil {
			t.Failf("dial without listener succeeds", "")
		}
		l := sim.Sim.DialLog
		if len(l) != n+1 {
			t.Failf("wrong number of attempts", "%d with %d retries", len(l), n)
		}
		for i, x := range l {
			if x.At != time.Duration(i)*d {
				t.Failf("wrong spacing of attempts", "attempt %d at %v, every %v", i, x.At, d)
			}
		}
		if mc.Elapsed() > time.Duration(n+1)*d {
			t.Failf("wrong spacing of attempts", "Dial took %v", mc.Elapsed())
		}
		closeAll(t, s)
	}})
	reg(mc.Scenario{Name: "c13/attempts-default", Prop: []string{"C13"}, Quick: 0, Deep: 1, Fn: func(t *mc.T) {
		s := zmq.NewPush(bg)
		s.Dial(ep(1))
		if len(sim.Sim.DialLog) != 11 || sim.Sim.DialLog[10].At != 10*delay {
			t.Failf("wrong number of attempts", "%v", sim.Sim.DialLog)
		}
		closeAll(t, s)
	}})
	// the listener comes between two attempts
	reg(mc.Scenario{Name: "c13/late", Prop: []string{"C13"}, Quick: 1, Deep: 2, DeepShards: 2, Fn: func(t *mc.T) {
		n := pick([]int{1, 3, -1})
		at := mc.Choose(6)
		s := zmq.NewPush(bg, opts(zmq.WithDialerMaxRetries(n), zmq.WithDialerRetry(delay))...)
		o := zmq.NewPull(bg, opts()...)
		var g group
		g.Go(func() {
			time.Sleep(time.Duration(at)*delay - delay/2)
			listen(t, o, ep(1))
		})
		t.Step("dial")
		err := s.Dial(ep(1))
		if ok := n < 0 || at <= n; (err == nil) != ok {
			t.Failf("wrong verdict of Dial", "with %d retries, listener before attempt %d: %v", n, at, err)
		}
		exp := at + 1
		if n >= 0 {
			exp = min(at, n) + 1
		}
		if at == 0 {
			exp = 1 + dialsTo(1) - 1
		}
		if l := sim.Sim.DialLog; len(l) != exp {
			t.Failf("wrong number of attempts", "%v", l)
		}
		g.Wait()
		if err == nil {
			send(t, s, "m")
			want(t, "message", recv(t, o), "m")
		}
		closeAll(t, s, o)
	}})

	// a dialed connection is lost, any number of times
	for _, k := range kindNames[:11] {
		for _, rec := range []bool{true, false} {
			reg(mc.Scenario{Name: fmt.Sprintf("c13/loss/%s/reconnect=%v", k, rec), Prop: []string{"C13"}, Quick: 1, Deep: 2, DeepShards: 2, SplitChoose: true, Fn: func(t *mc.T) {
				reset := mc.Choose(2) == 1
				sim.Sim.Blackhole = mc.Choose(2) == 1
				again := mc.Choose(3)
				var g group
				e := newEndpoint(t, 1, partner(k))
				e.serve(&g)
				s := kinds[k](bg, opts(zmq.WithAutomaticReconnect(rec), zmq.WithDialerRetry(delay), zmq.WithDialerMaxRetries(3))...)
				if k == "SUB" {
					subscribe(t, s, "m")
				}
				dial(t, s, ep(1))
				if k == "XSUB" {
					send(t, s, "\x01m")
				}
				mc.Settle()
				if !use(t, s, e, "m0") {
					t.Failf("connection does not work", "")
				}
				if !rec {
					again = 0
				}
				for i := 0; i <= again; i++ {
					e.got = nil
					lose(e.p.c, reset)
					notice(s)
					if sim.Sim.Blackhole {
						notice(s)
					}
					exp := 1
					if rec {
						exp = i + 2
					}
					if d := dialsTo(1); d != exp || e.ups != exp {
						t.Failf("wrong number of connections", "%d attempts, %d connections instead of %d", d, e.ups, exp)
					}
					if !rec {
						break
					}
					if k == "SUB" {
						subs := 0
						for _, x := range e.got {
							if x == "\x01m" {
								subs++
							}
						}
						if subs == 0 {
							t.Failf("not resubscribed", "%q", e.got)
						}
					}
					if !use(t, s, e, fmt.Sprint("m", i+1)) {
						t.Failf("socket does not resume after reconnection", "got %q", e.got)
					}
				}
				if n := sim.Sim.OpenConns(); rec && n != 2 || !rec && n != 0 {
					t.Failf("lost connection kept", "%d ends are open", n)
				}
				closeAll(t, s)
				e.stop()
				g.Wait()
			}})
		}

		// the endpoint is away for a while
		reg(mc.Scenario{Name: "c13/away/" + k, Prop: []string{"C13"}, Quick: 1, Deep: 2, DeepShards: 2, SplitChoose: true, Fn: func(t *mc.T) {
			retries := pick([]int{2, -1})
			gap := mc.Choose(4) // attempts that are refused
			var g group
			e := newEndpoint(t, 1, partner(k))
			e.serve(&g)
			s := kinds[k](bg, opts(zmq.WithDialerRetry(delay), zmq.WithDialerMaxRetries(retries))...)
			if k == "SUB" {
				subscribe(t, s, "")
			}
			dial(t, s, ep(1))
			mc.Settle()
			at := mc.Elapsed()
			e.stop()
			notice(s)
			if gap > 0 {
				time.Sleep(time.Duration(gap)*delay - delay/2 - (mc.Elapsed() - at))
			}
			f := newEndpoint(t, 1, partner(k))
			f.serve(&g)
			time.Sleep(time.Second)
			mc.Settle()
			// an attempt was made at once, then every delay
			ok := gap > 0 && (retries < 0 || gap <= retries)
			if gap == 0 {
				ok = true // refused once, and again later
			}
			if (f.ups > 0) != ok {
				t.Failf("wrong reconnection", "endpoint back before attempt %d of %d: %d connections, attempts %v", gap, retries, f.ups, sim.Sim.DialLog)
			}
			if f.ups > 1 {
				t.Failf("wrong number of connections", "%d", f.ups)
			}
			if ok && k != "XSUB" && !use(t, s, f, "m") {
				t.Failf("socket does not resume after reconnection", "got %q", f.got)
			}
			closeAll(t, s)
			f.stop()
			g.Wait()
		}})

		// whatever write meets the loss, at whatever byte
		reg(mc.Scenario{Name: "c13/noticed/" + k, Prop: []string{"C13"}, Quick: 1, Deep: 2, SplitChoose: true, Fn: func(t *mc.T) {
			s := kinds[k](bg, opts(zmq.WithDialerRetry(delay), zmq.WithDialerMaxRetries(-1))...)
			multi := mc.Choose(2) == 1
			n := 1 + mc.Choose(3)
			buf := pick([]int{0, 1, 2, 4, 7})
			reset := mc.Choose(2) == 1
			l := rawListen(t, 1)
			var g group
			var p *rawPeer
			g.Go(func() { p = l.accept("NULL", partner(k), "peer") })
			if k == "SUB" {
				subscribe(t, s, "")
			}
			dial(t, s, ep(1))
			g.Wait()
			switch k {
			case "PUB", "XPUB":
				p.write(encMsgS("\x01"))
			case "REP":
				p.write(encMsgS("", "q"))
				recvOK(t, s)
			}
			mc.Settle()
			op := func() {
				fs := []string{"aa", "bb", "cc"}[:n]
				switch k {
				case "ROUTER":
					fs = append([]string{"peer"}, fs...)
				case "XSUB":
					fs = []string{"\x01aa"}
				}
				sendErr(s, multi, fs)
			}
			if buf > 0 {
				sim.SetBuf(sim.Peer(p.c), buf)
				g.Go(op)
				mc.Settle()
			}
			lose(p.c, reset)
			mc.Settle()
			for i := 0; i < 2 && dialsTo(1) < 2; i++ {
				if k == "REP" {
					break // reads as well
				}
				op()
				mc.Settle()
			}
			g.Wait()
			if k != "SUB" && k != "PULL" && dialsTo(1) < 2 {
				t.Failf("loss not noticed", "after two messages of %d frames, multi %v", n, multi)
			}
			l.l.Close()
			mc.Settle()
			closeAll(t, s)
		}})

		// the endpoint accepts connections and ends every one of them, for a while or for good
		reg(mc.Scenario{Name: "c13/refusing/" + k, Prop: []string{"C13"}, Quick: 1, Deep: 2, SplitChoose: true, Fn: func(t *mc.T) {
			retries := pick([]int{0, 2})
			how := mc.Choose(3)
			bad := pick([]int{1, 2, 100}) // connections that are refused
			first := mc.Choose(2) == 1    // from the first one on
			s := kinds[k](bg, opts(zmq.WithDialerRetry(delay), zmq.WithDialerMaxRetries(retries))...)
			if k == "SUB" {
				subscribe(t, s, "")
			}
			var g group
			var e *endpointPeer
			if !first {
				e = newEndpoint(t, 1, partner(k))
				e.serve(&g)
				dial(t, s, ep(1))
				mc.Settle()
				e.stop()
				mc.Settle()
			}
			l := rawListen(t, 1)
			conns := 0
			var p *rawPeer
			g.Go(func() {
				for {
					c, err := l.l.Accept()
					if err != nil {
						return
					}
					conns++
					p = &rawPeer{t: t, c: c, mech: "NULL"}
					if conns <= bad {
						switch how {
						case 1:
							p.write(encGreeting("NULL", false))
						case 2:
							p.write(encGreeting("PLAIN", true))
						}
						c.Close()
						continue
					}
					p.handshake(partner(k), "e", true)
				}
			})
			if first {
				if err := s.Dial(ep(1)); err == nil {
					t.Failf("dial succeeds without handshake", "")
				}
			} else {
				notice(s)
			}
			time.Sleep(20 * delay)
			mc.Settle()
			max := retries + 1
			if first {
				max = 1
			}
			if exp := min(max, bad+1); conns > exp || first && conns != exp {
				t.Failf("wrong number of attempts", "%d connections with %d retries, %d refused", conns, retries, bad)
			}
			t.Outcome(fmt.Sprint(conns))
			closeAll(t, s)
			l.l.Close()
			if p != nil {
				p.c.Close()
			}
			g.Wait()
		}})

		// two endpoints, one is lost: the other one is served on
		reg(mc.Scenario{Name: "c13/other/" + k, Prop: []string{"C13"}, Quick: 1, Deep: 2, DeepShards: 2, SplitChoose: true, Fn: func(t *mc.T) {
			rec := mc.Choose(2) == 1
			reset := mc.Choose(2) == 1
			lost := mc.Choose(2)
			var g group
			es := []*endpointPeer{newEndpoint(t, 1, partner(k)), newEndpoint(t, 2, partner(k))}
			s := kinds[k](bg, opts(zmq.WithAutomaticReconnect(rec), zmq.WithDialerRetry(delay), zmq.WithDialerMaxRetries(1))...)
			if k == "SUB" {
				subscribe(t, s, "")
			}
			for i, e := range es {
				e.serve(&g)
				dial(t, s, ep(1+i))
			}
			mc.Settle()
			lose(es[lost].p.c, reset)
			mc.Settle()
			other := es[1-lost]
			switch k {
			case "REQ":
				for i := 0; i < 2; i++ {
					send(t, s, "q")
					want(t, "reply", recv(t, s), "q")
				}
			case "ROUTER":
				other.p.write(encMsgS("m"))
				want(t, "message", show(recvOK(t, s)), fmt.Sprintf("e%d,m", other.n))
				send(t, s, fmt.Sprintf("e%d", other.n), "r")
				mc.Settle()
				if len(other.got) != 1 || other.got[0] != "r" {
					t.Failf("other peer not served", "%q", other.got)
				}
			case "PUSH", "PAIR", "DEALER", "XSUB":
				s.Send(msg("x")) // may find the loss
				mc.Settle()
				if err := s.Send(msg("\x01y")); err != nil {
					t.Failf("send failed", "beside a lost connection: %v", err)
				}
				mc.Settle()
				if strings.Join(other.got, " ") != "x \x01y" {
					t.Failf("other peer not served", "%q", other.got)
				}
			default:
				if !use(t, s, other, "m") {
					t.Failf("other peer not served", "%q", other.got)
				}
			}
			mc.Settle()
			exp := 1
			if rec {
				exp = 2
			}
			if d := dialsTo(1 + lost); d != exp || es[lost].ups != exp {
				t.Failf("wrong number of connections", "%d attempts to the lost endpoint", d)
			}
			if d := dialsTo(2 - lost); d != 1 {
				t.Failf("wrong number of connections", "%d attempts to the endpoint that stayed", d)
			}
			if rec && k != "REQ" && k != "ROUTER" {
				n := len(es[lost].got)
				if canSend(k) && k != "REP" && k != "PUB" && k != "XPUB" {
					send(t, s, "z")
					mc.Settle()
					if len(es[lost].got) != n+1 {
						t.Failf("socket does not resume after reconnection", "got %q", es[lost].got)
					}
				}
			}
			closeAll(t, s)
			for _, e := range es {
				e.stop()
			}
			g.Wait()
		}})

		if k == "PUSH" || k == "REQ" { // notice a loss when they write
			continue
		}
		// several are lost at a time, or one while another is removed
		reg(mc.Scenario{Name: "c13/several/" + k, Prop: []string{"C13"}, Quick: 1, Deep: 2, DeepShards: 2, SplitChoose: true, Weight: 2, Fn: func(t *mc.T) {
			n := 2 + mc.Choose(3)
			pairwise := mc.Choose(2) == 1
			s := kinds[k](bg, opts(zmq.WithDialerRetry(delay), zmq.WithDialerMaxRetries(1))...)
			if k == "SUB" {
				subscribe(t, s, "")
			}
			var g group
			var es []*endpointPeer
			for i := 0; i < n; i++ {
				e := newEndpoint(t, 1+i, partner(k))
				es = append(es, e)
				e.serve(&g)
				dial(t, s, ep(1+i))
			}
			mc.Settle()
			ps := make([]*rawPeer, n)
			for i, e := range es {
				ps[i] = e.p
			}
			var h group
			for i := range ps {
				if pairwise {
					h.Go(func() { ps[i].c.Close() })
				} else {
					ps[i].c.Close()
				}
			}
			h.Wait()
			t.Step("all endpoints are dialed again")
			mc.Settle()
			if k == "PULL" || k == "SUB" || k == "XSUB" || k == "PAIR" || k == "DEALER" {
				for i := 0; i < n; i++ { // these report the end of each connection to Recv
					if m, err := s.Recv(); err == nil {
						t.Failf("message nobody sent", "%q", frames(m))
					}
				}
			}
			for i, e := range es {
				if d := dialsTo(1 + i); d != 2 || e.ups != 2 {
					t.Failf("wrong number of connections", "%d attempts to endpoint %d of %d, %d connections", d, i, n, e.ups)
				}
			}
			switch k {
			case "PAIR", "DEALER", "ROUTER", "PULL", "SUB", "XSUB", "REP":
				for _, e := range es {
					fs := []string{fmt.Sprint("m", e.n)}
					if k == "REP" {
						fs = append([]string{""}, fs...)
					}
					e.p.write(encMsgS(fs...))
					m := frames(recvOK(t, s))
					want(t, "message after reconnection", m[len(m)-1], fmt.Sprint("m", e.n))
				}
			case "PUB", "XPUB":
				for _, e := range es {
					e.p.write(encMsgS("\x01"))
				}
				mc.Settle()
				send(t, s, "p")
				mc.Settle()
				for _, e := range es {
					if len(e.got) == 0 || e.got[len(e.got)-1] != "p" {
						t.Failf("socket does not resume after reconnection", "endpoint %d got %q", e.n, e.got)
					}
				}
			}
			t.Outcome(fmt.Sprint(n))
			closeAll(t, s)
			for _, e := range es {
				e.stop()
			}
			g.Wait()
		}})

		// accepted connections are not dialed
		reg(mc.Scenario{Name: "c13/accepted/" + k, Prop: []string{"C13"}, Quick: 1, Deep: 2, Fn: func(t *mc.T) {
			reset := mc.Choose(2) == 1
			s := kinds[k](bg, opts(zmq.WithDialerRetry(delay), zmq.WithDialerMaxRetries(1))...)
			listen(t, s, ep(1))
			e, f := &endpointPeer{t: t, n: 1}, &endpointPeer{t: t, n: 2}
			e.p = rawDial(t, 1, partner(k), "e1")
			mc.Settle()
			f.p = rawDial(t, 1, partner(k), "e2")
			mc.Settle()
			n := len(sim.Sim.DialLog)
			lose(e.p.c, reset)
			notice(s)
			notice(s)
			if k == "SUB" {
				subscribe(t, s, "m")
			}
			if canRecv(k) && k != "REQ" {
				fs := []string{"m"}
				if k == "REP" {
					fs = []string{"", "m"}
				}
				f.p.write(encMsgS(fs...))
				m := frames(recvOK(t, s))
				want(t, "message", m[len(m)-1], "m")
			}
			time.Sleep(time.Minute)
			if len(sim.Sim.DialLog) != n {
				t.Failf("accepted connection dialed", "%v", sim.Sim.DialLog[n:])
			}
			if n := sim.Sim.OpenConns(); n != 2 {
				t.Failf("lost connection kept", "%d ends are open", n)
			}
			closeAll(t, s)
			f.p.c.Close()
		}})
	}

	// the loss meets every other operation
	for _, k := range []string{"PUSH", "PULL", "SUB", "PUB", "XPUB", "XSUB", "PAIR", "DEALER", "ROUTER", "REQ", "REP"} {
		for _, rec := range []bool{true, false} {
			reg(mc.Scenario{Name: fmt.Sprintf("c13/meets/%s/reconnect=%v", k, rec), Prop: []string{"C13"}, Quick: 2, Deep: 3, DeepShards: 2, Weight: 2, Fn: func(t *mc.T) {
				var g, h group
				e := newEndpoint(t, 1, partner(k))
				e.serve(&g)
				s := kinds[k](bg, opts(zmq.WithAutomaticReconnect(rec), zmq.WithTimeout(time.Second), zmq.WithDialerRetry(delay), zmq.WithDialerMaxRetries(1))...)
				dial(t, s, ep(1))
				mc.Settle()
				if k == "REP" {
					e.p.write(encMsgS("", "q"))
					recv(t, s)
				}
				if k == "REQ" {
					send(t, s, "q")
				}
				c := e.p.c
				h.Go(func() { lose(c, mc.Choose(2) == 1) })
				switch mc.Choose(3) {
				case 0:
					h.Go(func() {
						for i := 0; i < 2; i++ {
							s.Send(msg("e1", "m"))
						}
					})
				case 1:
					h.Go(func() {
						switch k {
						case "SUB":
							s.SetOption(zmq.OptionSubscribe, "a")
							s.SetOption(zmq.OptionUnsubscribe, "a")
						case "PUB":
							s.(zmq.Topics).Topics()
							s.SetOption(zmq.OptionHWM, 3)
						default:
							s.Addr()
						}
						s.Listen(ep(3))
					})
				case 2:
					h.Go(func() { s.Close() })
				}
				t.Step("operation beside a loss")
				h.Wait()
				notice(s)
				if rec && dialsTo(1) > 2 || !rec && dialsTo(1) > 1 {
					t.Failf("wrong number of connections", "%v", sim.Sim.DialLog)
				}
				t.Step("close")
				s.Close()
				e.stop()
				g.Wait()
			}})
		}
	}

	// a listening socket is closed and another one takes its place
	for _, pr := range []string{"PUSH PULL", "PULL PUSH", "SUB PUB", "SUB XPUB", "PUB SUB", "DEALER ROUTER", "REQ REP", "PAIR PAIR", "XSUB PUB", "REP REQ", "ROUTER DEALER"} {
		for _, tr := range []string{"tcp", "inproc", "ipc"} {
			k := strings.Fields(pr)
			reg(mc.Scenario{Name: "c13/restart/" + k[0] + "-" + k[1] + "/" + tr, Prop: []string{"C13"}, Quick: 1, Deep: 2, DeepShards: 2, Weight: 2, Fn: func(t *mc.T) {
				e := endpoint(tr, 1)
				a := kinds[k[0]](bg, opts(zmq.WithDialerRetry(delay), zmq.WithDialerMaxRetries(-1), zmq.WithID(zmq.SocketIdentity("A")))...)
				b := kinds[k[1]](bg, opts(zmq.WithID(zmq.SocketIdentity("B")))...)
				listen(t, b, e)
				if k[0] == "SUB" {
					subscribe(t, a, "")
				}
				dial(t, a, e)
				mc.Settle()
				for i := 0; i < 2; i++ {
					shut(t, b)
					b = kinds[k[1]](bg, opts(zmq.WithID(zmq.SocketIdentity("B")))...)
					if mc.Choose(2) == 1 {
						time.Sleep(delay / 2)
					}
					listen(t, b, e)
					if !canRecv(k[0]) || k[0] == "REQ" {
						mc.Settle()
						a.Send(msg("lost")) // PUSH and PUB notice when they write
					}
					time.Sleep(2 * delay)
					mc.Settle()
					if k[1] == "SUB" {
						subscribe(t, b, "")
						mc.Settle()
					}
					m := fmt.Sprint("m", i)
					t.Step("exchange after a restart")
					switch pr {
					case "PUSH PULL", "PAIR PAIR", "PUB SUB":
						send(t, a, m)
						want(t, "message", recv(t, b), m)
					case "DEALER ROUTER":
						send(t, a, m)
						want(t, "message", recv(t, b), "A,"+m)
						send(t, b, "A", "r")
						want(t, "reply", show(recvOK(t, a)), "r")
					case "ROUTER DEALER":
						send(t, b, m)
						want(t, "message", show(recvOK(t, a)), "B,"+m)
						send(t, a, "B", "r")
						want(t, "reply", recv(t, b), "r")
					case "REQ REP", "REP REQ":
						q, p := a, b
						if k[0] == "REP" {
							q, p = b, a
						}
						send(t, q, m)
						want(t, "request", show(recvOK(t, p)), m)
						send(t, p, "r")
						want(t, "reply", show(recvOK(t, q)), "r")
					case "XSUB PUB":
						send(t, a, "\x01")
						mc.Settle()
						fallthrough
					default:
						send(t, b, m)
						want(t, "message", show(recvOK(t, a)), m)
					}
				}
				closeAll(t, a, b)
			}})
		}
	}

	// a peer that breaks its connections again and again, at any point of the handshake
	for _, k := range []string{"SUB", "PULL", "DEALER", "PAIR"} {
		reg(mc.Scenario{Name: "c13/flapping/" + k, Prop: []string{"C13"}, Quick: 1, Deep: 2, DeepShards: 2, SplitChoose: true, Fn: func(t *mc.T) {
			var g group
			e := newEndpoint(t, 1, partner(k))
			s := kinds[k](bg, opts(zmq.WithDialerRetry(delay), zmq.WithDialerMaxRetries(-1))...)
			if k == "SUB" {
				subscribe(t, s, "")
			}
			cut := pick([]int{-1, 0, 1, 64, 70})
			reset := mc.Choose(2) == 1
			g.Go(func() {
				c, err := e.l.l.Accept()
				if err != nil {
					t.Failf("harness", "%v", err)
				}
				p := &rawPeer{t: t, c: c, mech: "NULL"}
				if err := p.handshake(partner(k), "", true); err != nil {
					t.Failf("harness", "%v", err)
				}
				e.p = p
			})
			dial(t, s, ep(1))
			g.Wait()
			lose(e.p.c, reset)
			if cut >= 0 {
				c, err := e.l.l.Accept()
				if err != nil {
					t.Failf("harness", "%v", err)
				}
				b := peerBytes("NULL", partner(k), "", true)
				c.Write(b[:cut])
				lose(c, reset)
			}
			e.serve(&g)
			time.Sleep(2 * delay)
			mc.Settle()
			if e.ups != 1 {
				t.Failf("socket does not resume after reconnection", "%d connections, attempts %v", e.ups, sim.Sim.DialLog)
			}
			if !use(t, s, e, "m") {
				t.Failf("socket does not resume after reconnection", "got %q", e.got)
			}
			closeAll(t, s)
			e.stop()
			g.Wait()
		}})
	}
}
