package main

import (
	"fmt"
	"strings"

	zmq "github.com/luxfi/zmq/v4"
	"github.com/luxfi/zmq/v4/internal/zzmc/mc"
	sim "github.com/luxfi/zmq/v4/internal/zzmc/xnet"
)

// server is a raw REP that logs requests and answers them.
type server struct {
	n    int
	l    *rawServer
	p    *rawPeer
	up   bool
	log  []string
	mute bool
}

func newServer(t *mc.T, n int) *server { return &server{n: n, l: rawListen(t, 20+n), up: true} }

// run accepts one connection and serves it.
func (s *server) run(id string) {
	s.p = s.l.accept("NULL", "REP", id)
	s.l.l.Close()
	for {
		m, err := s.p.readMsg()
		if err != nil {
			return
		}
		if len(m) != 2 || m[0] != "" {
			s.p.t.Failf("wrong request on the wire", "server %d got %q", s.n, m)
		}
		s.log = append(s.log, m[1])
		if !s.mute {
			s.p.write(encMsgS("", m[1], fmt.Sprint(s.n)))
		}
	}
}

func (s *server) down(reset bool) {
	if reset {
		sim.Sim.Break(s.p.c)
	}
	s.p.c.Close()
	s.up = false
}

// farm dials n servers from a REQ socket.
func farm(t *mc.T, n int, g *group, o ...zmq.Option) (zmq.Socket, []*server) {
	req := zmq.NewReq(bg, opts(append(o, zmq.WithAutomaticReconnect(false))...)...)
	var ss []*server
	for i := 0; i < n; i++ {
		s := newServer(t, i)
		ss = append(ss, s)
		g.Go(func() { s.run(fmt.Sprint("s", s.n)) })
		dial(t, req, ep(20+i))
	}
	mc.Settle()
	return req, ss
}

// takers tells which servers saw a request.
func takers(ss []*server, q string) (who []int) {
	for i, s := range ss {
		for _, x := range s.log {
			if x == q {
				who = append(who, i)
			}
		}
	}
	return
}

func live(ss []*server) (n int) {
	for _, s := range ss {
		if s.up {
			n++
		}
	}
	return
}

func init() {
	hist := func(n, depth int) func(t *mc.T) {
		return func(t *mc.T) {
			var g group
			req, ss := farm(t, n, &g)
			reset := mc.Choose(2) == 1
			var turn []int // servers since the last change
			slack := 0
			trace := ""
			for i := 0; i < depth; i++ {
				k := mc.Choose(n + 3)
				if k == 0 {
					break
				}
				switch {
				case k <= 1: // request and reply
					q := fmt.Sprint("q", i)
					t.Step("request")
					err := req.Send(msg(q))
					if (err == nil) != (live(ss) > 0) {
						t.Failf("wrong verdict of Send", "with %d live servers: %v", live(ss), err)
					}
					mc.Settle()
					who := takers(ss, q)
					if err != nil {
						trace += "E"
						if len(who) > 0 {
							t.Failf("refused request was sent", "to %v", who)
						}
						if _, err := req.Recv(); err == nil {
							t.Failf("reply to nothing", "")
						}
						continue
					}
					if len(who) != 1 || !ss[who[0]].up {
						t.Failf("request not at exactly one live server", "%q is at %v", q, who)
					}
					turn = append(turn, who[0])
					for j := len(turn) - 2; j >= 0 && j > len(turn)-1-live(ss); j-- {
						if turn[j] == who[0] {
							if slack > 0 { // a loss was noticed just now
								slack--
								turn = turn[len(turn)-1:]
								break
							}
							t.Failf("servers not taken in turn", "order %v with %d live servers", turn, live(ss))
						}
					}
					m := frames(recvOK(t, req))
					if !sameFrames(m, []string{q, fmt.Sprint(ss[who[0]].n)}) {
						t.Failf("wrong reply", "%q for %q", m, q)
					}
					trace += fmt.Sprint(who[0])
				case k <= n+1:
					s := ss[k-2]
					if !s.up {
						continue
					}
					s.down(reset)
					mc.Settle()
					turn = nil
					slack++
					trace += "x"
				default: // one more server
					if len(ss) > n+1 {
						continue
					}
					s := newServer(t, len(ss))
					ss = append(ss, s)
					g.Go(func() { s.run("new") })
					dial(t, req, ep(20+s.n))
					mc.Settle()
					turn = nil
					trace += "+"
				}
			}
			t.Outcome(trace)
			closeAll(t, req)
			for _, s := range ss {
				s.p.c.Close()
			}
			g.Wait()
		}
	}
	for n := 1; n <= 4; n++ {
		q := []int{0, 5, 5, 4, 4}[n]
		reg(mc.Scenario{Name: fmt.Sprintf("c09/history/n=%d", n), Prop: []string{"C09"}, Quick: 0, Deep: 1, DeepShards: 2, SplitChoose: true, Fn: hist(n, q)})
		reg(mc.Scenario{Name: fmt.Sprintf("c09/history-deep/n=%d", n), Prop: []string{"C09"}, Quick: -1, Deep: 0, DeepShards: 2, SplitChoose: true, Fn: hist(n, q+2)})
	}

	// a long run of requests keeps going round
	reg(mc.Scenario{Name: "c09/turns", Prop: []string{"C09"}, Quick: 0, Deep: 0, Fn: func(t *mc.T) {
		var g group
		n := 1 + mc.Choose(4)
		req, ss := farm(t, n, &g)
		for i := 0; i < 3*n+2; i++ {
			send(t, req, fmt.Sprint("q", i))
			recvOK(t, req)
		}
		mc.Settle()
		lo, hi := 99, 0
		for _, s := range ss {
			lo, hi = min(lo, len(s.log)), max(hi, len(s.log))
		}
		if hi-lo > 1 {
			t.Failf("servers not taken in turn", "between %d and %d requests each", lo, hi)
		}
		closeAll(t, req)
		for _, s := range ss {
			s.p.c.Close()
		}
		g.Wait()
		t.Outcome(fmt.Sprint(n))
	}})

	// servers are lost at any point of an exchange
	for n := 2; n <= 3; n++ {
		reg(mc.Scenario{Name: fmt.Sprintf("c09/loss/n=%d", n), Prop: []string{"C09"}, Quick: 4 - n, Deep: 5 - n, DeepShards: 4, Fn: func(t *mc.T) {
			var g, h group
			req, ss := farm(t, n, &g)
			keep := mc.Choose(n)
			reset := mc.Choose(2) == 1
			h.Go(func() {
				for i, s := range ss {
					if i != keep {
						s.down(reset)
					}
				}
			})
			fails := 0
			for i := 0; i < 3; i++ {
				q := fmt.Sprint("q", i)
				send(t, req, q)
				m, err := req.Recv()
				if err != nil {
					fails++
					continue
				}
				if f := frames(m); len(f) != 2 || f[0] != q {
					t.Failf("wrong reply", "%q for %q", f, q)
				}
				if who := takers(ss, q); len(who) != 1 {
					t.Failf("request not at exactly one live server", "%q is at %v", q, who)
				}
			}
			h.Wait()
			if fails > n-1 {
				t.Failf("requests fail beside a live server", "%d of 3 had no reply with %d servers lost", fails, n-1)
			}
			mc.Settle()
			send(t, req, "end")
			want(t, "reply", recv(t, req), fmt.Sprint("end,", keep))
			t.Outcome(fmt.Sprint(fails))
			closeAll(t, req)
			ss[keep].p.c.Close()
			g.Wait()
		}})
	}

	// writes that the network swallows: the loss shows later
	reg(mc.Scenario{Name: "c09/swallowed", Prop: []string{"C09"}, Quick: 1, Deep: 2, Fn: func(t *mc.T) {
		sim.Sim.Blackhole = true
		var g group
		n := 2 + mc.Choose(2)
		req, ss := farm(t, n, &g)
		lost := mc.Choose(n)
		ss[lost].down(false)
		ok, bad := 0, 0
		for i := 0; i < 2*n+2; i++ {
			q := fmt.Sprint("q", i)
			send(t, req, q)
			if m, err := req.Recv(); err != nil {
				bad++
			} else if want(t, "reply", string(m.Frames[0]), q); true {
				ok++
			}
		}
		if bad > 2 || ok < n {
			t.Failf("requests fail beside a live server", "%d of %d had no reply", bad, ok+bad)
		}
		t.Outcome(fmt.Sprint(bad))
		closeAll(t, req)
		for _, s := range ss {
			s.p.c.Close()
		}
		g.Wait()
	}})

	// two goroutines send at once
	reg(mc.Scenario{Name: "c09/concurrent", Prop: []string{"C09"}, Quick: 2, Deep: 3, DeepShards: 2, Fn: func(t *mc.T) {
		var g, h group
		req, ss := farm(t, 2, &g)
		h.Go(func() { send(t, req, "a"); send(t, req, "b") })
		h.Go(func() { send(t, req, "c"); send(t, req, "d") })
		if mc.Choose(2) == 1 {
			h.Go(func() { ss[1].down(false) })
		}
		h.Wait()
		mc.Settle()
		all := append(append([]string(nil), ss[0].log...), ss[1].log...)
		for _, q := range []string{"a", "b", "c", "d"} {
			who := takers(ss, q)
			if len(who) != 1 && (ss[1].up || len(who) > 1) {
				t.Failf("request not at exactly one live server", "%q is at %v", q, who)
			}
		}
		if ss[1].up && (len(all) != 4 || len(ss[0].log) != 2) {
			t.Failf("servers not taken in turn", "%q and %q", ss[0].log, ss[1].log)
		}
		t.Outcome(strings.Join(all, ""))
		closeAll(t, req)
		for _, s := range ss {
			s.p.c.Close()
		}
		g.Wait()
	}})

	// a REQ that listens, and servers that come and go as real sockets
	reg(mc.Scenario{Name: "c09/sockets", Prop: []string{"C09"}, Quick: 1, Deep: 2, DeepShards: 4, Fn: func(t *mc.T) {
		req := zmq.NewReq(bg, opts()...)
		listen(t, req, ep(1))
		var reps []zmq.Socket
		var g group
		for i := 0; i < 2; i++ {
			r := zmq.NewRep(bg, opts(zmq.WithAutomaticReconnect(false))...)
			reps = append(reps, r)
			dial(t, r, ep(1))
			g.Go(func() {
				for {
					m, err := r.Recv()
					if err != nil {
						return
					}
					r.Send(msg(append(frames(m), fmt.Sprint(i))...))
				}
			})
		}
		mc.Settle()
		gone := mc.Choose(2)
		var h group
		h.Go(func() { reps[gone].Close() })
		fails := 0
		for i := 0; i < 3; i++ {
			send(t, req, fmt.Sprint("q", i))
			if m, err := req.Recv(); err != nil {
				fails++
			} else if f := frames(m); f[0] != fmt.Sprint("q", i) {
				t.Failf("wrong reply", "%q", f)
			}
		}
		if fails > 1 {
			t.Failf("requests fail beside a live server", "%d of 3", fails)
		}
		h.Wait()
		t.Outcome(fmt.Sprint(fails))
		closeAll(t, req, reps[1-gone])
		g.Wait()
	}})
}
