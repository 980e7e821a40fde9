package main

import (
	"fmt"
	"strings"

	zmq "github.com/luxfi/zmq/v4"
	"github.com/luxfi/zmq/v4/internal/zzmc/mc"
)

// bodies lists message bodies of up to n frames with empty frames everywhere.
func bodies(n int) (out [][]string) {
	for k := 1; k <= n; k++ {
		for m := 0; m < 1<<k; m++ {
			var b []string
			for i := 0; i < k; i++ {
				if m>>i&1 == 1 {
					b = append(b, "")
				} else {
					b = append(b, fmt.Sprintf("f%d", i))
				}
			}
			out = append(out, b)
		}
	}
	return
}

// pump forwards from a to b until a ends.
func pump(a, b zmq.Socket) {
	for {
		m, err := a.Recv()
		if err != nil {
			return
		}
		if b.SendMulti(m) != nil {
			return
		}
	}
}

// chain joins clients to a REP through hops of ROUTER and DEALER.
type chain struct {
	front string // where clients dial
	socks []zmq.Socket
	g     group
}

func newChain(t *mc.T, rep zmq.Socket, hops int) *chain {
	c := &chain{front: ep(1)}
	listen(t, rep, ep(1))
	for i := 0; i < hops; i++ {
		r, d := zmq.NewRouter(bg, opts()...), zmq.NewDealer(bg, opts()...)
		dial(t, d, c.front)
		c.front = ep(2 + i)
		listen(t, r, c.front)
		c.g.Go(func() { pump(r, d) })
		c.g.Go(func() { pump(d, r) })
		c.socks = append(c.socks, r, d)
	}
	return c
}

func (c *chain) close(t *mc.T) {
	closeAll(t, c.socks...)
	c.g.Wait()
}

func init() {
	for hops := 0; hops <= 2; hops++ {
		reg(mc.Scenario{Name: fmt.Sprintf("c08/shapes/hops=%d", hops), Prop: []string{"C08"}, Quick: 0, Deep: 1, DeepShards: 4, SplitChoose: true, Fn: func(t *mc.T) {
			rep := zmq.NewRep(bg, opts()...)
			req := zmq.NewReq(bg, opts()...)
			c := newChain(t, rep, hops)
			dial(t, req, c.front)
			n := 4
			if hops > 0 {
				n = 3
			}
			q := pick(append(bodies(n), nil, []string{blob(1, 256), "", blob(2, 70000)}))
			a := pick(append(bodies(n), []string{"", blob(1, 256), "", blob(2, 70000)}))
			for round := 0; round < 2; round++ {
				sendAs(t, req, round == 1, q)
				m, err := rep.Recv()
				if err != nil {
					t.Failf("recv failed", "REP: %v", err)
				}
				wantFrames(t, "request", frames(m), q)
				sendAs(t, rep, round == 0, a)
				if m, err = req.Recv(); err != nil {
					t.Failf("recv failed", "REQ: %v", err)
				}
				wantFrames(t, "reply", frames(m), a)
				q, a = a, append(q[:len(q):len(q)], "r2")
			}
			t.Outcome("ok")
			closeAll(t, req, rep)
			c.close(t)
		}})
	}

	// several clients at once: each gets its own replies
	for hops := 0; hops <= 2; hops++ {
		for clients := 1; clients <= 3; clients++ {
			if hops == 2 && clients == 3 {
				continue
			}
			q, d := 1, 2
			if hops == 0 {
				q, d = 2, 3
			}
			if hops == 0 && clients == 3 {
				q = 1
			}
			reg(mc.Scenario{Name: fmt.Sprintf("c08/clients/hops=%d/n=%d", hops, clients), Prop: []string{"C08"}, Quick: q, Deep: d, DeepShards: 4, Fn: func(t *mc.T) {
				rep := zmq.NewRep(bg, opts()...)
				c := newChain(t, rep, hops)
				var g group
				var reqs []zmq.Socket
				for i := 0; i < clients; i++ {
					req := zmq.NewReq(bg, opts()...)
					reqs = append(reqs, req)
					g.Go(func() {
						dial(t, req, c.front)
						for k := 0; k < 2; k++ {
							q := []string{fmt.Sprintf("q%d.%d", i, k), "", "x"}[:1+2*k]
							send(t, req, q...)
							m, err := req.Recv()
							if err != nil {
								t.Failf("recv failed", "REQ: %v", err)
							}
							wantFrames(t, "reply", frames(m), append([]string{"", "re"}, q...))
						}
					})
				}
				var order []string
				for k := 0; k < 2*clients; k++ {
					m, err := rep.Recv()
					if err != nil {
						t.Failf("recv failed", "REP: %v", err)
					}
					order = append(order, string(m.Frames[0]))
					sendAs(t, rep, k&1 == 1, append([]string{"", "re"}, frames(m)...))
				}
				g.Wait()
				t.Outcome(strings.Join(order, " "))
				closeAll(t, reqs...)
				closeAll(t, rep)
				c.close(t)
			}})
		}
	}

	// the envelope comes back as it went, whatever it is, to the last requester only
	reg(mc.Scenario{Name: "c08/envelope", Prop: []string{"C08"}, Quick: 1, Deep: 2, DeepShards: 4, SplitChoose: true, Fn: func(t *mc.T) {
		env := pick([][]string{{}, {"a"}, {"a", "b"}, {blob(1, 256)}, {"x", blob(2, 300), "y", "z", "a", "b", "c", "d"}, {"\x00"}})
		body := pick(bodies(2))
		reply := pick([][]string{{"r"}, {"", "r"}, {"r", ""}, {""}})
		rep := zmq.NewRep(bg, opts()...)
		listen(t, rep, ep(1))
		typ := pick([]string{"DEALER", "REQ"})
		p, q := rawDial(t, 1, typ, "p"), rawDial(t, 1, typ, "q")
		e1 := append(append([]string(nil), env...), "")
		p.write(encMsgS(append(append([]string(nil), e1...), body...)...))
		q.write(encMsgS("other", "", "q"))
		first := ""
		for i := 0; i < 2; i++ {
			m, err := rep.Recv()
			if err != nil {
				t.Failf("recv failed", "REP: %v", err)
			}
			fs := frames(m)
			isQ := sameFrames(fs, []string{"q"})
			if !isQ {
				wantFrames(t, "request", fs, body)
			}
			if i == 0 {
				first = showS(fs)
				// not answered
				continue
			}
			send(t, rep, reply...)
			mc.Settle()
			to, other, en := p, q, e1
			if isQ {
				to, other, en = q, p, []string{"other", ""}
			}
			got, err := to.readMsg()
			if err != nil {
				t.Failf("reply lost", "%v", err)
			}
			wantFrames(t, "reply with envelope", got, append(append([]string(nil), en...), reply...))
			closeAll(t, rep)
			for _, x := range []*rawPeer{other, to} {
				if m, err := x.readMsg(); err == nil || len(m) > 0 {
					t.Failf("reply to the wrong peer", "%q", m)
				}
				x.c.Close()
			}
		}
		t.Outcome(first)
	}})

	// what is no request changes nothing about the one to be answered
	reg(mc.Scenario{Name: "c08/no-request", Prop: []string{"C08"}, Quick: 1, Deep: 2, SplitChoose: true, Fn: func(t *mc.T) {
		env := pick([][]string{{""}, {"a", ""}})
		junk := pick([][]string{{"x"}, {"a", "b"}, {blob(1, 300)}})
		rep := zmq.NewRep(bg, opts()...)
		listen(t, rep, ep(1))
		p, q := rawDial(t, 1, "DEALER", "p"), rawDial(t, 1, "DEALER", "q")
		for round := 0; round < 2; round++ {
			p.write(encMsgS(append(append([]string(nil), env...), fmt.Sprint("body", round))...))
			want(t, "request", show(recvOK(t, rep)), fmt.Sprint("body", round))
			from := q
			if mc.Choose(2) == 1 {
				from = p
			}
			from.write(encMsgS(junk...))
			if m, err := rep.Recv(); err == nil {
				t.Failf("wrong request", "%q out of %q", frames(m), junk)
			}
			send(t, rep, "re", "")
			mc.Settle()
			got, err := p.readMsg()
			if err != nil {
				t.Failf("reply lost", "%v", err)
			}
			wantFrames(t, "reply with envelope", got, append(append([]string(nil), env...), "re", ""))
		}
		closeAll(t, rep)
		for _, x := range []*rawPeer{p, q} {
			if m, err := x.readMsg(); err == nil || len(m) > 0 {
				t.Failf("reply to the wrong peer", "%q", m)
			}
			x.c.Close()
		}
		t.Outcome("ok")
	}})

	// requests of every shape, of two requesters, in turn
	turns := func(depth int) func(t *mc.T) {
		return func(t *mc.T) {
			rep := zmq.NewRep(bg, opts()...)
			listen(t, rep, ep(1))
			two := []*rawPeer{rawDial(t, 1, "DEALER", "p"), rawDial(t, 1, "DEALER", "q")}
			for i := 0; i < depth; i++ {
				p := two[mc.Choose(2)]
				env := pick([][]string{{""}, {"a", ""}})
				body := pick([][]string{{}, {""}, {"b"}, {"", "b"}})
				reply := pick([][]string{{"r"}, {}, {"", "r"}})
				p.write(encMsgS(append(append([]string(nil), env...), body...)...))
				t.Step("request")
				m, err := rep.Recv()
				if err != nil {
					t.Failf("recv failed", "REP: %v", err)
				}
				wantFrames(t, "request", frames(m), body)
				t.Step("reply")
				sendAs(t, rep, mc.Choose(2) == 1, reply)
				got, err := p.readMsg()
				if err != nil {
					t.Failf("reply lost", "%v", err)
				}
				wantFrames(t, "reply with envelope", got, append(append([]string(nil), env...), reply...))
			}
			closeAll(t, rep)
			for _, x := range two {
				if m, err := x.readMsg(); err == nil || len(m) > 0 {
					t.Failf("reply to the wrong peer", "%q", m)
				}
				x.c.Close()
			}
		}
	}
	reg(mc.Scenario{Name: "c08/turns", Prop: []string{"C08"}, Quick: 0, Deep: 1, DeepShards: 4, SplitChoose: true, Fn: turns(2)})
	reg(mc.Scenario{Name: "c08/turns/long", Prop: []string{"C08"}, Quick: -1, Deep: 0, DeepShards: 4, SplitChoose: true, Fn: turns(3)})

	// a requester that has gone: its reply goes nowhere, the others are served
	reg(mc.Scenario{Name: "c08/gone", Prop: []string{"C08"}, Quick: 2, Deep: 3, DeepShards: 4, Fn: func(t *mc.T) {
		rep := zmq.NewRep(bg, opts()...)
		listen(t, rep, ep(1))
		p := rawDial(t, 1, "REQ", "same")
		p.write(encMsgS("", "old"))
		want(t, "request", show(recvOK(t, rep)), "old")
		var g group
		var q *rawPeer
		g.Go(func() { p.c.Close() })
		g.Go(func() {
			q = rawDial(t, 1, "REQ", "same")
			if mc.Choose(2) == 1 {
				q.write(encMsgS("", "new"))
			} else {
				q.write(encMsgS("", "n", "", "w"))
			}
		})
		rep.Send(msg("for old"))
		m := show(recvOK(t, rep))
		rep.Send(msg("re " + m))
		g.Wait()
		got, err := q.readMsg()
		if err != nil || showS(got) != ",re "+m {
			t.Failf("wrong reply", "got %q, %v for %q", got, err, m)
		}
		closeAll(t, rep)
		if m, err := q.readMsg(); err == nil {
			t.Failf("reply to the wrong peer", "%q", m)
		}
		q.c.Close()
		t.Outcome(m)
	}})

	// pipelined requests of one peer are answered one by one
	reg(mc.Scenario{Name: "c08/pipelined", Prop: []string{"C08"}, Quick: 2, Deep: 3, DeepShards: 2, Fn: func(t *mc.T) {
		rep := zmq.NewRep(bg, opts()...)
		listen(t, rep, ep(1))
		d := zmq.NewDealer(bg, opts()...)
		dial(t, d, ep(1))
		var g group
		g.Go(func() {
			send(t, d, "1", "", "a")
			send(t, d, "2", "x", "", "b", "")
			send(t, d, "", "c")
		})
		g.Go(func() {
			for i := 0; i < 3; i++ {
				m := show(recvOK(t, rep))
				send(t, rep, m+"!")
			}
		})
		want(t, "reply", recv(t, d), "1,,a!")
		want(t, "reply", recv(t, d), "2,x,,b,!")
		want(t, "reply", recv(t, d), ",c!")
		g.Wait()
		t.Outcome("ok")
		closeAll(t, d, rep)
	}})

	// REQ against ROUTER, and against raw servers of different habits
	reg(mc.Scenario{Name: "c08/router", Prop: []string{"C08"}, Quick: 2, Deep: 3, Fn: func(t *mc.T) {
		r := zmq.NewRouter(bg, opts()...)
		listen(t, r, ep(1))
		a, b := zmq.NewReq(bg, opts()...), zmq.NewReq(bg, opts(zmq.WithID(zmq.SocketIdentity("bb")))...)
		dial(t, a, ep(1))
		dial(t, b, ep(1))
		send(t, a, "qa", "")
		send(t, b, "", "qb")
		m1, m2 := recvOK(t, r), recvOK(t, r)
		if mc.Choose(2) == 1 {
			m1, m2 = m2, m1
		}
		var g group
		for _, x := range []zmq.Socket{a, b} {
			q := map[zmq.Socket]string{a: "qa,", b: ",qb"}[x]
			g.Go(func() { want(t, "reply", recv(t, x), q+",done") })
		}
		for _, m := range []zmq.Msg{m1, m2} {
			f := frames(m)
			if len(f) != 4 || f[1] != "" {
				t.Failf("wrong request at ROUTER", "%q", f)
			}
			send(t, r, append(f, "done")...)
		}
		g.Wait()
		t.Outcome("ok")
		closeAll(t, a, r, b)
	}})
	reg(mc.Scenario{Name: "c08/two-servers", Prop: []string{"C08"}, Quick: 1, Deep: 2, Fn: func(t *mc.T) {
		r1, r2 := zmq.NewRep(bg, opts()...), zmq.NewRep(bg, opts()...)
		req := zmq.NewReq(bg, opts()...)
		listen(t, r1, ep(1))
		listen(t, r2, ep(2))
		dial(t, req, ep(1))
		dial(t, req, ep(2))
		var g group
		for i, r := range []zmq.Socket{r1, r2} {
			g.Go(func() {
				for k := 0; k < 2; k++ {
					m, err := r.Recv()
					if err != nil {
						return
					}
					send(t, r, append(frames(m), fmt.Sprint(i))...)
				}
			})
		}
		var who []string
		for k := 0; k < 4; k++ {
			q := fmt.Sprint("q", k)
			send(t, req, q, "")
			m := frames(recvOK(t, req))
			if len(m) != 3 || m[0] != q || m[1] != "" {
				t.Failf("wrong reply", "%q for %q", m, q)
			}
			who = append(who, m[2])
		}
		t.Outcome(strings.Join(who, ""))
		g.Wait()
		closeAll(t, req, r1, r2)
	}})

	// servers break at any time: a request that was sent gets its own reply
	for _, n := range []int{2, 3} {
		reg(mc.Scenario{Name: fmt.Sprintf("c08/failover/%d", n), Prop: []string{"C08", "C09"}, Quick: 1, Deep: 2, QuickShards: 2, DeepShards: 4, Fn: func(t *mc.T) {
			var g group
			req, ss := farm(t, n, &g)
			at, lost, reset := mc.Choose(3), mc.Choose(n), mc.Choose(2) == 1
			trace := ""
			for i := 0; i < 4; i++ {
				if i == at {
					ss[lost].down(reset)
				}
				q := fmt.Sprint("q", i)
				send(t, req, q)
				m, err := req.Recv()
				if err != nil {
					if w := takers(ss, q); len(w) == 1 && w[0] == lost || i == at && len(w) == 0 {
						trace += "-" // the server that was asked is lost
						continue
					}
					t.Failf("reply lost", "request %s went to %v: %v", q, takers(ss, q), err)
				}
				f := frames(m)
				if len(f) != 2 || f[0] != q {
					t.Failf("wrong reply", "%q for %q", f, q)
				}
				trace += f[1]
			}
			t.Outcome(trace)
			closeAll(t, req)
			for _, s := range ss {
				s.p.c.Close()
			}
			g.Wait()
		}})
	}
}
