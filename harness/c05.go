package main

import (
	"fmt"
	"strings"

	zmq "github.com/luxfi/zmq/v4"
	"github.com/luxfi/zmq/v4/internal/zzmc/mc"
	sim "github.com/luxfi/zmq/v4/internal/zzmc/xnet"
)

// stream is what one sender sends: n messages of two or three frames.
func stream(who string, n int) (ms [][]string) {
	for i := 1; i <= n; i++ {
		f := []string{fmt.Sprintf("%s%d", who, i), strings.Repeat(who, 3*i)}
		if i%2 == 0 {
			f = append(f, "", who+"z")
		}
		ms = append(ms, f)
	}
	return
}

func flat(ms [][]string) (l []string) {
	for _, m := range ms {
		l = append(l, showS(m))
	}
	return
}

func sendAll(t *mc.T, s zmq.Socket, ms [][]string, alt bool) {
	for i, m := range ms {
		sendAs(t, s, alt && i%2 == 0, m)
	}
}

func recvN(t *mc.T, s zmq.Socket, n int) (l []string) {
	for len(l) < n {
		l = append(l, recv(t, s))
	}
	return
}

func wantMerge(t *mc.T, who string, got []string, seqs ...[]string) {
	if !merged(got, seqs...) {
		t.Failf("messages lost, repeated, mixed or reordered at "+who, "%s got %q, expected a merge of %q", who, got, seqs)
	}
}

// noMore checks that nothing else arrives.
func noMore(t *mc.T, who string, s zmq.Socket) func() {
	var extra []string
	go func() {
		for {
			m, err := s.Recv()
			if err != nil {
				return
			}
			extra = append(extra, show(m))
		}
	}()
	return func() {
		if len(extra) > 0 {
			t.Failf("surplus message at "+who, "%s also got %q", who, extra)
		}
	}
}

func init() {
	// n concurrent senders on one socket, one receiver; small buffers make frames of a message separate steps
	kind := stream
	fan := func(name, from, to, tr string, senders, n int, alt bool, buf int, q, d int) {
		stream := kind
		reg(mc.Scenario{Name: "c05/" + name + "/" + from + "-" + to + "/" + tr, Prop: []string{"C05"}, Quick: q, Deep: d, DeepShards: 4, Fn: func(t *mc.T) {
			a := kinds[from](bg, opts()...)
			b := kinds[to](bg, opts()...)
			e := endpoint(tr, 1)
			listen(t, b, e)
			dial(t, a, e)
			if buf > 0 {
				for _, c := range sim.Sim.Conns() {
					sim.SetBuf(c, buf)
				}
			}
			var g group
			var seqs [][]string
			for i := 0; i < senders; i++ {
				ms := stream(string(rune('a'+i)), n)
				seqs = append(seqs, flat(ms))
				g.Go(func() { sendAll(t, a, ms, alt) })
			}
			t.Step("receiving")
			got := recvN(t, b, senders*n)
			wantMerge(t, "receiver", got, seqs...)
			t.Step("senders returning")
			g.Wait()
			done := noMore(t, "receiver", b)
			mc.Settle()
			done()
			t.Outcome(strings.Join(got, " "))
			closeAll(t, a, b)
		}})
	}
	fan("one", "PUSH", "PULL", "tcp", 1, 3, true, 0, 2, 3)
	fan("one", "PAIR", "PAIR", "tcp", 1, 3, true, 0, 2, 3)
	fan("one", "DEALER", "DEALER", "tcp", 1, 3, true, 0, 2, 3)
	fan("one", "PUSH", "PULL", "inproc", 1, 3, true, 0, 2, 3)
	fan("one", "PUSH", "PULL", "ipc", 1, 2, false, 0, 2, 3)
	fan("two", "PUSH", "PULL", "tcp", 2, 2, true, 0, 2, 3)
	fan("two", "PUSH", "PULL", "inproc", 2, 2, false, 0, 1, 2)
	fan("two-small", "PUSH", "PULL", "tcp", 2, 2, false, 4, 2, 3)
	fan("two-small", "DEALER", "DEALER", "tcp", 2, 1, true, 3, 2, 3)
	fan("two-small", "PAIR", "PAIR", "tcp", 2, 1, true, 3, 2, 3)
	fan("three", "PUSH", "PULL", "tcp", 3, 1, false, 0, 2, 3)
	fan("many", "PUSH", "PULL", "tcp", 1, 25, true, 64, 1, 2)
	fan("many", "PAIR", "PAIR", "inproc", 1, 25, false, 0, 1, 2)
	fan("many", "DEALER", "DEALER", "tcp", 1, 25, false, 64, 1, 2)

	// messages of one frame (the header and the body are separate writes), and those of many
	kind = func(who string, n int) (ms [][]string) {
		for i := 1; i <= n; i++ {
			ms = append(ms, []string{fmt.Sprintf("%s%d", who, i)})
		}
		return
	}
	fan("single", "PUSH", "PULL", "tcp", 2, 2, false, 0, 2, 3)
	fan("single", "PAIR", "PAIR", "inproc", 2, 1, true, 0, 1, 2)
	fan("single", "DEALER", "DEALER", "tcp", 3, 1, false, 2, 1, 2)
	kind = func(who string, n int) (ms [][]string) {
		for i := 1; i <= n; i++ {
			ms = append(ms, append([]string{"", "", fmt.Sprintf("%s%d", who, i)}, make([]string, 4*i)...))
		}
		return
	}
	fan("frames", "PUSH", "PULL", "tcp", 2, 1, true, 0, 1, 2)
	fan("frames", "PAIR", "PAIR", "inproc", 1, 2, true, 0, 1, 2)
	fan("frames", "DEALER", "DEALER", "tcp", 1, 2, true, 5, 1, 2)

	// both directions at once
	for _, k := range []string{"PAIR", "DEALER"} {
		for _, tr := range []string{"tcp", "inproc"} {
			reg(mc.Scenario{Name: "c05/duplex/" + k + "/" + tr, Prop: []string{"C05"}, Quick: map[string]int{"tcp": 2, "inproc": 1}[tr], Deep: map[string]int{"tcp": 3, "inproc": 2}[tr], DeepShards: 2, Fn: func(t *mc.T) {
				a := kinds[k](bg, opts()...)
				b := kinds[k](bg, opts()...)
				e := endpoint(tr, 1)
				listen(t, b, e)
				dial(t, a, e)
				x, y := stream("x", 2), stream("y", 2)
				var g group
				var ga, gb []string
				g.Go(func() { sendAll(t, a, x, true) })
				g.Go(func() { sendAll(t, b, y, false) })
				g.Go(func() { ga = recvN(t, a, 2) })
				g.Go(func() { gb = recvN(t, b, 2) })
				g.Wait()
				wantMerge(t, "a", ga, flat(y))
				wantMerge(t, "b", gb, flat(x))
				t.Outcome("ok")
				closeAll(t, b, a)
			}})
		}
	}

	// one receiver, several sending peers
	for _, k := range [][2]string{{"PUSH", "PULL"}, {"DEALER", "DEALER"}, {"PAIR", "PAIR"}} {
		reg(mc.Scenario{Name: "c05/merge/" + k[0], Prop: []string{"C05"}, Quick: 1, Deep: 3, DeepShards: 4, Fn: func(t *mc.T) {
			b := kinds[k[1]](bg, opts()...)
			listen(t, b, ep(1))
			a1 := kinds[k[0]](bg, opts()...)
			a2 := kinds[k[0]](bg, opts()...)
			var g group
			x, y := stream("x", 2), stream("y", 2)
			g.Go(func() { dial(t, a1, ep(1)); sendAll(t, a1, x, false) })
			g.Go(func() { dial(t, a2, ep(1)); sendAll(t, a2, y, true) })
			got := recvN(t, b, 4)
			wantMerge(t, "receiver", got, flat(x), flat(y))
			g.Wait()
			done := noMore(t, "receiver", b)
			mc.Settle()
			done()
			t.Outcome(strings.Join(got, " "))
			closeAll(t, a1, b, a2)
		}})
	}

	// several receiving peers: each gets everything once
	for _, k := range [][2]string{{"PUSH", "PULL"}, {"DEALER", "DEALER"}} {
		for _, accepts := range []bool{false, true} {
			reg(mc.Scenario{Name: fmt.Sprintf("c05/fanout/%s/accepts=%v", k[0], accepts), Prop: []string{"C05"}, Quick: 1, Deep: 3, DeepShards: 4, Fn: func(t *mc.T) {
				a := kinds[k[0]](bg, opts()...)
				b1 := kinds[k[1]](bg, opts()...)
				b2 := kinds[k[1]](bg, opts()...)
				if accepts {
					listen(t, a, ep(1))
					dial(t, b1, ep(1))
					dial(t, b2, ep(1))
					mc.Settle()
				} else {
					listen(t, b1, ep(1))
					listen(t, b2, ep(2))
					dial(t, a, ep(1))
					dial(t, a, ep(2))
				}
				x := stream("x", 2)
				y := stream("y", 1)
				var g group
				var g1, g2 []string
				g.Go(func() { sendAll(t, a, x, true) })
				g.Go(func() { sendAll(t, a, y, true) })
				g.Go(func() { g1 = recvN(t, b1, 3) })
				g.Go(func() { g2 = recvN(t, b2, 3) })
				g.Wait()
				wantMerge(t, "first receiver", g1, flat(x), flat(y))
				wantMerge(t, "second receiver", g2, flat(x), flat(y))
				d1, d2 := noMore(t, "first receiver", b1), noMore(t, "second receiver", b2)
				mc.Settle()
				d1()
				d2()
				t.Outcome(strings.Join(g1, " "))
				closeAll(t, b1, a, b2)
			}})
		}
	}

	// sends that begin before the connection exists
	for _, k := range [][2]string{{"PUSH", "PULL"}, {"PAIR", "PAIR"}, {"DEALER", "DEALER"}} {
		reg(mc.Scenario{Name: "c05/early/" + k[0], Prop: []string{"C05"}, Quick: 2, Deep: 3, Fn: func(t *mc.T) {
			a := kinds[k[0]](bg, opts()...)
			b := kinds[k[1]](bg, opts()...)
			x, y := stream("x", 2), stream("y", 1)
			var g group
			g.Go(func() { sendAll(t, a, x, false) })
			g.Go(func() { sendAll(t, a, y, false) })
			var got []string
			g.Go(func() { got = recvN(t, b, 3) })
			if mc.Choose(2) == 0 {
				listen(t, a, ep(1))
				dial(t, b, ep(1))
			} else {
				listen(t, b, ep(1))
				dial(t, a, ep(1))
			}
			g.Wait()
			wantMerge(t, "receiver", got, flat(x), flat(y))
			t.Outcome(strings.Join(got, " "))
			closeAll(t, a, b)
		}})
	}

	// a peer from which a message was received is connected: it gets what is sent then
	for _, k := range []string{"PAIR", "DEALER", "ROUTER", "REP"} {
		prop := map[string]string{"PAIR": "C05", "DEALER": "C05", "ROUTER": "C10", "REP": "C08"}[k]
		reg(mc.Scenario{Name: strings.ToLower(prop) + "/answer/" + k, Prop: []string{prop}, Quick: 2, Deep: 3, DeepShards: 2, Fn: func(t *mc.T) {
			s := kinds[k](bg, opts()...)
			dials := mc.Choose(2) == 1
			n := 1 + mc.Choose(2)
			var ps []*rawPeer
			var g group
			if !dials {
				listen(t, s, ep(1))
			}
			for i := 0; i < n; i++ {
				var p *rawPeer
				id := fmt.Sprint("p", i)
				if dials {
					l := rawListen(t, 1+i)
					g.Go(func() { dial(t, s, ep(1+i)) })
					p = l.accept("NULL", partner(k), id)
					l.l.Close()
				} else {
					p = rawDial(t, 1, partner(k), id)
				}
				ps = append(ps, p)
				q := "q" + id
				put := []string{q}
				if k == "REP" {
					put = []string{"", q}
				}
				if err := p.write(encMsgS(put...)); err != nil {
					t.Failf("write failed", "%v", err)
				}
				m, err := s.Recv()
				if err != nil {
					t.Failf("recv failed", "%v", err)
				}
				out, exp := []string{"r" + id}, []string{"r" + id}
				switch k {
				case "ROUTER":
					out = append([]string{string(m.Frames[0])}, out...)
				case "REP":
					exp = append([]string{""}, exp...)
				}
				send(t, s, out...)
				t.Step("the answer to a message that was received")
				r, err := p.readMsg()
				if err != nil {
					t.Failf("connection ended", "%v", err)
				}
				wantFrames(t, "answer", r, exp)
			}
			g.Wait()
			closeAll(t, s)
			for _, p := range ps {
				p.c.Close()
			}
		}})
	}

	// a peer joins while others are served: the first peer still gets everything once
	for _, k := range [][2]string{{"PUSH", "PULL"}, {"DEALER", "DEALER"}} {
		reg(mc.Scenario{Name: "c05/join/" + k[0], Prop: []string{"C05"}, Quick: 1, Deep: 3, DeepShards: 4, Fn: func(t *mc.T) {
			a := kinds[k[0]](bg, opts()...)
			b1 := kinds[k[1]](bg, opts()...)
			b2 := kinds[k[1]](bg, opts()...)
			listen(t, a, ep(1))
			dial(t, b1, ep(1))
			mc.Settle()
			x := stream("x", 3)
			var g group
			var g1 []string
			g.Go(func() { sendAll(t, a, x, true) })
			g.Go(func() { g1 = recvN(t, b1, 3) })
			dial(t, b2, ep(1))
			g.Wait()
			mc.Settle()
			wantMerge(t, "first receiver", g1, flat(x))
			send(t, a, "last")
			// the joiner has a suffix, each message once, in order
			var g2 []string
			for {
				m := recv(t, b2)
				g2 = append(g2, m)
				if m == "last" {
					break
				}
			}
			all := append(flat(x), "last")
			if !merged(g2, all[len(all)-len(g2):]) {
				t.Failf("messages lost, repeated, mixed or reordered at joiner", "joiner got %q of %q", g2, all)
			}
			t.Outcome(fmt.Sprint(len(g2)))
			want(t, "message at first receiver", recv(t, b1), "last")
			closeAll(t, a, b1, b2)
		}})
	}

	// two goroutines receive from one socket: together they get everything once
	reg(mc.Scenario{Name: "c05/two-receivers", Prop: []string{"C05"}, Quick: 2, Deep: 3, DeepShards: 4, Fn: func(t *mc.T) {
		k := pick([][2]string{{"PUSH", "PULL"}, {"PAIR", "PAIR"}, {"DEALER", "DEALER"}})
		a := kinds[k[0]](bg, opts()...)
		b := kinds[k[1]](bg, opts()...)
		listen(t, b, ep(1))
		dial(t, a, ep(1))
		x := stream("x", 4)
		var g group
		var r1, r2 []string
		g.Go(func() { r1 = recvN(t, b, 2) })
		g.Go(func() { r2 = recvN(t, b, 2) })
		sendAll(t, a, x, true)
		g.Wait()
		wantMerge(t, "all receivers", flat(x), r1, r2)
		t.Outcome(strings.Join(r1, " "))
		closeAll(t, a, b)
	}})

	// a peer goes away: the others still get everything once
	reg(mc.Scenario{Name: "c05/leave", Prop: []string{"C05"}, Quick: 1, Deep: 3, DeepShards: 4, Fn: func(t *mc.T) {
		k := pick([][2]string{{"PUSH", "PULL"}, {"DEALER", "DEALER"}})
		a := kinds[k[0]](bg, opts()...)
		b1 := kinds[k[1]](bg, opts()...)
		b2 := kinds[k[1]](bg, opts()...)
		listen(t, a, ep(1))
		dial(t, b1, ep(1))
		dial(t, b2, ep(1))
		mc.Settle()
		x := stream("x", 3)
		var g group
		var g1 []string
		g.Go(func() {
			for _, m := range x {
				a.Send(msg(m...)) // may tell of the peer that left
			}
		})
		g.Go(func() { g1 = recvN(t, b1, 3) })
		g.Go(func() { b2.Close() })
		g.Wait()
		wantMerge(t, "remaining receiver", g1, flat(x))
		done := noMore(t, "remaining receiver", b1)
		mc.Settle()
		done()
		t.Outcome("ok")
		closeAll(t, a, b1)
	}})

	// more messages than the queues of the receiver hold wait for it; they come out in order
	for _, c := range []struct {
		prop, from, to string
		pre            []string // frames in front of what is sent
		drop           int      // frames in front of what is received
	}{
		{"C05", "PUSH", "PULL", nil, 0}, {"C05", "PAIR", "PAIR", nil, 0}, {"C05", "DEALER", "DEALER", nil, 0},
		{"C06", "PUB", "SUB", nil, 0}, {"C06", "XPUB", "XSUB", nil, 0},
		{"C10", "DEALER", "ROUTER", nil, 1}, {"C10", "ROUTER", "DEALER", []string{"me"}, 0},
		{"C08", "DEALER", "REP", []string{"e", ""}, 0},
	} {
		for _, tr := range []string{"tcp", "inproc"} {
			q, d := 1, 2
			if tr == "inproc" {
				q, d = 0, 1
			}
			reg(mc.Scenario{Name: strings.ToLower(c.prop) + "/backlog/" + c.from + "-" + c.to + "/" + tr, Prop: []string{c.prop}, Quick: q, Deep: d, DeepShards: 4, Fn: func(t *mc.T) {
				a := kinds[c.from](bg, opts()...)
				b := kinds[c.to](bg, opts(zmq.WithID(zmq.SocketIdentity("me")))...)
				e := endpoint(tr, 1)
				listen(t, a, e)
				switch c.to {
				case "SUB":
					subscribe(t, b, "")
				}
				dial(t, b, e)
				if c.to == "XSUB" {
					send(t, b, "\x01")
				}
				mc.Settle()
				const n = 12
				for i := 0; i < n; i++ {
					send(t, a, append(c.pre[:len(c.pre):len(c.pre)], fmt.Sprint(i))...)
				}
				mc.Settle()
				for i := 0; i < n; i++ {
					f := frames(recvOK(t, b))
					if len(f) != c.drop+1 || f[c.drop] != fmt.Sprint(i) {
						t.Failf("messages lost, repeated, mixed or reordered at receiver", "message %d is %q", i, f)
					}
				}
				done := noMore(t, "receiver", b)
				mc.Settle()
				done()
				t.Outcome("ok")
				closeAll(t, b, a)
			}})
		}
	}
}
