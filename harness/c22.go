package main

import (
	"fmt"
	"strings"
	"time"

	zmq "github.com/luxfi/zmq/v4"
	"github.com/luxfi/zmq/v4/internal/zzmc/mc"
	sim "github.com/luxfi/zmq/v4/internal/zzmc/xnet"
)

// Kinds whose application receives what peers send without being asked.
var receivers = []string{"PULL", "PAIR", "DEALER", "ROUTER", "REP", "SUB", "XSUB", "XPUB"}

// lastFrame is the last frame of a message, by which the harness names it.
func lastFrame(m zmq.Msg) string {
	if len(m.Frames) == 0 {
		return ""
	}
	return string(m.Frames[len(m.Frames)-1])
}

// envelope is what a raw peer puts before the body for a kind.
func envelope(k, b string) []string {
	if k == "REP" {
		return []string{"", b}
	}
	return []string{"x", b}
}

func wantSeq(t *mc.T, what string, got, exp []string) {
	if strings.Join(got, " ") != strings.Join(exp, " ") {
		t.Failf("wrong "+what, "%s: got %.300q, expected %.300q", what, got, exp)
	}
}

func init() {
	open := func(t *mc.T, k string) zmq.Socket {
		s := kinds[k](bg, opts()...)
		listen(t, s, ep(1))
		if k == "SUB" {
			subscribe(t, s, "")
		}
		return s
	}
	seq := func(p string, n int) (l []string) {
		for i := 0; i < n; i++ {
			l = append(l, fmt.Sprint(p, i))
		}
		return
	}

	for _, k := range receivers {
		// A peer that sends without end is stopped; nothing of what it sent is lost.
		reg(mc.Scenario{Name: "c22/bound/" + k, Prop: []string{"C22"}, Quick: 0, Deep: 0, NoCache: true, Horizon: 400000, Fn: func(t *mc.T) {
			peers := 1 + mc.Choose(2)
			total, most := 2600, 2400
			if peers == 2 {
				total, most = 1300, 1200
			}
			buf := pick([]int{1, 64})
			s := open(t, k)
			var g group
			var ps []*rawPeer
			sent := make([]int, peers)
			for i := 0; i < peers; i++ {
				p := rawDial(t, 1, partner(k), fmt.Sprint("peer", i))
				ps = append(ps, p)
				mc.Settle()
				sim.SetBuf(p.c, buf)
				g.Go(func() {
					for j := 0; j < total; j++ {
						if err := p.write(encMsgS(envelope(k, fmt.Sprint(i, ":", j))...)); err != nil {
							t.Failf("connection ended", "by a %s that is not read, at message %d: %v", k, j, err)
						}
						sent[i]++
					}
				})
			}
			mc.Settle()
			for i, n := range sent {
				if n > most {
					t.Failf("messages are taken without limit", "%s took %d messages of peer %d although nobody receives", k, n, i)
				}
				if n == 0 {
					t.Failf("no message is taken", "%s, peer %d", k, i)
				}
			}
			at := mc.Elapsed()
			got := make([][]string, peers)
			for j := 0; j < total*peers; j++ {
				t.Step("receiving")
				m, err := s.Recv()
				if err != nil {
					t.Failf("recv failed", "message %d: %v", j, err)
				}
				var who int
				fmt.Sscanf(lastFrame(m), "%d:", &who)
				got[who] = append(got[who], lastFrame(m))
			}
			for i := range got {
				wantSeq(t, "messages", got[i], seq(fmt.Sprint(i, ":"), total))
			}
			g.Wait()
			if mc.Elapsed() != at {
				t.Failf("receiving took time", "%v", mc.Elapsed()-at)
			}
			t.Outcome("ok")
			closeAll(t, s)
			for _, p := range ps {
				p.c.Close()
			}
		}})

		// Two peers fill every queue while the application pauses and goes on.
		reg(mc.Scenario{Name: "c22/order/" + k, Prop: []string{"C22"}, Quick: 1, Deep: 2, DeepShards: 4, SplitChoose: true, Fn: func(t *mc.T) {
			n := pick([]int{7, 12})
			pause := pick([]int{0, 1, n})
			s := open(t, k)
			var g group
			var ps []*rawPeer
			for i := 0; i < 2; i++ {
				p := rawDial(t, 1, partner(k), fmt.Sprint("peer", i))
				ps = append(ps, p)
				mc.Settle()
				sim.SetBuf(p.c, 9)
				g.Go(func() {
					for _, b := range seq(string(rune('a'+i)), n) {
						if err := p.write(encMsgS(envelope(k, b)...)); err != nil {
							t.Failf("connection ended", "by a %s that is not read: %v", k, err)
						}
					}
				})
			}
			var got []string
			for j := 0; j < 2*n; j++ {
				if j == pause {
					mc.Settle()
					time.Sleep(10 * time.Minute)
				}
				t.Step("receiving")
				m, err := s.Recv()
				if err != nil {
					t.Failf("recv failed", "message %d: %v", j, err)
				}
				got = append(got, lastFrame(m))
			}
			g.Wait()
			if !merged(got, seq("a", n), seq("b", n)) {
				t.Failf("wrong messages", "%q", got)
			}
			t.Outcome(strings.Join(got, ""))
			closeAll(t, s)
			ps[0].c.Close()
			ps[1].c.Close()
		}})

		// A peer that leaves after it has sent: what it sent is still received.
		reg(mc.Scenario{Name: "c22/gone/" + k, Prop: []string{"C22"}, Quick: 1, Deep: 2, DeepShards: 2, Fn: func(t *mc.T) {
			n := pick([]int{1, 9, 10, 11, 12, 13, 15})
			pause := pick([]int{0, 1, 5})
			s := open(t, k)
			p := rawDial(t, 1, partner(k), "peer")
			if k == "SUB" { // a reset would take what is not received with it
				if m, err := p.readMsg(); err != nil || m[0] != "\x01" {
					t.Failf("wrong subscription", "%q %v", m, err)
				}
			}
			var g group
			g.Go(func() {
				for _, b := range seq("a", n) {
					if err := p.write(encMsgS(envelope(k, b)...)); err != nil {
						t.Failf("connection ended", "by a %s that is not read: %v", k, err)
					}
				}
				p.c.Close()
			})
			var got []string
			for j := 0; j < n; j++ {
				if j == pause {
					mc.Settle()
					time.Sleep(10 * time.Minute)
				}
				t.Step("receiving what a peer that left had sent")
				m, err := s.Recv()
				if err != nil {
					t.Failf("recv failed", "message %d: %v", j, err)
				}
				got = append(got, lastFrame(m))
			}
			wantSeq(t, "messages", got, seq("a", n))
			g.Wait()
			// a later peer is served
			q := rawDial(t, 1, partner(k), "other")
			q.write(encMsgS(envelope(k, "last")...))
			t.Step("receiving from a later peer")
			want(t, "message", lastFrame(recvOK(t, s)), "last")
			t.Outcome("ok")
			closeAll(t, s)
			q.c.Close()
		}})

		// Close while everything is full.
		reg(mc.Scenario{Name: "c22/close/" + k, Prop: []string{"C22"}, Quick: 2, Deep: 3, Fn: func(t *mc.T) {
			s := open(t, k)
			p := rawDial(t, 1, partner(k), "peer")
			mc.Settle()
			sim.SetBuf(p.c, 4)
			var g group
			g.Go(func() {
				for i := 0; ; i++ {
					if err := p.write(encMsgS(envelope(k, fmt.Sprint(i))...)); err != nil {
						return
					}
				}
			})
			mc.Settle()
			if mc.Choose(2) == 1 {
				want(t, "message", lastFrame(recvOK(t, s)), "0")
			}
			closeAll(t, s)
			t.Step("the peer sees its connection end")
			g.Wait()
			p.c.Close()
		}})
	}

	// Two sockets: a sender is held back and goes on, whatever its kind.
	for _, pr := range [][2]string{{"PUSH", "PULL"}, {"PAIR", "PAIR"}, {"DEALER", "DEALER"}, {"DEALER", "ROUTER"}, {"DEALER", "REP"}} {
		for _, tr := range []string{"tcp", "inproc"} {
			reg(mc.Scenario{Name: "c22/sockets/" + pr[0] + "-" + pr[1] + "/" + tr, Prop: []string{"C22"}, Quick: 1, Deep: 2, DeepShards: 2, Fn: func(t *mc.T) {
				n := pick([]int{13, 20})
				pause := pick([]int{0, 3, 12})
				a := kinds[pr[0]](bg, opts()...)
				b := kinds[pr[1]](bg, opts()...)
				e := endpoint(tr, 1)
				listen(t, b, e)
				dial(t, a, e)
				mc.Settle()
				if tr == "tcp" {
					for _, c := range sim.Sim.Conns() {
						sim.SetBuf(c, 8)
					}
				}
				at := mc.Elapsed()
				var g group
				var done int
				g.Go(func() {
					for i, x := range seq("m", n) {
						sendAs(t, a, i%2 == 1, envelope(pr[1], x))
						done++
					}
				})
				for i, x := range seq("m", n) {
					if i == pause {
						mc.Settle()
					}
					t.Step("receiving")
					m, err := b.Recv()
					if err != nil {
						t.Failf("recv failed", "message %d: %v", i, err)
					}
					want(t, "message", lastFrame(m), x)
				}
				g.Wait()
				if mc.Elapsed() != at {
					t.Failf("receiving took time", "%v", mc.Elapsed()-at)
				}
				t.Outcome("ok")
				closeAll(t, a, b)
			}})
		}
	}
}
