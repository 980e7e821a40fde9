package main

import (
	"fmt"
	"strings"

	zmq "github.com/luxfi/zmq/v4"
	"github.com/luxfi/zmq/v4/internal/zzmc/mc"
	sim "github.com/luxfi/zmq/v4/internal/zzmc/xnet"
)

// slowPeer is a raw subscriber to everything behind a tiny buffer.
type slowPeer struct {
	*rawPeer
	got [][]string
}

func slow(t *mc.T, n, buf int) *slowPeer {
	p := &slowPeer{rawPeer: rawDial(t, n, "SUB", "")}
	p.write(encMsgS("\x01"))
	mc.Settle()
	sim.SetBuf(sim.Peer(p.c), buf)
	return p
}

// read takes n messages (all of them for n < 0).
func (p *slowPeer) read(n int) {
	for ; n != 0; n-- {
		m, err := p.readMsg()
		if err != nil {
			if len(m) > 0 {
				p.t.Failf("partial message", "the slow subscriber got %q", m)
			}
			return
		}
		p.got = append(p.got, m)
	}
}

func sendNow(t *mc.T, s zmq.Socket, multi bool, fs ...string) {
	t.Step("send beside a stalled subscriber")
	at := mc.Elapsed()
	sendAs(t, s, multi, fs)
	if d := mc.Elapsed() - at; d != 0 {
		t.Failf("publisher delayed", "Send took %v", d)
	}
}

func init() {
	for _, pub := range []string{"PUB", "XPUB"} {
		reg(mc.Scenario{Name: "c07/stalled/" + pub, Prop: []string{"C07"}, Quick: 1, Deep: 2, QuickShards: 5, DeepShards: 5, SplitChoose: true, Weight: 2, Fn: func(t *mc.T) {
			h := 1000
			p := kinds[pub](bg, opts()...)
			k := mc.Choose(5)
			if pub == "PUB" {
				h = k
				if err := p.SetOption(zmq.OptionHWM, h); err != nil {
					t.Failf("option refused", "%v", err)
				}
			}
			n := pick([]int{1, k, k + 1, k + 3})
			reads := mc.Choose(2)
			paced := mc.Choose(2) == 1
			listen(t, p, ep(1))
			sl := slow(t, 1, pick([]int{1, 9}))
			s := zmq.NewSub(bg, opts()...)
			dial(t, s, ep(1))
			subscribe(t, s, "")
			mc.Settle()
			c := collect(s)
			var g group
			gate := make(chan bool)
			g.Go(func() { sl.read(reads); <-gate; sl.read(-1) })
			var sent []string
			for i := 0; i < n; i++ {
				m := []string{fmt.Sprint("m", i), "body"}
				sent = append(sent, showS(m))
				sendNow(t, p, i&1 == 1, m...)
				if paced {
					mc.Settle()
				}
			}
			mc.Settle()
			live := shows(c.got)
			if (paced || n <= h) && strings.Join(live, " ") != strings.Join(sent, " ") || !subseq(live, sent) {
				t.Failf("live subscriber disturbed", "it got %q of %q (limit %d, paced %v)", live, sent, h, paced)
			}
			// the stalled one goes on
			close(gate)
			mc.Settle()
			keep := min(n, h)
			got := shows(sl.got)
			if !subseq(got, sent) || len(got) < keep || strings.Join(got[:keep], " ") != strings.Join(sent[:keep], " ") {
				t.Failf("wrong messages at the slow subscriber", "it got %q of %q (limit %d)", got, sent, h)
			}
			// and is served like the others again
			sendNow(t, p, false, "last", "")
			mc.Settle()
			if got := shows(sl.got); got[len(got)-1] != "last," {
				t.Failf("slow subscriber not served again", "it got %q", got)
			}
			want(t, "last message at the live subscriber", shows(c.got)[len(c.got)-1], "last,")
			t.Outcome(fmt.Sprint(len(got)))
			closeAll(t, p, s)
			g.Wait()
			sl.c.Close()
		}})

		// everything else goes on beside a stalled subscriber
		reg(mc.Scenario{Name: "c07/beside/" + pub, Prop: []string{"C07"}, Quick: 1, Deep: 2, DeepShards: 4, Fn: func(t *mc.T) {
			p := kinds[pub](bg, opts()...)
			if pub == "PUB" {
				p.SetOption(zmq.OptionHWM, 4)
			}
			listen(t, p, ep(1))
			sl := slow(t, 1, 3)
			s := zmq.NewSub(bg, opts()...)
			s2 := zmq.NewSub(bg, opts()...)
			dial(t, s, ep(1))
			subscribe(t, s, "k")
			subscribe(t, s2, "k")
			mc.Settle()
			sendNow(t, p, false, "k0", "fills the buffer")
			mc.Settle()
			c, c2 := collect(s), collect(s2)
			var g group
			g.Go(func() { sendNow(t, p, false, "k1", "x"); sendNow(t, p, true, "k2", "x") })
			g.Go(func() { sendNow(t, p, false, "ka", "x") })
			g.Go(func() { dial(t, s2, ep(1)) })
			g.Go(func() { subscribe(t, s, "other"); unsubscribe(t, s, "other") })
			if mc.Choose(2) == 1 {
				g.Go(func() { sl.c.Close() })
			}
			g.Wait()
			mc.Settle()
			wantMerge(t, "live subscriber", shows(c.got), []string{"k0,fills the buffer", "k1,x", "k2,x"}, []string{"ka,x"})
			sendNow(t, p, false, "klast")
			mc.Settle()
			got := shows(c2.got)
			if len(got) == 0 || got[len(got)-1] != "klast" || len(got) > 4 {
				t.Failf("joiner not served", "it got %q", got)
			}
			want(t, "topics at the publisher", topicsOf(p), map[bool]string{true: `["k"]`, false: `["" "k"]`}[!strings.Contains(topicsOf(p), `""`)])
			t.Outcome(fmt.Sprint(len(got)))
			closeAll(t, p, s, s2)
			sl.c.Close()
		}})

		// the default limit
		reg(mc.Scenario{Name: "c07/default/" + pub, Prop: []string{"C07"}, Quick: 0, Deep: 0, Fn: func(t *mc.T) {
			p := kinds[pub](bg, opts()...)
			listen(t, p, ep(1))
			sl := slow(t, 1, 3)
			n := pick([]int{999, 1000, 1001, 1100})
			for i := 0; i < n; i++ {
				sendNow(t, p, false, fmt.Sprint(i))
			}
			var g group
			g.Go(func() { sl.read(-1) })
			mc.Settle()
			for i, m := range sl.got {
				if i < 1000 && m[0] != fmt.Sprint(i) {
					t.Failf("wrong messages at the slow subscriber", "message %d is %q", i, m)
				}
			}
			if len(sl.got) < min(n, 1000) || len(sl.got) > n {
				t.Failf("wrong messages at the slow subscriber", "%d of %d messages", len(sl.got), n)
			}
			t.Outcome(fmt.Sprint(len(sl.got)))
			closeAll(t, p)
			g.Wait()
			sl.c.Close()
		}})

		// what is kept for a subscriber that never reads is bounded by the limit
		reg(mc.Scenario{Name: "c07/bounded/" + pub, Prop: []string{"C07"}, Quick: 0, Deep: 0, Fn: func(t *mc.T) {
			h := 1000
			p := kinds[pub](bg, opts()...)
			if pub == "PUB" {
				h = pick([]int{0, 1, 2, 7, 100})
				p.SetOption(zmq.OptionHWM, h)
			}
			listen(t, p, ep(1))
			sl := slow(t, 1, 3)
			multi := mc.Choose(2) == 1
			n := h + 600
			for i := 0; i < n; i++ {
				sendNow(t, p, multi, fmt.Sprint(i), "body")
			}
			var g group
			g.Go(func() { sl.read(-1) })
			mc.Settle()
			if len(sl.got) > h+300 {
				t.Failf("no limit to what is kept", "with a limit of %d, %d of %d messages were kept", h, len(sl.got), n)
			}
			t.Outcome(fmt.Sprint(h))
			closeAll(t, p)
			g.Wait()
			sl.c.Close()
		}})

		// several stalled subscribers, at different points, on either transport
		reg(mc.Scenario{Name: "c07/several/" + pub, Prop: []string{"C07"}, Quick: 1, Deep: 2, DeepShards: 4, Fn: func(t *mc.T) {
			p := kinds[pub](bg, opts()...)
			if pub == "PUB" {
				p.SetOption(zmq.OptionHWM, 3)
			}
			listen(t, p, ep(1))
			s1, s2 := slow(t, 1, 1), slow(t, 1, 4)
			// one dialed by the publisher
			s := zmq.NewXSub(bg, opts()...)
			listen(t, s, ep(2))
			dial(t, p, ep(2))
			change(t, s, true, "")
			mc.Settle()
			c := collect(s)
			var g group
			g.Go(func() { s1.read(1) })
			g.Go(func() { s2.read(2) })
			g.Go(func() {
				for i := 0; i < 3; i++ {
					sendNow(t, p, i == 1, fmt.Sprint("m", i), "z")
				}
			})
			g.Wait()
			mc.Settle()
			want(t, "messages at the live subscriber", strings.Join(shows(c.got), " "), "m0,z m1,z m2,z")
			g.Go(func() { s1.read(-1) })
			g.Go(func() { s2.read(-1) })
			mc.Settle()
			want(t, "messages at the first slow subscriber", strings.Join(shows(s1.got), " "), "m0,z m1,z m2,z")
			want(t, "messages at the second slow subscriber", strings.Join(shows(s2.got), " "), "m0,z m1,z m2,z")
			t.Outcome("ok")
			closeAll(t, s, p)
			g.Wait()
			s1.c.Close()
			s2.c.Close()
		}})
	}
	// refused limits leave the socket as it was
	reg(mc.Scenario{Name: "c07/options", Prop: []string{"C07"}, Quick: 0, Deep: 1, Fn: func(t *mc.T) {
		p := zmq.NewPub(bg, opts()...)
		if mc.Choose(2) == 1 {
			listen(t, p, ep(1))
		}
		v := pick([]any{-1, -1 << 62, "5", 5.0, nil, uint(3), true})
		if err := p.SetOption(zmq.OptionHWM, v); err == nil {
			t.Failf("bad limit accepted", "%T %v", v, v)
		}
		if p.Addr() == nil {
			listen(t, p, ep(1))
		}
		s := zmq.NewSub(bg, opts()...)
		dial(t, s, ep(1))
		subscribe(t, s, "")
		mc.Settle()
		send(t, p, "x")
		want(t, "message", recv(t, s), "x")
		t.Outcome("ok")
		closeAll(t, s, p)
	}})
}
