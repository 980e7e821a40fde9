package main

import (
	"context"
	"errors"
	"fmt"
	"strings"
	"time"

	zmq "github.com/luxfi/zmq/v4"
	"github.com/luxfi/zmq/v4/internal/errgroup"
	"github.com/luxfi/zmq/v4/internal/zzmc/mc"
	sim "github.com/luxfi/zmq/v4/internal/zzmc/xnet"
)

const limit = 2 * time.Second

// attempt is a Send and its verdict.
type attempt struct {
	m   string
	err error
}

// try sends; a failure must be the time-out, on time.
func try(t *mc.T, s zmq.Socket, multi bool, fs ...string) attempt {
	at := mc.Elapsed()
	t.Step("send " + fs[len(fs)-1])
	var err error
	if multi {
		err = s.SendMulti(msg(fs...))
	} else {
		err = s.Send(msg(fs...))
	}
	d := mc.Elapsed() - at
	switch {
	case d > limit:
		t.Failf("send goes on after its time-out", "Send took %v", d)
	case err != nil && d < limit:
		t.Failf("send fails before its time-out", "Send ended after %v: %v", d, err)
	case err != nil && s.Type() != zmq.Req && !errors.Is(err, context.DeadlineExceeded):
		t.Failf("time-out with another error", "%v", err)
	}
	if s.Type() == zmq.Router {
		fs = fs[1:]
	}
	if s.Type() == zmq.Req {
		fs = append([]string{""}, fs...)
	}
	return attempt{showS(fs), err}
}

// delivered compares what arrived with the attempts: those that succeeded
// arrive once and in order, the others once or not at all, and nothing else.
func delivered(t *mc.T, got []string, as []attempt) {
	n := map[string]int{}
	for _, g := range got {
		n[g]++
	}
	var ok, seen []string
	for _, a := range as {
		c := n[a.m]
		delete(n, a.m)
		if c > 1 || a.err == nil && c != 1 {
			t.Failf("wrong message count", "%q (%v) arrived %d times in %q", a.m, a.err, c, got)
		}
		if a.err == nil {
			ok = append(ok, a.m)
		}
	}
	if len(n) > 0 {
		t.Failf("message nobody sent", "%q", got)
	}
	for _, g := range got {
		for _, o := range ok {
			if g == o {
				seen = append(seen, g)
			}
		}
	}
	if strings.Join(seen, " ") != strings.Join(ok, " ") {
		t.Failf("wrong order", "%q instead of %q", seen, ok)
	}
}

func init() {
	blocking := []string{"PUSH", "PAIR", "DEALER", "ROUTER", "REQ"}
	to := func(k string, fs ...string) []string {
		if k == "ROUTER" {
			return append([]string{"peer"}, fs...)
		}
		return fs
	}
	open := func(t *mc.T, k string) (zmq.Socket, *inbox) {
		s := kinds[k](bg, opts(zmq.WithTimeout(limit))...)
		listen(t, s, ep(1))
		p := &inbox{rawPeer: rawDial(t, 1, partner(k), "peer")}
		mc.Settle()
		return s, p
	}
	drain := func(p *inbox, g *group) {
		g.Go(func() {
			for {
				m, err := p.readMsg()
				if err != nil {
					return
				}
				p.got = append(p.got, m)
			}
		})
	}

	for _, k := range blocking {
		// the peer stops reading at any byte and goes on later
		reg(mc.Scenario{Name: "c12/timeout/" + k, Prop: []string{"C12"}, Quick: 2, Deep: 3, QuickShards: 2, DeepShards: 4, SplitChoose: true, Weight: 2, Fn: func(t *mc.T) {
			s, p := open(t, k)
			sim.SetBuf(sim.Peer(p.c), pick([]int{1, 2, 3, 5, 6, 9, 12, 14}))
			multi := mc.Choose(2) == 1
			tries := 1 + mc.Choose(2)
			var as []attempt
			for i := 0; i < tries; i++ {
				as = append(as, try(t, s, multi, to(k, fmt.Sprint("m", i), "xyz")...))
			}
			var g group
			drain(p, &g)
			mc.Settle()
			// the connection works again
			for i := 0; i < 2; i++ {
				a := try(t, s, !multi, to(k, fmt.Sprint("n", i), "")...)
				if a.err != nil {
					t.Failf("send fails though the peer reads again", "%v", a.err)
				}
				as = append(as, a)
			}
			mc.Settle()
			delivered(t, shows(p.got), as)
			t.Outcome(fmt.Sprint(len(p.got)))
			closeAll(t, s)
			g.Wait()
			p.c.Close()
		}})

		// the time-out falls anywhere into the send
		reg(mc.Scenario{Name: "c12/anywhere/" + k, Prop: []string{"C12"}, TimerRace: true, Quick: 2, Deep: 3, QuickShards: 1, DeepShards: 2, SplitChoose: true, Fn: func(t *mc.T) {
			s, p := open(t, k)
			multi := mc.Choose(2) == 1
			var g group
			drain(p, &g)
			var as []attempt
			for i := 0; i < 3; i++ {
				fs := to(k, fmt.Sprint("m", i), "xyz")
				f := s.Send
				if multi {
					f = s.SendMulti
				}
				err := f(msg(fs...))
				if k == "ROUTER" {
					fs = fs[1:]
				}
				if k == "REQ" {
					fs = append([]string{""}, fs...)
				}
				as = append(as, attempt{showS(fs), err})
			}
			mc.Settle()
			delivered(t, shows(p.got), as)
			t.Outcome(fmt.Sprint(len(p.got)))
			closeAll(t, s)
			g.Wait()
			p.c.Close()
		}})

		// several senders beside a peer that does not read for a while
		reg(mc.Scenario{Name: "c12/senders/" + k, Prop: []string{"C12"}, Quick: 2, Deep: 3, DeepShards: 4, SplitChoose: true, Fn: func(t *mc.T) {
			s, p := open(t, k)
			sim.SetBuf(sim.Peer(p.c), pick([]int{1, 7, 10}))
			wait := pick([]time.Duration{0, limit / 2, limit + limit/2})
			var g, h group
			var as [2][]attempt
			for i := 0; i < 2; i++ {
				g.Go(func() {
					for j := 0; j < 2; j++ {
						fs := to(k, fmt.Sprintf("s%d", i), fmt.Sprint(j))
						at := mc.Elapsed()
						err := s.Send(msg(fs...))
						if d := mc.Elapsed() - at; d > limit+limit && k == "REQ" || d > limit && k != "REQ" {
							t.Failf("send goes on after its time-out", "Send took %v", d)
						}
						if k == "ROUTER" {
							fs = fs[1:]
						}
						if k == "REQ" {
							fs = append([]string{""}, fs...)
						}
						as[i] = append(as[i], attempt{showS(fs), err})
					}
				})
			}
			time.Sleep(wait)
			drain(p, &h)
			g.Wait()
			mc.Settle()
			for i := range as {
				var mine []string
				for _, m := range shows(p.got) {
					if strings.Contains(m, fmt.Sprintf("s%d,", i)) {
						mine = append(mine, m)
					}
				}
				delivered(t, mine, as[i])
			}
			t.Outcome(fmt.Sprint(len(p.got)))
			closeAll(t, s)
			h.Wait()
			p.c.Close()
		}})
	}

	// no peer yet, one that comes in time, one that comes too late
	for _, k := range []string{"PUSH", "PAIR", "DEALER", "ROUTER"} {
		reg(mc.Scenario{Name: "c12/nobody/" + k, Prop: []string{"C12"}, Quick: 2, Deep: 3, DeepShards: 2, Fn: func(t *mc.T) {
			s := kinds[k](bg, opts(zmq.WithTimeout(limit))...)
			listen(t, s, ep(1))
			when := pick([]time.Duration{limit / 2, limit, limit * 3})
			var g, h group
			var p *inbox
			g.Go(func() {
				time.Sleep(when)
				p = &inbox{rawPeer: rawDial(t, 1, partner(k), "peer")}
				drain(p, &h)
			})
			var as []attempt
			for i := 0; i < 2; i++ {
				as = append(as, try(t, s, i == 1, to(k, fmt.Sprint("m", i))...))
			}
			if as[0].err != nil && when < limit {
				t.Failf("send fails though a peer came", "%v", as[0].err)
			}
			if as[1].err == nil && when > 2*limit {
				t.Failf("send without peer succeeds", "")
			}
			g.Wait()
			mc.Settle()
			as = append(as, try(t, s, false, to(k, "last")...))
			if as[2].err != nil {
				t.Failf("send fails though a peer came", "%v", as[2].err)
			}
			mc.Settle()
			delivered(t, shows(p.got), as)
			t.Outcome(fmt.Sprint(len(p.got)))
			closeAll(t, s)
			h.Wait()
			p.c.Close()
		}})
	}

	// several senders wait for the first peer
	for _, k := range []string{"PUSH", "PAIR", "DEALER", "ROUTER"} {
		reg(mc.Scenario{Name: "c12/waiters/" + k, Prop: []string{"C12", "C05"}, Quick: 1, Deep: 3, DeepShards: 2, Fn: func(t *mc.T) {
			s := kinds[k](bg, opts(zmq.WithTimeout(limit))...)
			dialed := mc.Choose(2) == 1
			n := 2 + mc.Choose(2)
			if !dialed {
				listen(t, s, ep(1))
			}
			var g, h group
			as := make([]attempt, n)
			for i := range as {
				g.Go(func() {
					time.Sleep(time.Duration(i) * limit / 8)
					as[i] = try(t, s, i == 1, to(k, fmt.Sprint("m", i))...)
					if as[i].err != nil {
						t.Failf("send fails though a peer came", "sender %d: %v", i, as[i].err)
					}
				})
			}
			time.Sleep(limit / 2)
			p := &inbox{}
			if dialed {
				l := rawListen(t, 1)
				h.Go(func() { p.rawPeer = l.accept("NULL", partner(k), "peer") })
				dial(t, s, ep(1))
				h.Wait()
				l.l.Close()
			} else {
				p.rawPeer = rawDial(t, 1, partner(k), "peer")
			}
			drain(p, &h)
			g.Wait()
			mc.Settle()
			got := shows(p.got)
			if len(got) != n {
				t.Failf("wrong messages", "%q of %d", got, n)
			}
			t.Outcome(fmt.Sprint(got))
			closeAll(t, s)
			h.Wait()
			p.c.Close()
		}})
	}

	// one peer stops reading, the other one does not
	for _, k := range []string{"PUSH", "DEALER", "ROUTER"} {
		reg(mc.Scenario{Name: "c12/beside/" + k, Prop: []string{"C12"}, Quick: 2, Deep: 3, DeepShards: 2, Fn: func(t *mc.T) {
			s, p := open(t, k)
			q := &inbox{rawPeer: rawDial(t, 1, partner(k), "other")}
			mc.Settle()
			sim.SetBuf(sim.Peer(p.c), pick([]int{1, 3, 4}))
			var g, h group
			drain(q, &h)
			var as []attempt
			as = append(as, try(t, s, false, to(k, "m0", "x")...))
			if k == "ROUTER" {
				if err := s.Send(msg("other", "m0", "x")); err != nil {
					t.Failf("send fails", "%v", err)
				}
			}
			drain(p, &g)
			mc.Settle()
			as = append(as, try(t, s, false, to(k, "m1", "x")...))
			if k == "ROUTER" {
				if err := s.Send(msg("other", "m1", "x")); err != nil {
					t.Failf("send fails", "%v", err)
				}
			}
			mc.Settle()
			delivered(t, shows(p.got), as)
			if got := strings.Join(shows(q.got), " "); got != "m0,x m1,x" {
				t.Failf("wrong messages at the other peer", "%q", got)
			}
			closeAll(t, s)
			g.Wait()
			h.Wait()
			p.c.Close()
			q.c.Close()
		}})
	}

	// cancelling the socket's context ends what is blocked
	for _, k := range kindNames[:11] {
		for _, peer := range []bool{false, true} {
			name := k
			if peer {
				name += "/peer"
			}
			reg(mc.Scenario{Name: "c12/cancel/" + name, Prop: []string{"C12"}, Quick: 2, Deep: 4, DeepShards: 2, Fn: func(t *mc.T) {
				ctx, cancel := context.WithCancel(bg)
				s := kinds[k](ctx, opts(zmq.WithAutomaticReconnect(false))...)
				var p *rawPeer
				if peer {
					listen(t, s, ep(1))
					p = rawDial(t, 1, partner(k), "peer")
					mc.Settle()
					if k == "REQ" {
						send(t, s, "question")
					}
					sim.SetBuf(sim.Peer(p.c), 1)
				}
				var g group
				if canRecv(k) && mc.Choose(2) == 1 {
					g.Go(func() {
						if _, err := s.Recv(); err == nil {
							t.Failf("recv of nothing succeeds", "")
						}
					})
				}
				if k != "REQ" && canSend(k) {
					g.Go(func() {
						err := s.Send(msg("peer", "body"))
						if err == nil && k != "PUB" && k != "XPUB" && k != "REP" {
							t.Failf("blocked send succeeds", "")
						}
					})
				}
				if mc.Choose(2) == 1 {
					mc.Settle()
				}
				cancel()
				at := mc.Elapsed()
				t.Step("operation of a cancelled socket")
				g.Wait()
				if canRecv(k) {
					ended(t, "Recv", recvErr(s))
				}
				if d := mc.Elapsed() - at; d != 0 {
					t.Failf("cancelled operation does not end", "it took %v", d)
				}
				closeAll(t, s)
				if p != nil {
					p.c.Close()
				}
			}})
		}
	}

	// a Dial in each of its phases
	reg(mc.Scenario{Name: "c12/cancel-dial", Prop: []string{"C12"}, Quick: 2, Deep: 4, DeepShards: 2, SplitChoose: true, Fn: func(t *mc.T) {
		phase := mc.Choose(3)
		retry := time.Second
		ctx, cancel := context.WithCancel(bg)
		m := pick([]string{"NULL", "PLAIN"})
		s := zmq.NewPush(ctx, opts(mech(m), zmq.WithDialerMaxRetries(pick([]int{5, -1})), zmq.WithDialerRetry(retry))...)
		var l *rawServer
		if phase > 0 {
			l = rawListen(t, 1)
		}
		var g, h group
		g.Go(func() {
			if err := s.Dial(ep(1)); err == nil {
				t.Failf("cancelled dial succeeds", "")
			}
		})
		if phase > 0 {
			h.Go(func() {
				c, err := l.l.Accept()
				if err != nil {
					return
				}
				b := peerBytes(m, "PULL", "id", false)
				c.Write(b[:[]int{0, 20, 70}[phase]])
				buf := make([]byte, 300)
				for {
					if _, err := c.Read(buf); err != nil {
						break
					}
				}
				c.Close()
			})
		}
		if phase == 0 {
			time.Sleep(pick([]time.Duration{0, retry / 2, retry, retry * 3}))
		} else if mc.Choose(2) == 1 {
			mc.Settle()
		}
		cancel()
		at := mc.Elapsed()
		t.Step("cancelled dial")
		g.Wait()
		if d := mc.Elapsed() - at; d > retry {
			t.Failf("cancelled operation does not end", "Dial took %v", d)
		}
		if l != nil {
			l.l.Close()
		}
		closeAll(t, s)
		h.Wait()
	}})

	// the time-out is for sending: a receiver waits as long as it takes
	for _, k := range []string{"PULL", "PAIR", "DEALER", "SUB", "XSUB", "ROUTER", "REP", "REQ", "XPUB"} {
		reg(mc.Scenario{Name: "c12/patient/" + k, Prop: []string{"C12"}, Quick: 1, Deep: 3, Fn: func(t *mc.T) {
			s := kinds[k](bg, opts(zmq.WithTimeout(limit))...)
			listen(t, s, ep(1))
			wait := pick([]time.Duration{limit, 5 * limit, 25 * time.Minute})
			var got []string
			var g group
			before := k != "REQ" && mc.Choose(2) == 1 // already while nobody is there
			rcv := func() { got = frames(recvOK(t, s)) }
			t.Step("receiving")
			if before {
				g.Go(rcv)
				time.Sleep(wait)
			}
			p := rawDial(t, 1, partner(k), "peer")
			mc.Settle()
			if k == "REQ" {
				send(t, s, "question")
				if _, err := p.readMsg(); err != nil {
					t.Failf("request lost", "%v", err)
				}
			}
			if !before {
				g.Go(rcv)
			}
			time.Sleep(wait)
			m, w := []string{"late", "z"}, []string{"late", "z"}
			switch k {
			case "REQ", "REP":
				m = append([]string{""}, m...)
			case "ROUTER":
				w = append([]string{"peer"}, w...)
			}
			p.write(encMsgS(m...))
			g.Wait()
			wantFrames(t, "late message", got, w)
			t.Outcome(k)
			closeAll(t, s)
			p.c.Close()
		}})
	}

	// a deadline on the context given by the user
	reg(mc.Scenario{Name: "c12/deadline", Prop: []string{"C12"}, Quick: 2, Deep: 3, Fn: func(t *mc.T) {
		k := pick([]string{"PULL", "SUB", "REP", "ROUTER", "PAIR", "DEALER"})
		ctx, cancel := context.WithTimeout(bg, time.Second)
		defer cancel()
		s := kinds[k](ctx, opts()...)
		listen(t, s, ep(1))
		if mc.Choose(2) == 1 {
			p := rawDial(t, 1, partner(k), "peer")
			defer p.c.Close()
		}
		t.Step("recv")
		_, err := s.Recv()
		if err == nil || mc.Elapsed() != time.Second {
			t.Failf("cancelled operation does not end", "Recv: %v after %v", err, mc.Elapsed())
		}
		closeAll(t, s)
	}})

	// subscribing beside a publisher that does not read
	for _, k := range []string{"SUB", "XSUB"} {
		reg(mc.Scenario{Name: "c12/subscribe/" + k, Prop: []string{"C12"}, Quick: 2, Deep: 3, Fn: func(t *mc.T) {
			s := kinds[k](bg, opts(zmq.WithTimeout(limit))...)
			listen(t, s, ep(1))
			p := &inbox{rawPeer: rawDial(t, 1, "PUB", "")}
			mc.Settle()
			sim.SetBuf(sim.Peer(p.c), pick([]int{1, 2, 3}))
			var as []attempt
			for _, x := range []string{"a", "bb"} {
				at := mc.Elapsed()
				t.Step("subscribe")
				var err error
				if k == "SUB" {
					err = s.SetOption(zmq.OptionSubscribe, x)
				} else {
					err = s.Send(msg("\x01" + x))
				}
				if d := mc.Elapsed() - at; d > limit || err != nil && d < limit {
					t.Failf("send goes on after its time-out", "subscribing took %v: %v", d, err)
				}
				as = append(as, attempt{"\x01" + x, err})
			}
			var g group
			drain(p, &g)
			mc.Settle()
			delivered(t, shows(p.got), as)
			// messages still come in
			p.write(encMsgS("abc", "x"))
			want(t, "message", recv(t, s), "abc,x")
			closeAll(t, s)
			g.Wait()
			p.c.Close()
		}})
	}

	// peers come and go while a Send is stuck
	for _, k := range []string{"PUSH", "PAIR", "DEALER", "ROUTER"} {
		reg(mc.Scenario{Name: "c12/joining/" + k, Prop: []string{"C12"}, Quick: 2, Deep: 3, DeepShards: 2, SplitChoose: true, Fn: func(t *mc.T) {
			s, p := open(t, k)
			sim.SetBuf(sim.Peer(p.c), 1)
			var g group
			var as [2]attempt
			for i := range as {
				g.Go(func() {
					time.Sleep(time.Duration(i) * limit / 2)
					as[i] = try(t, s, false, to(k, fmt.Sprint("m", i), "x")...)
				})
			}
			time.Sleep(limit / 4)
			q := rawDial(t, 1, partner(k), "other")
			at := mc.Elapsed()
			t.Step("other operations beside a send that waits")
			s.Addr()
			s.GetOption("x")
			if mc.Elapsed() != at {
				t.Failf("operations wait for a send", "%v", mc.Elapsed()-at)
			}
			g.Wait()
			var h group
			drain(p, &h)
			mc.Settle()
			delivered(t, shows(p.got), as[:])
			closeAll(t, s)
			h.Wait()
			p.c.Close()
			q.c.Close()
		}})
	}
}

func init() {
	// the groups that carry out sends: each function runs once, Wait reports a failure after
	// all have ended, or at once when the parent's context ends
	reg(mc.Scenario{Name: "c12/group", Prop: []string{"C12"}, Quick: 2, Deep: 3, DeepShards: 4, SplitChoose: true, Fn: func(t *mc.T) {
		parent, cancel := context.WithCancel(bg)
		defer cancel()
		g, child := &errgroup.Group{}, bg
		withContext := mc.Choose(3) > 0
		if withContext {
			g, child = errgroup.WithContext(parent)
		}
		n := 1 + mc.Choose(2)
		fail := errors.New("failure")
		release := make(chan struct{})
		var ran, ended, blocked, failed int
		for i := 0; i < n; i++ {
			k := mc.Choose(3)
			if k == 2 {
				blocked++
			}
			if k == 1 {
				failed++
			}
			f := func() error {
				ran++
				if k == 2 {
					<-release
				}
				ended++
				if k == 1 {
					return fail
				}
				return nil
			}
			if mc.Choose(2) == 1 {
				if !g.TryGo(f) {
					t.Failf("function refused without limit", "")
				}
			} else {
				g.Go(f)
			}
		}
		var h group
		cancelled := withContext && (blocked == 0 && mc.Choose(2) == 1 || blocked > 0 && mc.Choose(2) == 1)
		if cancelled {
			h.Go(cancel)
		} else {
			h.Go(func() { close(release) })
		}
		t.Step("Wait of a group")
		err := g.Wait()
		switch {
		case !cancelled:
			if ran != n || ended != n {
				t.Failf("Wait returned early", "%d of %d functions ran, %d ended", ran, n, ended)
			}
			if (err != nil) != (failed > 0) || err != nil && err != fail {
				t.Failf("wrong result of Wait", "%v, %d failed", err, failed)
			}
		case err == nil && (failed > 0 || blocked > 0):
			t.Failf("wrong result of Wait", "no error although the context ended")
		case err != nil && err != fail && !errors.Is(err, context.Canceled):
			t.Failf("wrong result of Wait", "%v", err)
		}
		if withContext && child.Err() == nil {
			t.Failf("context of the group is alive", "")
		}
		h.Wait()
		if cancelled {
			close(release)
		}
		t.Outcome(fmt.Sprint(err))
	}})

	// a limit holds Go back and makes TryGo refuse
	reg(mc.Scenario{Name: "c12/group-limit", Prop: []string{"C12"}, Quick: 2, Deep: 3, SplitChoose: true, Fn: func(t *mc.T) {
		g, _ := errgroup.WithContext(bg)
		limit := 1 + mc.Choose(2)
		g.SetLimit(limit)
		release := make(chan struct{})
		active, most, ran := 0, 0, 0
		f := func() error {
			active++
			most = max(most, active)
			ran++
			<-release
			active--
			return nil
		}
		for i := 0; i < limit; i++ {
			if mc.Choose(2) == 0 {
				g.Go(f)
			} else if !g.TryGo(f) {
				t.Failf("function refused below the limit", "")
			}
		}
		mc.Settle()
		if g.TryGo(f) {
			t.Failf("function accepted above the limit", "")
		}
		var h group
		h.Go(func() { close(release) })
		g.Go(f)
		t.Step("Wait of a group")
		if err := g.Wait(); err != nil || ran != limit+1 || most > limit {
			t.Failf("wrong result of Wait", "%v, %d ran, %d at a time, not %d", err, ran, most, limit)
		}
		h.Wait()
	}})
}
