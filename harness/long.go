package main

import (
	"fmt"
	"time"

	zmq "github.com/luxfi/zmq/v4"
	"github.com/luxfi/zmq/v4/internal/zzmc/mc"
)

// talk passes one message of any size from a to b, and back where the kinds can.
func talk(t *mc.T, a, b zmq.Socket, multi bool, fs []string) {
	pass := func(a, b zmq.Socket, fs, exp []string) string {
		t.Step(fmt.Sprintf("message from %s to %s", a.Type(), b.Type()))
		sendAs(t, a, multi, fs)
		m := frames(recvOK(t, b))
		label := ""
		if b.Type() == zmq.Router && len(m) > 0 {
			label, m = m[0], m[1:]
		}
		wantFrames(t, "message", m, exp)
		return label
	}
	id := pass(a, b, fs, fs)
	back := append([]string{"back"}, fs...)
	switch {
	case b.Type() == zmq.Router:
		pass(b, a, append([]string{id}, back...), back)
	case a.Type() == zmq.Req || a.Type() == zmq.Pair || a.Type() == zmq.Dealer:
		pass(b, a, back, back)
	}
}

// pairs of kinds with the property their conversation belongs to.
var talkers = []struct{ prop, a, b string }{
	{"C05", "PUSH", "PULL"}, {"C05", "PAIR", "PAIR"}, {"C05", "DEALER", "DEALER"}, {"C06", "PUB", "SUB"}, {"C06", "XPUB", "XSUB"},
	{"C08", "REQ", "REP"}, {"C10", "DEALER", "ROUTER"},
}

func open2(t *mc.T, ka, kb, e string, listens bool, m string) (a, b zmq.Socket) {
	a, b = kinds[ka](bg, opts(mech(m))...), kinds[kb](bg, opts(mech(m))...)
	connect(t, a, b, listens, e)
	mc.Settle()
	switch kb {
	case "SUB", "XSUB":
		change(t, b, true, "")
		mc.Settle()
	}
	return a, b
}

func init() {
	for _, k := range talkers {
		name := k.a + "-" + k.b

		// nothing depends on how long nothing was said
		reg(mc.Scenario{Name: "long/idle/" + name, Prop: []string{k.prop}, Quick: 0, Deep: 1, SplitChoose: true, Fn: func(t *mc.T) {
			tr := pick([]string{"tcp", "inproc", "ipc"})
			a, b := open2(t, k.a, k.b, endpoint(tr, 1), mc.Choose(2) == 0, "NULL")
			for i := 0; i < 3; i++ {
				time.Sleep(pick([]time.Duration{0, 30 * time.Second, 15 * time.Minute}))
				talk(t, a, b, i&1 == 0, []string{fmt.Sprint("m", i), "", "z"})
			}
			t.Outcome(tr)
			closeAll(t, a, b)
		}})

		// nor on how much was
		reg(mc.Scenario{Name: "long/many-messages/" + name, Prop: []string{k.prop}, Quick: 0, Deep: 0, NoCache: true, Horizon: 2000000, Fn: func(t *mc.T) {
			tr := pick([]string{"tcp", "inproc"})
			a, b := open2(t, k.a, k.b, endpoint(tr, 1), mc.Choose(2) == 0, pick([]string{"NULL", "PLAIN"}))
			for i := 0; i < 520; i++ {
				fs := []string{fmt.Sprint("m", i), blob(i, i%300)}
				for j := 0; i%16 == 15 && j < i%40; j++ {
					fs = append(fs, fmt.Sprint(j))
				}
				if i%250 == 249 {
					fs = append(fs, blob(i, 1<<16+i))
				}
				talk(t, a, b, i%3 == 0, fs)
			}
			t.Outcome(tr)
			closeAll(t, a, b)
		}})

		// nor on how many take part, one after another
		reg(mc.Scenario{Name: "long/many-peers/" + name, Prop: []string{k.prop}, Quick: 0, Deep: 0, NoCache: true, Horizon: 2000000, Fn: func(t *mc.T) {
			kb, ka := k.b, k.a
			a := kinds[ka](bg, opts()...)
			b := kinds[kb](bg, opts()...)
			x, ky := a, kb // the one that stays, and the kind of those that come and go
			stays := mc.Choose(2)
			if stays == 1 {
				x, ky = b, ka
				a.Close()
			} else {
				b.Close()
			}
			listen(t, x, ep(1))
			if kb == "SUB" && stays == 1 {
				change(t, x, true, "")
			}
			for i := 0; i < 150; i++ {
				y := kinds[ky](bg, opts()...)
				dial(t, y, ep(1))
				if ky == "SUB" || ky == "XSUB" {
					change(t, y, true, "")
				}
				if kb == "XSUB" && stays == 1 {
					mc.Settle()
					change(t, x, true, "")
				}
				mc.Settle()
				fs := []string{fmt.Sprint("m", i), ""}
				if ka == "PUSH" && stays == 0 {
					_ = x.Send(msg(fs...)) // notices that the last one has gone
					t.Step("message to a later peer")
					wantFrames(t, "message", frames(recvOK(t, y)), fs)
				} else if stays == 1 {
					talk(t, y, x, i&1 == 0, fs)
				} else {
					talk(t, x, y, i&1 == 0, fs)
				}
				closeAll(t, y)
				mc.Settle()
			}
			t.Outcome(fmt.Sprint(stays))
			closeAll(t, x)
		}})

		// or at once
		reg(mc.Scenario{Name: "long/crowd/" + name, Prop: []string{k.prop}, Quick: 0, Deep: 0, NoCache: true, Horizon: 2000000, Fn: func(t *mc.T) {
			n := pick([]int{12, 40})
			b := kinds[k.b](bg, opts()...)
			x, ky := b, k.a
			stays := mc.Choose(2)
			if stays == 0 {
				b.Close()
				x, ky = kinds[k.a](bg, opts()...), k.b
			}
			listen(t, x, ep(1))
			if stays == 1 && k.b == "SUB" {
				change(t, x, true, "")
			}
			var ys []zmq.Socket
			var g group
			for i := 0; i < n; i++ {
				y := kinds[ky](bg, opts()...)
				ys = append(ys, y)
				g.Go(func() {
					dial(t, y, ep(1))
					if ky == "SUB" || ky == "XSUB" {
						change(t, y, true, "")
					}
				})
			}
			g.Wait()
			if stays == 1 && k.b == "XSUB" {
				mc.Settle()
				change(t, x, true, "")
			}
			mc.Settle()
			for round := 0; round < 2; round++ {
				if stays == 0 && (k.a == "DEALER" || k.a == "REQ" || k.a == "PAIR") && k.b != "PAIR" {
					break // other properties say what is sent to whom
				}
				if stays == 0 {
					fs := []string{fmt.Sprint("to all", round), "x"}
					sendAs(t, x, round == 0, fs)
					for _, y := range ys {
						t.Step("message to one of many")
						wantFrames(t, "message", frames(recvOK(t, y)), fs)
					}
					continue
				}
				for i, y := range ys {
					fs := []string{fmt.Sprint("m", round, ".", i), "", "y"}
					if x.Type() == zmq.Rep || x.Type() == zmq.Router {
						talk(t, y, x, round == 0, fs)
						continue
					}
					sendAs(t, y, round == 1, fs)
					t.Step("message from one of many")
					wantFrames(t, "message", frames(recvOK(t, x)), fs)
				}
			}
			t.Outcome(fmt.Sprint(n, stays))
			closeAll(t, append(ys, x)...)
		}})
	}

	// REQ among many servers
	reg(mc.Scenario{Name: "long/many-servers", Prop: []string{"C09"}, Quick: 0, Deep: 0, NoCache: true, Horizon: 2000000, Fn: func(t *mc.T) {
		n := pick([]int{5, 17})
		req := zmq.NewReq(bg, opts()...)
		var ws []zmq.Socket
		for i := 0; i < n; i++ {
			w := zmq.NewRep(bg, opts()...)
			ws = append(ws, w)
			listen(t, w, ep(1+i))
			dial(t, req, ep(1+i))
			mc.Settle()
			go func() {
				for {
					m, err := w.Recv()
					if err != nil {
						return
					}
					w.Send(msg(append(frames(m), fmt.Sprint(i))...))
				}
			}()
		}
		var first []string
		for k := 0; k < 5*n; k++ {
			send(t, req, "q", fmt.Sprint(k))
			m := frames(recvOK(t, req))
			if len(m) != 3 || m[1] != fmt.Sprint(k) {
				t.Failf("wrong reply", "%q to %d", m, k)
			}
			if k < n {
				for _, f := range first {
					if f == m[2] {
						t.Failf("server taken out of turn", "%s twice: %v", f, first)
					}
				}
				first = append(first, m[2])
			} else if first[k%n] != m[2] {
				t.Failf("server taken out of turn", "%s, expected %s", m[2], first[k%n])
			}
		}
		t.Outcome(fmt.Sprint(n))
		closeAll(t, append(ws, req)...)
	}})
}
