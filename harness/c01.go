package main

import (
	zmq "github.com/luxfi/zmq/v4"
	"github.com/luxfi/zmq/v4/internal/zzmc/mc"
	sim "github.com/luxfi/zmq/v4/internal/zzmc/xnet"
)

// shapes lists the frame sizes of the messages that are tried.
func shapes(deep bool) (out [][]int) {
	one := []int{0, 1, 2, 3, 127, 128, 254, 255, 256, 257, 511, 512, 513, 4095, 4096, 8192, 65535, 65536}
	two := []int{0, 1, 255, 256, 300}
	three := []int{0, 5, 255, 256}
	for _, a := range one {
		out = append(out, []int{a})
	}
	for _, a := range two {
		for _, b := range two {
			out = append(out, []int{a, b})
		}
	}
	for _, a := range three {
		for _, b := range three {
			for _, c := range three {
				out = append(out, []int{a, b, c})
			}
		}
	}
	four := []int{0, 256}
	for i := 0; i < 16; i++ {
		out = append(out, []int{four[i&1], four[i>>1&1], four[i>>2&1], four[i>>3&1]})
	}
	many := make([]int, 300)
	for i := range many {
		many[i] = i % 3
	}
	out = append(out, many, []int{70000, 0, 70000}, []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9})
	return
}

var boundaryShapes = [][]int{{0}, {1}, {255}, {256}, {0, 0}, {0, 255}, {256, 0}, {1, 256, 0}, {0, 0, 0}}

func sendAs(t *mc.T, s zmq.Socket, multi bool, fs []string) {
	if multi {
		sendMulti(t, s, fs...)
	} else {
		send(t, s, fs...)
	}
}

func wantFrames(t *mc.T, what string, got, exp []string) {
	if !sameFrames(got, exp) {
		t.Failf("wrong "+what, "%s: got %d frames %s %q, expected %d frames %s %q", what, len(got), shape(got), showS(got), len(exp), shape(exp), showS(exp))
	}
}

func toBytes(fs []string) (b [][]byte) {
	for _, f := range fs {
		b = append(b, []byte(f))
	}
	return
}

func init() {
	// A socket against a raw peer: the bytes it writes and the frames it reads.
	for _, mechName := range []string{"NULL", "PLAIN"} {
		for _, dials := range []bool{true, false} {
			name := "c01/wire/" + mechName + map[bool]string{true: "/dial", false: "/listen"}[dials]
			reg(mc.Scenario{Name: name, Prop: []string{"C01"}, Quick: 0, Deep: 1, DeepShards: 2, SplitChoose: true, Fn: func(t *mc.T) {
				fs := blobs(pick(shapes(false))...)
				multi := mc.Choose(2) == 1
				s := zmq.NewPair(bg, opts(mech(mechName), zmq.WithID(zmq.SocketIdentity("me")))...)
				var p *rawPeer
				if dials {
					l := rawListen(t, 1)
					var g group
					g.Go(func() { p = l.accept(mechName, "PAIR", "you") })
					dial(t, s, ep(1))
					g.Wait()
					l.l.Close()
				} else {
					listen(t, s, ep(1))
					p = rawDialMech(t, 1, mechName, "PAIR", "you")
				}
				want(t, "identity on the wire", p.id, "me")
				want(t, "socket type on the wire", p.typ, "PAIR")
				wire := append(encMsg(toBytes(fs)...), encMsgS("end")...)
				var g group
				g.Go(func() {
					sendAs(t, s, multi, fs)
					sendAs(t, s, !multi, []string{"end"})
				})
				t.Step("reading the wire")
				b, err := p.readN(len(wire))
				if err != nil || string(b) != string(wire) {
					k := 0
					for k < len(b) && b[k] == wire[k] {
						k++
					}
					t.Failf("wrong bytes on the wire", "message %s multi=%v: differs at byte %d of %d (err %v): got %x, expected %x", shape(fs), multi, k, len(wire), err, b[k:min(k+12, len(b))], wire[k:min(k+12, len(wire))])
				}
				g.Wait()
				// and back, in pieces
				step := pick([]int{len(wire), 1, 3})
				if step < 4 && len(wire) > 700 {
					step = len(wire)/3 + 1
				}
				g.Go(func() {
					for i := 0; i < len(wire); i += step {
						p.write(wire[i:min(i+step, len(wire))])
					}
				})
				t.Step("receiving")
				m, err := s.Recv()
				if err != nil {
					t.Failf("recv failed", "%v", err)
				}
				wantFrames(t, "message from the wire", frames(m), fs)
				want(t, "next message", recv(t, s), "end")
				g.Wait()
				t.Outcome(shape(fs))
				closeAll(t, s)
				p.c.Close()
			}})
		}
	}

	// Two sockets, every kind of pair, boundary shapes, split reads.
	pairs := [][2]string{{"PAIR", "PAIR"}, {"PUSH", "PULL"}, {"DEALER", "DEALER"}, {"DEALER", "ROUTER"}, {"REQ", "REP"}, {"PUB", "SUB"}, {"XPUB", "XSUB"}, {"REQ", "ROUTER"}}
	for _, pr := range pairs {
		for _, tr := range []string{"tcp", "inproc"} {
			reg(mc.Scenario{Name: "c01/sockets/" + pr[0] + "-" + pr[1] + "/" + tr, Prop: []string{"C01"}, Quick: 1, Deep: 2, DeepShards: 2, Fn: func(t *mc.T) {
				if tr == "tcp" {
					sim.Sim.ShortReads = true
				}
				fs := blobs(pick(boundaryShapes)...)
				mechName := pick([]string{"NULL", "PLAIN"})
				multi := mc.Choose(2) == 1
				a := kinds[pr[0]](bg, opts(mech(mechName))...)
				b := kinds[pr[1]](bg, opts(mech(mechName))...)
				e := endpoint(tr, 1)
				switch pr[0] {
				case "PUB", "XPUB":
					listen(t, a, e)
					dial(t, b, e)
					if pr[1] == "SUB" {
						subscribe(t, b, "")
					} else {
						send(t, b, "\x01")
					}
					mc.Settle()
				default:
					listen(t, b, e)
					dial(t, a, e)
				}
				var g group
				g.Go(func() {
					sendAs(t, a, multi, fs)
				})
				t.Step("receiving")
				m, err := b.Recv()
				if err != nil {
					t.Failf("recv failed", "%v", err)
				}
				got := frames(m)
				if pr[1] == "ROUTER" {
					got = got[1:]
					if pr[0] == "REQ" {
						want(t, "delimiter", got[0], "")
						got = got[1:]
					}
				}
				wantFrames(t, "message", got, fs)
				g.Wait()
				if pr[1] == "ROUTER" || pr[1] == "REP" || pr[0] == "DEALER" || pr[0] == "PAIR" {
					back := fs
					if pr[1] == "ROUTER" {
						back = frames(m)
					}
					g.Go(func() { sendAs(t, b, !multi, back) })
					r, err := a.Recv()
					if err != nil {
						t.Failf("recv failed", "%v", err)
					}
					wantFrames(t, "reply", frames(r), fs)
					g.Wait()
				}
				t.Outcome(shape(fs))
				closeAll(t, a, b)
			}})
		}
	}

	// Large frames: beyond any buffer and beyond the reader's chunk.
	reg(mc.Scenario{Name: "c01/large", Prop: []string{"C01"}, Quick: 0, Deep: 0, NoCache: true, Fn: func(t *mc.T) {
		sizes := pick([][]int{{1<<20 - 1}, {1 << 20}, {1<<20 + 1}, {3<<20 + 5, 1}, {0, 1 << 20, 7}, {1 << 17}, {1 << 16, 1<<16 + 1}})
		fs := blobs(sizes...)
		mechName := pick([]string{"NULL", "PLAIN"})
		multi := mc.Choose(2) == 1
		a := zmq.NewPush(bg, opts(mech(mechName))...)
		b := zmq.NewPull(bg, opts(mech(mechName))...)
		e := endpoint(pick([]string{"tcp", "inproc"}), 1)
		listen(t, b, e)
		dial(t, a, e)
		var g group
		g.Go(func() {
			sendAs(t, a, multi, fs)
			send(t, a, "end")
		})
		m, err := b.Recv()
		if err != nil {
			t.Failf("recv failed", "%v", err)
		}
		wantFrames(t, "message", frames(m), fs)
		want(t, "next message", recv(t, b), "end")
		g.Wait()
		t.Outcome(shape(fs))
		closeAll(t, a, b)
	}})

	// Sequences of messages of different shapes keep their boundaries.
	reg(mc.Scenario{Name: "c01/sequence", Prop: []string{"C01"}, Quick: 0, Deep: 1, DeepShards: 4, SplitChoose: true, Fn: func(t *mc.T) {
		alpha := [][]int{{0}, {3}, {256}, {0, 0}, {2, 0}, {255, 256}}
		var seq [][]string
		var multi []bool
		for i := 0; i < 3; i++ {
			seq = append(seq, blobs(pick(alpha)...))
			multi = append(multi, mc.Choose(2) == 1)
		}
		mechName := pick([]string{"NULL", "PLAIN"})
		a := zmq.NewPush(bg, opts(mech(mechName))...)
		b := zmq.NewPull(bg, opts(mech(mechName))...)
		listen(t, b, ep(1))
		dial(t, a, ep(1))
		var g group
		g.Go(func() {
			for i, fs := range seq {
				sendAs(t, a, multi[i], fs)
			}
		})
		for _, fs := range seq {
			m, err := b.Recv()
			if err != nil {
				t.Failf("recv failed", "%v", err)
			}
			wantFrames(t, "message", frames(m), fs)
			t.Outcome(shape(fs))
		}
		g.Wait()
		closeAll(t, a, b)
	}})
}
