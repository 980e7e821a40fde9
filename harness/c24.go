package main

import (
	"fmt"
	"strings"

	zmq "github.com/luxfi/zmq/v4"
	"github.com/luxfi/zmq/v4/internal/zzmc/mc"
	sim "github.com/luxfi/zmq/v4/internal/zzmc/xnet"
)

// STREAM sockets carry raw bytes: no greeting, no framing.
func init() {
	shapes := [][]int{{5, 0, 3}, {0, 0, 2}, {0, 4, 0, 1}, {0}, {1}, {5}, {5, 1}, {5, 0}, {5, 300}, {5, 8192}, {5, 8193}, {5, 1, 2, 3}, {0, 0}, {3, 2}, {20000}}

	// what is sent is on the wire, nothing else
	for _, dials := range []bool{true, false} {
		reg(mc.Scenario{Name: "c24/sent" + map[bool]string{true: "/dial", false: "/listen"}[dials], Prop: []string{"C24"}, Quick: 1, Deep: 2, Fn: func(t *mc.T) {
			s := zmq.NewStream(bg, opts(mech(pick([]string{"NULL", "PLAIN"})), zmq.WithAutomaticReconnect(false))...)
			fs, gs := blobs(pick(shapes)...), blobs(pick([][]int{{5, 2}, {0}})...)
			multi := mc.Choose(2) == 1
			p := &rawPeer{t: t}
			if dials {
				l := rawListen(t, 1)
				dial(t, s, ep(1))
				c, err := l.l.Accept()
				if err != nil {
					t.Failf("harness", "accept: %v", err)
				}
				p.c = c
				l.l.Close()
			} else {
				listen(t, s, ep(1))
				p.c = rawDialConn(t, 1)
				mc.Settle()
			}
			sim.SetBuf(sim.Peer(p.c), pick([]int{1 << 16, 7000}))
			exp := strings.Join(fs, "") + strings.Join(gs, "")
			var g group
			g.Go(func() {
				sendAs(t, s, multi, fs)
				sendAs(t, s, !multi, gs)
			})
			t.Step("reading the wire")
			b, err := p.readN(len(exp))
			if err != nil || string(b) != exp {
				t.Failf("wrong bytes on the wire", "frames %s: %d bytes (%v), expected %d", shape(fs), len(b), err, len(exp))
			}
			g.Wait()
			closeAll(t, s)
			t.Step("the peer sees the end")
			if b, err := p.readN(1); err == nil {
				t.Failf("wrong bytes on the wire", "after %s: %x", shape(fs), b)
			}
			t.Outcome(shape(fs))
			p.c.Close()
		}})
	}

	// what a peer writes comes out in order, however it is split; at the end of
	// the stream at most the four bytes that fill no frame are missing
	reg(mc.Scenario{Name: "c24/received", Prop: []string{"C24"}, Quick: 1, Deep: 2, DeepShards: 4, SplitChoose: true, Fn: func(t *mc.T) {
		sim.Sim.ShortReads = true
		n := pick([]int{1, 4, 5, 6, 9, 10, 11, 12, 300})
		step := pick([]int{1000, 1, 5, 7})
		if n == 300 && step == 1 {
			step = 100
		}
		data := blob(2, n)
		s := zmq.NewStream(bg, opts(zmq.WithAutomaticReconnect(false))...)
		listen(t, s, ep(1))
		p := &rawPeer{t: t, c: rawDialConn(t, 1)}
		mc.Settle()
		c := collect(s)
		slow := mc.Choose(2) == 1
		for i := 0; i < n; i += step {
			p.write([]byte(data[i:min(i+step, n)]))
			if slow {
				mc.Settle()
			}
		}
		p.c.Close()
		mc.Settle()
		var got string
		for _, m := range c.got {
			if len(m) == 0 || len(m) > 2 || len(m[0]) != 5 || len(m) == 2 && len(m[1]) > 8192 {
				t.Failf("wrong frames", "%s of %d bytes", shape(m), n)
			}
			got += strings.Join(m, "")
		}
		if !strings.HasPrefix(data, got) || n-len(got) > 4 {
			t.Failf("wrong bytes received", "%d of %d bytes: %x, expected %x", len(got), n, got[:min(len(got), 20)], data[:min(n, 20)])
		}
		t.Outcome(fmt.Sprint(len(c.got)))
		closeAll(t, s)
	}})

	// no more than five bytes wait, whatever was written before
	reg(mc.Scenario{Name: "c24/waiting", Prop: []string{"C24"}, Quick: 0, Deep: 1, DeepShards: 2, SplitChoose: true, Fn: func(t *mc.T) {
		sizes := []int{1, 3, 4, 5, 6}
		for k := 6; k <= 14; k++ {
			sizes = append(sizes, 1<<k-1, 1<<k, 1<<k+1, 1<<k+4, 1<<k+5, 1<<k+6)
		}
		s := zmq.NewStream(bg, opts(zmq.WithAutomaticReconnect(false))...)
		listen(t, s, ep(1))
		p := &rawPeer{t: t, c: rawDialConn(t, 1)}
		mc.Settle()
		c := collect(s)
		var data, got strings.Builder
		seen := 0
		for i := 0; i < 2; i++ {
			x := blob(i, pick(sizes))
			data.WriteString(x)
			p.write([]byte(x))
			mc.Settle()
			for ; seen < len(c.got); seen++ {
				got.WriteString(strings.Join(c.got[seen], ""))
			}
			if !strings.HasPrefix(data.String(), got.String()) {
				t.Failf("wrong bytes received", "%d of %d bytes", got.Len(), data.Len())
			}
			if n := data.Len() - got.Len(); n > 5 {
				t.Failf("bytes wait for others", "%d of %d", n, data.Len())
			}
		}
		p.c.Close()
		mc.Settle()
		closeAll(t, s)
	}})

	// two STREAM sockets; several senders do not mix the frames of a message
	for _, tr := range []string{"tcp", "inproc", "ipc"} {
		reg(mc.Scenario{Name: "c24/sockets/" + tr, Prop: []string{"C24"}, Quick: 1, Deep: 3, DeepShards: 4, Fn: func(t *mc.T) {
			a := zmq.NewStream(bg, opts()...)
			b := zmq.NewStream(bg, opts()...)
			e := endpoint(tr, 1)
			if tr == "inproc" {
				e = inp()
			}
			listen(t, b, e)
			dial(t, a, e)
			mc.Settle()
			var g group
			m1, m2 := []string{"aaaaa", "bbb", "c"}, []string{"ddddd", "ee"}
			g.Go(func() { sendAs(t, a, false, m1) })
			g.Go(func() { sendAs(t, a, true, m2) })
			c := collect(b)
			g.Wait()
			mc.Settle()
			got := func() string {
				var s string
				for _, m := range c.got {
					s += strings.Join(m, "")
				}
				return s
			}
			good := func(least int) {
				x := got()
				if len(x) < least || !strings.HasPrefix("aaaaabbbcdddddee", x) && !strings.HasPrefix("dddddeeaaaaabbbc", x) {
					t.Failf("wrong bytes received", "%q", x)
				}
			}
			good(16 - 5)
			if mc.Choose(2) == 1 { // and the way back
				d := collect(a)
				sendAs(t, b, true, []string{"back!", "y"})
				mc.Settle()
				var x string
				for _, m := range d.got {
					x += strings.Join(m, "")
				}
				if !strings.HasPrefix("back!y", x) || tr != "inproc" && x != "back!y" {
					t.Failf("wrong bytes received", "%q", x)
				}
			}
			t.Step("close of the sender")
			a.Close()
			mc.Settle()
			good(16 - 4)
			t.Outcome("ok")
			closeAll(t, b)
		}})
	}
}
