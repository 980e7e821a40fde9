package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"strings"
	"time"

	zmq "github.com/luxfi/zmq/v4"
	"github.com/luxfi/zmq/v4/internal/inproc"
	"github.com/luxfi/zmq/v4/internal/zzmc/mc"
)

func inpAddr() string { return strings.TrimPrefix(inp(), "inproc://") }

// pipe connects two ends; a is the accepted one.
func pipe(t *mc.T) (l *inproc.Listener, a, b net.Conn) {
	addr := inpAddr()
	l, err := inproc.Listen(addr)
	if err != nil {
		t.Failf("listen failed", "%v", err)
	}
	var g group
	g.Go(func() {
		var err error
		if a, err = l.Accept(); err != nil {
			t.Failf("accept failed", "%v", err)
		}
	})
	if b, err = inproc.Dial(addr); err != nil {
		t.Failf("dial failed", "%v", err)
	}
	g.Wait()
	return l, a, b
}

func timedOut(err error) bool {
	var ne net.Error
	return errors.As(err, &ne) && ne.Timeout()
}

// feed is a source of distinct bytes.
type feed struct{ n int }

func (f *feed) next(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		f.n++
		b[i] = byte(f.n*37 + f.n>>8)
	}
	return b
}

// put writes from a buffer that is overwritten afterwards, and returns what
// was accepted.
func put(c net.Conn, b []byte) (int, error) {
	buf := append([]byte(nil), b...)
	n, err := c.Write(buf)
	for i := range buf {
		buf[i] = 0xee
	}
	return n, err
}

func init() {
	// every sequence of write sizes against every sequence of read sizes
	sizes := func(nw int) func(t *mc.T) {
		return func(t *mc.T) {
			l, a, b := pipe(t)
			if mc.Choose(2) == 1 {
				a, b = b, a
			}
			f, ref := &feed{}, &feed{}
			total := 0
			var ws []int
			for i := 0; i < nw; i++ {
				n := pick([]int{0, 1, 2, 3, 7})
				ws = append(ws, n)
				total += n
			}
			var g group
			g.Go(func() {
				for i, n := range ws {
					if k, err := put(a, f.next(n)); k != n || err != nil {
						t.Failf("wrong result of Write", "write %d of %d: %d, %v", i, n, k, err)
					}
				}
			})
			switch mc.Choose(3) {
			case 2: // all is written, and the end closed, before the first read
				g.Wait()
				a.Close()
			case 1:
				g.Wait()
			}
			rs := []int{pick([]int{1, 2, 3, 8}), pick([]int{0, 1, 4})}
			for i := 0; total > 0; i++ {
				sz := rs[0]
				if i&1 == 1 {
					sz = rs[1]
				}
				buf := make([]byte, sz)
				t.Step("read")
				n, err := b.Read(buf)
				if err != nil || n > sz || n == 0 && sz > 0 {
					t.Failf("wrong result of Read", "read of %d: %d, %v", sz, n, err)
				}
				if exp := ref.next(n); !bytes.Equal(buf[:n], exp) {
					t.Failf("wrong bytes", "writes %v: got %x, expected %x", ws, buf[:n], exp)
				}
				total -= n
			}
			g.Wait()
			a.Close()
			if n, err := b.Read(make([]byte, 3)); n != 0 || err == nil {
				t.Failf("bytes nobody wrote", "%d, %v", n, err)
			}
			b.Close()
			l.Close()
		}
	}
	reg(mc.Scenario{Name: "c14/sizes/3", Prop: []string{"C14"}, Quick: 0, Deep: 1, SplitChoose: true, DeepShards: 2, Fn: sizes(3)})
	reg(mc.Scenario{Name: "c14/sizes/5", Prop: []string{"C14"}, Quick: -1, Deep: 0, SplitChoose: true, DeepShards: 2, Fn: sizes(5)})

	// more than fits, both ways at once, every schedule
	reg(mc.Scenario{Name: "c14/duplex", Prop: []string{"C14"}, Quick: 1, Deep: 2, DeepShards: 4, Fn: func(t *mc.T) {
		l, a, b := pipe(t)
		n := pick([]int{3, 12})
		var g group
		for i, c := range []net.Conn{a, b} {
			g.Go(func() {
				f := &feed{i * 100}
				for k := 0; k < n; k++ {
					if _, err := put(c, f.next(2)); err != nil {
						t.Failf("wrong result of Write", "%v", err)
					}
				}
			})
			g.Go(func() {
				buf := make([]byte, 2*n)
				if _, err := io.ReadFull(c, buf); err != nil || !bytes.Equal(buf, (&feed{(1 - i) * 100}).next(2*n)) {
					t.Failf("wrong bytes", "%x, %v", buf, err)
				}
			})
		}
		g.Wait()
		a.Close()
		b.Close()
		l.Close()
	}})

	// two writers and two readers of one end: no byte lost or split
	reg(mc.Scenario{Name: "c14/shared", Prop: []string{"C14"}, Quick: 2, Deep: 3, DeepShards: 4, Fn: func(t *mc.T) {
		l, a, b := pipe(t)
		var g, h group
		for i := 0; i < 2; i++ {
			g.Go(func() {
				for k := 0; k < 2; k++ {
					put(a, []byte{byte(i*16 + k), byte(i*16 + k + 8)})
				}
			})
		}
		one := mc.Choose(2) == 1
		var got []byte
		if one { // one reader sees each write in one piece
			buf := make([]byte, 8)
			t.Step("read")
			if _, err := io.ReadFull(b, buf); err != nil {
				t.Failf("wrong result of Read", "%v", err)
			}
			got = buf
			for i := 0; i < 8; i += 2 {
				if got[i]+8 != got[i+1] {
					t.Failf("wrong bytes", "writes mixed: %x", got)
				}
			}
		} else {
			var gots [2][]byte
			for i := 0; i < 2; i++ {
				h.Go(func() {
					for k := 0; k < 4; k++ {
						buf := make([]byte, 1)
						if n, err := b.Read(buf); n != 1 || err != nil {
							t.Failf("wrong result of Read", "%d, %v", n, err)
						}
						gots[i] = append(gots[i], buf[0])
					}
				})
			}
			t.Step("reads")
			h.Wait()
			got = append(gots[0], gots[1]...)
		}
		g.Wait()
		seen := map[byte]int{}
		for _, x := range got {
			seen[x]++
		}
		for _, x := range []byte{0, 1, 8, 9, 16, 17, 24, 25} {
			if seen[x] != 1 {
				t.Failf("wrong bytes", "%x", got)
			}
		}
		a.Close()
		b.Close()
		l.Close()
	}})

	// closing either end
	reg(mc.Scenario{Name: "c14/close", Prop: []string{"C14"}, Quick: 2, Deep: 4, DeepShards: 2, SplitChoose: true, Fn: func(t *mc.T) {
		l, a, b := pipe(t)
		n := pick([]int{0, 1, 3, 8, 10}) // writes, the last ones blocked
		local := mc.Choose(2) == 1
		f := &feed{}
		var w, r group
		var wrote []byte
		w.Go(func() {
			for i := 0; i < n; i++ {
				d := f.next(3)
				k, err := put(a, d)
				wrote = append(wrote, d[:k]...)
				if err != nil {
					break
				}
			}
		})
		var back int
		r.Go(func() { // blocked: nothing is written back
			k, err := a.Read(make([]byte, 4))
			back = k
			if err == nil {
				t.Failf("bytes nobody wrote", "%d", k)
			}
		})
		if mc.Choose(2) == 1 {
			mc.Settle()
		}
		t.Step("close")
		if local {
			if err := a.Close(); err != nil {
				t.Failf("close failed", "%v", err)
			}
			w.Wait()
			r.Wait()
			// what was written still arrives, then the end
			size := pick([]int{512, 2, 4})
			var got []byte
			var err error
			for k := 0; err == nil; {
				buf := make([]byte, size)
				k, err = b.Read(buf)
				got = append(got, buf[:k]...)
			}
			if err == io.EOF {
				err = nil
			}
			if !bytes.Equal(got, wrote) || err != nil && err != io.ErrClosedPipe {
				t.Failf("wrong bytes", "got %d of %d bytes, %v", len(got), len(wrote), err)
			}
			if _, err := b.Write([]byte("x")); err == nil {
				t.Failf("write to a closed end succeeds", "")
			}
		} else {
			b.Close()
			w.Wait()
			r.Wait()
			if _, err := a.Write([]byte("x")); err == nil {
				t.Failf("write to a closed end succeeds", "")
			}
			if k, err := b.Read(make([]byte, 4)); k != 0 || err == nil {
				t.Failf("read of a closed end succeeds", "%d %v", k, err)
			}
			a.Close()
		}
		if back != 0 {
			t.Failf("bytes nobody wrote", "%d", back)
		}
		for _, c := range []net.Conn{a, b} {
			if err := c.Close(); err != nil {
				t.Failf("close failed", "second Close: %v", err)
			}
			if _, err := c.Write([]byte("x")); err == nil {
				t.Failf("write to a closed end succeeds", "")
			}
			if _, err := c.Read(make([]byte, 1)); err == nil {
				t.Failf("read of a closed end succeeds", "")
			}
		}
		l.Close()
	}})

	// the end is closed while what it wrote is being read in pieces
	reg(mc.Scenario{Name: "c14/close-midway", Prop: []string{"C14"}, Quick: 2, Deep: 4, SplitChoose: true, Fn: func(t *mc.T) {
		l, a, b := pipe(t)
		n, size := pick([]int{1, 2, 4}), pick([]int{1, 2, 3})
		var want []byte
		var g group
		g.Go(func() {
			f := &feed{}
			for i := 0; i < n; i++ {
				d := f.next(4)
				if k, err := put(a, d); k != 4 || err != nil {
					t.Failf("wrong result of Write", "%d, %v", k, err)
				}
				want = append(want, d...)
			}
			a.Close()
		})
		var got []byte
		t.Step("read")
		for {
			buf := make([]byte, size)
			k, err := b.Read(buf)
			got = append(got, buf[:k]...)
			if err != nil {
				if err != io.EOF && err != io.ErrClosedPipe {
					t.Failf("wrong result of Read", "%v", err)
				}
				break
			}
		}
		g.Wait()
		if !bytes.Equal(got, want) {
			t.Failf("wrong bytes", "got %x, expected %x", got, want)
		}
		t.Outcome("ok")
		b.Close()
		l.Close()
	}})

	// every order of deadlines, waits and operations of one end; the reference
	// keeps the two deadlines in virtual time
	dl := func(depth int) func(t *mc.T) {
		return func(t *mc.T) {
			l, a, b := pipe(t)
			var rd, wd time.Duration // 0: none
			queued := 0              // chunks towards b
			inq := 0                 // bytes towards a
			now := mc.Elapsed
			set := func(cur *time.Duration, kind int, f func(time.Time) error) {
				d := []time.Duration{0, -time.Second, time.Second, 3 * time.Second}[kind]
				var at time.Time
				*cur = 0
				if kind > 0 {
					at = time.Now().Add(d)
					*cur = now() + d
					if *cur <= 0 {
						*cur = -1
					}
				}
				if err := f(at); err != nil {
					t.Failf("deadline refused", "%v", err)
				}
			}
			for i := 0; i < depth; i++ {
				k := mc.Choose(14)
				if k == 0 {
					break
				}
				if rd == now() || wd == now() {
					time.Sleep(time.Millisecond) // the instant itself is open
				}
				switch {
				case k <= 4:
					set(&rd, k-1, a.SetReadDeadline)
				case k <= 8:
					set(&wd, k-5, a.SetWriteDeadline)
				case k == 9:
					set(&rd, 2, a.SetDeadline)
					wd = rd
				case k == 10:
					time.Sleep(2 * time.Second)
				case k == 11:
					if _, err := b.Write([]byte{1}); err != nil {
						t.Failf("wrong result of Write", "%v", err)
					}
					inq++
				case k == 12: // read
					past := rd != 0 && rd <= now()
					if !past && inq == 0 && rd == 0 {
						continue // would block for good
					}
					at, exp := now(), rd
					t.Step("read with a deadline")
					n, err := a.Read(make([]byte, 1))
					switch {
					case past || inq == 0:
						if !timedOut(err) || n != 0 || past && now() != at || !past && now() != exp {
							t.Failf("deadline not on time", "Read at %v, deadline %v: %d, %v at %v", at, exp, n, err, now())
						}
					case n != 1 || err != nil || now() != at:
						t.Failf("wrong result of Read", "%d, %v", n, err)
					default:
						inq--
					}
				default: // writes until blocked
					past := wd != 0 && wd <= now()
					at, exp := now(), wd
					for {
						if !past && queued == 8 && wd == 0 {
							break
						}
						t.Step("write with a deadline")
						n, err := put(a, []byte{2, 3})
						if past || queued == 8 {
							if !timedOut(err) || n != 0 || past && now() != at || !past && now() != exp {
								t.Failf("deadline not on time", "Write at %v, deadline %v: %d, %v at %v", at, exp, n, err, now())
							}
							break
						}
						if n != 2 || err != nil {
							t.Failf("wrong result of Write", "%d, %v", n, err)
						}
						queued++
					}
				}
			}
			// what was written and only that arrives
			a.Close()
			got, _ := io.ReadAll(b)
			if !bytes.Equal(got, bytes.Repeat([]byte{2, 3}, queued)) {
				t.Failf("wrong bytes", "%d writes succeeded, got %x", queued, got)
			}
			b.Close()
			l.Close()
		}
	}
	reg(mc.Scenario{Name: "c14/deadlines", Prop: []string{"C14"}, Quick: 0, Deep: 0, QuickShards: 2, DeepShards: 2, SplitChoose: true, Fn: dl(5)})
	reg(mc.Scenario{Name: "c14/deadlines-deep", Prop: []string{"C14"}, Quick: -1, Deep: 0, DeepShards: 6, SplitChoose: true, Fn: dl(7)})

	// a deadline of this very instant has passed
	reg(mc.Scenario{Name: "c14/deadline-now", Prop: []string{"C14"}, Quick: 1, Deep: 2, SplitChoose: true, Fn: func(t *mc.T) {
		l, a, b := pipe(t)
		if mc.Choose(2) == 1 {
			a.SetDeadline(time.Now().Add(time.Second))
		}
		which := mc.Choose(3)
		set := []func(time.Time) error{a.SetReadDeadline, a.SetWriteDeadline, a.SetDeadline}[which]
		if err := set(time.Now()); err != nil {
			t.Failf("deadline refused", "%v", err)
		}
		if which != 1 {
			t.Step("read past its deadline")
			if n, err := a.Read(make([]byte, 1)); n > 0 || !timedOut(err) || mc.Elapsed() > 0 {
				t.Failf("deadline not on time", "Read: %d, %v at %v", n, err, mc.Elapsed())
			}
		}
		if which != 0 {
			t.Step("write past its deadline")
			for i := 0; i < 100; i++ {
				if n, err := a.Write([]byte{1}); err != nil || i == 99 {
					if n > 0 || !timedOut(err) || mc.Elapsed() > 0 {
						t.Failf("deadline not on time", "Write: %d, %v at %v", n, err, mc.Elapsed())
					}
					break
				}
			}
		}
		// renewed, it does not matter any more
		a.SetDeadline(time.Time{})
		b.Write([]byte{7})
		got := make([]byte, 1)
		if _, err := a.Read(got); err != nil || got[0] != 7 {
			t.Failf("deadline not renewed", "%v %v", got, err)
		}
		t.Outcome(fmt.Sprint(which))
		a.Close()
		b.Close()
		l.Close()
	}})

	// deadlines that change while an operation waits, timers at any point
	reg(mc.Scenario{Name: "c14/renewal", Prop: []string{"C14"}, Quick: 2, Deep: 3, DeepShards: 4, TimerRace: true, SplitChoose: true, Fn: func(t *mc.T) {
		l, a, b := pipe(t)
		wr := mc.Choose(2) == 1
		if wr {
			for i := 0; i < 8; i++ {
				put(a, []byte{9})
			}
		}
		op := func() error {
			if wr {
				_, err := a.Write([]byte{1})
				return err
			}
			_, err := a.Read(make([]byte, 1))
			return err
		}
		set := a.SetReadDeadline
		if wr {
			set = a.SetWriteDeadline
		}
		var g group
		if mc.Choose(2) == 1 {
			set(time.Now().Add(time.Second))
		}
		var err error
		g.Go(func() { err = op() })
		how := mc.Choose(3)
		switch how {
		case 0:
			set(time.Now().Add(2 * time.Second))
		case 1:
			set(time.Now().Add(-time.Second))
		case 2:
			set(time.Time{})
			set(time.Now().Add(time.Minute))
		}
		t.Step("operation with a deadline")
		g.Wait()
		if !timedOut(err) {
			t.Failf("deadline without effect", "%v", err)
		}
		// renewed: the stream goes on
		if err := set(time.Time{}); err != nil {
			t.Failf("deadline refused", "%v", err)
		}
		g.Go(func() {
			if wr {
				b.Read(make([]byte, 1))
			} else {
				b.Write([]byte{5})
			}
		})
		t.Step("operation after the renewal")
		if err := op(); err != nil {
			t.Failf("deadline not renewed", "%v", err)
		}
		g.Wait()
		a.Close()
		b.Close()
		l.Close()
	}})

	// every history of listeners
	reg(mc.Scenario{Name: "c14/listeners", Prop: []string{"C14"}, Quick: 0, Deep: 1, DeepShards: 2, SplitChoose: true, Fn: func(t *mc.T) {
		addrs := []string{inpAddr(), inpAddr()}
		var ls [2]*inproc.Listener
		var old []*inproc.Listener
		for i := 0; i < 5; i++ {
			k := mc.Choose(7)
			if k == 0 {
				break
			}
			x := (k - 1) & 1
			switch (k - 1) / 2 {
			case 0:
				l, err := inproc.Listen(addrs[x])
				if (err == nil) != (ls[x] == nil) {
					t.Failf("wrong verdict of Listen", "listener there: %v, %v", ls[x] != nil, err)
				}
				if err == nil {
					ls[x] = l
					if l.Addr().Network() != "inproc" || l.Addr().String() != addrs[x] {
						t.Failf("wrong address", "%v", l.Addr())
					}
				}
			case 1:
				if ls[x] == nil {
					for _, l := range old {
						l.Close() // must not touch the address any more
					}
					continue
				}
				if err := ls[x].Close(); err != nil {
					t.Failf("close failed", "%v", err)
				}
				if _, err := ls[x].Accept(); err == nil {
					t.Failf("accept of a closed listener succeeds", "")
				}
				old = append(old, ls[x])
				ls[x] = nil
			case 2:
				if ls[x] == nil {
					if c, err := inproc.Dial(addrs[x]); err == nil {
						c.Close()
						t.Failf("dial without listener succeeds", "")
					}
					continue
				}
				var g group
				g.Go(func() {
					c, err := ls[x].Accept()
					if err != nil {
						t.Failf("accept failed", "%v", err)
					}
					c.Write([]byte{byte(x)})
					c.Close()
				})
				c, err := inproc.Dial(addrs[x])
				if err != nil {
					t.Failf("dial failed", "%v", err)
				}
				if b, _ := io.ReadAll(c); len(b) != 1 || b[0] != byte(x) {
					t.Failf("connected to another listener", "%x", b)
				}
				c.Close()
				g.Wait()
			}
		}
		for _, l := range ls {
			if l != nil {
				l.Close()
			}
		}
	}})

	// every history of listeners with dials and accepts that wait
	pend := func(depth int) func(t *mc.T) {
		return func(t *mc.T) {
			type addrState struct {
				addr       string
				l          *inproc.Listener
				acc, dia   int // waiting
				met, ended int // in the model: ended without a partner
				accs, dias int // on the implementation's side
				accE, diaE int
			}
			as := []*addrState{{addr: inpAddr()}, {addr: inpAddr()}}
			var g group
			for i := 0; i < depth; i++ {
				k := mc.Choose(9)
				if k == 0 {
					break
				}
				a := as[(k-1)&1]
				switch (k - 1) / 2 {
				case 0:
					l, err := inproc.Listen(a.addr)
					if (err == nil) != (a.l == nil) {
						t.Failf("wrong verdict of Listen", "listener there: %v, %v (%d accepts and %d dials wait)", a.l != nil, err, a.acc, a.dia)
					}
					if err == nil {
						a.l = l
					}
				case 1:
					if a.l == nil {
						continue
					}
					if err := a.l.Close(); err != nil {
						t.Failf("close failed", "%v", err)
					}
					a.l = nil
					a.ended += a.acc + a.dia
					a.acc, a.dia = 0, 0
				case 2:
					if a.l == nil {
						continue
					}
					l := a.l
					if a.dia > 0 {
						a.dia--
						a.met++
					} else {
						a.acc++
					}
					g.Go(func() {
						c, err := l.Accept()
						if err != nil {
							a.accE++
							return
						}
						a.accs++
						c.Write([]byte(a.addr))
						c.Close()
					})
				case 3:
					if a.l == nil {
						a.ended++
					} else if a.acc > 0 {
						a.acc--
						a.met++
					} else {
						a.dia++
					}
					g.Go(func() {
						c, err := inproc.Dial(a.addr)
						if err != nil {
							a.diaE++
							return
						}
						a.dias++
						if b, _ := io.ReadAll(c); string(b) != a.addr {
							t.Failf("connected to another listener", "%q", b)
						}
						c.Close()
					})
				}
				mc.Settle()
				for _, a := range as {
					if a.accs != a.met || a.dias != a.met || a.accE+a.diaE != a.ended {
						t.Failf("wrong match of dial and accept", "%d accepts and %d dials succeed, not %d; %d and %d end, not %d", a.accs, a.dias, a.met, a.accE, a.diaE, a.ended)
					}
				}
			}
			for _, a := range as {
				if a.l != nil {
					a.l.Close()
				}
			}
			t.Step("pending dials and accepts end with their listener")
			g.Wait()
		}
	}
	reg(mc.Scenario{Name: "c14/pending/5", Prop: []string{"C14"}, Quick: 0, Deep: 0, QuickShards: 2, SplitChoose: true, Fn: pend(5)})
	reg(mc.Scenario{Name: "c14/pending/7", Prop: []string{"C14"}, Quick: -1, Deep: 0, DeepShards: 8, SplitChoose: true, Fn: pend(7)})

	// dials and accepts meet one to one
	for _, n := range []int{1, 2, 3} {
		reg(mc.Scenario{Name: fmt.Sprintf("c14/meeting/%d", n), Prop: []string{"C14"}, Quick: min(3, 5-n), Deep: 6 - n, DeepShards: 4, Fn: func(t *mc.T) {
			addr := inpAddr()
			l, err := inproc.Listen(addr)
			if err != nil {
				t.Failf("listen failed", "%v", err)
			}
			var g group
			met := map[string]int{}
			for i := 0; i < n; i++ {
				g.Go(func() {
					c, err := l.Accept()
					if err != nil {
						t.Failf("accept failed", "%v", err)
					}
					b := make([]byte, 1)
					if _, err := c.Read(b); err != nil {
						t.Failf("wrong result of Read", "%v", err)
					}
					c.Write([]byte{b[0], byte(i)})
					met[fmt.Sprint(i, " ", b[0])]++
					c.Close()
				})
				g.Go(func() {
					c, err := inproc.Dial(addr)
					if err != nil {
						t.Failf("dial failed", "%v", err)
					}
					c.Write([]byte{byte(i)})
					b, err := io.ReadAll(c)
					if len(b) != 2 || b[0] != byte(i) {
						t.Failf("wrong match of dial and accept", "dial %d got %x, %v", i, b, err)
					}
					met[fmt.Sprint(b[1], " ", i)]++
					c.Close()
				})
			}
			t.Step("dials and accepts")
			g.Wait()
			if len(met) != n {
				t.Failf("wrong match of dial and accept", "%v", met)
			}
			l.Close()
		}})
	}

	// a listener closes beside dials and accepts: all of them end, matched ones stay
	reg(mc.Scenario{Name: "c14/closing", Prop: []string{"C14"}, Quick: 2, Deep: 4, DeepShards: 2, Fn: func(t *mc.T) {
		addr := inpAddr()
		l, err := inproc.Listen(addr)
		if err != nil {
			t.Failf("listen failed", "%v", err)
		}
		var g group
		acc, dia := 0, 0
		na, nd := 1+mc.Choose(2), 1+mc.Choose(2)
		for i := 0; i < na; i++ {
			g.Go(func() {
				c, err := l.Accept()
				if err != nil {
					return
				}
				acc++
				b := make([]byte, 1)
				if _, err := io.ReadFull(c, b); err != nil {
					t.Failf("matched connection does not stay", "accepted: %v", err)
				}
				c.Write(b)
			})
		}
		for i := 0; i < nd; i++ {
			g.Go(func() {
				c, err := inproc.Dial(addr)
				if err != nil {
					return
				}
				dia++
				c.Write([]byte{byte(i)})
				b := make([]byte, 1)
				if _, err := io.ReadFull(c, b); err != nil || b[0] != byte(i) {
					t.Failf("matched connection does not stay", "dialed: %v", err)
				}
			})
		}
		if mc.Choose(2) == 1 {
			mc.Settle()
		}
		if err := l.Close(); err != nil {
			t.Failf("close failed", "%v", err)
		}
		t.Step("dials and accepts of a closed listener")
		g.Wait()
		if acc != dia {
			t.Failf("wrong match of dial and accept", "%d accepted, %d dialed", acc, dia)
		}
		t.Outcome(fmt.Sprint(acc))
		if l.Close() != nil {
			t.Failf("close failed", "second Close")
		}
		// the address is free
		o, err := inproc.Listen(addr)
		if err != nil {
			t.Failf("address not usable again", "%v", err)
		}
		l.Close()
		if _, err := inproc.Listen(addr); err == nil {
			t.Failf("wrong verdict of Listen", "twice")
		}
		o.Close()
	}})

	// two listeners ask for one address
	reg(mc.Scenario{Name: "c14/contest", Prop: []string{"C14"}, Quick: 3, Deep: 6, Fn: func(t *mc.T) {
		addr := inpAddr()
		var g group
		var ls []*inproc.Listener
		for i := 0; i < 2; i++ {
			g.Go(func() {
				if l, err := inproc.Listen(addr); err == nil {
					ls = append(ls, l)
				}
			})
		}
		g.Wait()
		if len(ls) != 1 {
			t.Failf("wrong verdict of Listen", "%d of 2 succeed", len(ls))
		}
		ls[0].Close()
	}})

	// the transport's own interface
	reg(mc.Scenario{Name: "c14/transport", Prop: []string{"C14"}, Quick: 1, Deep: 2, Fn: func(t *mc.T) {
		var tr inproc.Transport
		a := inpAddr()
		if x, err := tr.Addr(a); x != a || err != nil {
			t.Failf("wrong address", "%q %v", x, err)
		}
		l, err := tr.Listen(context.Background(), a)
		if err != nil {
			t.Failf("listen failed", "%v", err)
		}
		if _, err := tr.Listen(context.Background(), a); err == nil {
			t.Failf("wrong verdict of Listen", "twice")
		}
		var g group
		g.Go(func() {
			c, _ := l.Accept()
			io.Copy(c, c)
			c.Close()
		})
		c, err := tr.Dial(context.Background(), nil, a)
		if err != nil {
			t.Failf("dial failed", "%v", err)
		}
		if c.LocalAddr() == nil || c.RemoteAddr().Network() != "inproc" {
			t.Failf("wrong address", "%v", c.RemoteAddr())
		}
		c.Write([]byte("abc"))
		b := make([]byte, 3)
		if _, err := io.ReadFull(c, b); err != nil || string(b) != "abc" {
			t.Failf("wrong bytes", "%q %v", b, err)
		}
		c.Close()
		g.Wait()
		l.Close()
	}})

	// sockets over inproc against sockets over tcp: the same messages
	for _, pr := range []string{"PUSH PULL", "PAIR PAIR", "DEALER ROUTER", "REQ REP", "PUB SUB"} {
		k := strings.Fields(pr)
		reg(mc.Scenario{Name: "c14/sockets/" + k[0] + "-" + k[1], Prop: []string{"C14"}, Quick: 1, Deep: 2, DeepShards: 4, SplitChoose: true, Fn: func(t *mc.T) {
			shapes := [][]string{{"a"}, {"", "b", ""}, blobs(255, 256, 0, 3), blobs(3000), blobs(1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1)}
			sh := pick(shapes)
			multi := mc.Choose(2) == 1
			var res []string
			for _, e := range []string{inp(), ep(1)} {
				a := kinds[k[0]](bg, opts(zmq.WithID(zmq.SocketIdentity("A")))...)
				b := kinds[k[1]](bg, opts()...)
				connect(t, a, b, false, e)
				if k[1] == "SUB" {
					subscribe(t, b, "")
				}
				mc.Settle()
				var g group
				g.Go(func() {
					for i := 0; i < 2; i++ {
						sendAs(t, a, multi, append([]string{fmt.Sprint(i)}, sh...))
						if k[0] == "REQ" {
							res = append(res, recv(t, a))
						}
					}
				})
				for i := 0; i < 2; i++ {
					m, err := b.Recv()
					if err != nil {
						t.Failf("recv failed", "%v", err)
					}
					res = append(res, show(m))
					if k[1] == "REP" {
						send(t, b, frames(m)...)
					}
				}
				g.Wait()
				closeAll(t, a, b)
			}
			h := len(res) / 2
			for i := 0; i < h; i++ {
				if res[i] != res[h+i] {
					t.Failf("inproc and tcp differ", "%q over inproc, %q over tcp", res[i], res[h+i])
				}
			}
		}})
	}
}
