package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"strings"
	"sync"

	zmq "github.com/luxfi/zmq/v4"
	"github.com/luxfi/zmq/v4/internal/zzmc/mc"
	sim "github.com/luxfi/zmq/v4/internal/zzmc/xnet"
)

// userMech is a security mechanism as a user may write one.
//
//	xor     as long as the plain text
//	grow    longer: frames pass from the short to the long form
//	shrink  shorter: frames pass from the long to the short form
//	pieces  like grow, written in several pieces
//	nonce   each frame carries a number; they have to come in order
//
// Encrypt refuses frames that begin with "bad"; "bad!" after writing a part.
type userMech struct {
	mode string
	name string // instead of one made of the mode
	hs   func(c *zmq.Conn, server bool) error

	mu       sync.Mutex
	enc, dec []string // the frames that went through
	out, in  byte     // nonces
}

var errRefused = errors.New("refused by the mechanism")

const pad = "pppppppppp"

func (m *userMech) Type() zmq.SecurityType {
	if m.name != "" {
		return zmq.SecurityType(m.name)
	}
	return "X-" + zmq.SecurityType(strings.ToUpper(m.mode))
}

func (m *userMech) Handshake(c *zmq.Conn, server bool) error {
	if m.hs != nil {
		if err := m.hs(c, server); err != nil {
			return err
		}
	}
	raw, err := c.Meta.MarshalZMTP()
	if err != nil {
		return err
	}
	if err := c.SendCmd(zmq.CmdReady, raw); err != nil {
		return err
	}
	cmd, err := c.RecvCmd()
	if err != nil {
		return err
	}
	if cmd.Name != zmq.CmdReady {
		return zmq.ErrBadCmd
	}
	return c.Peer.Meta.UnmarshalZMTP(cmd.Body)
}

func xor(b []byte, k byte) []byte {
	o := make([]byte, len(b))
	for i, x := range b {
		o[i] = x ^ k
	}
	return o
}

// seal is the reference form of a frame on the wire.
func (m *userMech) seal(b []byte, nonce byte) []byte {
	switch m.mode {
	case "grow", "pieces":
		return append([]byte{1, 2, 3}, xor(b, 0x33)...)
	case "shrink":
		if bytes.HasPrefix(b, []byte(pad)) {
			return append([]byte{1}, b[len(pad):]...)
		}
		return append([]byte{0}, b...)
	case "nonce":
		return append([]byte{nonce}, xor(b, nonce)...)
	}
	return xor(b, 0x5a)
}

// unseal is the inverse of seal.
func (m *userMech) unseal(b []byte, nonce byte) ([]byte, error) {
	switch m.mode {
	case "grow", "pieces":
		if len(b) < 3 || !bytes.Equal(b[:3], []byte{1, 2, 3}) {
			return nil, errRefused
		}
		return xor(b[3:], 0x33), nil
	case "shrink":
		if len(b) == 0 || b[0] > 1 {
			return nil, errRefused
		}
		if b[0] == 1 {
			return append([]byte(pad), b[1:]...), nil
		}
		return append([]byte(nil), b[1:]...), nil
	case "nonce":
		if len(b) == 0 || b[0] != nonce {
			return nil, errRefused
		}
		return xor(b[1:], nonce), nil
	}
	if bytes.HasPrefix(b, xor([]byte("undec"), 0x5a)) {
		return nil, errRefused
	}
	return xor(b, 0x5a), nil
}

func (m *userMech) Encrypt(w io.Writer, data []byte) (int, error) {
	if bytes.HasPrefix(data, []byte("bad!")) {
		w.Write([]byte{9, 9})
		return 2, errRefused
	}
	if bytes.HasPrefix(data, []byte("bad")) {
		return 0, errRefused
	}
	m.mu.Lock()
	m.enc = append(m.enc, string(data))
	n := m.out
	m.out++
	m.mu.Unlock()
	return m.put(w, m.seal(data, n))
}

func (m *userMech) put(w io.Writer, b []byte) (int, error) {
	if m.mode != "pieces" || len(b) < 2 {
		return w.Write(b)
	}
	w.Write(b[:1])
	w.Write(b[1 : len(b)/2])
	w.Write(b[len(b)/2:])
	return len(b), nil
}

func (m *userMech) Decrypt(w io.Writer, data []byte) (int, error) {
	m.mu.Lock()
	n := m.in
	m.mu.Unlock()
	b, err := m.unseal(data, n)
	if err != nil {
		w.Write([]byte("garbage"))
		return 7, err
	}
	m.mu.Lock()
	m.dec = append(m.dec, string(b))
	m.in++
	m.mu.Unlock()
	return m.put(w, b)
}

var mechModes = []string{"xor", "grow", "shrink", "pieces", "nonce"}

// mechPeer is a raw peer that speaks a userMech.
type mechPeer struct {
	*rawPeer
	m       *userMech
	in, out byte
}

func (p *mechPeer) sealed(fs ...string) (b []byte) {
	for i, f := range fs {
		b = append(b, encFrame(p.m.seal([]byte(f), p.out), i < len(fs)-1, false)...)
		p.out++
	}
	return b
}

func (p *mechPeer) sealedCmd(name string, body []byte) []byte {
	b := encFrame(p.m.seal(append(append([]byte{byte(len(name))}, name...), body...), p.out), false, true)
	p.out++
	return b
}

// frame reads a frame and compares it with what it must be on the wire.
func (p *mechPeer) frame(exp string, more, cmd bool) {
	w := encFrame(p.m.seal([]byte(exp), p.in), more, cmd)
	p.in++
	b, err := p.readN(len(w))
	if err != nil || !bytes.Equal(b, w) {
		k := 0
		for k < len(b) && b[k] == w[k] {
			k++
		}
		p.t.Failf("wrong bytes on the wire", "mechanism %s, frame of %d bytes: differs at byte %d of %d (%v): %x, expected %x", p.m.mode, len(exp), k, len(w), err, b[k:min(k+12, len(b))], w[k:min(k+12, len(w))])
	}
}

func (p *mechPeer) frames(fs ...string) {
	for i, f := range fs {
		p.frame(f, i < len(fs)-1, false)
	}
}

func (p *mechPeer) open(typ, id string) {
	if err := p.write(encGreeting(string(p.m.Type()), false)); err != nil {
		p.t.Failf("handshake failed", "raw: %v", err)
	}
	if _, err := p.readN(64); err != nil {
		p.t.Failf("handshake failed", "raw: greeting: %v", err)
	}
	p.write(p.sealedCmd("READY", encMeta("Socket-Type", typ, "Identity", id)))
	fl, b, err := p.readFrame()
	if err != nil || fl&4 == 0 {
		p.t.Failf("handshake failed", "raw: %v, flags %#x", err, fl)
	}
	b, err = p.m.unseal(b, p.in)
	p.in++
	if err != nil || len(b) < 6 || string(b[:6]) != "\x05READY" {
		p.t.Failf("handshake failed", "the READY command does not decrypt: %v %q", err, b)
	}
	if err := p.setMeta(b[6:]); err != nil {
		p.t.Failf("handshake failed", "raw: %v", err)
	}
}

// openMech is an open Conn with a mechanism and the raw peer of it.
func openMech(t *mc.T, mode string) (*zmq.Conn, *userMech, *mechPeer) {
	a, b := sim.Sim.Pair(1 << 20)
	m := &userMech{mode: mode}
	p := &mechPeer{rawPeer: &rawPeer{t: t, c: b}, m: &userMech{mode: mode}}
	var g group
	g.Go(func() { p.open("DEALER", "raw") })
	c, err := zmq.Open(a, m, zmq.Dealer, nil, false, nil)
	if err != nil {
		t.Failf("handshake failed", "%v", err)
	}
	g.Wait()
	m.enc, m.dec = nil, nil
	return c, m, p
}

func wantList(t *mc.T, what string, got, exp []string) {
	if !sameFrames(got, exp) {
		t.Failf("wrong "+what, "%s: %d frames %s %q, expected %d frames %s %q", what, len(got), shape(got), showS(got), len(exp), shape(exp), showS(exp))
	}
}

func init() {
	// What is on the wire is what Encrypt wrote, in frames of their own length;
	// what is received is what Decrypt wrote. Every frame passes once.
	mechShapes := [][]string{}
	for _, s := range [][]int{{0}, {1}, {2}, {127}, {251}, {252}, {253}, {254}, {255}, {256}, {257}, {300}, {65535}, {65536}, {0, 0}, {0, 254}, {254, 0}, {252, 253, 254}, {255, 256, 0}, {0, 1, 0, 300}} {
		mechShapes = append(mechShapes, blobs(s...))
	}
	for _, n := range []int{0, 1, 244, 245, 246, 247, 254, 255, 256, 257} { // shrink to the other side of 255
		mechShapes = append(mechShapes, []string{pad + blob(1, n)}, []string{blob(2, 255), pad + blob(1, n), "x"})
	}
	for _, mode := range mechModes {
		reg(mc.Scenario{Name: "c21/wire/" + mode, Prop: []string{"C21"}, Quick: 1, Deep: 2, DeepShards: 2, SplitChoose: true, Fn: func(t *mc.T) {
			fs := pick(mechShapes)
			c, m, p := openMech(t, mode)
			if err := c.SendMsg(msg(fs...)); err != nil {
				t.Failf("send failed", "%v", err)
			}
			if err := c.SendCmd("after", []byte("x")); err != nil {
				t.Failf("send failed", "%v", err)
			}
			t.Step("reading the wire")
			p.frames(fs...)
			p.frame("\x05afterx", false, true)
			wantList(t, "frames given to Encrypt", m.enc, append(append([]string(nil), fs...), "\x05afterx"))
			// back: a PING in between is answered through the mechanism
			in := append(append(p.sealed(fs...), p.sealedCmd("PING", []byte("ctx"))...), p.sealed("end")...)
			if err := p.write(in); err != nil {
				t.Failf("write failed", "%v", err)
			}
			got, err := c.RecvMsg()
			if err != nil {
				t.Failf("recv failed", "%v", err)
			}
			if cmd, err := c.RecvMsg(); err != nil || cmd.Type != zmq.CmdMsg {
				t.Failf("recv failed", "PING: %v", err)
			}
			end, err := c.RecvMsg()
			if err != nil || show(end) != "end" {
				t.Failf("recv failed", "end: %v %q", err, show(end))
			}
			wantList(t, "message received", frames(got), fs)
			p.frame("\x04PONG", false, true)
			wantList(t, "frames given by Decrypt", m.dec, append(append([]string(nil), fs...), "\x04PINGctx", "end"))
			t.Outcome(shape(fs))
			c.Close()
			p.c.Close()
		}})
	}

	for _, mode := range mechModes {
		reg(mc.Scenario{Name: "c21/wire-socket/" + mode, Prop: []string{"C21"}, Quick: 1, Deep: 2, DeepShards: 2, SplitChoose: true, Fn: func(t *mc.T) {
			fs := pick(mechShapes)
			multi := mc.Choose(2) == 1
			m := &userMech{mode: mode}
			s := zmq.NewPair(bg, opts(zmq.WithSecurity(m))...)
			listen(t, s, ep(1))
			p := &mechPeer{rawPeer: &rawPeer{t: t, c: rawDialConn(t, 1)}, m: &userMech{mode: mode}}
			p.open("PAIR", "raw")
			mc.Settle()
			m.enc, m.dec = nil, nil
			var g group
			g.Go(func() {
				sendAs(t, s, multi, fs)
				sendAs(t, s, !multi, []string{"", "end"})
			})
			t.Step("reading the wire")
			p.frames(fs...)
			p.frames("", "end")
			g.Wait()
			wantList(t, "frames given to Encrypt", m.enc, append(append([]string(nil), fs...), "", "end"))
			g.Go(func() { p.write(append(p.sealed(fs...), p.sealed("end")...)) })
			t.Step("receiving")
			got, err := s.Recv()
			if err != nil {
				t.Failf("recv failed", "%v", err)
			}
			want(t, "next message", recv(t, s), "end")
			wantFrames(t, "message", frames(got), fs)
			wantList(t, "frames given by Decrypt", m.dec, append(append([]string(nil), fs...), "end"))
			t.Outcome(shape(fs))
			closeAll(t, s)
			p.c.Close()
		}})
	}

	// Sockets of each kind, with a mechanism.
	pairs := [][2]string{{"PAIR", "PAIR"}, {"PUSH", "PULL"}, {"DEALER", "DEALER"}, {"DEALER", "ROUTER"}, {"REQ", "REP"}, {"PUB", "SUB"}, {"XPUB", "XSUB"}, {"REQ", "ROUTER"}, {"DEALER", "REP"}, {"XPUB", "SUB"}}
	for _, pr := range pairs {
		reg(mc.Scenario{Name: "c21/sockets/" + pr[0] + "-" + pr[1], Prop: []string{"C21"}, Quick: 1, Deep: 2, DeepShards: 2, Fn: func(t *mc.T) {
			fs := pick([][]string{{""}, blobs(254), blobs(0, 255), {pad + blob(1, 250), "", "z"}})
			mode := pick(mechModes)
			tr := pick([]string{"tcp", "inproc"})
			multi := mc.Choose(2) == 1
			ma, mb := &userMech{mode: mode}, &userMech{mode: mode}
			a := kinds[pr[0]](bg, opts(zmq.WithSecurity(ma))...)
			b := kinds[pr[1]](bg, opts(zmq.WithSecurity(mb))...)
			e := endpoint(tr, 1)
			switch pr[0] {
			case "PUB", "XPUB":
				listen(t, a, e)
				dial(t, b, e)
				if pr[1] == "SUB" {
					subscribe(t, b, "")
				} else {
					send(t, b, "\x01")
				}
				mc.Settle()
			default:
				listen(t, b, e)
				dial(t, a, e)
			}
			out := fs
			if pr[0] == "DEALER" && pr[1] == "REP" {
				out = append([]string{""}, fs...)
			}
			var g group
			g.Go(func() { sendAs(t, a, multi, out) })
			t.Step("receiving")
			m, err := b.Recv()
			if err != nil {
				t.Failf("recv failed", "%v", err)
			}
			got := frames(m)
			if pr[1] == "ROUTER" {
				got = got[1:]
				if pr[0] == "REQ" {
					want(t, "delimiter", got[0], "")
					got = got[1:]
				}
			}
			wantFrames(t, "message", got, fs)
			g.Wait()
			if pr[1] == "ROUTER" || pr[1] == "REP" || pr[0] == "DEALER" || pr[0] == "PAIR" {
				back := fs
				if pr[1] == "ROUTER" {
					back = frames(m)
				}
				g.Go(func() { sendAs(t, b, !multi, back) })
				t.Step("receiving the reply")
				r, err := a.Recv()
				if err != nil {
					t.Failf("recv failed", "%v", err)
				}
				wantFrames(t, "reply", frames(r), out)
				g.Wait()
			}
			mc.Settle()
			// what one side's Encrypt was given is what the other's Decrypt gave
			wantList(t, "frames through the mechanisms", mb.dec, ma.enc)
			wantList(t, "frames through the mechanisms", ma.dec, mb.enc)
			t.Outcome(mode)
			closeAll(t, a, b)
		}})
	}

	// A message that Encrypt refuses is not sent, no part of it, and the
	// connection stays in step.
	for _, mode := range []string{"xor", "grow", "nonce"} {
		reg(mc.Scenario{Name: "c21/refused/" + mode, Prop: []string{"C21"}, Quick: 1, Deep: 2, Fn: func(t *mc.T) {
			n := 1 + mc.Choose(3)
			at := mc.Choose(n)
			fs := blobs([]int{0, 3, 256}[:n]...)
			fs[at] = pick([]string{"bad", "bad!", "bad" + blob(1, 300)})
			c, _, p := openMech(t, mode)
			if mode == "nonce" && at > 0 { // the numbers of the frames before are lost: what follows cannot be read
				at = 0
				fs[0] = "bad"
			}
			if err := c.SendMsg(msg(fs...)); err == nil {
				t.Failf("a message was sent that Encrypt refused", "%s, frame %d of %d", mode, at+1, n)
			}
			if err := c.SendMsg(msg("x", "")); err != nil {
				t.Failf("send failed", "after a message that Encrypt refused: %v", err)
			}
			if err := c.SendCmd("after", nil); err != nil {
				t.Failf("send failed", "after a message that Encrypt refused: %v", err)
			}
			t.Step("reading the wire")
			p.frames("x", "")
			p.frame("\x05after", false, true)
			c.Close()
			t.Outcome(fmt.Sprint(n, at))
			p.c.Close()
		}})
	}
	for _, pr := range [][2]string{{"PAIR", "PAIR"}, {"PUSH", "PULL"}, {"DEALER", "DEALER"}, {"DEALER", "ROUTER"}, {"REQ", "REP"}, {"PUB", "SUB"}, {"XPUB", "XSUB"}} {
		reg(mc.Scenario{Name: "c21/refused-socket/" + pr[0] + "-" + pr[1], Prop: []string{"C21"}, Quick: 1, Deep: 2, Fn: func(t *mc.T) {
			mode := pick([]string{"xor", "grow"})
			multi := mc.Choose(2) == 1
			fs := pick([][]string{{"bad"}, {"bad!"}, {"good", "bad"}, {"good", "bad!", "good"}})
			a := kinds[pr[0]](bg, opts(zmq.WithSecurity(&userMech{mode: mode}))...)
			b := kinds[pr[1]](bg, opts(zmq.WithSecurity(&userMech{mode: mode}))...)
			pub := strings.HasSuffix(pr[0], "PUB")
			if pub {
				listen(t, a, ep(1))
				dial(t, b, ep(1))
				if pr[1] == "SUB" {
					subscribe(t, b, "")
				} else {
					send(t, b, "\x01")
				}
				mc.Settle()
			} else {
				listen(t, b, ep(1))
				dial(t, a, ep(1))
			}
			var err error
			if multi {
				err = a.SendMulti(msg(fs...))
			} else {
				err = a.Send(msg(fs...))
			}
			if err == nil && !pub {
				t.Failf("a message was sent that Encrypt refused", "%s: %q", pr[0], fs)
			}
			sendAs(t, a, multi, []string{"ok", ""})
			t.Step("receiving")
			m, err := b.Recv()
			if err != nil {
				t.Failf("recv failed", "after a message that Encrypt refused: %v", err)
			}
			got := frames(m)
			if pr[1] == "ROUTER" {
				got = got[1:]
			}
			wantFrames(t, "message", got, []string{"ok", ""})
			t.Outcome(mode)
			closeAll(t, a, b)
		}})
	}

	// A frame that Decrypt refuses: nothing of its message is delivered, that
	// connection ends, others are served, and one that was dialed is dialed again.
	for _, k := range []string{"PULL", "PAIR", "SUB", "XSUB", "DEALER", "ROUTER", "REP", "XPUB", "REQ"} {
		for _, dials := range []bool{true, false} {
			if dials && (k == "REP" || k == "XPUB" || k == "ROUTER") {
				continue
			}
			if !dials && k == "REQ" {
				continue
			}
			reg(mc.Scenario{Name: "c21/undecryptable/" + k + map[bool]string{true: "/dial", false: "/listen"}[dials], Prop: []string{"C21"}, Quick: 1, Deep: 2, Fn: func(t *mc.T) {
				n := 1 + mc.Choose(2)
				at := mc.Choose(n)
				s := kinds[k](bg, opts(zmq.WithSecurity(&userMech{mode: "xor"}))...)
				pk := partner(k)
				peer := func() *mechPeer {
					return &mechPeer{rawPeer: &rawPeer{t: t}, m: &userMech{mode: "xor"}}
				}
				p := peer()
				var l *rawServer
				var g group
				accept := func(id string) {
					c, err := l.l.Accept()
					if err != nil {
						t.Failf("harness", "raw accept: %v", err)
					}
					p.c = c
					p.open(pk, id)
				}
				if dials {
					l = rawListen(t, 1)
					g.Go(func() { accept("p0") })
					dial(t, s, ep(1))
					g.Wait()
				} else {
					listen(t, s, ep(1))
					p.c = rawDialConn(t, 1)
					p.open(pk, "p0")
				}
				if k == "SUB" {
					subscribe(t, s, "")
				}
				if k == "REQ" {
					send(t, s, "question")
					t.Step("reading the question")
					p.frames("", "question")
				}
				env := func(fs ...string) []string {
					switch k {
					case "REP", "REQ":
						return append([]string{""}, fs...)
					}
					return fs
				}
				bad := make([]string, n)
				for i := range bad {
					bad[i] = fmt.Sprint("m", i)
				}
				bad[at] = "undecryptable"
				p.write(append(p.sealed(env(bad...)...), p.sealed(env("late")...)...))
				c := collect(s)
				mc.Settle()
				for _, m := range c.got {
					if x := m[len(m)-1]; x != "late" && x != "next" {
						t.Failf("a message was delivered that did not decrypt", "%s: %q", k, m)
					}
				}
				if len(c.got) > 0 {
					t.Failf("a message of a connection was delivered after one that did not decrypt", "%s: %q", k, c.got)
				}
				// what follows is served
				old := p
				p = peer()
				if dials {
					t.Step("the connection is dialed again")
					accept("p1")
				} else {
					p.c = rawDialConn(t, 1)
					p.open(pk, "p1")
				}
				if k != "REQ" {
					p.write(p.sealed(env("next")...))
					mc.Settle()
					if len(c.got) != 1 || c.got[0][len(c.got[0])-1] != "next" {
						t.Failf("wrong messages after one that did not decrypt", "%s: %q", k, c.got)
					}
				}
				t.Outcome(fmt.Sprint(n, at))
				closeAll(t, s)
				old.c.Close()
				p.c.Close()
				if l != nil {
					l.l.Close()
				}
			}})
		}
	}

	// A mechanism that numbers its frames: the order of the calls of Encrypt is
	// the order on the wire, whoever sends.
	reg(mc.Scenario{Name: "c21/order/conn", Prop: []string{"C21"}, Quick: 2, Deep: 3, DeepShards: 4, Race: true, RaceBound: 1, Fn: func(t *mc.T) {
		c, m, p := openMech(t, "nonce")
		var g group
		for i := 0; i < 2; i++ {
			g.Go(func() {
				if err := c.SendMsg(msg(fmt.Sprint("a", i), fmt.Sprint("b", i))); err != nil {
					t.Failf("send failed", "%v", err)
				}
			})
		}
		g.Go(func() {
			p.write(p.sealedCmd("PING", nil))
			if cmd, err := c.RecvMsg(); err != nil || cmd.Type != zmq.CmdMsg {
				t.Failf("recv failed", "PING: %v", err)
			}
		})
		g.Wait()
		var got []string
		for i := 0; i < 3; i++ {
			for {
				fl, b, err := p.readFrame()
				if err != nil {
					t.Failf("recv failed", "raw: %v", err)
				}
				b, err = p.m.unseal(b, p.in)
				if err != nil {
					t.Failf("frames on the wire out of the order of Encrypt", "frame %d", p.in)
				}
				p.in++
				got = append(got, string(b))
				if fl&1 == 0 {
					break
				}
			}
		}
		wantList(t, "frames on the wire", got, m.enc)
		if !merged(got, []string{"a0", "b0"}, []string{"a1", "b1"}, []string{"\x04PONG"}) {
			t.Failf("wrong frames on the wire", "%q", got)
		}
		t.Outcome(fmt.Sprintf("%q", got))
		c.Close()
		p.c.Close()
	}})
	for _, pr := range [][2]string{{"PAIR", "PAIR"}, {"PUSH", "PULL"}, {"DEALER", "ROUTER"}, {"PUB", "SUB"}} {
		reg(mc.Scenario{Name: "c21/order/" + pr[0] + "-" + pr[1], Prop: []string{"C21"}, Quick: 2, Deep: 3, DeepShards: 4, Fn: func(t *mc.T) {
			a := kinds[pr[0]](bg, opts(zmq.WithSecurity(&userMech{mode: "nonce"}))...)
			b := kinds[pr[1]](bg, opts(zmq.WithSecurity(&userMech{mode: "nonce"}))...)
			if pr[0] == "PUB" {
				listen(t, a, ep(1))
				dial(t, b, ep(1))
				subscribe(t, b, "")
				mc.Settle()
			} else {
				listen(t, b, ep(1))
				dial(t, a, ep(1))
			}
			var g group
			for i := 0; i < 2; i++ {
				g.Go(func() { sendAs(t, a, i == 1, []string{fmt.Sprint("a", i), fmt.Sprint("b", i)}) })
			}
			var got []string
			for i := 0; i < 2; i++ {
				t.Step("receiving")
				m, err := b.Recv()
				if err != nil {
					t.Failf("recv failed", "%v", err)
				}
				fs := frames(m)
				got = append(got, showS(fs[max(len(fs)-2, 0):]))
			}
			g.Wait()
			if !merged(got, []string{"a0,b0"}, []string{"a1,b1"}) {
				t.Failf("wrong messages", "%q", got)
			}
			t.Outcome(fmt.Sprint(got))
			closeAll(t, a, b)
		}})
	}

	// names of mechanisms of every length; 20 bytes are the most
	reg(mc.Scenario{Name: "c21/names", Prop: []string{"C21", "C03"}, Quick: 0, Deep: 1, Fn: func(t *mc.T) {
		lens := []int{1, 2, 5, 19, 20, 21, 255}
		full := strings.Repeat("ABCDEFGHIJ", 26)
		na := full[:pick(lens)]
		nb := full[:pick(lens)]
		l := zmq.NewPull(bg, opts(zmq.WithSecurity(&userMech{mode: "grow", name: nb}))...)
		listen(t, l, ep(1))
		o := zmq.NewPush(bg, opts(zmq.WithSecurity(&userMech{mode: "grow", name: na}), zmq.WithDialerMaxRetries(0), zmq.WithAutomaticReconnect(false))...)
		ok := na == nb && len(na) <= 20
		if err := o.Dial(ep(1)); (err == nil) != ok {
			t.Failf("wrong verdict of Dial", "mechanisms of %d and %d bytes: %v", len(na), len(nb), err)
		}
		if ok {
			var g group
			g.Go(func() { send(t, o, "hello") })
			want(t, "message", recv(t, l), "hello")
			g.Wait()
		} else if len(nb) <= 20 {
			good := zmq.NewPush(bg, opts(zmq.WithSecurity(&userMech{mode: "grow", name: nb}))...)
			dial(t, good, ep(1))
			var g group
			g.Go(func() { send(t, good, "hello") })
			want(t, "message", recv(t, l), "hello")
			g.Wait()
			closeAll(t, good)
		}
		closeAll(t, o, l)
	}})

	// A refused handshake makes no peer and leaves the socket in order.
	for _, side := range []string{"dialer", "listener"} {
		reg(mc.Scenario{Name: "c21/handshake/" + side, Prop: []string{"C21"}, Quick: 2, Deep: 3, Fn: func(t *mc.T) {
			after := mc.Choose(2) == 1
			ma, mb := &userMech{mode: "grow"}, &userMech{mode: "grow"}
			refuse := func(c *zmq.Conn, server bool) error {
				if after {
					if err := c.SendCmd("HELLO", []byte("me")); err != nil {
						return err
					}
				}
				return errRefused
			}
			l := zmq.NewPull(bg, opts(zmq.WithSecurity(mb))...)
			listen(t, l, ep(1))
			bad := zmq.NewPush(bg, opts(zmq.WithSecurity(ma), zmq.WithDialerMaxRetries(0), zmq.WithAutomaticReconnect(false))...)
			if side == "dialer" {
				ma.hs = refuse
			} else {
				n := 0
				mb.hs = func(c *zmq.Conn, server bool) error {
					if n++; n == 1 {
						return refuse(c, server)
					}
					return nil
				}
			}
			if err := bad.Dial(ep(1)); err == nil {
				t.Failf("dial succeeded although the handshake was refused", "by the %s", side)
			}
			good := zmq.NewPush(bg, opts(zmq.WithSecurity(&userMech{mode: "grow"}))...)
			dial(t, good, ep(1))
			var g group
			g.Go(func() { send(t, good, "hello") })
			want(t, "message", recv(t, l), "hello")
			g.Wait()
			t.Outcome(fmt.Sprint(after))
			closeAll(t, bad, good, l)
		}})
	}
}
