package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"net"
	"sort"
	"strings"

	"github.com/luxfi/zmq/v4/internal/zzmc/mc"
)

// An independent implementation of the ZMTP 3.0 wire format, for peers that
// are driven byte by byte.

type rawPeer struct {
	t    *mc.T
	c    net.Conn
	mech string
	typ  string // of the peer
	id   string
	meta map[string]string
	own  string // the identity it announced
}

func encGreeting(mech string, server bool) []byte {
	b := make([]byte, 64)
	b[0] = 0xff
	b[9] = 0x7f
	b[10] = 3
	copy(b[12:32], mech)
	if server {
		b[32] = 1
	}
	return b
}

func encFrame(body []byte, more, cmd bool) []byte {
	var fl byte
	if more {
		fl |= 1
	}
	if cmd {
		fl |= 4
	}
	if len(body) > 255 {
		b := make([]byte, 9, 9+len(body))
		b[0] = fl | 2
		binary.BigEndian.PutUint64(b[1:], uint64(len(body)))
		return append(b, body...)
	}
	return append([]byte{fl, byte(len(body))}, body...)
}

func encMsg(frames ...[]byte) []byte {
	var b []byte
	for i, f := range frames {
		b = append(b, encFrame(f, i < len(frames)-1, false)...)
	}
	return b
}

func encMsgS(frames ...string) []byte {
	var fs [][]byte
	for _, f := range frames {
		fs = append(fs, []byte(f))
	}
	return encMsg(fs...)
}

func encCmd(name string, body []byte) []byte {
	return encFrame(append(append([]byte{byte(len(name))}, name...), body...), false, true)
}

func encProp(k, v string) []byte {
	b := append([]byte{byte(len(k))}, k...)
	b = binary.BigEndian.AppendUint32(b, uint32(len(v)))
	return append(b, v...)
}

func encMeta(kv ...string) []byte {
	var b []byte
	for i := 0; i+1 < len(kv); i += 2 {
		b = append(b, encProp(kv[i], kv[i+1])...)
	}
	return b
}

func decMeta(b []byte) (map[string]string, bool) {
	m := map[string]string{}
	for len(b) > 0 {
		n := int(b[0])
		if len(b) < 1+n+4 {
			return nil, false
		}
		k := string(b[1 : 1+n])
		b = b[1+n:]
		v := binary.BigEndian.Uint32(b)
		b = b[4:]
		if uint64(v) > uint64(len(b)) {
			return nil, false
		}
		m[strings.ToLower(k)] = string(b[:v])
		b = b[v:]
	}
	return m, true
}

func (p *rawPeer) write(b []byte) error {
	_, err := p.c.Write(b)
	return err
}

func (p *rawPeer) readN(n int) ([]byte, error) {
	b := make([]byte, n)
	k, err := io.ReadFull(p.c, b)
	return b[:k], err
}

func (p *rawPeer) readFrame() (fl byte, body []byte, err error) {
	h, err := p.readN(2)
	if err != nil {
		return 0, nil, err
	}
	n := uint64(h[1])
	if h[0]&2 != 0 {
		r, err := p.readN(7)
		if err != nil {
			return 0, nil, err
		}
		n = binary.BigEndian.Uint64(append([]byte{h[1]}, r...))
	}
	if n > 1<<26 {
		return 0, nil, fmt.Errorf("frame of %d bytes", n)
	}
	body, err = p.readN(int(n))
	return h[0], body, err
}

// readMsg reads a message; it fails the scenario on anything but valid frames.
func (p *rawPeer) readMsg() ([]string, error) {
	var fs []string
	for {
		fl, b, err := p.readFrame()
		if err != nil {
			return fs, err
		}
		if fl&^3 != 0 {
			p.t.Failf("bad frame flags", "flags %#x in a message", fl)
		}
		if (fl&2 != 0) != (len(b) > 255) {
			p.t.Failf("frame length not in the prescribed form", "flags %#x, %d bytes", fl, len(b))
		}
		fs = append(fs, string(b))
		if fl&1 == 0 {
			return fs, nil
		}
	}
}

func (p *rawPeer) readCmd() (string, []byte, error) {
	fl, b, err := p.readFrame()
	if err != nil {
		return "", nil, err
	}
	if fl&4 == 0 || fl&1 != 0 || len(b) == 0 || int(b[0]) > len(b)-1 {
		return "", nil, fmt.Errorf("no command: flags %#x body %q", fl, b)
	}
	n := 1 + int(b[0])
	return string(b[1:n]), b[n:], nil
}

func (p *rawPeer) setMeta(b []byte) error {
	m, ok := decMeta(b)
	if !ok {
		return fmt.Errorf("bad metadata %q", b)
	}
	p.meta = m
	p.typ, p.id = m["socket-type"], m["identity"]
	return nil
}

// handshake opens the connection as a well-behaved peer.
func (p *rawPeer) handshake(typ, id string, server bool) error {
	if p.mech == "" {
		p.mech = "NULL"
	}
	if err := p.write(encGreeting(p.mech, false)); err != nil {
		return err
	}
	g, err := p.readN(64)
	if err != nil {
		return err
	}
	want := encGreeting(p.mech, false)
	if g[0] != 0xff || g[9] != 0x7f || g[10] != 3 || !bytes.Equal(g[12:32], want[12:32]) || g[32] > 1 {
		p.t.Failf("bad greeting", "greeting %x", g)
	}
	p.own = id
	meta := encMeta("Socket-Type", typ, "Identity", id)
	expect := func(name string) ([]byte, error) {
		n, b, err := p.readCmd()
		if err == nil && n != name {
			err = fmt.Errorf("command %q instead of %q", n, name)
		}
		return b, err
	}
	switch {
	case p.mech == "NULL":
		if err := p.write(encCmd("READY", meta)); err != nil {
			return err
		}
		b, err := expect("READY")
		if err != nil {
			return err
		}
		return p.setMeta(b)
	case server:
		if _, err := expect("HELLO"); err != nil {
			return err
		}
		if err := p.write(encCmd("WELCOME", nil)); err != nil {
			return err
		}
		b, err := expect("INITIATE")
		if err != nil {
			return err
		}
		if err := p.setMeta(b); err != nil {
			return err
		}
		return p.write(encCmd("READY", meta))
	default:
		if err := p.write(encCmd("HELLO", []byte("\x01u\x01p"))); err != nil {
			return err
		}
		if _, err := expect("WELCOME"); err != nil {
			return err
		}
		if err := p.write(encCmd("INITIATE", meta)); err != nil {
			return err
		}
		b, err := expect("READY")
		if err != nil {
			return err
		}
		return p.setMeta(b)
	}
}

// rawDial connects a raw peer of the given type to a listening socket.
func rawDial(t *mc.T, n int, typ, id string) *rawPeer {
	return rawDialMech(t, n, "NULL", typ, id)
}

func rawDialMech(t *mc.T, n int, mech, typ, id string) *rawPeer {
	c, err := net.Dial("tcp", fmt.Sprintf("127.0.0.1:%d", 5000+n))
	if err != nil {
		t.Failf("connection refused", "raw dial: %v", err)
	}
	p := &rawPeer{t: t, c: c, mech: mech}
	if err := p.handshake(typ, id, false); err != nil {
		t.Failf("handshake failed", "raw handshake as %s: %v", typ, err)
	}
	return p
}

type rawServer struct {
	t *mc.T
	l net.Listener
}

func rawListen(t *mc.T, n int) *rawServer {
	l, err := net.Listen("tcp", fmt.Sprintf("127.0.0.1:%d", 5000+n))
	if err != nil {
		t.Failf("harness", "raw listen: %v", err)
	}
	return &rawServer{t, l}
}

func (s *rawServer) accept(mech, typ, id string) *rawPeer {
	c, err := s.l.Accept()
	if err != nil {
		s.t.Failf("harness", "raw accept: %v", err)
	}
	p := &rawPeer{t: s.t, c: c, mech: mech}
	if err := p.handshake(typ, id, true); err != nil {
		s.t.Failf("handshake failed", "raw handshake as %s: %v", typ, err)
	}
	return p
}

// decStream is the reference decoder: the complete messages of a stream, and
// how it ended: "end", "truncated" or "invalid".
func decStream(b []byte) (msgs [][]string, cmds []bool, how string) {
	for {
		var fs []string
		cmd := false
		first := true
		for {
			if len(b) == 0 && first {
				return msgs, cmds, "end"
			}
			if len(b) < 2 {
				return msgs, cmds, "truncated"
			}
			fl := b[0]
			n := uint64(b[1])
			b = b[2:]
			if fl&2 != 0 {
				if len(b) < 7 {
					return msgs, cmds, "truncated"
				}
				for _, x := range b[:7] {
					n = n<<8 | uint64(x)
				}
				b = b[7:]
				if n > 1<<63-1 {
					return msgs, cmds, "invalid"
				}
			}
			if n > uint64(len(b)) {
				return msgs, cmds, "truncated"
			}
			fs = append(fs, string(b[:n]))
			b = b[n:]
			cmd = cmd || fl&4 != 0
			first = false
			if fl&1 == 0 {
				break
			}
		}
		msgs = append(msgs, fs)
		cmds = append(cmds, cmd)
	}
}

func keys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// rawDialConn is a raw connection to a listening socket, without handshake.
func rawDialConn(t *mc.T, n int) net.Conn {
	c, err := net.Dial("tcp", fmt.Sprintf("127.0.0.1:%d", 5000+n))
	if err != nil {
		t.Failf("connection refused", "raw dial: %v", err)
	}
	return c
}
