package main

import (
	"fmt"
	"net"
	"strings"

	zmq "github.com/luxfi/zmq/v4"
	"github.com/luxfi/zmq/v4/internal/zzmc/mc"
	sim "github.com/luxfi/zmq/v4/internal/zzmc/xnet"
	"github.com/luxfi/zmq/v4/security/null"
	"github.com/luxfi/zmq/v4/security/plain"
)

func sec(name string) zmq.Security {
	if name == "PLAIN" {
		return plain.Security("u", "p")
	}
	return null.Security()
}

// noStream are the kinds that speak ZMTP.
var noStream = kindNames[:11]

// verdict on a peer's handshake bytes.
type verdict int

const (
	reject verdict = iota
	accept
	either // not settled by the specification
)

func (v verdict) String() string { return [...]string{"reject", "accept", "either"}[v] }

// judge decides what an endpoint of the given kind, mechanism and role has to
// make of all the bytes its peer sends, and what it then knows of the peer.
func judge(b []byte, kind, mech string, server bool) (v verdict, meta map[string]string) {
	v = accept
	grey := func(c bool) {
		if c {
			v = either
		}
	}
	if len(b) < 64 || b[0] != 0xff || b[9] != 0x7f || b[10] < 3 || b[32] > 1 {
		return reject, nil
	}
	m := string(b[12:32])
	if i := strings.IndexByte(m, 0); i >= 0 {
		grey(strings.Trim(m[i:], "\x00") != "")
		m = m[:i]
	}
	if m != mech {
		return reject, nil
	}
	grey(b[32] == 1)
	for _, x := range b[33:64] {
		grey(x != 0)
	}
	b = b[64:]
	var names []string
	switch {
	case mech == "NULL":
		names = []string{"READY"}
	case server:
		names = []string{"HELLO", "INITIATE"}
	default:
		names = []string{"WELCOME", "READY"}
	}
	for _, name := range names {
		if len(b) < 2 {
			return reject, nil
		}
		fl, n := b[0], uint64(b[1])
		b = b[2:]
		if fl&2 != 0 {
			if len(b) < 7 {
				return reject, nil
			}
			for _, x := range b[:7] {
				n = n<<8 | uint64(x)
			}
			b = b[7:]
		}
		if fl&4 == 0 || fl&1 != 0 || n > uint64(len(b)) || n == 0 {
			return reject, nil
		}
		grey(fl&^7 != 0)
		body := b[:n]
		b = b[n:]
		k := int(body[0])
		if k > len(body)-1 || string(body[1:1+k]) != name {
			return reject, nil
		}
		body = body[1+k:]
		switch name {
		case "HELLO":
			// the library does not authenticate; a garbled body may be refused
			grey(string(body) != "\x01u\x01p")
		case "WELCOME":
			grey(len(body) > 0)
		default:
			meta = map[string]string{}
			for len(body) > 0 {
				k := int(body[0])
				if len(body) < 5+k {
					return reject, nil
				}
				key := string(body[1 : 1+k])
				body = body[1+k:]
				l := uint64(body[0])<<24 | uint64(body[1])<<16 | uint64(body[2])<<8 | uint64(body[3])
				body = body[4:]
				if l > uint64(len(body)) {
					return reject, nil
				}
				val := string(body[:l])
				body = body[l:]
				lk := strings.ToLower(key)
				_, dup := meta[lk]
				grey(dup || k == 0)
				grey((lk == "socket-type" && key != "Socket-Type") || (lk == "identity" && key != "Identity"))
				for i := 0; i < k; i++ {
					c := lk[i]
					grey(!(c >= 'a' && c <= 'z' || c >= '0' && c <= '9' || strings.IndexByte("-_.+", c) >= 0))
				}
				if lk == "identity" {
					grey(len(val) > 255)
				}
				meta[lk] = val
			}
			if !compatible(kind, meta["socket-type"]) {
				if v == either { // perhaps read otherwise
					return either, nil
				}
				return reject, nil
			}
		}
	}
	if v == either {
		meta = nil
	}
	return v, meta
}

// hand runs Open against a peer that sends b and checks the verdict.
func hand(t *mc.T, b []byte, kind, mech, id string, server bool) {
	a, p := sim.Sim.Pair(1 << 20)
	var out []byte
	var g group
	g.Go(func() {
		p.Write(b)
		p.(interface{ CloseWrite() error }).CloseWrite()
		buf := make([]byte, 512)
		for {
			n, err := p.Read(buf)
			out = append(out, buf[:n]...)
			if err != nil {
				return
			}
		}
	})
	v, meta := judge(b, kind, mech, server)
	t.Step("handshake with " + v.String() + " expected")
	c, err := zmq.Open(a, sec(mech), zmq.SocketType(kind), zmq.SocketIdentity(id), server, nil)
	switch {
	case err == nil && c == nil, err != nil && c != nil:
		t.Failf("connection and error", "Open returned %v, %v", c, err)
	case v == accept && err != nil:
		t.Failf("valid handshake refused", "%s %s server=%v: %v for %q", kind, mech, server, err, b)
	case v == reject && err == nil:
		t.Failf("invalid handshake accepted", "%s %s server=%v: peer %v for %q", kind, mech, server, c.Peer.Meta, b)
	}
	if err == nil && meta != nil {
		wantMeta(t, c.Peer.Meta, meta)
	}
	a.Close()
	g.Wait()
	p.Close()
	if err == nil {
		wantOut(t, out, kind, mech, id, server)
	}
	t.Outcome(fmt.Sprint(err == nil))
}

// wantOut checks what an endpoint itself said in the handshake.
func wantOut(t *mc.T, out []byte, kind, mech, id string, server bool) {
	peer := partner(kind)
	v, meta := judge(out, peer, mech, !server)
	if v != accept || meta["socket-type"] != kind || meta["identity"] != id {
		t.Failf("wrong handshake sent", "%s %s server=%v id=%q wrote %q: %v %v", kind, mech, server, id, out, v, meta)
	}
}

// wantMeta compares metadata without regard to the case of keys.
func wantMeta(t *mc.T, got zmq.Metadata, exp map[string]string) {
	l := map[string]string{}
	for k, v := range got {
		l[strings.ToLower(k)] = v
	}
	if _, ok := exp["identity"]; !ok && l["identity"] == "" {
		delete(l, "identity")
	}
	for k, v := range exp {
		if w, ok := l[k]; !ok || w != v {
			t.Failf("wrong metadata", "key %q: got %q, expected %q", k, w, v)
		}
	}
	if len(l) != len(exp) || len(l) > len(got) {
		t.Failf("wrong metadata", "got %q, expected %q", got, exp)
	}
}

// peerBytes is all that a good peer sends.
func peerBytes(mech, typ, id string, server bool) []byte {
	b := encGreeting(mech, false)
	meta := encMeta("Socket-Type", typ, "Identity", id)
	switch {
	case mech == "NULL":
		return append(b, encCmd("READY", meta)...)
	case server: // the raw peer is the client
		b = append(b, encCmd("HELLO", []byte("\x01u\x01p"))...)
		return append(b, encCmd("INITIATE", meta)...)
	default:
		b = append(b, encCmd("WELCOME", nil)...)
		return append(b, encCmd("READY", meta)...)
	}
}

type role struct {
	mech   string
	server bool
}

var roles = []role{{"NULL", true}, {"NULL", false}, {"PLAIN", true}, {"PLAIN", false}}

func (r role) String() string {
	return r.mech + map[bool]string{true: "/server", false: "/client"}[r.server]
}

func init() {
	ids := []string{"", "id", strings.Repeat("i", 255)}
	// two real endpoints, every pair of kinds and of mechanisms
	reg(mc.Scenario{Name: "c03/pairs", Prop: []string{"C03"}, Quick: 1, Deep: 2, DeepShards: 4, SplitChoose: true, Fn: func(t *mc.T) {
		ka, kb := pick(noStream), pick(noStream)
		ma, mb := pick([]string{"NULL", "PLAIN"}), pick([]string{"NULL", "PLAIN"})
		ia := strings.Repeat("i", 255)
		a, b := sim.Sim.Pair(1 << 20)
		var g group
		var cb *zmq.Conn
		var eb error
		var logb int
		g.Go(func() {
			cb, eb = zmq.Open(b, sec(mb), zmq.SocketType(kb), zmq.SocketIdentity("b"), false, func(*zmq.Conn) { logb++ })
			if eb != nil {
				b.Close()
			}
		})
		ca, ea := zmq.Open(a, sec(ma), zmq.SocketType(ka), zmq.SocketIdentity(ia), true, nil)
		if ea != nil {
			a.Close()
		}
		g.Wait()
		ok := ma == mb && compatible(ka, kb)
		if (ea == nil) != ok || (eb == nil) != ok {
			t.Failf("wrong verdict on a pair", "%s/%s and %s/%s: %v, %v", ka, ma, kb, mb, ea, eb)
		}
		if ok {
			wantMeta(t, ca.Peer.Meta, map[string]string{"socket-type": kb, "identity": "b"})
			wantMeta(t, cb.Peer.Meta, map[string]string{"socket-type": ka, "identity": ia})
		}
		a.Close()
		b.Close()
		t.Outcome(fmt.Sprint(ok))
	}})

	for _, r := range roles {
		for _, kind := range []string{"PULL", "ROUTER", "SUB"} {
			kind := kind
			pt := partner(kind)
			valid := peerBytes(r.mech, pt, "id", r.server)
			one := func(t *mc.T) {
				b := append([]byte(nil), valid...)
				pos := mc.Choose(len(b))
				b[pos] = byte(mc.Choose(256))
				hand(t, b, kind, r.mech, "me", r.server)
			}
			quick := 0
			if kind != "PULL" {
				quick = -1
			}
			reg(mc.Scenario{Name: "c03/corrupt/" + r.String() + "/" + kind, Prop: []string{"C03"}, NoCache: true, Quick: quick, Deep: 0, QuickShards: 2, DeepShards: 2, SplitChoose: true, Fn: one})
		}
		for _, kind := range noStream {
			valid := peerBytes(r.mech, partner(kind), "id", r.server)
			reg(mc.Scenario{Name: "c03/truncated/" + r.String() + "/" + kind, Prop: []string{"C03"}, Quick: map[bool]int{true: 1, false: 0}[kind == "PULL"], Deep: 1, Fn: func(t *mc.T) {
				hand(t, valid[:mc.Choose(len(valid)+1)], kind, r.mech, pick(ids), r.server)
			}})
		}
		reg(mc.Scenario{Name: "c03/corrupt2/" + r.String(), Prop: []string{"C03"}, NoCache: true, Quick: -1, Deep: 0, DeepShards: 4, SplitChoose: true, Fn: func(t *mc.T) {
			b := peerBytes(r.mech, "PUSH", "id", r.server)
			vals := []byte{0, 1, 2, 3, 4, 5, 6, 8, 0x7f, 0x80, 0xff, 'P', 'x'}
			p1 := 64 + mc.Choose(len(b)-64)
			b[p1] = pick(vals)
			p2 := mc.Choose(len(b))
			b[p2] = pick(vals)
			hand(t, b, "PULL", r.mech, "me", r.server)
		}})
		// every type text
		reg(mc.Scenario{Name: "c03/types/" + r.String(), Prop: []string{"C03"}, Quick: 0, Deep: 1, Fn: func(t *mc.T) {
			kind := pick(noStream)
			typ := pick(append([]string{"", "pair", "PAIR\x00", "PAI", "PAIRS", " PUB", "UNKNOWN", "STREAM", "CLIENT", "SERVER", strings.Repeat("P", 300)}, noStream...))
			hand(t, peerBytes(r.mech, typ, pick(ids), r.server), kind, r.mech, "me", r.server)
		}})
		// greetings: versions and mechanisms
		reg(mc.Scenario{Name: "c03/greeting/" + r.String(), Prop: []string{"C03"}, Quick: 0, Deep: 1, Fn: func(t *mc.T) {
			b := peerBytes(r.mech, "PUSH", "id", r.server)
			b[10], b[11] = byte(mc.Choose(6)), pick([]byte{0, 1, 2, 255})
			m := pick([]string{r.mech, "NULL", "PLAIN", "CURVE", "GSSAPI", "", "NUL", "NULLX", "null", strings.Repeat("N", 20)})
			copy(b[12:32], make([]byte, 20))
			copy(b[12:32], m)
			pad := pick([]byte{0, 1, 0xff})
			for i := 1; i < 9; i++ {
				b[i] = pad
			}
			hand(t, b, "PULL", r.mech, "me", r.server)
		}})
		// sequences of commands
		meta := encMeta("Socket-Type", "PUSH", "Identity", "x")
		cmds := [][]byte{
			encCmd("READY", meta), encCmd("HELLO", []byte("\x01u\x01p")), encCmd("WELCOME", nil), encCmd("INITIATE", meta),
			encCmd("ERROR", []byte("\x02no")), encCmd("PING", []byte{0, 0}), encMsgS("READY"), encFrame(nil, false, true), encCmd("READY", nil),
			encCmd("ready", meta), encCmd("", meta), encCmd("READ", meta), encCmd("READYX", meta), encFrame(append([]byte("\x05READY"), meta...), true, true), encFrame(append([]byte("\x05READY"), meta...), false, false),
			encFrame([]byte{200, 'x'}, false, true),
		}
		reg(mc.Scenario{Name: "c03/commands/" + r.String(), Prop: []string{"C03"}, Quick: 0, Deep: 1, QuickShards: 1, DeepShards: 2, SplitChoose: true, Fn: func(t *mc.T) {
			b := encGreeting(r.mech, false)
			for i := 0; i < 3; i++ {
				c := mc.Choose(len(cmds) + 1)
				if c == 0 {
					break
				}
				b = append(b, cmds[c-1]...)
			}
			hand(t, b, "PULL", r.mech, "me", r.server)
		}})
		// sequences of properties
		big := strings.Repeat("v", 70000)
		props := [][]byte{
			encProp("Socket-Type", "PUSH"), encProp("Socket-Type", "PUB"), encProp("Socket-Type", ""), encProp("Identity", ""), encProp("Identity", "x"),
			encProp("Identity", strings.Repeat("y", 255)), encProp("Identity", strings.Repeat("y", 256)), encProp("X-App", "v"), encProp("X-Big", big),
			encProp("", "v"), encProp(strings.Repeat("K", 255), "v"), encProp("socket-type", "PUSH"), {11, 'S'}, {3, 'A', 'b', 'c', 0, 0, 1, 0, 'v'}, {1, 'A', 0xff, 0xff, 0xff, 0xff}, {1, 'A', 0x7f, 0xff, 0xff, 0xff, 'v'}, {0, 0, 0, 0, 0},
		}
		reg(mc.Scenario{Name: "c03/metadata/" + r.String(), Prop: []string{"C03"}, Quick: 0, Deep: 0, QuickShards: 1, SplitChoose: true, NoCache: true, Fn: func(t *mc.T) {
			var m []byte
			for i := 0; i < 3; i++ {
				c := mc.Choose(len(props) + 1)
				if c == 0 {
					break
				}
				m = append(m, props[c-1]...)
			}
			b := encGreeting(r.mech, false)
			switch {
			case r.mech == "NULL":
				b = append(b, encCmd("READY", m)...)
			case r.server:
				b = append(append(b, encCmd("HELLO", []byte("\x01u\x01p"))...), encCmd("INITIATE", m)...)
			default:
				b = append(append(b, encCmd("WELCOME", nil)...), encCmd("READY", m)...)
			}
			hand(t, b, "PULL", r.mech, "me", r.server)
		}})
	}

	// credentials of every length reach the server, or are refused
	reg(mc.Scenario{Name: "c03/credentials", Prop: []string{"C03"}, Quick: 0, Deep: 1, Fn: func(t *mc.T) {
		n, m := pick([]int{0, 1, 2, 127, 254, 255, 256, 300}), pick([]int{0, 1, 2, 127, 254, 255, 256, 300})
		user, pass := blob(1, n), blob(2, m)
		a, p := sim.Sim.Pair(1 << 20)
		var g group
		g.Go(func() {
			rp := &rawPeer{t: t, c: p, mech: "PLAIN"}
			rp.write(encGreeting("PLAIN", true))
			if _, err := rp.readN(64); err != nil {
				return
			}
			name, b, err := rp.readCmd()
			if err != nil {
				if n <= 255 && m <= 255 {
					t.Failf("credentials refused", "user of %d, password of %d: %v", n, m, err)
				}
				p.Close()
				return
			}
			exp := string([]byte{byte(n)}) + user + string([]byte{byte(m)}) + pass
			if name != "HELLO" || string(b) != exp {
				t.Failf("wrong credentials sent", "user of %d, password of %d: %s %q", n, m, name, b)
			}
			rp.write(encCmd("WELCOME", nil))
			rp.readCmd()
			rp.write(encCmd("READY", encMeta("Socket-Type", "PUSH", "Identity", "")))
		})
		_, err := zmq.Open(a, plain.Security(user, pass), zmq.Pull, nil, false, nil)
		if (err == nil) != (n <= 255 && m <= 255) && n <= 255 && m <= 255 {
			t.Failf("credentials refused", "user of %d, password of %d: %v", n, m, err)
		}
		a.Close()
		g.Wait()
		p.Close()
		t.Outcome(fmt.Sprint(err == nil))
	}})

	// sockets: Dial tells, and the listener counts only good peers
	for _, tr := range []string{"tcp", "inproc"} {
		reg(mc.Scenario{Name: "c03/sockets/" + tr, Prop: []string{"C03"}, Quick: 0, Deep: 1, DeepShards: 4, SplitChoose: true, Fn: func(t *mc.T) {
			ka, kb := pick(noStream), pick(noStream)
			ma, mb := pick([]string{"NULL", "PLAIN"}), pick([]string{"NULL", "PLAIN"})
			a := kinds[ka](bg, opts(mech(ma))...)
			b := kinds[kb](bg, opts(mech(mb))...)
			e := endpoint(tr, 1)
			listen(t, a, e)
			err := b.Dial(e)
			if ok := ma == mb && compatible(ka, kb); (err == nil) != ok {
				t.Failf("wrong verdict of Dial", "%s/%s dials %s/%s: %v", kb, mb, ka, ma, err)
			}
			if err != nil {
				// nothing is left of the attempt, and a good peer still gets through
				mc.Settle()
				if n := sim.Sim.OpenConns(); n != 0 {
					t.Failf("connection left", "%d connections are open after a failed handshake", n)
				}
				c := kinds[partner(ka)](bg, opts(mech(ma))...)
				dial(t, c, e)
				mc.Settle()
				exchange(t, a, c)
				closeAll(t, c)
			}
			t.Outcome(fmt.Sprint(err == nil))
			closeAll(t, b, a)
		}})
	}

	// peers that fail the handshake, at every point, beside good ones
	for _, k := range []string{"PUSH", "PULL", "PUB", "ROUTER", "REP", "DEALER"} {
		reg(mc.Scenario{Name: "c03/beside/" + k, Prop: []string{"C03"}, Quick: 1, Deep: 2, DeepShards: 2, SplitChoose: true, Fn: func(t *mc.T) {
			a := kinds[k](bg, opts()...)
			listen(t, a, ep(1))
			bad := peerBytes("NULL", "XXX", "bad", true)
			if mc.Choose(2) == 1 {
				bad = peerBytes("NULL", partner(k), "bad", true)
				bad = bad[:pick([]int{0, 1, 64, 66, 80, len(bad) - 1})]
			}
			hold := mc.Choose(2) == 1 // stays, without a word
			raw, err := net.Dial("tcp", "127.0.0.1:5001")
			if err != nil {
				t.Failf("connection refused", "%v", err)
			}
			var g group
			g.Go(func() {
				raw.Write(bad)
				if !hold {
					raw.Close()
				}
			})
			c := kinds[partner(k)](bg, opts()...)
			dial(t, c, ep(1))
			mc.Settle()
			exchange(t, a, c)
			g.Wait()
			raw.Close()
			t.Outcome("ok")
			closeAll(t, c, a)
		}})
	}
}

// exchange passes one message between two connected sockets.
func exchange(t *mc.T, a, b zmq.Socket) {
	ka, kb := string(a.Type()), string(b.Type())
	from, to := a, b
	switch ka {
	case "PULL", "SUB", "XSUB", "REP", "ROUTER":
		if ka == "ROUTER" && kb == "ROUTER" {
			return // either must know the other's identity
		}
		from, to = b, a
	}
	kf, kt := string(from.Type()), string(to.Type())
	t.Step("exchange " + kf + " to " + kt)
	if kt == "SUB" {
		subscribe(t, to, "")
		mc.Settle()
	} else if kt == "XSUB" {
		send(t, to, "\x01")
		mc.Settle()
	}
	if kt == "REP" && kf != "REQ" {
		send(t, from, "", "hello")
	} else {
		send(t, from, "hello")
	}
	m := frames(recvOK(t, to))
	if len(m) == 0 || m[len(m)-1] != "hello" {
		t.Failf("good peer not served", "%s got %q from %s", kt, m, kf)
	}
	switch kt {
	case "REP":
		send(t, to, "reply")
		m := frames(recvOK(t, from))
		if len(m) == 0 || m[len(m)-1] != "reply" {
			t.Failf("good peer not served", "%s got %q from %s", kf, m, kt)
		}
	case "ROUTER":
		send(t, to, append(m[:len(m)-1:len(m)-1], "reply")...)
		m := frames(recvOK(t, from))
		if len(m) == 0 || m[len(m)-1] != "reply" {
			t.Failf("good peer not served", "%s got %q from %s", kf, m, kt)
		}
	}
}
