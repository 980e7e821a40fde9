package main

import (
	"errors"
	"fmt"
	"io"
	"strings"

	zmq "github.com/luxfi/zmq/v4"
	"github.com/luxfi/zmq/v4/internal/zzmc/mc"
	sim "github.com/luxfi/zmq/v4/internal/zzmc/xnet"
)

// openRaw is an open Conn of kind DEALER and the raw peer at its other end.
func openRaw(t *mc.T, mech string) (*zmq.Conn, *rawPeer) {
	a, b := sim.Sim.Pair(1 << 20)
	p := &rawPeer{t: t, c: b, mech: mech}
	var g group
	g.Go(func() {
		if err := p.handshake("DEALER", "raw", true); err != nil {
			t.Failf("handshake failed", "raw: %v", err)
		}
	})
	c, err := zmq.Open(a, sec(mech), zmq.Dealer, nil, false, nil)
	if err != nil {
		t.Failf("handshake failed", "%v", err)
	}
	g.Wait()
	return c, p
}

// openPair is two Conns that are connected to each other.
func openPair(t *mc.T, mech string) (*zmq.Conn, *zmq.Conn) {
	a, b := sim.Sim.Pair(1 << 20)
	var g group
	var cb *zmq.Conn
	g.Go(func() {
		var err error
		if cb, err = zmq.Open(b, sec(mech), zmq.Dealer, nil, true, nil); err != nil {
			t.Failf("handshake failed", "%v", err)
		}
	})
	ca, err := zmq.Open(a, sec(mech), zmq.Dealer, nil, false, nil)
	if err != nil {
		t.Failf("handshake failed", "%v", err)
	}
	g.Wait()
	return ca, cb
}

func sized(n int) string { return blob(3, n) }

// spelled is a key in ZMTP's spelling, "" for one this does not judge.
func spelled(k string) string {
	b := []byte(k)
	for i, c := range b {
		letter := c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
		if !letter && (c != '-' || i == 0 || b[i-1] == '-') {
			return ""
		}
		if c >= 'a' && c <= 'z' && (i == 0 || b[i-1] == '-') {
			b[i] = c - 'a' + 'A'
		}
	}
	return string(b)
}

// spelledMeta checks the keys of decoded metadata against those on the wire.
func spelledMeta(t *mc.T, got, wire map[string]string) {
	for k := range wire {
		if s := spelled(k); s != "" {
			if _, ok := got[s]; !ok {
				t.Failf("metadata key misspelled", "%.100q on the wire, got %.200q", k, fmt.Sprint(keys(got)))
			}
		}
	}
}

// sameMeta compares decoded metadata with what was encoded.
func sameMeta(t *mc.T, what string, got zmq.Metadata, exp map[string]string) {
	l := map[string]string{}
	for k, v := range got {
		lk := strings.ToLower(k)
		if _, dup := l[lk]; dup {
			t.Failf("metadata key twice", "%s: %q", what, got)
		}
		l[lk] = v
	}
	ok := len(l) == len(exp)
	for k, v := range exp {
		w, has := l[k]
		ok = ok && has && v == w
	}
	if !ok {
		t.Failf("wrong metadata", "%s: got %.200q, expected %.200q", what, l, exp)
	}
}

func init() {
	names := []int{0, 1, 2, 4, 127, 128, 253, 254, 255, 256, 257, 300, 511, 512, 513}
	bodies := []int{0, 1, 2, 127, 252, 253, 254, 255, 256, 257, 65535, 65536, 70000}
	for _, mech := range []string{"NULL", "PLAIN"} {
		// real sender, real and reference receivers
		reg(mc.Scenario{Name: "c04/command/" + mech, Prop: []string{"C04"}, Quick: 1, Deep: 2, Fn: func(t *mc.T) {
			name, body := sized(pick(names)), sized(pick(bodies))
			c, p := openRaw(t, mech)
			err := c.SendCmd(name, []byte(body))
			if (err == nil) != (len(name) <= 255) {
				t.Failf("wrong verdict on a command name", "a name of %d bytes: %v", len(name), err)
			}
			if err == nil {
				n, b, err := p.readCmd()
				if err != nil || n != name || string(b) != body {
					t.Failf("wrong command on the wire", "name of %d, body of %d: got %d, %d, %v", len(name), len(body), len(n), len(b), err)
				}
			}
			if err := c.SendCmd("after", nil); err != nil {
				t.Failf("command refused", "%v", err)
			}
			if n, b, err := p.readCmd(); err != nil || n != "after" || len(b) != 0 {
				t.Failf("wrong command on the wire", "after a name of %d, body of %d: %.50q %.50q %v", len(name), len(body), n, b, err)
			}
			c.Close()
			t.Outcome(fmt.Sprint(err == nil))
			p.c.Close()
		}})
		reg(mc.Scenario{Name: "c04/roundtrip/" + mech, Prop: []string{"C04"}, Quick: 0, Deep: 1, Fn: func(t *mc.T) {
			a, b := openPair(t, mech)
			name, body := sized(pick(names)), sized(pick(bodies))
			if len(name) > 255 {
				name = name[:255]
			}
			asMsg := mc.Choose(2) == 1
			var g group
			g.Go(func() {
				if err := a.SendCmd(name, []byte(body)); err != nil {
					t.Failf("command refused", "%v", err)
				}
				if err := a.SendCmd("z", []byte("end")); err != nil {
					t.Failf("command refused", "%v", err)
				}
			})
			if asMsg {
				m, err := b.RecvMsg()
				if err != nil || m.Type != zmq.CmdMsg || string(m.Bytes()) != body {
					t.Failf("wrong command received", "RecvMsg: name of %d, body of %d: %v %v %d", len(name), len(body), err, m.Type, len(m.Bytes()))
				}
			} else {
				cmd, err := b.RecvCmd()
				if err != nil || cmd.Name != name || string(cmd.Body) != body {
					t.Failf("wrong command received", "name of %d, body of %d: %v %d %d", len(name), len(body), err, len(cmd.Name), len(cmd.Body))
				}
			}
			if cmd, err := b.RecvCmd(); err != nil || cmd.Name != "z" || string(cmd.Body) != "end" {
				t.Failf("wrong command received", "following command: %v", err)
			}
			g.Wait()
			a.Close()
			b.Close()
			t.Outcome("ok")
		}})
		// any bytes as the body of a command frame, long form included
		alpha := []byte{0, 1, 2, 3, 'a', 'P', 255}
		strs := func(depth int) func(t *mc.T) {
			return func(t *mc.T) {
				var b []byte
				for len(b) < depth {
					k := mc.Choose(len(alpha) + 1)
					if k == 0 {
						break
					}
					b = append(b, alpha[k-1])
				}
				fl := pick([]byte{4, 6, 0, 2})
				asMsg := mc.Choose(2) == 1
				c, p := openRaw(t, mech)
				fr := []byte{fl}
				if fl&2 != 0 {
					fr = append(fr, 0, 0, 0, 0, 0, 0, 0)
				}
				fr = append(append(fr, byte(len(b))), b...)
				p.write(append(fr, encCmd("NEXT", []byte("n"))...))
				ok := len(b) > 0 && int(b[0]) <= len(b)-1 && fl&4 != 0
				var name, body string
				if ok {
					name, body = string(b[1:1+b[0]]), string(b[1+b[0]:])
				}
				if asMsg {
					m, err := c.RecvMsg()
					good := err == nil && m.Type == zmq.CmdMsg && string(m.Bytes()) == body
					if fl&4 == 0 {
						good = err == nil && m.Type == zmq.UsrMsg && sameFrames(frames(m), []string{string(b)})
					} else if !ok {
						good = err != nil
					}
					if !good {
						t.Failf("wrong decoding of a command", "RecvMsg of %q, flags %d: %q %v %v", b, fl, frames(m), m.Type, err)
					}
				} else {
					cmd, err := c.RecvCmd()
					if (err == nil) != ok || ok && (cmd.Name != name || string(cmd.Body) != body) {
						t.Failf("wrong decoding of a command", "RecvCmd of %q, flags %d: %q %q %v", b, fl, cmd.Name, cmd.Body, err)
					}
				}
				if cmd, err := c.RecvCmd(); err == nil && (cmd.Name != "NEXT" || string(cmd.Body) != "n") || err != nil && ok {
					t.Failf("wrong decoding of a command", "after %q, flags %d: %q %q %v", b, fl, cmd.Name, cmd.Body, err)
				}
				c.Close()
				p.c.Close()
				t.Outcome(fmt.Sprint(ok))
			}
		}
		if mech == "NULL" {
			reg(mc.Scenario{Name: "c04/frames", Prop: []string{"C04"}, NoCache: true, Quick: 0, Deep: -1, QuickShards: 2, SplitChoose: true, Fn: strs(4)})
			reg(mc.Scenario{Name: "c04/frames-deep", Prop: []string{"C04"}, NoCache: true, Quick: -1, Deep: 0, DeepShards: 8, SplitChoose: true, Fn: strs(6)})
		}
		// PING between messages
		reg(mc.Scenario{Name: "c04/ping/" + mech, Prop: []string{"C04"}, Quick: 2, Deep: 3, Fn: func(t *mc.T) {
			c, p := openRaw(t, mech)
			body := pick([][]byte{nil, {0, 10}, []byte("\x00\x0acontext"), []byte(blob(1, 300))})
			at := mc.Choose(3)
			var g group
			g.Go(func() {
				for i := 0; i < 3; i++ {
					if i == at {
						p.write(encCmd("PING", body))
					}
					p.write(encMsgS(fmt.Sprint("m", i), "", "e"))
				}
			})
			g.Go(func() {
				if err := c.SendMsg(msg("big", blob(1, 300))); err != nil {
					t.Failf("send failed", "%v", err)
				}
			})
			var got []string
			pings := 0
			for len(got) < 3 {
				m, err := c.RecvMsg()
				if err != nil {
					t.Failf("recv failed", "%v", err)
				}
				if m.Type == zmq.CmdMsg {
					pings++
					if pings > 1 || len(got) != at || string(m.Bytes()) != string(body) {
						t.Failf("wrong command received", "PING %q at %d: %q after %q", body, at, m.Bytes(), got)
					}
					continue
				}
				got = append(got, show(m))
			}
			want(t, "messages around PING", strings.Join(got, " "), "m0,,e m1,,e m2,,e")
			// the peer sees one message and one PONG, whole
			pongs, msgs := 0, 0
			for i := 0; i < 2; i++ {
				fl, b, err := p.readFrame()
				switch {
				case err != nil:
					t.Failf("no answer to PING", "%v", err)
				case fl&4 != 0:
					pongs++
					if len(b) < 5 || string(b[:5]) != "\x04PONG" {
						t.Failf("wrong answer to PING", "%q", b)
					}
				case string(b) == "big" && fl == 1:
					if fl, b, err := p.readFrame(); err != nil || fl != 2 || string(b) != blob(1, 300) {
						t.Failf("frames mixed up", "%v %d bytes", err, len(b))
					}
					msgs++
				}
			}
			if pongs != 1 || msgs != 1 {
				t.Failf("no answer to PING", "%d PONG, %d messages", pongs, msgs)
			}
			g.Wait()
			c.Close()
			if rest, _ := io.ReadAll(p.c); len(rest) > 0 {
				t.Failf("surplus data after PONG", "%q", rest)
			}
			p.c.Close()
			t.Outcome("ok")
		}})
		// concurrent commands and messages
		reg(mc.Scenario{Name: "c04/concurrent/" + mech, Prop: []string{"C04"}, Quick: 2, Deep: 3, DeepShards: 2, Fn: func(t *mc.T) {
			a, b := openPair(t, mech)
			big := blob(1, 300)
			var g group
			g.Go(func() { a.SendCmd("ONE", []byte(big)) })
			g.Go(func() { a.SendCmd("TWO", nil); a.SendCmd("THREE", []byte("x")) })
			g.Go(func() { a.SendMsg(msg("u", big)) })
			seen := map[string]bool{}
			for i := 0; i < 4; i++ {
				m, err := b.RecvMsg()
				if err != nil {
					t.Failf("recv failed", "%v", err)
				}
				k := fmt.Sprint(m.Type, " ", show(m))
				seen[k] = true
			}
			for _, k := range []string{"1 " + big, "1 ", "1 x", "0 " + showS([]string{"u", big})} {
				if k == "1 "+big {
					k = "1 " + showS([]string{big})
				}
				if !seen[k] {
					t.Failf("commands mixed up", "%.40q missing in %.400q", k, fmt.Sprint(keys(seen)))
				}
			}
			g.Wait()
			a.Close()
			b.Close()
			t.Outcome("ok")
		}})
	}

	// metadata maps
	klens := []int{1, 2, 3, 100, 252, 253, 254, 255, 256, 300}
	vlens := []int{0, 1, 255, 256, 4096, 65535, 70000}
	key := func(i, n int) string { return string(rune('a'+i)) + strings.Repeat("k", n-1) }
	reg(mc.Scenario{Name: "c04/metadata", Prop: []string{"C04"}, MapOrder: true, Quick: 1, Deep: 2, Fn: func(t *mc.T) {
		md := zmq.Metadata{}
		exp := map[string]string{}
		n := 1 + mc.Choose(3)
		fits := true
		for i := 0; i < n; i++ {
			kl := klens
			if n > 1 {
				kl = []int{1, 253, 254}
			}
			if i > 0 {
				kl = []int{1, 253}
			}
			k := key(i, pick(kl))
			switch mc.Choose(3) {
			case 1:
				k = strings.ToUpper(k)
			case 2:
				k = []string{"Socket-Type", "Identity", "Aa-Bb"}[i]
			}
			vl := vlens
			if n > 1 {
				vl = []int{1, 256}
			}
			if i > 0 {
				vl = []int{0, 300}
			}
			v := blob(i, pick(vl))
			md[k] = v
			wire := "x-" + strings.ToLower(k)
			if k == "Socket-Type" || k == "Identity" {
				wire = strings.ToLower(k)
			}
			exp[wire] = v
			fits = fits && len(wire) <= 255
		}
		b, err := md.MarshalZMTP()
		if (err == nil) != fits {
			t.Failf("wrong verdict on metadata", "keys %.100q: %v", fmt.Sprint(keys(md)), err)
		}
		t.Outcome(fmt.Sprint(fits))
		if err != nil {
			return
		}
		ref, ok := decMeta(b)
		if !ok {
			t.Failf("malformed metadata encoded", "%.200q", b)
		}
		sameMeta(t, "encoded", zmq.Metadata(ref), exp)
		back := zmq.Metadata{}
		if err := back.UnmarshalZMTP(b); err != nil {
			t.Failf("own metadata refused", "%v", err)
		}
		sameMeta(t, "round trip", back, exp)
		spelledMeta(t, back, exp)
	}})
	reg(mc.Scenario{Name: "c04/metadata-bad", Prop: []string{"C04"}, MapOrder: true, Quick: 3, Deep: 4, Fn: func(t *mc.T) {
		md := zmq.Metadata{}
		switch mc.Choose(3) {
		case 0:
			md[""] = "v"
		case 1:
			md["key"], md["Key"] = "1", "2"
		case 2:
			md["IDENTITY"], md["Identity"] = "1", "2"
		}
		for i := mc.Choose(3); i > 0; i-- {
			md[key(i, 5)] = "w"
		}
		if b, err := md.MarshalZMTP(); err == nil {
			t.Failf("bad metadata encoded", "%q as %q", md, b)
		}
		t.Outcome("refused")
	}})
	// keys as other implementations may spell them
	reg(mc.Scenario{Name: "c04/metadata-spelling", Prop: []string{"C04"}, Quick: 0, Deep: 1, Fn: func(t *mc.T) {
		spellings := []string{"Socket-Type", "socket-type", "Identity", "identity", "X-One", "x-one", "X-oneTwo", "x-ONE-two", "Resource", "X-A-b-C-d", "q"}
		used := map[string]string{}
		var kv []string
		for i := 1 + mc.Choose(3); i > 0; i-- {
			k := pick(spellings)
			for u := range used {
				if strings.EqualFold(u, k) {
					return
				}
			}
			used[k] = blob(i, 3)
			kv = append(kv, k, used[k])
		}
		md := zmq.Metadata{}
		if err := md.UnmarshalZMTP(encMeta(kv...)); err != nil {
			t.Failf("metadata refused", "%q: %v", kv, err)
		}
		exp := map[string]string{}
		for k, v := range used {
			exp[strings.ToLower(k)] = v
		}
		sameMeta(t, "spelling", md, exp)
		spelledMeta(t, md, used)
		t.Outcome("ok")
	}})
	// any bytes as metadata
	alpha := []byte{0, 1, 2, 'a', '-', 0xff}
	meta := func(depth int) func(t *mc.T) {
		return func(t *mc.T) {
			var b []byte
			for len(b) < depth {
				k := mc.Choose(len(alpha) + 1)
				if k == 0 {
					break
				}
				b = append(b, alpha[k-1])
			}
			ref, ok := decMeta(b)
			md := zmq.Metadata{}
			err := md.UnmarshalZMTP(b)
			if (err == nil) != ok {
				t.Failf("wrong verdict on metadata", "%q: %v", b, err)
			}
			if ok {
				sameMeta(t, fmt.Sprintf("%q", b), md, ref)
			}
			t.Outcome(fmt.Sprint(ok))
		}
	}
	reg(mc.Scenario{Name: "c04/metadata-bytes", Prop: []string{"C04"}, NoCache: true, Quick: 0, Deep: -1, QuickShards: 6, SplitChoose: true, Fn: meta(7)})
	reg(mc.Scenario{Name: "c04/metadata-bytes-deep", Prop: []string{"C04"}, NoCache: true, Quick: -1, Deep: 0, DeepShards: 7, SplitChoose: true, Fn: meta(9)})
	reg(mc.Scenario{Name: "c04/metadata-cut", Prop: []string{"C04"}, Quick: 0, Deep: 0, Fn: func(t *mc.T) {
		b := encMeta("Socket-Type", "PUSH", "Identity", "", "X-One", blob(1, 300), "X-Two", "2")
		i := mc.Choose(len(b))
		cut := append([]byte(nil), b[:i]...)
		if mc.Choose(2) == 1 {
			// a corrupted length instead
			cut = append([]byte(nil), b...)
			cut[i] = pick([]byte{0, 1, 0x7f, 0x80, 0xff})
		}
		ref, ok := decMeta(cut)
		md := zmq.Metadata{}
		err := md.UnmarshalZMTP(cut)
		if (err == nil) != ok {
			t.Failf("wrong verdict on metadata", "%d of %d: %v", i, len(b), err)
		}
		if ok && ascii(ref) {
			sameMeta(t, "corrupted", md, ref)
		}
		t.Outcome(fmt.Sprint(ok))
	}})
	// single properties into and out of buffers of every size
	reg(mc.Scenario{Name: "c04/property", Prop: []string{"C04"}, Quick: 0, Deep: 0, Fn: func(t *mc.T) {
		p := zmq.Property{K: key(0, pick(klens)), V: blob(1, pick([]int{0, 1, 255, 256, 300}))}
		p.K = strings.ToUpper(p.K[:1]) + p.K[1:]
		ref := encProp(p.K, p.V)
		d := pick([]int{-len(ref), -5, -2, -1, 0, 1, 7})
		if len(ref)+d < 0 {
			d = -len(ref)
		}
		buf := make([]byte, len(ref)+d)
		n, err := p.Read(buf)
		switch {
		case len(p.K) > 255:
			if err == nil || err == io.EOF {
				t.Failf("oversized key encoded", "%d", len(p.K))
			}
			t.Outcome("refused")
			return
		case d < 0:
			if !errors.Is(err, io.ErrShortBuffer) {
				t.Failf("wrong verdict on a short buffer", "%d bytes for %d: %d, %v", len(buf), len(ref), n, err)
			}
			t.Outcome("short")
			return
		}
		if err != nil && err != io.EOF || n != len(ref) || string(buf[:n]) != string(ref) {
			t.Failf("wrong property encoded", "%d bytes, %v", n, err)
		}
		var q zmq.Property
		n, err = q.Write(append(ref, "rest"...))
		if err != nil || n != len(ref) || q != p {
			t.Failf("wrong property decoded", "%d of %d bytes, %v", n, len(ref), err)
		}
		if _, err := q.Write(ref[:mc.Choose(len(ref))]); err == nil {
			t.Failf("cut property accepted", "of %d bytes", len(ref))
		}
		t.Outcome("ok")
	}})
}

func ascii(m map[string]string) bool {
	for k := range m {
		for i := 0; i < len(k); i++ {
			if k[i] < ' ' || k[i] > '~' {
				return false
			}
		}
	}
	return true
}
