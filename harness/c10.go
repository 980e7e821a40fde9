package main

import (
	"fmt"
	"strings"

	zmq "github.com/luxfi/zmq/v4"
	"github.com/luxfi/zmq/v4/internal/zzmc/mc"
	sim "github.com/luxfi/zmq/v4/internal/zzmc/xnet"
)

// inbox is a raw peer of a ROUTER whose messages are read in the background.
type inbox struct {
	*rawPeer
	name  string // the identity it chose
	label string // the one the ROUTER gave it
	got   [][]string
	exp   [][]string
	gone  bool
}

func join(t *mc.T, typ, id string) *inbox {
	b := &inbox{rawPeer: rawDial(t, 1, typ, id), name: id}
	go func() {
		for {
			m, err := b.readMsg()
			if err != nil {
				if len(m) > 0 && !b.gone {
					t.Failf("partial message", "%q got %q", id, m)
				}
				return
			}
			b.got = append(b.got, m)
		}
	}()
	return b
}

func (b *inbox) leave(reset bool) {
	b.gone = true
	if reset {
		sim.Sim.Break(b.c)
	}
	b.c.Close()
}

// check compares what arrived with what was sent to the peer.
func (b *inbox) check(t *mc.T) {
	if strings.Join(shows(b.got), " ") != strings.Join(shows(b.exp), " ") {
		t.Failf("wrong messages at the addressee", "peer %q got %q, was sent %q", b.name, shows(b.got), shows(b.exp))
	}
}

// say lets the peer send a message and checks how the ROUTER hands it on.
func (b *inbox) say(t *mc.T, r zmq.Socket, others []*inbox, fs ...string) {
	b.write(encMsgS(fs...))
	t.Step("message to the router")
	m := frames(recvOK(t, r))
	if len(m) != len(fs)+1 || !sameFrames(m[1:], fs) {
		t.Failf("wrong message at the router", "%q sent %q, got %q", b.name, fs, m)
	}
	if b.name != "" && m[0] != b.name || b.label != "" && m[0] != b.label || m[0] == "" {
		t.Failf("wrong label", "%q (before: %q) is labelled %q", b.name, b.label, m[0])
	}
	b.label = m[0]
	for _, o := range others {
		if o != b && o.label == b.label && !o.gone {
			t.Failf("label not distinct", "two peers are labelled %q", m[0])
		}
	}
}

// tell sends to an identity.
func tell(t *mc.T, r zmq.Socket, multi bool, id string, fs ...string) {
	sendAs(t, r, multi, append([]string{id}, fs...))
}

func init() {
	ids := []string{"", "a", "ab", "A", "\x00", "a\x00", strings.Repeat("i", 255)}
	shapes := [][]string{{"x"}, {""}, {"", "x"}, {"x", ""}, {"a", "b", "c"}, {blob(1, 255)}, {blob(2, 256), "z"}}

	// every pair of identities: labels, and routing each way
	for _, typ := range []string{"DEALER", "REQ", "ROUTER"} {
		reg(mc.Scenario{Name: "c10/identities/" + typ, Prop: []string{"C10"}, Quick: 0, Deep: 1, DeepShards: 4, SplitChoose: true, Fn: func(t *mc.T) {
			r := zmq.NewRouter(bg, opts()...)
			listen(t, r, ep(1))
			i, j := pick(ids), pick(ids)
			if i == j {
				j = ""
			}
			a, b := join(t, typ, i), join(t, typ, j)
			mc.Settle()
			both := []*inbox{a, b}
			for k := 0; k < 2; k++ {
				a.say(t, r, both, "", fmt.Sprint("a", k))
				b.say(t, r, both, "", fmt.Sprint("b", k))
			}
			for k, sh := range shapes {
				for _, p := range both {
					fs := append([]string{fmt.Sprint(k)}, sh...)
					p.exp = append(p.exp, fs)
					tell(t, r, k&1 == 1, p.label, fs...)
				}
				for _, u := range []string{"b", "", "a0", i + "x", "ii"} {
					if u != a.label && u != b.label {
						tell(t, r, k&1 == 0, u, "lost", "")
					}
				}
			}
			tell(t, r, false, a.label) // nothing but an identity
			mc.Settle()
			a.check(t)
			b.check(t)
			closeAll(t, r)
			a.c.Close()
			b.c.Close()
		}})
	}

	// every message shape, both ways
	reg(mc.Scenario{Name: "c10/shapes", Prop: []string{"C10"}, Quick: 0, Deep: 1, Fn: func(t *mc.T) {
		r := zmq.NewRouter(bg, opts()...)
		listen(t, r, ep(1))
		a := join(t, "DEALER", pick(ids[:2]))
		mc.Settle()
		for k := 0; k < 2; k++ {
			sh := pick(shapes)
			a.say(t, r, nil, sh...)
			a.exp = append(a.exp, sh)
			tell(t, r, mc.Choose(2) == 1, a.label, sh...)
		}
		mc.Settle()
		a.check(t)
		closeAll(t, r)
		a.c.Close()
	}})

	// an empty message names nobody
	reg(mc.Scenario{Name: "c10/empty", Prop: []string{"C10"}, Quick: 1, Deep: 2, Fn: func(t *mc.T) {
		r := zmq.NewRouter(bg, opts()...)
		listen(t, r, ep(1))
		a := join(t, "DEALER", "")
		mc.Settle()
		f := r.Send
		if mc.Choose(2) == 1 {
			f = r.SendMulti
		}
		if err := f(zmq.NewMsgFrom()); err == nil {
			t.Failf("message without identity accepted", "")
		}
		a.say(t, r, nil, "m")
		tell(t, r, false, "", "lost")
		a.exp = append(a.exp, []string{"hi"})
		tell(t, r, false, a.label, "hi")
		mc.Settle()
		a.check(t)
		closeAll(t, r)
		a.c.Close()
	}})

	// every history of peers that come, talk, are addressed and go
	hist := func(depth int, names ...string) func(t *mc.T) {
		slots := len(names)
		return func(t *mc.T) {
			reset := mc.Choose(2) == 1
			r := zmq.NewRouter(bg, opts()...)
			listen(t, r, ep(1))
			cur := make([]*inbox, slots)
			var all []*inbox
			n := 0
			trace := ""
			for i := 0; i < depth; i++ {
				k := mc.Choose(1 + 3*slots)
				if k == 0 {
					break
				}
				x, what := (k-1)%slots, (k-1)/slots
				p := cur[x]
				switch {
				case what == 0 && p == nil:
					p = join(t, pick([]string{"DEALER", "ROUTER"}[:1+i&1]), names[x])
					mc.Settle()
					cur[x] = p
					all = append(all, p)
					p.say(t, r, all, fmt.Sprint("hello", i))
					trace += "+"
				case what == 0:
					n++
					p.say(t, r, all, fmt.Sprint("msg", n), "")
					trace += "s"
				case what == 1 && p != nil:
					mc.Settle()
					p.leave(reset)
					mc.Settle()
					cur[x] = nil
					trace += "-"
				case len(all) == 0: // Send waits for a first peer
				case what == 1: // to one that is not there
					tell(t, r, false, "a b"[:len(names[x])], "lost")
				default:
					n++
					m := []string{fmt.Sprint("m", n), ""}
					if p != nil {
						p.exp = append(p.exp, m)
						tell(t, r, n&1 == 0, p.label, m...)
					} else {
						id := names[x]
						for _, q := range all {
							if q.name == names[x] && q.gone {
								id = q.label // of one that has left
							}
						}
						tell(t, r, n&1 == 0, id, m...)
					}
					trace += "t"
				}
			}
			mc.Settle()
			for _, p := range all {
				p.check(t)
			}
			t.Outcome(trace)
			closeAll(t, r)
			for _, p := range all {
				p.gone = true
				p.c.Close()
			}
		}
	}
	reg(mc.Scenario{Name: "c10/history/2", Prop: []string{"C10"}, Quick: 0, Deep: 1, QuickShards: 2, DeepShards: 6, SplitChoose: true, Fn: hist(5, "a", "")})
	reg(mc.Scenario{Name: "c10/history/3", Prop: []string{"C10"}, Quick: 0, Deep: 0, QuickShards: 2, DeepShards: 2, SplitChoose: true, Fn: hist(4, "a", "", "ab")})
	reg(mc.Scenario{Name: "c10/history-deep/2", Prop: []string{"C10"}, Quick: -1, Deep: 0, DeepShards: 2, SplitChoose: true, Fn: hist(7, "a", "")})
	reg(mc.Scenario{Name: "c10/history-deep/3", Prop: []string{"C10"}, Quick: -1, Deep: 0, DeepShards: 2, SplitChoose: true, Fn: hist(6, "a", "", "ab")})

	reg(mc.Scenario{Name: "c10/history/anonymous", Prop: []string{"C10"}, Quick: 0, Deep: 0, QuickShards: 2, DeepShards: 4, SplitChoose: true, Fn: hist(5, "", "")})
	reg(mc.Scenario{Name: "c10/history-deep/anonymous", Prop: []string{"C10"}, Quick: -1, Deep: 0, DeepShards: 2, SplitChoose: true, Fn: hist(6, "", "", "")})

	// a peer that comes back under its name is answered, even while its last connection,
	// gone without a trace, is still there
	reg(mc.Scenario{Name: "c10/returns", Prop: []string{"C10"}, Quick: 1, Deep: 2, SplitChoose: true, Fn: func(t *mc.T) {
		how := mc.Choose(3)
		r := zmq.NewRouter(bg, opts()...)
		listen(t, r, ep(1))
		b := join(t, "DEALER", "b")
		ps := []*inbox{}
		for i := 0; i < 2+mc.Choose(2); i++ {
			if i > 0 && how < 2 {
				ps[i-1].leave(how == 1)
			}
			p := join(t, "DEALER", "a")
			ps = append(ps, p)
			p.say(t, r, nil, fmt.Sprint("here", i))
			m := []string{fmt.Sprint("m", i), ""}
			p.exp = append(p.exp, m)
			if err := r.Send(msg(append([]string{"a"}, m...)...)); err != nil && how == 2 {
				t.Failf("send failed", "%v", err)
			}
			mc.Settle()
			if how == 2 {
				// the same name twice: which one hears more is not said
				if n := len(p.got); n == 0 || !sameFrames(p.got[n-1], m) {
					t.Failf("wrong messages at the addressee", "a peer that came back got %q", shows(p.got))
				}
			} else {
				p.check(t)
			}
		}
		b.say(t, r, nil, "there")
		b.check(t)
		t.Outcome(fmt.Sprint(how))
		closeAll(t, r)
		for _, p := range append(ps, b) {
			p.gone = true
			p.c.Close()
		}
	}})

	// peers connect and send at once, every schedule: all labelled, in order per peer
	for n := 1; n <= 3; n++ {
		reg(mc.Scenario{Name: fmt.Sprintf("c10/arrivals/%d", n), Prop: []string{"C10"}, Quick: min(2, 4-n), Deep: 5 - n, DeepShards: 4, Fn: func(t *mc.T) {
			r := zmq.NewRouter(bg, opts()...)
			listen(t, r, ep(1))
			var g group
			ids := []string{"", "b", ""}[:n]
			ps := make([]*rawPeer, n)
			for i := range ids {
				g.Go(func() {
					ps[i] = rawDial(t, 1, "DEALER", ids[i])
					for k := 0; k < 2; k++ {
						ps[i].write(encMsgS(fmt.Sprint("p", i), fmt.Sprint(k)))
					}
				})
			}
			labels := map[string]string{}
			next := map[string]int{}
			for k := 0; k < 2*n; k++ {
				m := frames(recvOK(t, r))
				if len(m) != 3 {
					t.Failf("wrong message at the router", "%q", m)
				}
				p := m[1]
				if l, ok := labels[p]; ok && l != m[0] || m[0] == "" || p == "p1" && m[0] != "b" {
					t.Failf("wrong label", "%q and %q for %s", l, m[0], p)
				}
				labels[p] = m[0]
				if m[2] != fmt.Sprint(next[p]) {
					t.Failf("wrong order at the router", "%q", m)
				}
				next[p]++
				tell(t, r, k&1 == 0, m[0], p, m[2])
			}
			g.Wait()
			seen := map[string]bool{}
			for i, p := range ps {
				if l := labels[fmt.Sprint("p", i)]; seen[l] {
					t.Failf("label not distinct", "%q", l)
				} else {
					seen[l] = true
				}
				for k := 0; k < 2; k++ {
					m, err := p.readMsg()
					if err != nil || !sameFrames(m, []string{fmt.Sprint("p", i), fmt.Sprint(k)}) {
						t.Failf("wrong messages at the addressee", "peer %d got %q %v", i, m, err)
					}
				}
			}
			t.Outcome(fmt.Sprint(len(labels)))
			closeAll(t, r)
			for _, p := range ps {
				p.c.Close()
			}
		}})
	}

	// several goroutines address several peers
	reg(mc.Scenario{Name: "c10/senders", Prop: []string{"C10"}, Quick: 2, Deep: 3, DeepShards: 4, Fn: func(t *mc.T) {
		r := zmq.NewRouter(bg, opts()...)
		listen(t, r, ep(1))
		a, b := join(t, "DEALER", "a"), join(t, "DEALER", "b")
		mc.Settle()
		var g group
		for k := 0; k < 2; k++ {
			g.Go(func() {
				tell(t, r, k == 0, "a", fmt.Sprint("s", k), "0", "")
				tell(t, r, k == 1, "b", fmt.Sprint("s", k), "1")
				tell(t, r, k == 0, "c", "lost")
			})
		}
		g.Wait()
		mc.Settle()
		for i, p := range []*inbox{a, b} {
			tail := []string{",0,", ",1"}[i]
			if !merged(shows(p.got), []string{"s0" + tail}, []string{"s1" + tail}) {
				t.Failf("wrong messages at the addressee", "%q got %q", p.name, shows(p.got))
			}
		}
		t.Outcome(fmt.Sprint(shows(a.got), shows(b.got)))
		closeAll(t, r)
		a.c.Close()
		b.c.Close()
	}})

	// a peer goes while messages are sent to it and to another
	reg(mc.Scenario{Name: "c10/leaving", Prop: []string{"C10"}, Quick: 1, Deep: 2, QuickShards: 1, DeepShards: 2, SplitChoose: true, Fn: func(t *mc.T) {
		reset := mc.Choose(2) == 1
		again := mc.Choose(2) == 1
		r := zmq.NewRouter(bg, opts()...)
		listen(t, r, ep(1))
		var ps []*inbox
		for _, id := range []string{"a", "b", "c"} {
			ps = append(ps, join(t, "DEALER", id))
			mc.Settle()
		}
		x := mc.Choose(2)
		var g group
		g.Go(func() { ps[x].leave(reset) })
		for i := 0; i < 2; i++ {
			for _, p := range ps {
				m := []string{fmt.Sprint("m", i), p.name}
				err := r.Send(msg(append([]string{p.name}, m...)...))
				if err != nil && p != ps[x] {
					t.Failf("send failed", "to %q beside a peer that leaves: %v", p.name, err)
				}
				p.exp = append(p.exp, m)
			}
		}
		g.Wait()
		mc.Settle()
		if again {
			ps = append(ps, join(t, "DEALER", ps[x].name))
			mc.Settle()
			p := ps[3]
			p.say(t, r, nil, "back")
			p.exp = append(p.exp, []string{"new"})
			tell(t, r, false, p.name, "new")
			mc.Settle()
		}
		for i, p := range ps {
			if i != x {
				p.say(t, r, nil, "there", "")
				p.check(t)
			} else if !subseq(shows(p.got), shows(p.exp)) {
				t.Failf("wrong messages at the addressee", "%q got %q of %q", p.name, shows(p.got), shows(p.exp))
			}
		}
		t.Outcome(fmt.Sprint(len(ps[x].got)))
		closeAll(t, r)
		for _, p := range ps {
			p.gone = true
			p.c.Close()
		}
	}})

	// real sockets, either side listening, more than one endpoint
	for _, k := range []string{"DEALER", "REQ", "ROUTER"} {
		for _, tr := range []string{"tcp", "inproc"} {
			reg(mc.Scenario{Name: "c10/sockets/" + k + "/" + tr, Prop: []string{"C10"}, Quick: 1, Deep: 2, QuickShards: 1, DeepShards: 4, SplitChoose: true, Fn: func(t *mc.T) {
				dials := mc.Choose(2) == 1
				named := mc.Choose(2) == 1
				r := zmq.NewRouter(bg, opts(zmq.WithID(zmq.SocketIdentity("R")))...)
				var ps []zmq.Socket
				for i := 0; i < 2; i++ {
					o := opts(zmq.WithAutomaticReconnect(false))
					if named {
						o = append(o, zmq.WithID(zmq.SocketIdentity(fmt.Sprint("p", i))))
					}
					ps = append(ps, kinds[k](bg, o...))
				}
				if dials {
					for i, p := range ps {
						e := endpoint(tr, 1+i)
						listen(t, p, e)
						dial(t, r, e)
					}
				} else {
					e := endpoint(tr, 1)
					listen(t, r, e)
					for _, p := range ps {
						dial(t, p, e)
					}
				}
				mc.Settle()
				label := make([]string, 2)
				for i, p := range ps {
					m := []string{fmt.Sprint("from", i), ""}
					if k == "ROUTER" {
						send(t, p, append([]string{"R"}, m...)...)
					} else {
						send(t, p, m...)
					}
					g := frames(recvOK(t, r))
					if k == "REQ" && len(g) > 1 && g[1] == "" {
						g = append(g[:1:1], g[2:]...)
					}
					if len(g) != 3 || !sameFrames(g[1:], m) || named && g[0] != fmt.Sprint("p", i) || g[0] == "" {
						t.Failf("wrong message at the router", "peer %d: %q", i, g)
					}
					label[i] = g[0]
				}
				if label[0] == label[1] {
					t.Failf("label not distinct", "%q", label[0])
				}
				first := mc.Choose(2)
				for _, i := range []int{first, 1 - first} {
					m := []string{label[i], fmt.Sprint("to", i), ""}
					if k == "REQ" {
						m = []string{label[i], "", fmt.Sprint("to", i), ""}
					}
					send(t, r, m...)
					send(t, r, "nobody", "x")
				}
				for i, p := range ps {
					g := show(recvOK(t, p))
					exp := fmt.Sprint("to", i, ",")
					if k == "ROUTER" {
						exp = "R," + exp
					}
					want(t, "message", g, exp)
				}
				var more []func()
				for _, p := range ps {
					if k != "REQ" {
						more = append(more, noMore(t, string(p.Type()), p))
					}
				}
				mc.Settle()
				for _, f := range more {
					f()
				}
				t.Outcome(fmt.Sprint(first))
				closeAll(t, append(ps, r)...)
			}})
		}
	}
}
