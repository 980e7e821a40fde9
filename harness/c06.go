package main

import (
	"fmt"
	"sort"
	"strings"

	zmq "github.com/luxfi/zmq/v4"
	"github.com/luxfi/zmq/v4/internal/zzmc/mc"
	sim "github.com/luxfi/zmq/v4/internal/zzmc/xnet"
)

// subs is the reference: a set of topics.
type subs map[string]bool

func (s subs) match(first string) bool {
	for t := range s {
		if strings.HasPrefix(first, t) {
			return true
		}
	}
	return false
}

func (s subs) list() string {
	l := []string{}
	for t := range s {
		l = append(l, t)
	}
	sort.Strings(l)
	return fmt.Sprintf("%q", l)
}

func topicsOf(s zmq.Socket) string { return fmt.Sprintf("%q", s.(zmq.Topics).Topics()) }

// change subscribes or unsubscribes a SUB or XSUB socket.
func change(t *mc.T, s zmq.Socket, on bool, topic string) {
	switch {
	case s.Type() == zmq.XSub && on:
		send(t, s, "\x01"+topic)
	case s.Type() == zmq.XSub:
		send(t, s, "\x00"+topic)
	case on:
		subscribe(t, s, topic)
	default:
		unsubscribe(t, s, topic)
	}
}

// connect joins two sockets either way round.
func connect(t *mc.T, a, b zmq.Socket, aListens bool, e string) {
	if aListens {
		listen(t, a, e)
		dial(t, b, e)
	} else {
		listen(t, b, e)
		dial(t, a, e)
	}
}

// subseq tells whether a is a subsequence of b.
func subseq(a, b []string) bool {
	for _, x := range b {
		if len(a) > 0 && a[0] == x {
			a = a[1:]
		}
	}
	return len(a) == 0
}

func shows(ms [][]string) (l []string) {
	for _, m := range ms {
		l = append(l, showS(m))
	}
	return
}

func init() {
	topics := []string{"", "a", "ab", "b"}
	firsts := []string{"", "a", "ab", "abc", "b", "c"}
	type op struct {
		on, off bool
		s       string
	}
	var ops []op
	for _, x := range topics {
		ops = append(ops, op{on: true, s: x}, op{off: true, s: x})
	}
	for _, x := range firsts {
		ops = append(ops, op{s: x})
	}
	// every history of subscriptions and publications, each taking effect before the next
	hist := func(pub, sub string, depth int) func(t *mc.T) {
		return func(t *mc.T) {
			p := kinds[pub](bg, opts()...)
			s := kinds[sub](bg, opts()...)
			connect(t, p, s, true, ep(1))
			mc.Settle()
			c := collect(s)
			ref := subs{}
			var exp []string
			for i := 0; i < depth; i++ {
				k := mc.Choose(len(ops) + 1)
				if k == 0 {
					break
				}
				o := ops[k-1]
				switch {
				case o.on:
					change(t, s, true, o.s)
					ref[o.s] = true
				case o.off:
					change(t, s, false, o.s)
					delete(ref, o.s)
				default:
					m := []string{o.s, fmt.Sprint(i)}
					send(t, p, m...)
					if ref.match(o.s) {
						exp = append(exp, showS(m))
					}
				}
				mc.Settle()
				want(t, "messages at the subscriber", fmt.Sprintf("%q", shows(c.got)), fmt.Sprintf("%q", exp))
				want(t, "topics at the publisher", topicsOf(p), ref.list())
				if sub == "SUB" {
					want(t, "topics at the subscriber", topicsOf(s), ref.list())
				}
			}
			t.Outcome(fmt.Sprint(len(exp)))
			closeAll(t, p, s)
		}
	}
	for _, pub := range []string{"PUB", "XPUB"} {
		for _, sub := range []string{"SUB", "XSUB"} {
			q := 3
			if pub+sub == "PUBSUB" {
				q = 4
			}
			reg(mc.Scenario{Name: "c06/history/" + pub + "-" + sub, Prop: []string{"C06"}, Quick: 0, Deep: -1, QuickShards: map[int]int{3: 1, 4: 4}[q], SplitChoose: true, Fn: hist(pub, sub, q)})
			reg(mc.Scenario{Name: "c06/history-deep/" + pub + "-" + sub, Prop: []string{"C06"}, Quick: -1, Deep: 0, DeepShards: 8, SplitChoose: true, Fn: hist(pub, sub, q+1)})
			reg(mc.Scenario{Name: "c06/history-sched/" + pub + "-" + sub, Prop: []string{"C06"}, Quick: 1, Deep: 1, DeepShards: 4, SplitChoose: true, Fn: hist(pub, sub, 2)})
		}
	}

	// two subscribers, and two publishers for one of them
	reg(mc.Scenario{Name: "c06/history-two", Prop: []string{"C06"}, Quick: 0, Deep: 1, QuickShards: 2, DeepShards: 8, SplitChoose: true, Fn: func(t *mc.T) {
		pubs := []zmq.Socket{zmq.NewPub(bg, opts()...), zmq.NewXPub(bg, opts()...)}
		ss := []zmq.Socket{zmq.NewSub(bg, opts()...), zmq.NewXSub(bg, opts()...)}
		for i, p := range pubs {
			listen(t, p, ep(1+i))
		}
		links := [][]int{{0}, {0, 1}} // the second subscriber hears both
		for i, s := range ss {
			for _, l := range links[i] {
				dial(t, s, ep(1+l))
			}
		}
		mc.Settle()
		cs := []*collector{collect(ss[0]), collect(ss[1])}
		refs := []subs{{}, {}}
		exp := [][]string{{}, {}}
		tops := pick([][]string{{"a", "ab"}, {"", "a"}})
		for i := 0; i < 4; i++ {
			k := mc.Choose(13)
			if k == 0 {
				break
			}
			k--
			if k < 8 {
				w, on, tp := k&1, k&2 == 0, tops[k>>2]
				change(t, ss[w], on, tp)
				if on {
					refs[w][tp] = true
				} else {
					delete(refs[w], tp)
				}
			} else {
				k -= 8
				m := []string{[]string{"a", "abx"}[k&1], fmt.Sprint(i)}
				send(t, pubs[k>>1], m...)
				for w := range ss {
					if (w == 1 || k>>1 == 0) && refs[w].match(m[0]) {
						exp[w] = append(exp[w], showS(m))
					}
				}
			}
			mc.Settle()
			for w := range ss {
				want(t, "messages at a subscriber", fmt.Sprintf("%q", shows(cs[w].got)), fmt.Sprintf("%q", exp[w]))
			}
			both := subs{}
			for _, r := range refs {
				for tp := range r {
					both[tp] = true
				}
			}
			want(t, "topics at the subscriber", topicsOf(ss[0]), refs[0].list())
			want(t, "topics at a publisher", topicsOf(pubs[0]), both.list())
			want(t, "topics at a publisher", topicsOf(pubs[1]), refs[1].list())
		}
		t.Outcome(fmt.Sprint(len(exp[0]), len(exp[1])))
		closeAll(t, pubs...)
		closeAll(t, ss...)
	}})

	// topics and first frames of every shape
	reg(mc.Scenario{Name: "c06/shapes", Prop: []string{"C06"}, Quick: 0, Deep: 1, Fn: func(t *mc.T) {
		long := blob(1, 300)
		tops := []string{"", "\x00", "\x01", "\x01a", "\xff", "a\x00b", "é", long[:254], long[:255], long[:256], long, strings.Repeat("q", 70000)}
		tp := pick(tops)
		first := pick([]string{tp, tp + "x", "", "\x00", "\x01", "\x01ab", "a", "a\x00bc", "é", "e", long, long[:255], strings.Repeat("q", 69999)})
		p := kinds[pick([]string{"PUB", "XPUB"})](bg, opts(mech(pick([]string{"NULL", "PLAIN"})))...)
		_ = p
		t.Outcome(fmt.Sprint(strings.HasPrefix(first, tp)))
		s := kinds[pick([]string{"SUB", "XSUB"})](bg, opts()...)
		p.Close()
		p = kinds[string(p.Type())](bg, opts()...)
		connect(t, p, s, mc.Choose(2) == 0, ep(1))
		mc.Settle()
		c := collect(s)
		change(t, s, true, tp)
		mc.Settle()
		want(t, "topics at the publisher", topicsOf(p), fmt.Sprintf("%q", []string{tp}))
		fs := [][]string{{first}, {first, "body", "", tp}, {first, tp}, {first, strings.TrimPrefix(tp, first)}}[mc.Choose(4)]
		sendAs(t, p, mc.Choose(2) == 1, fs)
		mc.Settle()
		exp := []string{}
		if strings.HasPrefix(first, tp) {
			exp = append(exp, showS(fs))
		}
		change(t, s, false, tp)
		mc.Settle()
		want(t, "topics at the publisher", topicsOf(p), "[]")
		send(t, p, fs...)
		mc.Settle()
		want(t, "messages at the subscriber", fmt.Sprintf("%.300q", shows(c.got)), fmt.Sprintf("%.300q", exp))
		closeAll(t, s, p)
	}})

	// a constant subscription is not disturbed by what goes on beside it
	for _, pub := range []string{"PUB", "XPUB"} {
		for _, sub := range []string{"SUB", "XSUB"} {
			reg(mc.Scenario{Name: "c06/changing/" + pub + "-" + sub, Prop: []string{"C06"}, Quick: 2, Deep: 3, DeepShards: 4, Fn: func(t *mc.T) {
				p := kinds[pub](bg, opts()...)
				s := kinds[sub](bg, opts()...)
				connect(t, p, s, true, ep(1))
				change(t, s, true, "k")
				if mc.Choose(2) == 1 {
					change(t, s, true, "v")
				}
				mc.Settle()
				c := collect(s)
				var sent []string
				var g group
				g.Go(func() {
					for i, f := range []string{"k", "v", "kx", "w", "v"} {
						m := []string{f, fmt.Sprint(i)}
						sent = append(sent, showS(m))
						sendAs(t, p, i&1 == 1, m)
					}
				})
				g.Go(func() {
					if mc.Choose(2) == 0 {
						change(t, s, true, "v")
						change(t, s, false, "v")
					} else {
						change(t, s, false, "v")
						change(t, s, true, "v")
					}
				})
				g.Wait()
				mc.Settle()
				got := shows(c.got)
				var k, other []string
				for _, m := range got {
					switch m[0] {
					case 'k':
						k = append(k, m)
					case 'w':
						other = append(other, m)
					}
				}
				want(t, "messages of a constant subscription", strings.Join(k, " "), "k,0 kx,2")
				if len(other) > 0 || !subseq(got, sent) {
					t.Failf("unsubscribed, repeated or reordered message", "got %q of %q", got, sent)
				}
				t.Outcome(strings.Join(got, " "))
				closeAll(t, p, s)
			}})
		}
	}

	// publishers that come at any point of a history of subscriptions
	reg(mc.Scenario{Name: "c06/late-publishers", Prop: []string{"C06"}, Quick: 0, Deep: 1, QuickShards: 2, DeepShards: 4, SplitChoose: true, Fn: func(t *mc.T) {
		kind := pick([]string{"SUB", "XSUB"})
		s := kinds[kind](bg, opts(zmq.WithAutomaticReconnect(false))...)
		pubs := make([]zmq.Socket, 2)
		listens := mc.Choose(2) == 1
		if listens {
			listen(t, s, ep(9))
		}
		ref := subs{}
		c := collect(s)
		var exp []string
		for i := 0; i < 5; i++ {
			k := mc.Choose(7)
			if k == 0 {
				break
			}
			switch {
			case k > 2 && kind == "XSUB" && pubs[0] == nil && pubs[1] == nil: // nobody to tell
			case k <= 2:
				if pubs[k-1] == nil { // comes
					pubs[k-1] = kinds[[]string{"PUB", "XPUB"}[k-1]](bg, opts(zmq.WithAutomaticReconnect(false))...)
					if listens {
						dial(t, pubs[k-1], ep(9))
					} else {
						listen(t, pubs[k-1], ep(k))
						dial(t, s, ep(k))
					}
					if kind == "XSUB" { // it does not subscribe by itself
						mc.Settle()
						for _, tp := range keys(ref) {
							change(t, s, true, tp)
						}
					}
				} else { // goes
					if err := pubs[k-1].Close(); err != nil {
						t.Failf("close failed", "%v", err)
					}
					pubs[k-1] = nil
				}
			default:
				tp := []string{"a", "ab"}[k&1]
				if k < 5 {
					change(t, s, true, tp)
					ref[tp] = true
				} else {
					change(t, s, false, tp)
					delete(ref, tp)
				}
			}
			mc.Settle()
			for j, p := range pubs {
				if p == nil {
					continue
				}
				want(t, "topics at a publisher", topicsOf(p), ref.list())
				for _, f := range []string{"a", "abx", "b"} {
					m := []string{f, fmt.Sprint(i, ".", j)}
					send(t, p, m...)
					mc.Settle()
					if ref.match(f) {
						exp = append(exp, showS(m))
					}
				}
			}
			want(t, "messages at the subscriber", strings.Join(shows(c.got), " "), strings.Join(exp, " "))
		}
		t.Outcome(ref.list())
		for _, p := range pubs {
			if p != nil {
				closeAll(t, p)
			}
		}
		closeAll(t, s)
	}})

	// subscriptions made while the connection comes up
	for _, pub := range []string{"PUB", "XPUB"} {
		for _, aListens := range []bool{true, false} {
			reg(mc.Scenario{Name: fmt.Sprintf("c06/connecting/%s/listens=%v", pub, aListens), Prop: []string{"C06"}, Quick: 2, Deep: 3, DeepShards: 4, Fn: func(t *mc.T) {
				p := kinds[pub](bg, opts()...)
				s := zmq.NewSub(bg, opts()...)
				subscribe(t, s, "early")
				ref := subs{"early": true}
				var g group
				g.Go(func() {
					subscribe(t, s, "x")
					ref["x"] = true
					if mc.Choose(2) == 1 {
						unsubscribe(t, s, "early")
						delete(ref, "early")
					} else {
						unsubscribe(t, s, "x")
						delete(ref, "x")
						subscribe(t, s, "y")
						ref["y"] = true
					}
				})
				connect(t, p, s, aListens, ep(1))
				g.Wait()
				mc.Settle()
				want(t, "topics at the subscriber", topicsOf(s), ref.list())
				want(t, "topics at the publisher", topicsOf(p), ref.list())
				c := collect(s)
				exp := []string{}
				for i, f := range []string{"early", "x", "y", "other"} {
					m := []string{f, fmt.Sprint(i)}
					send(t, p, m...)
					if ref.match(f) {
						exp = append(exp, showS(m))
					}
				}
				mc.Settle()
				want(t, "messages at the subscriber", strings.Join(shows(c.got), " "), strings.Join(exp, " "))
				t.Outcome(ref.list())
				closeAll(t, s, p)
			}})
		}
	}

	// a subscriber joins, another leaves, while a third is served
	reg(mc.Scenario{Name: "c06/join-leave", Prop: []string{"C06"}, Quick: 1, Deep: 2, DeepShards: 4, Fn: func(t *mc.T) {
		p := kinds[pick([]string{"PUB", "XPUB"})](bg, opts()...)
		listen(t, p, ep(1))
		s := zmq.NewSub(bg, opts()...)
		s2 := zmq.NewSub(bg, opts()...)
		s3 := zmq.NewSub(bg, opts()...)
		for _, x := range []zmq.Socket{s, s2} {
			dial(t, x, ep(1))
			subscribe(t, x, "a")
		}
		subscribe(t, s3, "a")
		mc.Settle()
		c, c3 := collect(s), collect(s3)
		var g group
		var sent []string
		g.Go(func() {
			for i := 0; i < 4; i++ {
				f := []string{"a1", "b", "ab", "a"}[i]
				sent = append(sent, f)
				send(t, p, f)
			}
		})
		g.Go(func() { dial(t, s3, ep(1)) })
		g.Go(func() { s2.Close() })
		g.Wait()
		mc.Settle()
		send(t, p, "a-last")
		mc.Settle()
		want(t, "messages at the constant subscriber", strings.Join(shows(c.got), " "), "a1 ab a a-last")
		got := shows(c3.got)
		all := []string{"a1", "ab", "a", "a-last"}
		if len(got) == 0 || len(got) > 4 || strings.Join(got, " ") != strings.Join(all[4-len(got):], " ") {
			t.Failf("wrong messages at the joiner", "got %q", got)
		}
		t.Outcome(fmt.Sprint(len(got)))
		closeAll(t, p, s, s3)
	}})

	// concurrent publishers on one socket; small buffers split the frames
	reg(mc.Scenario{Name: "c06/publishers", Prop: []string{"C06"}, Quick: 2, Deep: 3, DeepShards: 4, Fn: func(t *mc.T) {
		p := kinds[pick([]string{"PUB", "XPUB"})](bg, opts()...)
		s := kinds[pick([]string{"SUB", "XSUB"})](bg, opts()...)
		connect(t, p, s, true, ep(1))
		change(t, s, true, "a")
		mc.Settle()
		for _, c := range sim.Sim.Conns() {
			sim.SetBuf(c, 5)
		}
		c := collect(s)
		var g group
		g.Go(func() { send(t, p, "a1", "x"); send(t, p, "b1"); send(t, p, "a2", "", "y") })
		g.Go(func() { sendMulti(t, p, "aa1", "z"); send(t, p, "c", "a") })
		g.Wait()
		mc.Settle()
		wantMerge(t, "subscriber", shows(c.got), []string{"a1,x", "a2,,y"}, []string{"aa1,z"})
		t.Outcome(strings.Join(shows(c.got), " "))
		closeAll(t, s, p)
	}})

	// what is no subscription goes up to an XPUB, in order
	reg(mc.Scenario{Name: "c06/upstream", Prop: []string{"C06"}, Quick: 2, Deep: 3, DeepShards: 4, Fn: func(t *mc.T) {
		p := zmq.NewXPub(bg, opts()...)
		s := zmq.NewXSub(bg, opts()...)
		connect(t, p, s, true, ep(1))
		mc.Settle()
		c := collect(p)
		var g group
		g.Go(func() {
			send(t, s, "\x01a")
			send(t, s, "up", "\x01x")
			send(t, s, "")
			send(t, s, "\x01b", "more")
			send(t, s, "\x02c")
			send(t, s, "\x00a")
		})
		g.Go(func() { send(t, p, "a", "down") })
		g.Wait()
		mc.Settle()
		want(t, "messages at XPUB", fmt.Sprintf("%q", shows(c.got)), fmt.Sprintf("%q", []string{"up,\x01x", "", "\x01b,more", "\x02c"}))
		want(t, "topics at the publisher", topicsOf(p), "[]")
		t.Outcome("ok")
		closeAll(t, s, p)
	}})
}
