package main

import (
	"errors"
	"fmt"
	"strings"
	"time"

	zmq "github.com/luxfi/zmq/v4"
	"github.com/luxfi/zmq/v4/internal/zzmc/mc"
	sim "github.com/luxfi/zmq/v4/internal/zzmc/xnet"
	"github.com/luxfi/zmq/v4/security/plain"
)

// C25: the options of a socket take effect on that socket alone.

// settings is what the options given to a socket are to result in.
type settings struct {
	id      string // "": any of its own
	mech    string
	timeout time.Duration
	retry   time.Duration
	tries   int
	again   bool
}

func defaults() settings {
	return settings{mech: "NULL", timeout: 5 * time.Minute, retry: 250 * time.Millisecond, tries: 10, again: true}
}

type setting struct {
	o zmq.Option
	f func(s *settings)
}

// settingsList makes the options anew: an option may carry state (PLAIN).
func settingsList() []setting {
	long := strings.Repeat("n", 255)
	return []setting{
		{zmq.WithID(zmq.SocketIdentity("one")), func(s *settings) { s.id = "one" }},
		{zmq.WithID(zmq.SocketIdentity(long)), func(s *settings) { s.id = long }},
		{zmq.WithID(nil), func(s *settings) { s.id = "" }},
		{zmq.WithSecurity(plain.Security("u", "p")), func(s *settings) { s.mech = "PLAIN" }},
		{zmq.WithSecurity(nil), func(s *settings) { s.mech = "NULL" }},
		{zmq.WithTimeout(time.Second), func(s *settings) { s.timeout = time.Second }},
		{zmq.WithTimeout(7 * time.Minute), func(s *settings) { s.timeout = 7 * time.Minute }},
		{zmq.WithDialerRetry(time.Millisecond), func(s *settings) { s.retry = time.Millisecond }},
		{zmq.WithDialerRetry(time.Second), func(s *settings) { s.retry = time.Second }},
		{zmq.WithDialerMaxRetries(0), func(s *settings) { s.tries = 0 }},
		{zmq.WithDialerMaxRetries(12), func(s *settings) { s.tries = 12 }},
		{zmq.WithAutomaticReconnect(false), func(s *settings) { s.again = false }},
		{zmq.WithAutomaticReconnect(true), func(s *settings) { s.again = true }},
	}
}

// check25 observes every setting of the socket from outside; n is a range of
// ports of its own. It returns the identity announced.
func check25(t *mc.T, who string, s zmq.Socket, x settings, n int) string {
	k := string(s.Type())
	t.Step("settings of " + who)
	// attempts
	from, at := len(sim.Sim.DialLog), mc.Elapsed()
	if s.Dial(ep(n)) == nil {
		t.Failf("dial without listener succeeds", "")
	}
	log := sim.Sim.DialLog[from:]
	if len(log) != x.tries+1 {
		t.Failf("wrong number of attempts", "%s: %d attempts with %d retries", who, len(log), x.tries)
	}
	for i, d := range log {
		if d.At != at+time.Duration(i)*x.retry {
			t.Failf("wrong spacing of attempts", "%s: attempt %d at %v, every %v", who, i, d.At-at, x.retry)
		}
	}
	// nobody to send to
	switch k {
	case "PAIR", "DEALER", "PUSH":
		for i := 0; i < 2; i++ {
			f := s.Send
			if i == 1 {
				f = s.SendMulti
			}
			at := mc.Elapsed()
			if f(msg("lost")) == nil {
				t.Failf("send to nobody succeeds", "")
			}
			if d := mc.Elapsed() - at; d != x.timeout {
				t.Failf("wrong time-out", "%s: Send gave up after %v, expected %v", who, d, x.timeout)
			}
		}
	}
	// mechanism and identity, of the connections dialed and accepted
	e := rawListen(t, n)
	var g group
	var p *rawPeer
	g.Go(func() { p = e.accept(x.mech, partner(k), "") })
	dial(t, s, ep(n))
	g.Wait()
	id := p.id
	if id == "" || x.id != "" && id != x.id {
		t.Failf("wrong identity", "%s: announced %q, expected %q", who, id, x.id)
	}
	listen(t, s, ep(n+1))
	q := rawDialMech(t, n+1, x.mech, partner(k), "")
	if q.id != id {
		t.Failf("wrong identity", "%s: announced %q and %q", who, id, q.id)
	}
	q.c.Close()
	mc.Settle()
	// reconnection
	from = len(sim.Sim.DialLog)
	e.l.Close()
	p.c.Close()
	for i := 0; i < 2 && len(sim.Sim.DialLog) == from; i++ {
		notice(s)
	}
	time.Sleep(3 * x.retry)
	if again := len(sim.Sim.DialLog) > from; again != x.again {
		t.Failf("wrong reconnection", "%s: reconnects %v, expected %v", who, again, x.again)
	}
	if x.again && x.tries > 3 {
		e = rawListen(t, n)
		var h group
		h.Go(func() { p = e.accept(x.mech, partner(k), "") })
		h.Wait()
		if p.id != id {
			t.Failf("wrong identity", "%s: announced %q, and %q when it reconnected", who, id, p.id)
		}
		e.l.Close()
	}
	return id
}

func init() {
	construct := func(max int) func(t *mc.T) {
		return func(t *mc.T) {
			k := pick([]string{"DEALER", "SUB", "REQ", "PAIR", "PUB", "REP", "ROUTER", "PULL", "PUSH", "XPUB", "XSUB"})
			mk := kinds[k]
			l := settingsList()
			x := defaults()
			o := []zmq.Option{zmq.WithLogger(quiet)}
			for i := 0; i < max; i++ {
				c := mc.Choose(len(l) + 1)
				if c == 0 {
					break
				}
				o = append(o, l[c-1].o)
				l[c-1].f(&x)
			}
			before := mk(bg)
			s := mk(bg, o...)
			same := mk(bg, o...) // the same options again
			after := mk(bg)
			a := check25(t, "the socket", s, x, 10)
			b := check25(t, "the second socket", same, x, 20)
			c := check25(t, "the socket made before", before, defaults(), 30)
			d := check25(t, "the socket made after", after, defaults(), 40)
			if c == d || c == a || x.id == "" && a == b {
				t.Failf("two sockets of one identity", "%q %q %q %q", a, b, c, d)
			}
			closeAll(t, s, same, before, after)
		}
	}
	reg(mc.Scenario{Name: "c25/construct", Prop: []string{"C25"}, Quick: 0, Deep: 0, QuickShards: 2, DeepShards: 2, SplitChoose: true, Fn: construct(2)})
	reg(mc.Scenario{Name: "c25/construct/long", Prop: []string{"C25"}, Quick: -1, Deep: 0, DeepShards: 8, SplitChoose: true, Fn: construct(3)})

	// what is set can be read, from that socket alone
	props := func(depth int) func(t *mc.T) {
		return func(t *mc.T) {
			k := pick(kindNames)
			two := [2]zmq.Socket{kinds[k](bg, opts()...), kinds[k](bg, opts()...)}
			names := []string{"one", zmq.OptionIdentity, zmq.OptionHWM}
			values := []any{"v", 3, 4}
			if k == "PUB" {
				names = []string{zmq.OptionHWM} // it refuses others
				values = []any{7, 3, 4}
			}
			if k == "SUB" {
				names = []string{zmq.OptionSubscribe, zmq.OptionUnsubscribe}
				values = []any{"a", "b", ""}
			}
			ref := [2]map[string]any{{}, {}}
			for i := 0; i < depth; i++ {
				c := mc.Choose(2*len(names)*len(values) + 1)
				if c == 0 {
					break
				}
				c--
				n, v, w := names[c/2%len(names)], values[c/2/len(names)], c%2
				if n == zmq.OptionHWM {
					if _, ok := v.(int); !ok {
						v = 9
					}
				}
				if err := two[w].SetOption(n, v); err != nil {
					t.Failf("option refused", "%s SetOption(%q, %v): %v", k, n, v, err)
				}
				ref[w][n] = v
				for w := range two {
					for _, n := range append(names, "other", "", "ONE") {
						v, err := two[w].GetOption(n)
						if x, ok := ref[w][n]; ok != (err == nil) || ok && v != x || !ok && !errors.Is(err, zmq.ErrBadProperty) {
							t.Failf("wrong option", "%s socket %d GetOption(%q): %v, %v, expected %v", k, w, n, v, err, x)
						}
					}
				}
			}
			t.Outcome(fmt.Sprint(len(ref[0]), len(ref[1])))
			closeAll(t, two[0], two[1])
		}
	}
	reg(mc.Scenario{Name: "c25/props", Prop: []string{"C25"}, Quick: 0, Deep: -1, QuickShards: 2, SplitChoose: true, Fn: props(2)})
	reg(mc.Scenario{Name: "c25/props/long", Prop: []string{"C25"}, Quick: -1, Deep: 0, DeepShards: 4, SplitChoose: true, Fn: props(3)})

	// options set while the socket is used: a Get sees the latest Set that had returned, or one under way
	reg(mc.Scenario{Name: "c25/concurrent", Prop: []string{"C25"}, Quick: 3, Deep: 4, Fn: func(t *mc.T) {
		k := pick([]string{"DEALER", "PUB", "XPUB", "STREAM"})
		s := kinds[k](bg, opts()...)
		n := zmq.OptionHWM
		if err := s.SetOption(n, 1); err != nil {
			t.Failf("option refused", "%v", err)
		}
		var done [4]bool
		var g group
		g.Go(func() {
			for v := 2; v <= 3; v++ {
				s.SetOption(n, v)
				done[v] = true
			}
		})
		g.Go(func() {
			last := 1
			for i := 0; i < 2; i++ {
				if done[2] && last < 2 {
					last = 2
				}
				if done[3] {
					last = 3
				}
				v, err := s.GetOption(n)
				if err != nil || v.(int) < last {
					t.Failf("wrong option", "GetOption: %v, %v after %d", v, err, last)
				}
				last = v.(int)
			}
		})
		g.Wait()
		if v, err := s.GetOption(n); err != nil || v != 3 {
			t.Failf("wrong option", "GetOption: %v, %v, expected 3", v, err)
		}
		closeAll(t, s)
	}})
}
