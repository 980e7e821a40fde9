package main

import (
	"context"
	"errors"
	"fmt"
	"net"
	"sort"
	"strings"

	zmq "github.com/luxfi/zmq/v4"
	"github.com/luxfi/zmq/v4/internal/zzmc/mc"
	sim "github.com/luxfi/zmq/v4/internal/zzmc/xnet"
	"github.com/luxfi/zmq/v4/transport"
)

// carrier is a transport of the harness: it accepts the addresses of a form and
// records what it is asked for.
type carrier struct {
	name string
	port int
	log  logbook
}

var errNotMine = errors.New("not an address of this transport")

func (c *carrier) Addr(ep string) (string, error) {
	if !strings.HasPrefix(ep, "ok") {
		return "", errNotMine
	}
	return "resolved-" + ep, nil
}

func (c *carrier) Listen(ctx context.Context, addr string) (net.Listener, error) {
	c.log.add("listen %s", addr)
	return net.Listen("tcp", fmt.Sprint("127.0.0.1:", c.port))
}

func (c *carrier) Dial(ctx context.Context, d transport.Dialer, addr string) (net.Conn, error) {
	c.log.add("dial %s", addr)
	return d.DialContext(ctx, "tcp", fmt.Sprint("127.0.0.1:", c.port))
}

func freshName(prefix string) string { return fmt.Sprintf("%sverif-%09d", prefix, mc.Uniq()) }

func newCarrier(port int) *carrier { return &carrier{name: freshName(""), port: port} }

func register(t *mc.T, name string, c transport.Transport) {
	if err := zmq.RegisterTransport(name, c); err != nil {
		t.Failf("registration refused", "%q: %v", name, err)
	}
}

// listed checks the list of transports and that it has each of the names once.
func listed(t *mc.T, names ...string) {
	l := zmq.Transports()
	if !sort.StringsAreSorted(l) {
		t.Failf("transports not sorted", "%.300q", l)
	}
	for i := 1; i < len(l); i++ {
		if l[i] == l[i-1] {
			t.Failf("transport listed twice", "%q", l[i])
		}
	}
	for _, n := range append(names, "tcp", "ipc", "inproc", "udp") {
		if k := sort.SearchStrings(l, n); k == len(l) || l[k] != n {
			t.Failf("transport not listed", "%q is not in %.300q", n, l)
		}
	}
}

// tcpForm is the reference for addresses of the tcp transport: what it listens on.
func tcpForm(a string) (string, bool) {
	i := strings.LastIndexByte(a, ':')
	if i < 0 {
		return "", false
	}
	host, port := a[:i], a[i+1:]
	if strings.HasPrefix(host, "[") && strings.HasSuffix(host, "]") {
		host = host[1 : len(host)-1]
		if strings.ContainsAny(host, "[]") {
			return "", false
		}
	} else if strings.ContainsAny(host, ":[]") {
		return "", false
	}
	if strings.ContainsAny(port, "[]") {
		return "", false
	}
	if host == "" || host == "*" {
		host = "0.0.0.0"
	}
	if port == "" || port == "*" {
		port = "0"
	}
	if strings.Contains(host, ":") {
		host = "[" + host + "]"
	}
	return host + ":" + port, true
}

// alive checks that a PAIR socket can still be used.
func alive(t *mc.T, s zmq.Socket, listening bool) {
	p := zmq.NewPair(bg, opts()...)
	if listening {
		dial(t, p, ep(7))
	} else {
		listen(t, p, ep(8))
		dial(t, s, ep(8))
	}
	send(t, p, "alive")
	want(t, "message", recv(t, s), "alive")
	send(t, s, "well")
	want(t, "message", recv(t, p), "well")
	closeAll(t, s, p)
}

func init() {
	// every combination of scheme, separator and address, for Listen and for Dial
	schemes := []string{"tcp", "", "TCP", " tcp", "tcp ", "tcp4", "http", "unix", "tcp://", "carrier", "ipc", "inproc"}
	seps := []string{"://", "", ":", "/", "//", ":/", ":///", "://://"}
	addrs := map[string][]string{
		"tcp":     {"127.0.0.1:5001", "", ":", ":5001", "*:5001", "0.0.0.0:5001", "[::1]:5001", "127.0.0.1", "5001", "::1:5001", "[::1]", "127.0.0.1:", "127.0.0.1:*", "*:*", "127.0.0.1:0", "127.0.0.1:99999", "127.0.0.1:-1", "127.0.0.1:port", "127.0.0.1:5001:5001", "[127.0.0.1:5001", "127.0.0.1:5001 ", "127.0.0.1:5001/x"},
		"carrier": {"ok", "okay", "no", "", "ok:5001", "no://ok", "ok://ok"},
		"ipc":     {"/tmp/verif-sim-1"},
		"inproc":  {"unique"},
	}
	for _, op := range []string{"listen", "dial"} {
		reg(mc.Scenario{Name: "c19/grammar/" + op, Prop: []string{"C19"}, Quick: 0, Deep: 1, DeepShards: 2, SplitChoose: true, Fn: func(t *mc.T) {
			c := newCarrier(5001)
			register(t, c.name, c)
			scheme, sep := pick(schemes), pick(seps)
			as := addrs[scheme]
			if as == nil {
				as = []string{"127.0.0.1:5001", "ok"}
			}
			a := pick(as)
			if scheme == "carrier" {
				scheme = c.name
			}
			if a == "unique" {
				a = inpAddr()
			}
			e := scheme + sep + a
			// the rule
			parts := strings.Split(e, "://")
			valid, resolved := false, ""
			if len(parts) == 2 {
				a := parts[1]
				switch parts[0] {
				case "tcp":
					r, ok := tcpForm(a)
					resolved = r
					port := r[strings.LastIndexByte(r, ':')+1:]
					valid = ok && (port == "5001" || port == "0") && r[0] != '/'
				case "ipc", "inproc":
					valid = true
				case c.name:
					valid = strings.HasPrefix(a, "ok")
				}
			}
			s := zmq.NewPair(bg, opts(zmq.WithDialerMaxRetries(0))...)
			if op == "listen" {
				err := s.Listen(e)
				if (err == nil) != valid {
					t.Failf("endpoint misjudged", "Listen(%q): %v", e, err)
				}
				if !valid {
					if s.Addr() != nil {
						t.Failf("address of a socket that does not listen", "%v after Listen(%q)", s.Addr(), e)
					}
					listen(t, s, ep(7))
					alive(t, s, true)
					return
				}
				if scheme == "tcp" && !strings.HasSuffix(resolved, ":0") && s.Addr().String() != resolved {
					t.Failf("listening elsewhere", "Listen(%q) listens on %v", e, s.Addr())
				}
				p := zmq.NewPair(bg, opts()...)
				to := e
				if scheme == "tcp" {
					x := s.Addr().String()
					to = "tcp://127.0.0.1" + x[strings.LastIndexByte(x, ':'):]
				}
				dial(t, p, to)
				send(t, p, "x")
				want(t, "message", recv(t, s), "x")
				closeAll(t, s, p)
			} else {
				p := zmq.NewPair(bg, opts()...)
				switch {
				case valid && (scheme == "ipc" || scheme == "inproc"):
					listen(t, p, e)
				default:
					listen(t, p, ep(1))
				}
				if strings.HasSuffix(resolved, ":0") {
					valid = false // nobody can listen there
				}
				err := s.Dial(e)
				if (err == nil) != valid {
					t.Failf("endpoint misjudged", "Dial(%q): %v", e, err)
				}
				if valid {
					send(t, p, "x")
					want(t, "message", recv(t, s), "x")
					closeAll(t, s)
				} else {
					alive(t, s, false)
				}
				closeAll(t, p)
			}
			if l := c.log.all(); scheme == c.name && valid {
				for _, x := range l {
					if x != "listen resolved-"+parts[1] && x != "dial resolved-"+parts[1] {
						t.Failf("transport asked for another address", "%q for %q", l, e)
					}
				}
			} else if len(l) > 0 {
				t.Failf("transport asked for an address it does not accept", "%q for %q", l, e)
			}
		}})
	}

	// the addresses of the net transports, against the reference
	reg(mc.Scenario{Name: "c19/addresses", Prop: []string{"C19"}, Quick: 0, Deep: 0, Fn: func(t *mc.T) {
		hosts := []string{"", "*", "h", "127.0.0.1", "[::1]", "::1", "[", "]", "[]", "[*]", "h]", "0", "**"}
		ports := []string{"", "*", "0", "1", "99999", "x", "00", "**", "]", "1]"}
		for _, prot := range []string{"tcp", "udp", "unix", "sctp"} {
			tr := transport.New(prot)
			for _, h := range hosts {
				for _, p := range ports {
					for _, sep := range []string{":", "", "::"} {
						in := h + sep + p
						got, err := tr.Addr(in)
						exp, ok := tcpForm(in)
						switch prot {
						case "unix":
							exp, ok = in, true
						case "sctp":
							ok = false
						}
						if (err == nil) != ok || ok && got != exp {
							t.Failf("wrong address", "%s: %q gives %q, %v, expected %q, %v", prot, in, got, err, exp, ok)
						}
					}
				}
			}
		}
	}})

	// an endpoint that fails takes no time and no connection, whichever way it fails
	reg(mc.Scenario{Name: "c19/no-effect", Prop: []string{"C19"}, Quick: 0, Deep: 2, Fn: func(t *mc.T) {
		kind := pick(kindNames)
		s := kinds[kind](bg, opts()...)
		bad := []string{"", "tcp", "tcp://", "tcp://127.0.0.1", "nope://127.0.0.1:5001", "127.0.0.1:5001", "tcp://a://b:1", "://", "tcp:127.0.0.1:5001"}
		start := mc.NowQuiet()
		for i := 0; i < 2; i++ {
			e := pick(bad)
			t.Step("failing " + e)
			if s.Listen(e) == nil || s.Dial(e) == nil {
				t.Failf("endpoint misjudged", "%q accepted", e)
			}
		}
		if len(sim.Sim.DialLog) > 0 || sim.Sim.Listeners() > 0 || mc.NowQuiet() != start || s.Addr() != nil {
			t.Failf("failed endpoint had an effect", "%d dials, %d listeners, %d ns", len(sim.Sim.DialLog), sim.Sim.Listeners(), mc.NowQuiet()-start)
		}
		listen(t, s, ep(1))
		if kind != "STREAM" {
			p := rawDial(t, 1, partner(kind), "")
			p.c.Close()
		}
		closeAll(t, s)
	}})

	// the address of a listener is where peers connect, and stays so
	for _, tr := range []string{"tcp", "tcp:0", "tcp*", "ipc", "inproc", "own"} {
		reg(mc.Scenario{Name: "c19/listener/" + strings.NewReplacer(":", "-", "*", "-any").Replace(tr), Prop: []string{"C19"}, Quick: 0, Deep: 2, Fn: func(t *mc.T) {
			kind := pick(kindNames[:11])
			s := kinds[kind](bg, opts()...)
			if s.Addr() != nil {
				t.Failf("address of a socket that does not listen", "%v", s.Addr())
			}
			var e string
			switch tr {
			case "tcp:0":
				e = "tcp://127.0.0.1:0"
			case "tcp*":
				e = "tcp://*:*"
			case "own":
				c := newCarrier(5006)
				register(t, c.name, c)
				e = c.name + "://ok"
			default:
				e = endpoint(tr, 1)
			}
			listen(t, s, e)
			a := s.Addr()
			if a == nil {
				t.Failf("no address", "Listen(%q)", e)
			}
			for _, again := range []string{ep(9), e, "nope://x"} { // a second Listen is refused
				t.Step("second Listen")
				if s.Listen(again) == nil {
					t.Failf("second Listen accepted", "%q and %q", e, again)
				}
				if s.Addr() == nil || s.Addr().String() != a.String() || s.Addr().Network() != a.Network() {
					t.Failf("address changed", "%v to %v", a, s.Addr())
				}
			}
			to := ""
			switch {
			case strings.HasPrefix(tr, "tcp") || tr == "own":
				x := a.String()
				to = "tcp://127.0.0.1" + x[strings.LastIndexByte(x, ':'):]
				if strings.HasSuffix(x, ":0") || a.Network() != "tcp" {
					t.Failf("useless address", "%s %s", a.Network(), x)
				}
			case tr == "ipc":
				to = "ipc://" + a.String()
			default:
				to = "inproc://" + a.String()
				if a.Network() != "inproc" {
					t.Failf("useless address", "%s %s", a.Network(), a)
				}
			}
			p := kinds[partner(kind)](bg, opts()...)
			dial(t, p, to)
			closeAll(t, p, s)
		}})
	}

	// every history of registrations: the first of a name counts, from then on
	reg(mc.Scenario{Name: "c19/register", Prop: []string{"C19"}, Quick: 0, Deep: 0, DeepShards: 1, Fn: func(t *mc.T) {
		names := []string{freshName(""), freshName("A-"), freshName("z-")}
		owner := map[string]*carrier{}
		s := zmq.NewPair(bg, opts(zmq.WithDialerMaxRetries(0))...)
		use := func(n string) {
			e := n + "://ok"
			p := zmq.NewPair(bg, opts()...)
			err := p.Listen(e)
			c := owner[n]
			if (err == nil) != (c != nil) {
				t.Failf("wrong transport", "Listen(%q): %v", e, err)
			}
			if err == nil {
				want(t, "transport in use", fmt.Sprint(p.Addr().(*net.TCPAddr).Port), fmt.Sprint(c.port))
				dial(t, s, e)
				send(t, p, n)
				want(t, "message", recv(t, s), n)
				want(t, "use of the transport", strings.Join(c.log.all(), ";"), "listen resolved-ok;dial resolved-ok")
				c.log = logbook{}
				s.Close()
				s = zmq.NewPair(bg, opts(zmq.WithDialerMaxRetries(0))...)
			} else if s.Dial(e) == nil {
				t.Failf("wrong transport", "Dial(%q) accepted", e)
			}
			p.Close()
		}
		for i := 0; i < 3; i++ {
			k := mc.Choose(5)
			if k < 3 {
				n := names[k]
				c := &carrier{name: n, port: 5010 + i}
				err := zmq.RegisterTransport(n, c)
				if (err == nil) != (owner[n] == nil) {
					t.Failf("wrong registration", "%q: %v", n, err)
				}
				if err == nil {
					owner[n] = c
				}
				if zmq.RegisterTransport(n, owner[n]) == nil {
					t.Failf("wrong registration", "%q twice, the same", n)
				}
			} else if k == 3 {
				for _, n := range []string{"tcp", "inproc", "ipc", "udp"} {
					if zmq.RegisterTransport(n, newCarrier(5099)) == nil {
						t.Failf("wrong registration", "%q twice", n)
					}
				}
				listed(t)
			}
			for _, n := range names {
				use(n)
			}
			listed(t, keys(owner)...)
			l := zmq.Transports()
			for _, n := range names {
				if k := sort.SearchStrings(l, n); owner[n] == nil && k < len(l) && l[k] == n {
					t.Failf("transport listed that is not registered", "%q", n)
				}
			}
			l[0] = "changed" // the list is the caller's
		}
		for _, n := range names {
			use(n)
		}
		closeAll(t, s)
	}})

	// registrations and lookups at once
	for n := 2; n <= 3; n++ {
		reg(mc.Scenario{Name: fmt.Sprintf("c19/register-at-once/%d", n), Prop: []string{"C19", "C18"}, Quick: 3 - n, Deep: 4 - n, Race: true, RaceBound: 3 - n, Fn: func(t *mc.T) {
			name, other := freshName(""), freshName("")
			var cs []*carrier
			var won []int
			var g group
			var mu logbook
			for i := 0; i < n; i++ {
				c := &carrier{name: name, port: 5010 + i}
				cs = append(cs, c)
				g.Go(func() {
					if zmq.RegisterTransport(name, c) == nil {
						mu.mu.Lock()
						won = append(won, i)
						mu.mu.Unlock()
						listed(t, name)
						p := zmq.NewPair(bg, opts()...)
						listen(t, p, name+"://ok") // usable at once
						want(t, "transport in use", fmt.Sprint(p.Addr().(*net.TCPAddr).Port), fmt.Sprint(5010+i))
						p.Close()
					}
				})
			}
			g.Go(func() { register(t, other, newCarrier(5020)) })
			g.Go(func() {
				listed(t)
				p := zmq.NewPair(bg, opts(zmq.WithDialerMaxRetries(0))...)
				if p.Dial(name+"://no") == nil {
					t.Failf("endpoint misjudged", "")
				}
				p.Close()
			})
			g.Wait()
			if len(won) != 1 {
				t.Failf("wrong registration", "%d of %d registrations of a name succeeded", len(won), n)
			}
			listed(t, name, other)
			for i, c := range cs {
				if l := c.log.all(); (len(l) > 0) != (i == won[0]) {
					t.Failf("wrong transport", "%d won, %d was asked %q", won[0], i, l)
				}
			}
		}})
	}

	// a listener whose transport fails, or whose address is taken, is as if it had not been tried
	reg(mc.Scenario{Name: "c19/taken", Prop: []string{"C19"}, Quick: 1, Deep: 2, Fn: func(t *mc.T) {
		tr := pick([]string{"tcp", "ipc", "inproc"})
		e := endpoint(tr, 1)
		a, b := zmq.NewPair(bg, opts()...), zmq.NewPair(bg, opts()...)
		listen(t, a, e)
		t.Step("Listen on a taken address")
		if b.Listen(e) == nil {
			t.Failf("address taken twice", "%s", e)
		}
		if b.Addr() != nil {
			t.Failf("address of a socket that does not listen", "%v", b.Addr())
		}
		dial(t, b, e)
		send(t, b, "x")
		want(t, "message", recv(t, a), "x")
		listen(t, b, ep(7))
		closeAll(t, a, b)
		c := zmq.NewPair(bg, opts()...)
		listen(t, c, e)
		closeAll(t, c)
	}})
}
