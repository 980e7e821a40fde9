package main

import (
	"context"
	"fmt"
	"io"
	"log"
	"strings"
	"sync"
	"time"

	zmq "github.com/luxfi/zmq/v4"
	"github.com/luxfi/zmq/v4/internal/zzmc/mc"
	sim "github.com/luxfi/zmq/v4/internal/zzmc/xnet"
	"github.com/luxfi/zmq/v4/security/plain"
)

var quiet = log.New(io.Discard, "", 0)

func init() { log.SetOutput(io.Discard) }

// mk makes a socket of a kind.
type mk func(ctx context.Context, opts ...zmq.Option) zmq.Socket

var kinds = map[string]mk{
	"PAIR": zmq.NewPair, "PUB": zmq.NewPub, "SUB": zmq.NewSub, "REQ": zmq.NewReq, "REP": zmq.NewRep, "DEALER": zmq.NewDealer,
	"ROUTER": zmq.NewRouter, "PULL": zmq.NewPull, "PUSH": zmq.NewPush, "XPUB": zmq.NewXPub, "XSUB": zmq.NewXSub, "STREAM": zmq.NewStream,
}

var kindNames = []string{"PAIR", "PUB", "SUB", "REQ", "REP", "DEALER", "ROUTER", "PULL", "PUSH", "XPUB", "XSUB", "STREAM"}

// compat is the table of RFC 23 (STREAM is the library's own).
var compat = map[string]string{
	"PAIR": "PAIR", "PUB": "SUB XSUB", "SUB": "PUB XPUB", "REQ": "REP ROUTER", "REP": "REQ DEALER", "DEALER": "REP DEALER ROUTER",
	"ROUTER": "REQ DEALER ROUTER", "PULL": "PUSH", "PUSH": "PULL", "XPUB": "SUB XSUB", "XSUB": "PUB XPUB",
}

func compatible(a, b string) bool {
	for _, x := range strings.Fields(compat[a]) {
		if x == b {
			return true
		}
	}
	return false
}

// partner is a kind that kind can talk to.
func partner(k string) string { return strings.Fields(compat[k])[0] }

var bg = context.Background()

func opts(o ...zmq.Option) []zmq.Option {
	return append([]zmq.Option{zmq.WithLogger(quiet), zmq.WithTimeout(time.Minute)}, o...)
}

func mech(name string) zmq.Option {
	if name == "PLAIN" {
		return zmq.WithSecurity(plain.Security("u", "p"))
	}
	return zmq.WithSecurity(nil)
}

func ep(n int) string { return fmt.Sprintf("tcp://127.0.0.1:%d", 5000+n) }

// inp is an inproc endpoint no other execution uses.
func inp() string { return fmt.Sprintf("inproc://verif-%09d", mc.Uniq()) }

// endpoint chooses between transports.
func endpoint(kind string, n int) string {
	switch kind {
	case "inproc":
		return inp()
	case "ipc":
		return fmt.Sprintf("ipc:///tmp/verif-sim-%d", n)
	}
	return ep(n)
}

func pick[T any](l []T) T { return l[mc.Choose(len(l))] }

// listen and dial fail the scenario when they do not succeed.
func listen(t *mc.T, s zmq.Socket, ep string) {
	if err := s.Listen(ep); err != nil {
		t.Failf("listen failed", "Listen(%s): %v", ep, err)
	}
}

func dial(t *mc.T, s zmq.Socket, ep string) {
	if err := s.Dial(ep); err != nil {
		t.Failf("dial failed", "Dial(%s): %v", ep, err)
	}
}

func send(t *mc.T, s zmq.Socket, frames ...string) {
	if err := s.Send(msg(frames...)); err != nil {
		t.Failf("send failed", "%s Send(%q): %v", s.Type(), frames, err)
	}
}

func sendMulti(t *mc.T, s zmq.Socket, frames ...string) {
	if err := s.SendMulti(msg(frames...)); err != nil {
		t.Failf("send failed", "%s SendMulti(%q): %v", s.Type(), frames, err)
	}
}

func recv(t *mc.T, s zmq.Socket) string {
	m, err := s.Recv()
	if err != nil {
		t.Failf("recv failed", "%s Recv: %v", s.Type(), err)
	}
	return show(m)
}

// recvOK skips the errors by which Recv tells that a peer has gone.
func recvOK(t *mc.T, s zmq.Socket) zmq.Msg {
	for i := 0; ; i++ {
		m, err := s.Recv()
		if err == nil {
			return m
		}
		if i > 8 {
			t.Failf("recv failed", "%s Recv: %v", s.Type(), err)
		}
	}
}

func want(t *mc.T, what, got, exp string) {
	if got != exp {
		t.Failf("wrong "+what, "%s: got %q, expected %q", what, got, exp)
	}
}

func subscribe(t *mc.T, s zmq.Socket, topic string) {
	if err := s.SetOption(zmq.OptionSubscribe, topic); err != nil {
		t.Failf("subscribe failed", "subscribe %q: %v", topic, err)
	}
}

func unsubscribe(t *mc.T, s zmq.Socket, topic string) {
	if err := s.SetOption(zmq.OptionUnsubscribe, topic); err != nil {
		t.Failf("unsubscribe failed", "unsubscribe %q: %v", topic, err)
	}
}

func closeAll(t *mc.T, ss ...zmq.Socket) {
	for _, s := range ss {
		t.Step("close of " + string(s.Type()))
		if err := s.Close(); err != nil {
			t.Failf("close failed", "Close: %v", err)
		}
	}
	t.Step("end")
}

func msg(frames ...string) zmq.Msg {
	var fs [][]byte
	for _, f := range frames {
		fs = append(fs, []byte(f))
	}
	return zmq.NewMsgFrom(fs...)
}

// show writes a message as its frames joined by commas.
func show(m zmq.Msg) string {
	var fs []string
	for _, f := range m.Frames {
		fs = append(fs, string(f))
	}
	return showS(fs)
}

func showS(frames []string) string {
	fs := make([]string, len(frames))
	for i, f := range frames {
		fs[i] = f
		if len(f) > 300 {
			fs[i] = fmt.Sprintf("%x..%d", f[:8], len(f))
		}
	}
	return strings.Join(fs, ",")
}

func frames(m zmq.Msg) []string {
	var fs []string
	for _, f := range m.Frames {
		fs = append(fs, string(f))
	}
	return fs
}

func sameFrames(a []string, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// shape describes frames by their sizes.
func shape(fs []string) string {
	var s []string
	for _, f := range fs {
		s = append(s, fmt.Sprint(len(f)))
	}
	return "[" + strings.Join(s, " ") + "]"
}

// blob is a frame of n bytes that differs from other frames and positions.
func blob(i, n int) string {
	b := make([]byte, n)
	for k := range b {
		b[k] = byte(k*7 + i*31 + k/251 + n + 3)
	}
	return string(b)
}

func blobs(sizes ...int) []string {
	var fs []string
	for i, n := range sizes {
		fs = append(fs, blob(i, n))
	}
	return fs
}

// group runs goroutines and waits for them.
type group struct{ wg sync.WaitGroup }

func (g *group) Go(f func()) {
	g.wg.Add(1)
	go func() {
		defer g.wg.Done()
		f()
	}()
}

func (g *group) Wait() { g.wg.Wait() }

// logbook is a list filled from several goroutines.
type logbook struct {
	mu sync.Mutex
	l  []string
}

func (b *logbook) add(f string, a ...any) {
	b.mu.Lock()
	b.l = append(b.l, fmt.Sprintf(f, a...))
	b.mu.Unlock()
}

func (b *logbook) all() []string {
	b.mu.Lock()
	defer b.mu.Unlock()
	return append([]string(nil), b.l...)
}

// merged tells whether got is an interleaving of the sequences.
func merged(got []string, seqs ...[]string) bool {
	n := 0
	for _, q := range seqs {
		n += len(q)
	}
	if n != len(got) {
		return false
	}
	pos := make([]int, len(seqs))
	var rec func(k int) bool
	rec = func(k int) bool {
		if k == len(got) {
			return true
		}
		for i, q := range seqs {
			if pos[i] < len(q) && q[pos[i]] == got[k] {
				pos[i]++
				if rec(k + 1) {
					return true
				}
				pos[i]--
			}
		}
		return false
	}
	return rec(0)
}

func reg(sc mc.Scenario) { mc.Register(&sc) }

var _ = sim.Sim
