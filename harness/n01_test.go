package main_test

// Real sessions over TCP: the detector with its listener and respawn among peers that call it and peers that it calls.
// The process has a network of its own (10.77.0.1-40 are local); the timers of the detector run faster (VERIF_TIME_SCALE).

import (
	"context"
	"fmt"
	"math/big"
	"math/rand/v2"
	"net"
	"net/netip"
	"os"
	"sort"
	"strconv"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"testing/synctest"
	"time"

	"github.com/rhansen/go-kairos/kairos"
	"github.com/wavesplatform/gowaves/pkg/p2p/peer"
	"github.com/wavesplatform/gowaves/pkg/proto"

	fd "github.com/alexeykiselev/waves-fork-detector"
	"github.com/alexeykiselev/waves-fork-detector/peers"
)

const nWait = 20 * time.Second // for what has to happen at once

type netWorld struct {
	c       *vc
	d       *detector
	bind    string
	period  time.Duration // of respawn
	vers    []proto.Version
	mu      sync.Mutex
	errs    [][2]string
	stop    chan struct{}
	wg      sync.WaitGroup
	targets []*target
	seen    atomic.Pointer[map[netip.Addr]peers.Peer] // of a crowd, taken from time to time
	steady  atomic.Int64                              // established and pending sessions watched over respawns
}

func (w *netWorld) err(key, format string, args ...any) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.errs = append(w.errs, [2]string{key, fmt.Sprintf(format, args...)})
}

func (w *netWorld) raise() {
	w.mu.Lock()
	defer w.mu.Unlock()
	for _, e := range w.errs {
		w.c.fail(e[0], "%s", e[1])
	}
}

func (w *netWorld) pause(d time.Duration) bool {
	select {
	case <-w.stop:
		return false
	case <-time.After(d):
		return true
	}
}

func (w *netWorld) listed(a netip.Addr) (peers.Peer, bool) {
	if m := w.seen.Load(); m != nil {
		p, ok := (*m)[a]
		return p, ok
	}
	cs, err := w.d.reg.Connections()
	if err != nil {
		w.err("query", "connections: %v", err)
	}
	for _, p := range cs {
		if p.ID() == a {
			return p, true
		}
	}
	return peers.Peer{}, false
}

func (w *netWorld) checkShake(what string, hs proto.Handshake, ver proto.Version) {
	if hs.AppName != "waves"+string(vScheme) || hs.NodeName != "monitor" || hs.NodeNonce != uint64(w.d.nonce) || proto.TCPAddr(hs.DeclaredAddr).String() != w.d.declared.String() &&
		!(proto.TCPAddr(hs.DeclaredAddr).Empty() && w.d.declared.Empty()) {
		w.err("handshake", "%s gets the handshake %s %q nonce %d declared %s", what, hs.AppName, hs.NodeName, hs.NodeNonce, proto.TCPAddr(hs.DeclaredAddr))
	}
	if ver != hs.Version {
		w.err("version", "%s is offered version %s, expected %s", what, hs.Version, ver)
	}
	w.c.count("handshakes_checked", 1)
}

// established demands that the session is shown and works.
func (w *netWorld) established(what string, a netip.Addr, p *tcpPeer, mine proto.Handshake) bool {
	ok := vEventually(nWait, func() bool {
		_, ok := w.listed(a)
		return ok
	})
	if !ok {
		w.err("not-listed", "%s: session is not among the connections within %s (closed: %v)", what, nWait, p.closed(0))
		return false
	}
	r, _ := w.listed(a)
	if r.Name != mine.NodeName || r.Nonce != mine.NodeNonce || r.Version != mine.Version {
		w.err("record", "%s: handshake %q %d %s is recorded as %q %d %s", what, mine.NodeName, mine.NodeNonce, mine.Version, r.Name, r.Nonce, r.Version)
	}
	if err := p.send(&proto.GetPeersMessage{}); err != nil {
		w.err("dead", "%s: sending over the session: %v", what, err)
		return false
	}
	ok = vEventually(nWait, func() bool {
		for _, m := range p.messages() {
			if _, ok := m.(*proto.PeersMessage); ok {
				return true
			}
		}
		return p.closed(0)
	})
	if !ok || p.closed(0) {
		w.err("dead", "%s: a peers request is not answered (closed: %v)", what, p.closed(0))
		return false
	}
	w.c.count("sessions_established", 1)
	return true
}

func (w *netWorld) gone(what string, a netip.Addr) {
	ok := vEventually(nWait, func() bool {
		_, ok := w.listed(a)
		return !ok
	})
	if !ok {
		w.err("still-listed", "%s: the peer has hung up but is still among the connections after %s", what, nWait)
	}
	w.c.count("disconnects", 1)
}

// refused demands that the detector closes the session and does not show it.
func (w *netWorld) refused(what string, a netip.Addr, cn net.Conn) {
	_ = cn.SetReadDeadline(time.Now().Add(nWait))
	buf := make([]byte, 4096)
	for {
		_, err := cn.Read(buf)
		if err == nil {
			continue
		}
		if ne, ok := err.(net.Error); ok && ne.Timeout() {
			w.err("not-closed", "%s: the connection is still open after %s", what, nWait)
		}
		break
	}
	if _, ok := w.listed(a); ok {
		w.err("listed", "%s is among the connections", what)
	}
	w.c.count("refusals", 1)
}

func (w *netWorld) offer(n int) proto.Version { return w.vers[n%len(w.vers)] }

func badVersion(r *rand.Rand, v proto.Version) proto.Version {
	switch r.IntN(3) {
	case 0:
		return proto.NewVersion(v.Major()+1, v.Minor(), 0)
	case 1:
		return proto.NewVersion(v.Major(), v.Minor()+2+uint32(r.IntN(5)), 0)
	}
	return proto.NewVersion(0, v.Minor(), 0)
}

func goodVersion(r *rand.Rand, v proto.Version) proto.Version {
	switch r.IntN(4) {
	case 0:
		return proto.NewVersion(v.Major(), v.Minor()+1, uint32(r.IntN(100)))
	case 1:
		return proto.NewVersion(v.Major(), v.Minor()-1, uint32(r.IntN(100)))
	}
	return proto.NewVersion(v.Major(), v.Minor(), uint32(r.IntN(3)))
}

const (
	inGood = iota
	inAlien
	inNoApp
	inVersion
	inSilent
	inGarbage
	inHalf
	inTwice
	inKinds
)

var inNames = []string{"good", "alien", "no-application", "incompatible", "silent", "garbage", "half", "twofold"}

func (w *netWorld) dial(what string, a netip.Addr) net.Conn {
	cn, err := vDialFrom(a, w.bind, nWait)
	if err != nil {
		w.err("not-listening", "%s can't connect to %s: %v", what, w.bind, err)
		return nil
	}
	return cn
}

// inbound is a peer that calls.
func (w *netWorld) inbound(a netip.Addr, kind int, r *rand.Rand) {
	defer w.wg.Done()
	what := fmt.Sprintf("inbound %s peer %s", inNames[kind], a)
	if !w.pause(time.Duration(r.IntN(2000)) * time.Millisecond) {
		return
	}
	hs := vHandshake(a, 0, w.offer(0), "n-"+a.String())
	var own *target
	if kind == inGood && !a.IsLoopback() {
		switch r.IntN(3) {
		case 0: // Its port is known and must not be called while the session lasts.
			own = w.listen(a, tgGood, r)
			hs.DeclaredAddr = proto.HandshakeTCPAddr(vTCPAddr(a, own.port))
			own.never = "it has called itself"
		case 1:
			hs.DeclaredAddr = proto.HandshakeTCPAddr(proto.NewTCPAddr(net.IPv4(9, 9, 9, 9), 99))
		}
	}
	offers := 0
	if kind == inGood {
		for range r.IntN(3) { // Sessions without handshake lead on to the next version.
			cn := w.dial(what, a)
			if cn == nil {
				return
			}
			_ = cn.(*net.TCPConn).CloseWrite()
			w.refused(what+" hanging up", a, cn)
			_ = cn.Close()
			offers++
		}
	}
	if kind == inTwice {
		w.twice(what, a, r)
		return
	}
	cn := w.dial(what, a)
	if cn == nil {
		return
	}
	defer func() { _ = cn.Close() }()
	ver := w.offer(offers)
	switch kind {
	case inSilent:
		<-w.stop
		if _, ok := w.listed(a); ok {
			w.err("listed", "%s is among the connections", what)
		}
		return
	case inGarbage, inHalf:
		b := make([]byte, 10+r.IntN(200))
		for i := range b {
			b[i] = byte(r.Uint32())
		}
		b[0] = byte(r.IntN(30)) // Length of the application name; the node name then has a random length.
		if kind == inHalf {
			b = append([]byte{6}, "waves"+string(vScheme)...)
		}
		_, _ = cn.Write(b)
		_ = cn.(*net.TCPConn).CloseWrite()
		_ = cn.SetReadDeadline(time.Now().Add(nWait))
		if kind == inHalf {
			w.refused(what, a, cn)
		}
		return
	case inAlien:
		hs.AppName = []string{"wavesT", "wavesW", "waves", "S ", "wavess"}[r.IntN(5)]
	case inNoApp:
		hs.AppName = ""
	case inVersion:
		hs.Version = badVersion(r, ver)
	case inGood:
		hs.Version = goodVersion(r, ver)
		if r.IntN(3) == 0 {
			hs.NodeNonce = []uint64{0, uint64(w.d.nonce), 12345}[r.IntN(3)]
		}
	}
	p, err := vShake(cn, hs, true, nWait)
	if err != nil {
		w.err("no-handshake", "%s: no answer to the handshake: %v", what, err)
		return
	}
	w.checkShake(what, p.hs, ver)
	if kind != inGood {
		w.refused(what, a, cn)
		_ = cn.Close()
		for range 1 + r.IntN(2) { // Whatever it says now.
			if cn = w.dial(what, a); cn == nil {
				return
			}
			if r.IntN(2) == 0 {
				good := vHandshake(a, 0, w.offer(0), "better")
				_, _ = good.WriteTo(cn)
			}
			w.refused(what+" calling again", a, cn)
			_ = cn.Close()
		}
		if q, err := w.d.reg.Peer(a); err != nil || q.State != peers.PeerHostile {
			w.err("not-hostile", "%s is recorded in state %v (%v)", what, q.State, err)
		}
		return
	}
	go p.run()
	if !w.established(what, a, p, hs) {
		return
	}
	if r.IntN(3) == 0 {
		<-w.stop // Stays.
		if p.closed(0) {
			w.err("dropped", "%s: the session has been closed by the detector", what)
		}
		if _, ok := w.listed(a); !ok {
			w.err("dropped", "%s: the session is not among the connections any more", what)
		}
		w.steady.Add(1)
		return
	}
	w.pause(time.Duration(r.IntN(1500)) * time.Millisecond)
	w.hangUp(cn, r)
	w.gone(what, a)
	if r.IntN(2) == 0 { // And again, with what has worked.
		again := w.dial(what, a)
		if again == nil {
			return
		}
		defer func() { _ = again.Close() }()
		last := proto.NewVersion(hs.Version.Major(), hs.Version.Minor(), hs.Version.Patch())
		if p, err = vShake(again, hs, true, nWait); err != nil {
			w.err("no-handshake", "%s: no answer to the second handshake: %v", what, err)
			return
		}
		w.checkShake(what+" for the second time", p.hs, last)
		go p.run()
		w.established(what+" for the second time", a, p, hs)
		w.hangUp(again, r)
		w.gone(what, a)
	}
}

// call makes an inbound session with the handshake; the peer is expected to be offered the version.
func (w *netWorld) call(what string, a netip.Addr, ver proto.Version, hs proto.Handshake) (net.Conn, *tcpPeer) {
	cn := w.dial(what, a)
	if cn == nil {
		return nil, nil
	}
	p, err := vShake(cn, hs, true, nWait)
	if err != nil {
		w.err("no-handshake", "%s: no answer to the handshake: %v", what, err)
		_ = cn.Close()
		return nil, nil
	}
	w.checkShake(what, p.hs, ver)
	go p.run()
	return cn, p
}

// twice has two sessions with the detector at the same time.
func (w *netWorld) twice(what string, a netip.Addr, r *rand.Rand) {
	hs := vHandshake(a, 0, goodVersion(r, w.offer(0)), "n-"+a.String())
	c1, p1 := w.call(what, a, w.offer(0), hs)
	if c1 == nil {
		return
	}
	defer func() { _ = c1.Close() }()
	if !w.established(what, a, p1, hs) {
		return
	}
	second := vHandshake(a, 0, hs.Version, "n2-"+a.String())
	if r.IntN(4) == 0 { // A peer of this network turns out to be one of another.
		second.AppName = "wavesT"
		c2, _ := w.call(what+" with an alien session", a, hs.Version, second)
		if c2 == nil {
			return
		}
		defer func() { _ = c2.Close() }()
		if !p1.closed(nWait) {
			w.err("not-closed", "%s: the older session of a peer found hostile is still open after %s", what, nWait)
		}
		w.refused(what+" with an alien session", a, c1)
		w.c.count("sessions_closed_by_hostile_ones", 1)
		return
	}
	c2, p2 := w.call(what+" for the second time", a, hs.Version, second)
	if c2 == nil {
		return
	}
	defer func() { _ = c2.Close() }()
	if !vEventually(nWait, func() bool { q, ok := w.listed(a); return ok && q.Name == second.NodeName }) {
		w.err("record", "%s: its second session is not recorded", what)
	}
	if !w.established(what+" for the second time", a, p2, second) {
		return
	}
	if r.IntN(2) == 0 {
		c1, c2, p1, p2 = c2, c1, p2, p1
	}
	w.oneOfTwo(what, a, second, c1, p1, c2, p2, r)
}

// oneOfTwo ends the first session and then the second one; in between the peer has to be shown.
func (w *netWorld) oneOfTwo(what string, a netip.Addr, mine proto.Handshake, c1 net.Conn, p1 *tcpPeer, c2 net.Conn, p2 *tcpPeer, r *rand.Rand) {
	w.hangUp(c1, r)
	w.stays(what+" after the end of one of two sessions", a, p1, p2)
	if w.established(what+" with the other session", a, p2, mine) {
		w.c.count("overlapping_sessions", 1)
	}
	w.hangUp(c2, r)
	w.gone(what+" with both sessions", a)
}

// stays demands that the peer is shown for a while after the end of the session.
func (w *netWorld) stays(what string, a netip.Addr, ended, other *tcpPeer) {
	if ended != nil && !ended.closed(nWait) {
		w.err("not-closed", "%s: the session hung up is still open after %s", what, nWait)
	}
	for range 40 {
		if _, ok := w.listed(a); !ok {
			w.err("dropped", "%s: the peer is not among the connections, its other session is closed: %v", what, other.closed(0))
			return
		}
		if !w.pause(20 * time.Millisecond) {
			break
		}
	}
}

func (w *netWorld) hangUp(cn net.Conn, r *rand.Rand) {
	switch r.IntN(4) {
	case 0: // Reset.
		_ = cn.(*net.TCPConn).SetLinger(0)
	case 1: // A message cut short.
		_, _ = cn.Write([]byte{0, 0, 1, 0, 0x12, 0x34, 0x56, 0x78, 23})
	case 2: // Not the protocol.
		_, _ = cn.Write([]byte("GET / HTTP/1.1\r\nHost: x\r\n\r\n"))
		return // The detector hangs up.
	}
	_ = cn.Close()
}

const (
	tgGood = iota
	tgLate
	tgAlien
	tgVersion
	tgClose
	tgSilent
	tgGarbage
	tgRefuse
	tgHole
	tgCross
	tgKinds
)

var tgNames = []string{"good", "late", "alien", "incompatible", "closing", "silent", "garbage", "absent", "unreachable", "crossing"}

// target is a peer to be called.
type target struct {
	a     netip.Addr
	kind  int
	port  int
	l     net.Listener
	calls atomic.Int64
	first time.Time
	known time.Time
	never string // why it must not be called
	what  string
	ver   *proto.Version // what it must be offered, if not the first version
}

// vHole is a port that answers no call: the queue of its listener is full.
func vHole(c *vc, a netip.Addr) (int, func()) {
	fd, err := syscall.Socket(syscall.AF_INET, syscall.SOCK_STREAM, 0)
	c.must(err)
	sa := &syscall.SockaddrInet4{Addr: a.As4()}
	c.must(syscall.Bind(fd, sa))
	c.must(syscall.Listen(fd, 0))
	got, err := syscall.Getsockname(fd)
	c.must(err)
	port := got.(*syscall.SockaddrInet4).Port
	var fill []net.Conn
	for range 3 {
		if cn, err := net.DialTimeout("tcp", fmt.Sprintf("%s:%d", a, port), 50*time.Millisecond); err == nil {
			fill = append(fill, cn)
		}
	}
	return port, func() {
		for _, cn := range fill {
			_ = cn.Close()
		}
		_ = syscall.Close(fd)
	}
}

func (w *netWorld) listen(a netip.Addr, kind int, r *rand.Rand) *target {
	t := &target{a: a, kind: kind, port: 1, what: fmt.Sprintf("called %s peer %s", tgNames[kind], a)}
	switch kind {
	case tgRefuse:
	case tgHole:
		var free func()
		t.port, free = vHole(w.c, a)
		w.wg.Add(1)
		go func() {
			defer w.wg.Done()
			<-w.stop
			free()
		}()
	default:
		l, err := net.Listen("tcp", netip.AddrPortFrom(a, 0).String())
		w.c.must(err)
		t.l, t.port = l, l.Addr().(*net.TCPAddr).Port
		seed := r.Uint64()
		w.wg.Add(1)
		go func() {
			defer w.wg.Done()
			for {
				cn, err := l.Accept()
				if err != nil {
					return
				}
				n := t.calls.Add(1)
				if n == 1 {
					w.mu.Lock()
					t.first = time.Now()
					w.mu.Unlock()
				}
				w.wg.Add(1)
				go func() {
					defer w.wg.Done()
					w.called(t, cn, rand.New(rand.NewPCG(seed, uint64(n))))
					_ = cn.Close()
				}()
			}
		}()
		go func() {
			<-w.stop
			_ = l.Close()
		}()
	}
	w.mu.Lock()
	w.targets = append(w.targets, t)
	w.mu.Unlock()
	return t
}

// called handles a call from the detector.
func (w *netWorld) called(t *target, cn net.Conn, r *rand.Rand) {
	if t.never != "" {
		w.err("called", "%s has been called though %s", t.what, t.never)
		return
	}
	if t.kind == tgClose {
		if r.IntN(2) == 0 {
			_ = cn.(*net.TCPConn).SetLinger(0)
		}
		return
	}
	if t.kind == tgSilent {
		<-w.stop
		w.steady.Add(1)
		return
	}
	var hs proto.Handshake
	_ = cn.SetReadDeadline(time.Now().Add(nWait))
	if _, err := hs.ReadFrom(cn); err != nil {
		w.err("no-handshake", "%s gets no handshake: %v", t.what, err)
		return
	}
	ver := w.offer(0)
	if t.ver != nil {
		ver = *t.ver
	}
	w.checkShake(t.what, hs, ver)
	mine := vHandshake(t.a, t.port, goodVersion(r, ver), "t-"+t.a.String())
	if r.IntN(3) == 0 { // A nonce need not be unique.
		mine.NodeNonce = []uint64{0, uint64(w.d.nonce), 12345}[r.IntN(3)]
	}
	switch t.kind {
	case tgCross:
		w.cross(t, cn, hs, mine, r)
		return
	case tgLate:
		if !w.pause(w.period*5/2 + time.Duration(r.IntN(500))*time.Millisecond) {
			return
		}
	case tgAlien:
		mine.AppName = []string{"wavesT", "wavesW", ""}[r.IntN(3)]
	case tgVersion:
		mine.Version = badVersion(r, ver)
	case tgGarbage:
		b := make([]byte, 1+r.IntN(300))
		for i := range b {
			b[i] = byte(r.Uint32())
		}
		_, _ = cn.Write(b)
		_ = cn.(*net.TCPConn).CloseWrite()
		return
	}
	if _, err := mine.WriteTo(cn); err != nil {
		w.err("dropped", "%s: writing the handshake: %v", t.what, err)
		return
	}
	if t.kind == tgAlien || t.kind == tgVersion {
		w.refused(t.what, t.a, cn)
		if q, err := w.d.reg.Peer(t.a); err != nil || q.State != peers.PeerHostile {
			w.err("not-hostile", "%s is recorded in state %v (%v)", t.what, q.State, err)
		}
		return
	}
	_ = cn.SetDeadline(time.Time{})
	p := &tcpPeer{conn: cn, hs: hs, done: make(chan struct{})}
	go p.run()
	if !w.established(t.what, t.a, p, mine) {
		return
	}
	if r.IntN(2) == 0 {
		<-w.stop
		if p.closed(0) {
			w.err("dropped", "%s: the session has been closed by the detector", t.what)
		}
		w.steady.Add(1)
		return
	}
	w.pause(time.Duration(r.IntN(2000)) * time.Millisecond)
	w.hangUp(cn, r)
	w.gone(t.what, t.a)
}

// cross calls the detector while it waits for the handshake of the target.
func (w *netWorld) cross(t *target, cn net.Conn, hs, mine proto.Handshake, r *rand.Rand) {
	in := vHandshake(t.a, t.port, goodVersion(r, w.offer(1)), "t-"+t.a.String())
	ci, pi := w.call(t.what, t.a, w.offer(1), in)
	if ci == nil {
		return
	}
	defer func() { _ = ci.Close() }()
	if !w.established(t.what, t.a, pi, in) {
		return
	}
	mine.Version = in.Version                                                                      // It is the same peer.
	if d := int(in.Version.Minor()) - int(hs.Version.Minor()); d > 1 || d < -1 || r.IntN(2) == 0 { // The attempt fails.
		_ = cn.Close()
		w.stays(t.what+" after the failure of the call", t.a, nil, pi)
		if w.established(t.what+" after the failure of the call", t.a, pi, in) {
			w.c.count("failures_besides_sessions", 1)
		}
		w.pause(time.Duration(r.IntN(int(2 * w.period)))) // It is not called again.
		w.hangUp(ci, r)
		w.gone(t.what, t.a)
		return
	}
	mine.NodeName += "-out"
	if _, err := mine.WriteTo(cn); err != nil {
		w.err("dropped", "%s: writing the handshake: %v", t.what, err)
		return
	}
	_ = cn.SetDeadline(time.Time{})
	po := &tcpPeer{conn: cn, hs: hs, done: make(chan struct{})}
	go po.run()
	if !vEventually(nWait, func() bool { q, ok := w.listed(t.a); return ok && q.Name == mine.NodeName }) {
		w.err("record", "%s: its second session is not recorded", t.what)
	}
	if !w.established(t.what+" both ways", t.a, po, mine) {
		return
	}
	if r.IntN(2) == 0 {
		w.oneOfTwo(t.what, t.a, mine, cn, po, ci, pi, r)
	} else {
		w.oneOfTwo(t.what, t.a, mine, ci, pi, cn, po, r)
	}
}

func (w *netWorld) announce(ts []*target, how int, from netip.Addr, r *rand.Rand) {
	now := time.Now()
	var as []*net.TCPAddr
	var infos []proto.PeerInfo
	for _, t := range ts {
		t.known = now
		as = append(as, net.TCPAddrFromAddrPort(netip.AddrPortFrom(t.a, uint16(t.port))))
		infos = append(infos, proto.PeerInfo{Addr: net.IP(t.a.AsSlice()), Port: uint16(t.port)})
	}
	if how == 0 {
		if n := w.d.reg.AppendAddresses(as); n != len(as) {
			w.err("append", "%d of %d addresses added", n, len(as))
		}
		return
	}
	// By a network peer.
	cn := w.dial("announcing peer", from)
	if cn == nil {
		return
	}
	p, err := vShake(cn, vHandshake(from, 0, w.offer(0), "gossip"), true, nWait)
	if err != nil {
		w.err("no-handshake", "announcing peer %s: %v", from, err)
		return
	}
	go p.run()
	w.established("announcing peer", from, p, vHandshake(from, 0, w.offer(0), "gossip"))
	if err := p.send(&proto.PeersMessage{Peers: infos}); err != nil {
		w.err("dead", "announcing peer: %v", err)
	}
	ok := vEventually(nWait, func() bool {
		for _, t := range ts {
			if _, err := w.d.reg.Peer(t.a); err != nil {
				return false
			}
		}
		return true
	})
	if !ok {
		w.err("append", "announced peers are not in the address book")
	}
	_ = cn.Close()
}

func netCase(c *vc) {
	r := c.rng
	n, _ := strconv.Atoi(c.name[len("net-"):])
	ns := os.Getenv("VERIF_NETNS") != ""
	scale, _ := strconv.Atoi(os.Getenv("VERIF_TIME_SCALE"))
	w := &netWorld{c: c, d: newDetector(c), stop: make(chan struct{}), period: 10 * time.Second / time.Duration(max(1, scale))}
	vs := [][]uint32{{5}, {5, 4}, {5, 3}, {7, 5, 2}, {4, 5}}[r.IntN(5)]
	for _, m := range vs {
		w.vers = append(w.vers, proto.NewVersion(1, m, 0))
	}
	w.d.vers = append([]proto.Version(nil), w.vers...)
	w.d.nonce = []uint32{77, 0, 1 << 31, 1<<32 - 1, r.Uint32()}[r.IntN(5)]
	sort.Slice(w.vers, func(i, j int) bool { return w.vers[i].Cmp(w.vers[j]) > 0 })
	host := netip.AddrFrom4([4]byte{127, 77, byte(n / 200), byte(1 + n%200)})
	if ns {
		host = vAddr("10.77.0.1")
	}
	port := 20000 + n
	w.bind = fmt.Sprintf("%s:%d", host, port)
	w.d.bind = vTCPAddr(host, port)
	w.d.declared = vTCPAddr(vAddr("10.77.0.1"), port)
	listens := !ns || r.IntN(6) > 0
	if !listens {
		w.d.declared = proto.TCPAddr{}
	}
	w.d.start(true, false)
	at := time.Now()
	pool := r.Perm(150)
	next := func() netip.Addr {
		i := pool[0]
		pool = pool[1:]
		if !ns {
			return netip.AddrFrom4([4]byte{127, 78, byte(n), byte(2 + i)})
		}
		return netip.AddrFrom4([4]byte{10, 77, 0, byte(2 + i)})
	}
	ins := 0
	if listens {
		ins = 2 + r.IntN(8)
	}
	for i := range ins {
		kind := r.IntN(inKinds)
		if i == 0 {
			kind = inGood
		}
		c.count("inbound_"+inNames[kind], 1)
		w.wg.Add(1)
		go w.inbound(next(), kind, rand.New(rand.NewPCG(r.Uint64(), 1)))
	}
	// Addresses to be called become known in batches.
	var called []*target
	if ns {
		many := r.IntN(6) == 0 // More than a few sessions at once.
		for range 1 + r.IntN(3) {
			var batch []*target
			size := 1 + r.IntN(6)
			if many {
				size = 10 + r.IntN(30)
			}
			for i := range size {
				kind := r.IntN(tgKinds)
				if i == 0 || many && r.IntN(4) > 0 {
					kind = r.IntN(2)
				}
				if kind == tgCross && !listens {
					kind = tgSilent
				}
				c.count("target_"+tgNames[kind], 1)
				batch = append(batch, w.listen(next(), kind, r))
			}
			how := 0
			if listens {
				how = r.IntN(2)
			}
			w.announce(batch, how, next(), r)
			called = append(called, batch...)
			time.Sleep(time.Duration(r.IntN(int(w.period))))
		}
	}
	w.raise()
	// All of them are called.
	for _, t := range called {
		if t.l == nil {
			continue
		}
		ok := vEventually(2*w.period+nWait, func() bool { return t.calls.Load() > 0 })
		c.check(ok, "not-called", "%s is known for %s, the respawn period is %s, but it has not been called", t.what, time.Since(t.known), w.period)
		w.mu.Lock()
		c.max("max_ms_until_call", int(t.first.Sub(t.known)/time.Millisecond))
		w.mu.Unlock()
		c.count("calls", 1)
	}
	// Several more respawn periods: nobody is called again.
	time.Sleep(time.Duration(r.IntN(3000))*time.Millisecond + 7*w.period/2)
	w.raise()
	for _, t := range called {
		if t.l != nil {
			c.check(t.calls.Load() == 1, "called-again", "%s has been called %d times in %s", t.what, t.calls.Load(), time.Since(t.known))
		}
	}
	close(w.stop)
	ended := make(chan struct{})
	go func() { w.wg.Wait(); close(ended) }()
	select {
	case <-ended:
	case <-time.After(3 * nWait):
		panic("peers of the monitor do not end")
	}
	w.raise()
	stage := atomic.Value{}
	stage.Store("")
	done := make(chan struct{})
	go func() {
		defer close(done)
		w.d.shutdown(func(s string) { stage.Store(s) })
	}()
	select {
	case <-done:
	case <-time.After(nWait):
		c.fail("shutdown", "no end within %s at stage %v", nWait, stage.Load())
	}
	c.op("%d inbound peers, %d called, listening=%v, versions %v, %d sessions kept over respawns, %s", ins, len(called), listens, w.vers, w.steady.Load(), time.Since(at))
	c.count("kept_sessions", int(w.steady.Load()))
	c.eval(vHash(c.name, ins, len(called), listens))
	c.sampleTrace(2)
}

// retryCase: whatever way an attempt to call a peer ends, the peer is called again ten minutes after that end.
func retryCase(c *vc) {
	if os.Getenv("VERIF_NETNS") == "" {
		c.count("no_namespace", 1)
		return
	}
	r := c.rng
	n, _ := strconv.Atoi(c.name[len("retry-"):])
	scale, _ := strconv.Atoi(os.Getenv("VERIF_TIME_SCALE"))
	period := 10 * time.Second / time.Duration(max(1, scale))
	addr := func(i int) netip.Addr { return netip.AddrFrom4([4]byte{10, 77, 220 + byte(n%30), byte(1 + i)}) }
	d := newDetector(c)
	d.bind = vTCPAddr(addr(0), 29000+n)
	d.start(true, false)
	ways := []string{"unreachable", "closed", "reset", "handshake ignored", "garbage", "half of a handshake", "absent", "session closed", "session reset", "silent and closed"}
	type tgt struct {
		what  string
		a     netip.Addr
		mu    sync.Mutex
		calls []time.Time
		ended time.Time
	}
	var ts []*tgt
	var ls []net.Listener
	for i, what := range ways {
		t := &tgt{what: what, a: addr(1 + i)}
		ts = append(ts, t)
		hold := 2500*time.Millisecond + time.Duration(r.IntN(1500))*time.Millisecond
		if what == "unreachable" { // Nothing comes back.
			port, free := vHole(c, t.a)
			defer free()
			t.ended = time.Now().Add(4 * time.Second) // The call starts later and takes five seconds.
			if d.reg.AppendAddresses([]*net.TCPAddr{net.TCPAddrFromAddrPort(netip.AddrPortFrom(t.a, uint16(port)))}) != 1 {
				c.fail("append", "address %s is not added", t.a)
			}
			continue
		}
		l, err := net.Listen("tcp", netip.AddrPortFrom(t.a, 0).String())
		c.must(err)
		port := l.Addr().(*net.TCPAddr).Port
		garbage := make([]byte, 1+r.IntN(300))
		for i := range garbage {
			garbage[i] = byte(r.Uint32())
		}
		garbage[0] = byte(r.IntN(30))
		serve := func(l net.Listener) {
			for {
				cn, err := l.Accept()
				if err != nil {
					return
				}
				t.mu.Lock()
				t.calls = append(t.calls, time.Now())
				again := len(t.calls) > 1
				t.mu.Unlock()
				if again {
					_ = cn.Close()
					continue
				}
				var hs proto.Handshake
				var end func()
				switch what {
				case "closed":
				case "reset":
					_ = cn.(*net.TCPConn).SetLinger(0)
				case "handshake ignored":
					_, _ = hs.ReadFrom(cn)
				case "garbage", "half of a handshake":
					_, _ = hs.ReadFrom(cn)
					if what == "garbage" {
						end = func() { _, _ = cn.Write(garbage) }
					} else {
						_, _ = cn.Write(append([]byte{6}, "waves"+string(vScheme)...))
					}
				case "session closed", "session reset":
					_, _ = hs.ReadFrom(cn)
					mine := vHandshake(t.a, port, hs.Version, "retry")
					_, _ = mine.WriteTo(cn)
					if what == "session reset" {
						_ = cn.(*net.TCPConn).SetLinger(0)
					}
				}
				time.Sleep(hold)
				t.mu.Lock()
				t.ended = time.Now()
				t.mu.Unlock()
				if end != nil {
					end()
				}
				_ = cn.Close()
			}
		}
		if what == "absent" {
			_ = l.Close()
			t.ended = time.Now() // Later, in fact.
			go func() {
				time.Sleep(2*period + 5*time.Second)
				l, err := net.Listen("tcp", netip.AddrPortFrom(t.a, uint16(port)).String())
				if err != nil {
					return
				}
				t.mu.Lock()
				ls = append(ls, l)
				t.mu.Unlock()
				serve(l)
			}()
		} else {
			ls = append(ls, l)
			go serve(l)
		}
		if d.reg.AppendAddresses([]*net.TCPAddr{net.TCPAddrFromAddrPort(netip.AddrPortFrom(t.a, uint16(port)))}) != 1 {
			c.fail("append", "address %s is not added", t.a)
		}
		time.Sleep(time.Duration(r.IntN(300)) * time.Millisecond)
	}
	for _, t := range ts {
		ok := vEventually(2*period+nWait, func() bool { t.mu.Lock(); defer t.mu.Unlock(); return !t.ended.IsZero() })
		c.check(ok, "not-called", "peer %s is not called within %s", t.a, 2*period+nWait)
		if t.what == "absent" {
			continue
		}
		// The next attempt is due ten minutes after the end.
		var got time.Time
		ok = vEventually(nWait, func() bool {
			p, err := d.reg.Peer(t.a)
			c.noErr(err, "query", "peer %s", t.a)
			got = p.NextAttempt
			return got.Sub(t.ended) >= vDelay-1500*time.Millisecond
		})
		c.check(ok, "due", "call of peer %s (%s) ended at %s, but the next one is due at %s", t.a, t.what, t.ended.UTC(), got.UTC())
		c.check(got.Sub(t.ended) <= vDelay+nWait, "due", "call of peer %s (%s) ended at %s, but the next one is due at %s", t.a, t.what, t.ended.UTC(), got.UTC())
		c.count("ends_of_calls", 1)
	}
	if vThorough() {
		for _, t := range ts {
			if t.what == "unreachable" {
				continue
			}
			var at time.Time
			until := time.Until(t.ended) + vDelay + 3*period + nWait
			ok := vEventually(until, func() bool {
				t.mu.Lock()
				defer t.mu.Unlock()
				k := 1
				if t.what == "absent" {
					k = 0
				}
				if len(t.calls) > k {
					at = t.calls[k]
				}
				return len(t.calls) > k
			})
			c.check(ok, "not-called-again", "the call of peer %s (%s) ended at %s, it is not called again until %s", t.a, t.what, t.ended.UTC(), time.Now().UTC())
			c.check(at.Sub(t.ended) >= vDelay-2*time.Second, "called-again", "the call of peer %s (%s) ended at %s, it is called again at %s", t.a, t.what, t.ended.UTC(), at.UTC())
			c.count("calls_repeated", 1)
			c.op("%s: called again %s after the end", t.what, at.Sub(t.ended))
		}
	}
	d.shutdown(nil)
	for _, t := range ts {
		t.mu.Lock()
	}
	for _, l := range ls {
		_ = l.Close()
	}
	for _, t := range ts {
		t.mu.Unlock()
	}
	c.eval(vHash(c.name))
}

// crowdInCase: one listener serves hundreds of peers, many of them at the same time.
func crowdInCase(c *vc) {
	r := c.rng
	n, _ := strconv.Atoi(c.name[len("crowd-"):])
	ns := os.Getenv("VERIF_NETNS") != ""
	addr := func(i int) netip.Addr {
		a := [4]byte{10, 77, 90 + byte(n%40)*3, byte(i)}
		a[2] += byte(i >> 8)
		if !ns {
			a[0], a[1] = 127, 79
		}
		return netip.AddrFrom4(a)
	}
	w := &netWorld{c: c, d: newDetector(c), stop: make(chan struct{}), vers: []proto.Version{vVer15}}
	w.d.bind = vTCPAddr(addr(1), 33000+n)
	w.d.declared = w.d.bind
	w.bind = w.d.bind.String()
	w.d.start(true, false)
	var look sync.WaitGroup
	look.Add(1)
	w.seen.Store(&map[netip.Addr]peers.Peer{})
	go func() {
		defer look.Done()
		for w.pause(100 * time.Millisecond) {
			cs, err := w.d.reg.Connections()
			if err != nil {
				w.err("query", "connections: %v", err)
			}
			m := map[netip.Addr]peers.Peer{}
			for _, p := range cs {
				m[p.ID()] = p
			}
			w.seen.Store(&m)
		}
	}()
	total := 150 + r.IntN(vScale(250, 350))
	stay := 0
	var wg sync.WaitGroup
	slots := make(chan struct{}, 1+r.IntN(60))
	for i := range total {
		a := addr(2 + i)
		kind := r.IntN(10)
		stays := kind > 4
		if stays {
			stay++
		}
		slots <- struct{}{}
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() { <-slots }()
			what := fmt.Sprintf("peer %d of %d, %s", i+1, total, a)
			cn := w.dial(what, a)
			if cn == nil {
				return
			}
			switch {
			case kind < 2: // Gone before it has said anything.
				_ = cn.Close()
				return
			case kind < 3: // Stays, silent or after half of a handshake.
				_, _ = cn.Write([]byte{6, 'w', 'a', 'v'}[:i%5])
				go func() { <-w.stop; _ = cn.Close() }()
				return
			}
			hs := vHandshake(a, 0, vVer15, "crowd")
			p, err := vShake(cn, hs, true, nWait)
			if err != nil {
				w.err("no-handshake", "%s: no answer to the handshake: %v", what, err)
				return
			}
			w.checkShake(what, p.hs, vVer15)
			go p.run()
			w.established(what, a, p, hs)
			if !stays {
				_ = cn.Close()
				w.gone(what, a)
				return
			}
			go func() {
				<-w.stop
				if p.closed(0) {
					w.err("dropped", "%s: the session has been closed by the detector", what)
				}
				_ = cn.Close()
			}()
		}()
	}
	wg.Wait()
	w.raise()
	cs, err := w.d.reg.Connections()
	c.noErr(err, "query", "connections")
	c.check(len(cs) == stay, "connections", "%d connections are listed, %d sessions are open", len(cs), stay)
	c.max("max_sessions", stay)
	close(w.stop)
	look.Wait()
	c.check(vEventually(nWait, func() bool { cs, _ := w.d.reg.Connections(); return len(cs) == 0 }), "still-listed", "all peers have hung up but are still among the connections")
	w.raise()
	w.d.shutdown(nil)
	c.op("%d peers called, %d stayed", total, stay)
	c.count("crowd_peers", total)
	c.eval(vHash(c.name, total, stay))
}

// bookCase starts with a full address book: everybody who is due is called, and offered what is known to suit it.
func bookCase(c *vc) {
	if os.Getenv("VERIF_NETNS") == "" {
		c.count("no_namespace", 1)
		return
	}
	r := c.rng
	n, _ := strconv.Atoi(c.name[len("book-"):])
	scale, _ := strconv.Atoi(os.Getenv("VERIF_TIME_SCALE"))
	addr := func(i int) netip.Addr { return netip.AddrFrom4([4]byte{10, 77, 180 + byte(n%40), byte(1 + i)}) }
	w := &netWorld{c: c, d: newDetector(c), stop: make(chan struct{}), period: 10 * time.Second / time.Duration(max(1, scale)),
		vers: []proto.Version{proto.NewVersion(1, 5, 0), proto.NewVersion(1, 3, 0)}}
	w.d.vers = append([]proto.Version(nil), w.vers...)
	w.d.bind = vTCPAddr(addr(0), 35000+n)
	w.d.declared = w.d.bind
	w.bind = w.d.bind.String()
	reg, err := peers.NewRegistry(vScheme, w.d.declared, append([]proto.Version(nil), w.vers...), w.d.dir)
	c.noErr(err, "open", "opening the peer registry")
	total := 80 + r.IntN(100)
	var due []*target
	fill := func(i int) {
		a := addr(1 + i)
		kind := tgGood
		if r.IntN(8) == 0 {
			kind = []int{tgClose, tgSilent, tgRefuse, tgHole, tgAlien, tgVersion, tgGarbage}[r.IntN(7)]
		}
		t := w.listen(a, kind, r)
		t.what += fmt.Sprintf(" (%d of %d)", i+1, total)
		shake := func(app string) *fakePeer {
			ver, err := reg.SuggestVersion(a)
			c.noErr(err, "suggest", "offering a version to %s", a)
			hs := vHandshake(a, t.port, goodVersion(r, ver), "before")
			hs.AppName = app
			fp := newFakePeer(a, hs)
			_ = reg.RegisterPeer(a, fp, hs)
			return fp
		}
		own := "waves" + string(vScheme)
		switch r.IntN(8) {
		case 0: // Was connected before: it's offered the version it had.
			v := shake(own).hs.Version
			t.ver = &v
			due = append(due, t)
			c.count("book_friends", 1)
		case 1:
			if reg.AppendAddresses([]*net.TCPAddr{net.TCPAddrFromAddrPort(netip.AddrPortFrom(a, uint16(t.port)))}) != 1 {
				c.fail("append", "address %s is not added", a)
			}
			shake("wavesW")
			t.never = "it is hostile"
			c.count("book_hostile", 1)
		case 2: // It's too early.
			c.noErr(reg.UnregisterPeer(a, shake(own)), "unregister", "ending the session")
			t.never = "it is not due for ten minutes"
		default:
			if reg.AppendAddresses([]*net.TCPAddr{net.TCPAddrFromAddrPort(netip.AddrPortFrom(a, uint16(t.port)))}) != 1 {
				c.fail("append", "address %s is not added", a)
			}
			due = append(due, t)
		}
	}
	for i := range total {
		fill(i)
	}
	c.noErr(reg.Close(), "close", "closing the registry")
	time.Sleep(1100 * time.Millisecond) // The moment of a registration is known up to a second.
	// All listings come from one source.
	var look sync.WaitGroup
	blind := make(chan struct{})
	w.seen.Store(&map[netip.Addr]peers.Peer{})
	w.d.start(true, false)
	reg = w.d.reg
	look.Add(1)
	go func() {
		defer look.Done()
		for {
			select {
			case <-blind:
				return
			case <-time.After(50 * time.Millisecond):
			}
			cs, err := w.d.reg.Connections()
			if err != nil {
				w.err("query", "connections: %v", err)
			}
			m := map[netip.Addr]peers.Peer{}
			for _, p := range cs {
				m[p.ID()] = p
			}
			w.seen.Store(&m)
		}
	}()
	called := func(ts []*target) {
		for _, t := range ts {
			if t.l == nil {
				continue
			}
			ok := vEventually(2*w.period+nWait, func() bool { return t.calls.Load() > 0 })
			c.check(ok, "not-called", "%s is due, the respawn period is %s, but it has not been called in %s", t.what, w.period, 2*w.period+nWait)
			c.count("calls", 1)
		}
	}
	called(due)
	time.Sleep(w.period)
	w.raise()
	c.max("max_sessions", len(*w.seen.Load()))
	// Some more become known.
	var more []*target
	for i := range 3 {
		more = append(more, w.listen(addr(1+total+i), tgGood, r))
	}
	w.announce(more, 0, netip.Addr{}, r)
	called(more)
	time.Sleep(2 * w.period)
	w.raise()
	w.mu.Lock()
	ts := append([]*target(nil), w.targets...)
	w.mu.Unlock()
	for _, t := range ts {
		c.check(t.calls.Load() <= 1, "called-again", "%s has been called %d times", t.what, t.calls.Load())
	}
	close(w.stop)
	ended := make(chan struct{})
	go func() { w.wg.Wait(); close(ended) }()
	select {
	case <-ended:
	case <-time.After(3 * nWait):
		panic("peers of the monitor do not end")
	}
	close(blind) // Peers that hang up at the end have to be seen too.
	look.Wait()
	w.raise()
	w.d.shutdown(nil)
	c.op("%d in the book, %d due", total, len(due))
	c.count("book_entries", total)
	c.eval(vHash(c.name, total, len(due)))
}

// daysCase watches for days of virtual time when addresses that nobody answers at are called: known ones from the start, announced ones, after hours of nothing to do, too.
func daysCase(c *vc) {
	r := c.rng
	period := 10 * time.Second
	var vs []proto.Version
	for _, m := range r.Perm(8)[:1+r.IntN(3)] {
		vs = append(vs, proto.NewVersion(1, uint32(m), 0))
	}
	dir := c.dir()
	reg, err := peers.NewRegistry(vScheme, proto.TCPAddr{}, vs, dir)
	c.noErr(err, "open", "opening the peer registry")
	since := map[netip.Addr]time.Time{} // when it became known or its attempt before the last recorded one was due
	last := map[netip.Addr]time.Time{}
	n := 0
	announce := func(k int) {
		var as []*net.TCPAddr
		for range k {
			n++
			a := netip.AddrFrom4([4]byte{10, 77, 250 + byte(n>>8), byte(n)})
			as = append(as, &net.TCPAddr{IP: net.IP(a.AsSlice()), Port: 1 + r.IntN(3)})
			since[a] = time.Now()
			last[a] = time.Time{}
		}
		c.check(reg.AppendAddresses(as) == k, "append", "not all of %d new addresses are added", k)
		c.op("%d addresses become known", k)
	}
	if r.IntN(2) == 0 {
		announce(1 + r.IntN(12))
	}
	cm := fd.NewConnectionManager(vScheme, "monitor", r.Uint32(), proto.TCPAddr{}, reg, peer.NewParent(true))
	rsp := fd.NewRespawn(reg, cm)
	ctx, cancel := context.WithCancel(context.Background())
	rsp.Run(ctx)
	start := time.Now()
	for i := range vScale(45, 500) {
		d := []time.Duration{time.Second, period, time.Minute, 5 * time.Minute, 9 * time.Minute}[r.IntN(5)]
		if r.IntN(25) == 0 {
			d = time.Duration(1+r.IntN(3)) * time.Hour
		}
		time.Sleep(d + time.Duration(r.Int64N(int64(d))))
		synctest.Wait()
		ps, err := reg.Peers()
		c.noErr(err, "query", "all peers")
		c.check(len(ps) == n, "lost", "%d addresses in the book, expected %d", len(ps), n)
		now := time.Now()
		for _, p := range ps {
			a := p.ID()
			due := since[a]
			if p.NextAttempt.After(due) { // Attempts made are recorded as the time of the next.
				due = p.NextAttempt
			}
			late := now.Sub(due)
			c.check(late <= period+1100*time.Millisecond, "not-called", "%s is due for %s (known since %s, %s after the start), the respawn period is %s, but it has not been called", a, late, since[a], since[a].Sub(start), period)
			c.check(!p.NextAttempt.After(now.Add(10*time.Minute+1100*time.Millisecond)), "too-late", "the next call to %s is in %s", a, p.NextAttempt.Sub(now))
			if l := last[a]; !l.IsZero() && p.NextAttempt.After(l) {
				gap := p.NextAttempt.Sub(l)
				c.check(gap >= 10*time.Minute-1100*time.Millisecond, "too-early", "%s is called again %s before it is due", a, 10*time.Minute-gap)
			}
			if p.NextAttempt.After(since[a]) {
				if p.NextAttempt != last[a] {
					c.count("calls_seen", 1)
				}
				last[a] = p.NextAttempt
			}
		}
		if r.IntN(15) == 0 && n < 40 {
			announce(1 + r.IntN(6))
		}
		c.eval(vHash(c.name, i, n))
	}
	c.max("max_hours", int(time.Since(start)/time.Hour))
	cancel()
	rsp.Shutdown()
	c.noErr(reg.Close(), "close", "closing the registry")
	time.Sleep(2 * time.Minute)
}

// memConn is one end of a connection in memory.
type memConn struct {
	net.Conn
	from, to netip.AddrPort
}

func (m *memConn) RemoteAddr() net.Addr { return net.TCPAddrFromAddrPort(m.from) }

func (m *memConn) LocalAddr() net.Addr { return net.TCPAddrFromAddrPort(m.to) }

// longSession is a session of virtual days.
type longSession struct {
	*tcpPeer
	a      netip.Addr
	quiet  bool // says nothing at all
	answer bool // answers the requests of the detector
	since  time.Time
	spoke  atomic.Int64
	over   chan struct{} // the connection manager is done with it
	score  *big.Int
}

func (s *longSession) say(m proto.Message) error {
	s.spoke.Store(time.Now().UnixNano())
	return s.send(m)
}

// vigilCase keeps sessions over connections in memory for days of virtual time. Whoever says something every few minutes stays connected, is listed,
// asked for peers every minute, and what it says has its effect; whoever hangs up, or is hung up, is not listed any more.
func vigilCase(c *vc) {
	r := c.rng
	d := newDetector(c)
	d.start(false, true)
	d.cm = fd.NewConnectionManager(vScheme, "monitor", d.nonce, d.declared, d.reg, d.parent)
	start := time.Now()
	live := map[netip.Addr]*longSession{}
	dead := map[netip.Addr]bool{}
	n := 0
	call := func() {
		n++
		a := netip.AddrFrom4([4]byte{10, 77, 200, byte(n)})
		if n%5 == 4 && len(live) > 0 { // Once more from the same address, while the other session lasts or after it.
			for x := range dead {
				a = x
			}
		}
		if live[a] != nil {
			return
		}
		k := r.IntN(6)
		s := &longSession{a: a, quiet: k == 0, answer: k > 2, since: time.Now(), over: make(chan struct{})}
		c1, c2 := net.Pipe()
		go func() {
			defer close(s.over)
			_ = d.cm.Accept(d.ctx, &memConn{Conn: c1, from: netip.AddrPortFrom(a, 1024+uint16(n)), to: netip.MustParseAddrPort("10.77.0.1:6868")})
		}()
		hs := vHandshake(a, 6868, vVer15, fmt.Sprintf("p-%d", n))
		p, err := vShake(c2, hs, true, time.Minute)
		c.noErr(err, "handshake", "handshakes with %s", a)
		s.tcpPeer = p
		s.spoke.Store(time.Now().UnixNano())
		if s.answer {
			p.onMsg = func(_ *tcpPeer, m proto.Message) {
				if _, ok := m.(*proto.GetPeersMessage); ok {
					_ = s.say(&proto.PeersMessage{Peers: []proto.PeerInfo{}})
				}
			}
		}
		go p.run()
		live[a] = s
		delete(dead, a)
		c.op("session of %s: quiet %v, answers %v", a, s.quiet, s.answer)
		c.count("long_sessions", 1)
	}
	for range 2 + r.IntN(8) {
		call()
	}
	for i := range vScale(120, 1500) {
		gap := time.Duration(1+r.IntN(110)) * time.Second
		if r.IntN(3) == 0 {
			gap += time.Duration(r.IntN(110)) * time.Second
		}
		for _, s := range live {
			since := time.Duration(time.Now().UnixNano() - s.spoke.Load())
			if s.quiet || since+gap < 4*time.Minute && r.IntN(4) > 0 {
				continue
			}
			select {
			case <-s.done:
				continue
			default:
			}
			m := proto.Message(&proto.PeersMessage{Peers: []proto.PeerInfo{}})
			if r.IntN(2) == 0 {
				s.score = new(big.Int).SetUint64(1 + r.Uint64())
				m = &proto.ScoreMessage{Score: s.score.Bytes()}
			}
			c.noErr(s.say(m), "dead", "message of %s after %s of silence, %s after the start of its session", s.a, since, time.Since(s.since))
			c.count("messages_said", 1)
		}
		time.Sleep(gap)
		synctest.Wait()
		cs, err := d.reg.Connections()
		c.noErr(err, "query", "connections")
		listed := map[netip.Addr]bool{}
		for _, p := range cs {
			listed[p.ID()] = true
		}
		for a, s := range live {
			age := time.Since(s.since)
			ended := false
			select {
			case <-s.over:
				ended = true
			case <-s.done:
				ended = true
			default:
			}
			if ended {
				c.check(s.quiet, "ended", "the session of %s that speaks every few minutes ended after %s", a, age)
				c.check(!listed[a], "still-listed", "%s is listed, but its session is over", a)
				c.op("session of %s (quiet: %v) ended after at most %s", a, s.quiet, age)
				c.count("long_sessions_dropped", 1)
				delete(live, a)
				dead[a] = true
				continue
			}
			c.check(listed[a], "not-listed", "session of %s lasts for %s, but it is not listed", a, age)
			pings := 0
			for _, m := range s.messages() {
				if _, ok := m.(*proto.GetPeersMessage); ok {
					pings++
				}
			}
			want := int(time.Since(start)/time.Minute) - int(s.since.Sub(start)/time.Minute)
			c.check(pings >= want-1 && pings <= want+1, "pings", "%s was asked for peers %d times in %s, expected %d", a, pings, age, want)
			if s.score != nil {
				p, err := d.reg.Peer(a)
				c.noErr(err, "query", "record of %s", a)
				c.check(p.Score != nil && p.Score.Cmp(s.score) == 0, "score", "%s said its score is %s, it is shown as %s", a, s.score, p.Score)
				c.count("effects_seen", 1)
			}
		}
		for a := range dead {
			c.check(!listed[a], "still-listed", "%s is listed, but its session is over", a)
		}
		c.eval(vHash(c.name, i, len(live), len(dead)))
		switch r.IntN(30) {
		case 0, 1:
			call()
		case 2, 3:
			for a, s := range live {
				_ = s.conn.Close()
				synctest.Wait()
				<-s.over
				c.op("%s hung up after %s", a, time.Since(s.since))
				c.max("max_session_minutes", int(time.Since(s.since)/time.Minute))
				delete(live, a)
				dead[a] = true
				break
			}
		}
	}
	for _, s := range live {
		c.max("max_session_minutes", int(time.Since(s.since)/time.Minute))
	}
	c.max("max_hours", int(time.Since(start)/time.Hour))
	d.shutdown(nil)
	for _, s := range live {
		select {
		case <-s.over:
		case <-time.After(time.Minute):
			c.fail("not-ended", "the session of %s goes on a minute after the shutdown", s.a)
		}
		_ = s.conn.Close()
	}
	time.Sleep(2 * time.Minute)
}

// faultCase lets accepting fail for want of descriptors: after that the listener has to go on. It must run alone.
func faultCase(c *vc) {
	r := c.rng
	host := vAddr("127.83.0.1")
	w := &netWorld{c: c, d: newDetector(c), stop: make(chan struct{}), vers: []proto.Version{vVer15}}
	w.d.bind = vTCPAddr(host, 36000)
	w.d.declared = w.d.bind
	w.bind = w.d.bind.String()
	w.d.start(true, false)
	if cn := w.dial("first peer", vAddr("127.83.2.1")); cn != nil { // It listens.
		_ = cn.Close()
	}
	w.raise()
	for i := range vScale(4, 20) {
		a := netip.AddrFrom4([4]byte{127, 83, 1, byte(1 + i)})
		fd, err := syscall.Socket(syscall.AF_INET, syscall.SOCK_STREAM|syscall.SOCK_CLOEXEC, 0)
		c.must(err)
		c.must(syscall.Bind(fd, &syscall.SockaddrInet4{Addr: a.As4()}))
		var lim syscall.Rlimit
		c.must(syscall.Getrlimit(syscall.RLIMIT_NOFILE, &lim))
		c.must(syscall.Setrlimit(syscall.RLIMIT_NOFILE, &syscall.Rlimit{Cur: 3, Max: lim.Max}))
		cErr := syscall.Connect(fd, &syscall.SockaddrInet4{Port: w.d.bind.Port, Addr: host.As4()})
		time.Sleep(time.Duration(1+r.IntN(120)) * time.Millisecond)
		c.must(syscall.Setrlimit(syscall.RLIMIT_NOFILE, &lim))
		c.must(cErr)
		f := os.NewFile(uintptr(fd), "peer")
		cn, err := net.FileConn(f)
		c.must(err)
		_ = f.Close()
		hs := vHandshake(a, 0, vVer15, "late")
		p, err := vShake(cn, hs, true, nWait)
		c.noErr(err, "no-handshake", "peer %s has called while no connection could be accepted for a moment: no answer to its handshake", a)
		go p.run()
		w.established("peer accepted late", a, p, hs)
		w.raise()
		_ = cn.Close()
		w.gone("peer accepted late", a)
		w.raise()
		c.count("failed_accepts", 1)
		c.eval(vHash(c.name, i))
	}
	close(w.stop)
	w.d.shutdown(nil)
}

func TestN01(t *testing.T) {
	r := vStart(t, "N01", "the real listener, connection manager, respawn, registry and distributor in a network of their own among TCP peers that call (matching, of another network, incompatible, silent, garbage, cut short, with two sessions) and peers that are called "+
		"(matching, late, hostile, closing, silent, absent, with a full queue, calling at the same time), announced at once or by gossip; handshakes, listing, refusals, disconnects, calls and absence of repeated calls over several respawn periods are checked; "+
		"crowds of 150 to 400 peers call one listener, about half of them stay; calls ended in nine ways must be due again ten minutes after their end (thorough: must be repeated then); during days of virtual time addresses at which nobody answers must be called within the period whenever due, after idle hours too; sessions over connections in memory last for hours as long as the peer speaks every few minutes. "+
		"One evaluation is one case of up to 10 inbound and 18 (in every sixth case up to 120) called peers; counters show what was seen.")
	cs := append(vCases(vScale(2, 16), "retry", retryCase), vCases(vScale(4, 40), "crowd", crowdInCase)...)
	cs = append(cs, vCases(vScale(4, 40), "book", bookCase)...)
	r.run(append(cs, vCases(vScale(48, 600), "net", netCase)...), 16)
	r.run([]vCase{{"fault-0", faultCase}}, 1)
	kairos.SetScale(1)
	r.runSync(append(vCases(vScale(12, 160), "days", daysCase), vCases(vScale(12, 160), "vigil", vigilCase)...), 0)
	r.finish()
}
