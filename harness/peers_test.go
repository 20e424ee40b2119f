package main_test

// Fake peers and the reference model of the peer registry.

import (
	"math/big"
	"net"
	"net/netip"
	"slices"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/wavesplatform/gowaves/pkg/p2p/conn"
	"github.com/wavesplatform/gowaves/pkg/p2p/peer"
	"github.com/wavesplatform/gowaves/pkg/proto"

	"github.com/alexeykiselev/waves-fork-detector/peers"
)

type fakeID string

func (i fakeID) String() string { return string(i) }

// fakePeer stands for a live session.
type fakePeer struct {
	addr   netip.AddrPort
	hs     proto.Handshake
	dir    peer.Direction
	clErr  error // Closing works, but this is what it tells.
	mu     sync.Mutex
	closes int
	sent   []proto.Message
	onSend func(p *fakePeer, m proto.Message)
}

func newFakePeer(addr netip.Addr, hs proto.Handshake) *fakePeer {
	p := &fakePeer{addr: netip.AddrPortFrom(addr, 40000), hs: hs, dir: peer.Incoming}
	if hs.NodeNonce%3 == 0 {
		p.dir = peer.Outgoing
	}
	if hs.NodeNonce%5 == 0 {
		p.clErr = net.ErrClosed
	}
	return p
}

func (p *fakePeer) Direction() peer.Direction   { return p.dir }
func (p *fakePeer) ID() peer.ID                 { return fakeID(p.addr.String()) }
func (p *fakePeer) Connection() conn.Connection { return fakeConn{p} }
func (p *fakePeer) Handshake() proto.Handshake  { return p.hs }
func (p *fakePeer) RemoteAddr() proto.TCPAddr {
	return proto.TCPAddr(*net.TCPAddrFromAddrPort(p.addr))
}
func (p *fakePeer) Equal(o peer.Peer) bool { return o != nil && o.ID() == p.ID() }

func (p *fakePeer) Close() error {
	p.mu.Lock()
	p.closes++
	p.mu.Unlock()
	return p.clErr
}

func (p *fakePeer) closed() bool {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.closes > 0
}

func (p *fakePeer) SendMessage(m proto.Message) {
	p.mu.Lock()
	p.sent = append(p.sent, m)
	f := p.onSend
	p.mu.Unlock()
	if f != nil {
		f(p, m)
	}
}

func (p *fakePeer) takeSent() []proto.Message {
	p.mu.Lock()
	defer p.mu.Unlock()
	s := p.sent
	p.sent = nil
	return s
}

// fakeConn is the open or closed connection of a fake peer.
type fakeConn struct{ p *fakePeer }

func (c fakeConn) Close() error        { return c.p.Close() }
func (c fakeConn) Conn() net.Conn      { return nil }
func (c fakeConn) SendClosed() bool    { return c.p.closed() }
func (c fakeConn) ReceiveClosed() bool { return c.p.closed() }

// ---------------------------------------------------------------------------------------------

type mpeer struct {
	port  uint16
	nonce uint64
	name  string
	ver   proto.Version
	state peers.State
	next  time.Time // Zero: never withheld.
	score *big.Int
}

type regModel struct {
	scheme   byte
	declared netip.Addr
	vers     []proto.Version // highest first
	recs     map[netip.Addr]*mpeer
	sess     map[netip.Addr][]*fakePeer // registered sessions
	conns    map[netip.Addr]*fakePeer   // the last one of them
	pending  map[netip.Addr]bool
}

func newRegModel(scheme byte, declared netip.Addr, vers []proto.Version) *regModel {
	vs := make([]proto.Version, 0, len(vers))
	for _, v := range vers {
		if v = proto.NewVersion(v.Major(), v.Minor(), 0); !slices.Contains(vs, v) { // A version listed twice is one version.
			vs = append(vs, v)
		}
	}
	sort.Slice(vs, func(i, j int) bool { return vs[i].Cmp(vs[j]) > 0 })
	return &regModel{scheme: scheme, declared: declared, vers: vs, recs: map[netip.Addr]*mpeer{},
		sess: map[netip.Addr][]*fakePeer{}, conns: map[netip.Addr]*fakePeer{}, pending: map[netip.Addr]bool{}}
}

// restart forgets what does not survive a restart.
func (m *regModel) restart() {
	m.sess, m.conns, m.pending = map[netip.Addr][]*fakePeer{}, map[netip.Addr]*fakePeer{}, map[netip.Addr]bool{}
}

// markHostile tells which sessions have to be closed.
func (m *regModel) markHostile(a netip.Addr) []*fakePeer {
	old := m.sess[a]
	delete(m.sess, a)
	delete(m.conns, a)
	delete(m.pending, a)
	m.recs[a].state = peers.PeerHostile
	return old
}

func (m *regModel) nextVersion(v proto.Version) proto.Version {
	for i, x := range m.vers {
		if x.Major() == v.Major() && x.Minor() == v.Minor() && i+1 < len(m.vers) {
			return m.vers[i+1]
		}
	}
	return m.vers[0]
}

func vNow() time.Time { return time.Now().Round(time.Second) }

const vDelay = 10 * time.Minute

// suggest returns the expected offer; ok is false if none.
func (m *regModel) suggest(a netip.Addr) (proto.Version, bool) {
	p, ok := m.recs[a]
	if !ok {
		m.recs[a] = &mpeer{ver: m.vers[0], next: vNow().Add(vDelay)}
		return m.vers[0], true
	}
	switch p.state {
	case peers.PeerHostile:
		return proto.Version{}, false
	case peers.PeerUnknown:
		p.ver = m.nextVersion(p.ver)
		p.next = vNow().Add(vDelay)
	}
	return p.ver, true
}

// register returns "ok", "hostile", "refused", and older sessions that must be closed.
func (m *regModel) register(a netip.Addr, fp *fakePeer, hs proto.Handshake) (string, []*fakePeer) {
	delete(m.pending, a)
	p := m.recs[a]
	if a == m.declared || p.state == peers.PeerHostile {
		return "refused", nil
	}
	far := hs.Version.Major() != p.ver.Major() || vAbsDiff(hs.Version.Minor(), p.ver.Minor()) > 1
	alien := len(hs.AppName) == 0 || hs.AppName[len(hs.AppName)-1] != m.scheme
	if far || alien {
		p.ver = hs.Version
		p.name = "" // Not specified.
		return "hostile", m.markHostile(a)
	}
	port := uint16(0)
	if d := hs.DeclaredAddr; !d.Empty() {
		ip := netip.AddrFrom4([4]byte(d.IP.To4()))
		if d.Port > 65535 || ip.IsLoopback() {
			return "refused", nil
		}
		if ip == a {
			port = uint16(d.Port)
		}
	}
	if strings.ToValidUTF8(hs.NodeName, "") != hs.NodeName {
		return "refused", nil
	}
	p.port, p.nonce, p.name, p.ver, p.state = port, hs.NodeNonce, hs.NodeName, hs.Version, peers.PeerConnected
	p.next = vNow()
	m.sess[a] = append(m.sess[a], fp)
	m.conns[a] = fp
	return "ok", nil
}

// unregister ends a session, nil stands for an attempt without a session.
func (m *regModel) unregister(a netip.Addr, fp *fakePeer) bool {
	p, ok := m.recs[a]
	if !ok {
		return false
	}
	delete(m.pending, a)
	m.sess[a] = slices.DeleteFunc(m.sess[a], func(s *fakePeer) bool { return s == fp })
	if n := len(m.sess[a]); n > 0 {
		m.conns[a] = m.sess[a][n-1]
		return true
	}
	delete(m.sess, a)
	delete(m.conns, a)
	p.next = vNow().Add(vDelay)
	return true
}

func (m *regModel) appendAddrs(as []*net.TCPAddr) int {
	n := 0
	for _, t := range as {
		ap := t.AddrPort()
		a := ap.Addr().Unmap()
		if !a.Is4() || a.IsLoopback() || a == m.declared {
			continue
		}
		if _, ok := m.recs[a]; ok {
			continue
		}
		m.recs[a] = &mpeer{port: ap.Port()}
		n++
	}
	return n
}

// available returns addresses that must and that may be handed out now.
func (m *regModel) available() (must, may map[netip.AddrPort]bool) {
	must, may = map[netip.AddrPort]bool{}, map[netip.AddrPort]bool{}
	now := time.Now()
	for a, p := range m.recs {
		if p.state == peers.PeerHostile || p.port == 0 || a == m.declared || m.pending[a] || m.conns[a] != nil {
			continue
		}
		ap := netip.AddrPortFrom(a, p.port)
		if d := p.next.Sub(now); d > time.Second {
			continue
		} else if d < -time.Second || p.next.IsZero() {
			must[ap] = true
		}
		may[ap] = true
	}
	return must, may
}

func vAbsDiff(a, b uint32) uint32 {
	if a > b {
		return a - b
	}
	return b - a
}

// ---------------------------------------------------------------------------------------------

type regWorld struct {
	c        *vc
	dir      string
	r        *peers.Registry
	m        *regModel
	addrs    []netip.Addr // addresses in play
	vers     []proto.Version
	declared proto.TCPAddr
	odd      float64 // probability of an odd handshake
	after    func()  // called after every primitive operation
	before   func()  // called before every restart
	long     int     // every how many announcements is a long one; 0: none
}

func newRegWorld(c *vc, naddrs int) *regWorld {
	w := &regWorld{c: c, dir: c.dir(), odd: 0.25}
	r := c.rng
	base := []string{"1.2.3.4", "0.0.0.1", "255.255.255.254", "10.0.0.1", "10.0.0.2", "192.168.7.7", "8.8.8.8", "127.0.0.1", "127.9.9.9",
		"4.3.2.1", "224.0.0.1", "169.254.1.1", "128.0.0.1", "0.255.0.255", "255.255.255.255", "0.0.0.0", "100.64.0.1", "172.16.5.5", "192.0.2.1", "198.18.0.1",
		"239.255.255.255", "240.0.0.1", "126.255.255.255", "128.0.0.0"}
	r.Shuffle(len(base), func(i, j int) { base[i], base[j] = base[j], base[i] })
	for i := range naddrs {
		if i < len(base) {
			w.addrs = append(w.addrs, vAddr(base[i]))
		} else {
			w.addrs = append(w.addrs, netip.AddrFrom4([4]byte{11, byte(i >> 8), byte(i), byte(i * 13)}))
		}
	}
	r.Shuffle(len(w.addrs), func(i, j int) { w.addrs[i], w.addrs[j] = w.addrs[j], w.addrs[i] })
	seen := map[[2]uint32]bool{}
	for range 1 + r.IntN(5) {
		v := [2]uint32{uint32(r.IntN(2) + 1), uint32(r.IntN(8))}
		if r.IntN(12) == 0 {
			v = [2]uint32{uint32(r.IntN(3)), []uint32{0, 4294967295, 4294967294, 1000000}[r.IntN(4)]}
		}
		if seen[v] || v == [2]uint32{0, 0} {
			continue
		}
		seen[v] = true
		w.vers = append(w.vers, proto.NewVersion(v[0], v[1], uint32(r.IntN(20))))
	}
	if len(w.vers) == 0 {
		w.vers = append(w.vers, proto.NewVersion(1, 5, 0))
	}
	if r.IntN(4) == 0 { // Some versions are listed more than once, exactly or with another patch number.
		for range 1 + r.IntN(2) {
			v := w.vers[r.IntN(len(w.vers))]
			if r.IntN(2) == 0 {
				v = proto.NewVersion(v.Major(), v.Minor(), uint32(r.IntN(20)))
			}
			w.vers = slices.Insert(w.vers, r.IntN(len(w.vers)+1), v)
		}
	}
	w.m = newRegModel("WTS"[r.IntN(3)], netip.Addr{}, w.vers)
	w.declare()
	w.open()
	return w
}

// declare picks the declared address.
func (w *regWorld) declare() {
	r := w.c.rng
	decl := netip.Addr{}
	switch r.IntN(4) {
	case 0:
	case 1:
		decl = vAddr("100.1.1.1")
	default:
		decl = w.addrs[r.IntN(len(w.addrs))]
	}
	w.declared = proto.TCPAddr{}
	if decl.IsUnspecified() { // That is how not to declare an address.
		decl = netip.Addr{}
	}
	if decl.IsValid() {
		w.declared = proto.NewTCPAddr(net.IP(decl.AsSlice()).To16(), 6868)
	}
	w.m.declared = decl
}

func (w *regWorld) open() {
	r, err := peers.NewRegistry(w.m.scheme, w.declared, append([]proto.Version(nil), w.vers...), w.dir)
	w.c.noErr(err, "open", "opening the peer registry")
	w.r = r
}

func (w *regWorld) close() {
	if w.r != nil {
		w.c.noErr(w.r.Close(), "close", "closing the peer registry")
		w.r = nil
	}
}

func (w *regWorld) done() {
	if w.after != nil {
		w.after()
	}
}

func (w *regWorld) reopen() {
	defer w.done()
	if w.before != nil {
		w.before()
	}
	w.c.op("reopen")
	w.close()
	w.m.restart()
	if w.c.rng.IntN(4) == 0 { // Another address is declared from now on.
		w.declare()
		w.c.op("declared address: %s", w.m.declared)
	}
	w.open()
	w.c.count("op_reopen", 1)
}

func (w *regWorld) addr() netip.Addr { return w.addrs[w.c.rng.IntN(len(w.addrs))] }

func (w *regWorld) declFor(a netip.Addr) proto.HandshakeTCPAddr {
	r := w.c.rng
	port := 1 + r.IntN(65535)
	switch x := r.IntN(10); {
	case x < 5:
		return proto.HandshakeTCPAddr(proto.NewTCPAddr(net.IP(a.AsSlice()).To16(), port))
	case x < 7:
		return proto.HandshakeTCPAddr{}
	case x < 8:
		return proto.HandshakeTCPAddr(proto.NewTCPAddr(net.IPv4(9, 9, 9, byte(r.IntN(3))), port))
	case x < 9:
		return proto.HandshakeTCPAddr(proto.NewTCPAddr(net.IP(a.AsSlice()).To16(), []int{0, 65535, 65536, 1 << 30, 1<<32 - 1}[r.IntN(5)]))
	default:
		return proto.HandshakeTCPAddr(proto.NewTCPAddr(net.IPv4(127, 0, 0, byte(r.IntN(3))), port))
	}
}

var vNames = []string{"node", "Node", "NODE", "alpha", "Beta", "beta ", "", "ёж", "ЁЖ", "straße", "STRASSE", "a\x00b", "zzz", "~", "_", "<script>", "\"q\"", "\\",
	"nul\x00", "\x00", "\x00nul", " space", "space  ", "\ttab\t", "line\n", "\r\n", "\ufeffbom", "soft\u00ad", "\u202eltr", "e\u0301", "\u00e9", "nbsp\u00a0", "%s%d", "\x7f", "😀"}

// app turns the name of an application for the main network into the same for the network of the registry, and back.
func (w *regWorld) app(s string) string {
	b := []byte(s)
	own := w.m.scheme
	for i, x := range b {
		switch x {
		case 'W':
			b[i] = own
		case own:
			b[i] = 'W'
		case 'w':
			if i > 0 {
				b[i] = own | 0x20
			}
		}
	}
	return string(b)
}

func (w *regWorld) handshake(a netip.Addr, offered proto.Version) proto.Handshake {
	r := w.c.rng
	hs := proto.Handshake{AppName: w.app("wavesW"), Version: offered, NodeName: vNames[r.IntN(len(vNames))], NodeNonce: r.Uint64(),
		DeclaredAddr: w.declFor(a), Timestamp: 1_700_000_000_000}
	if r.IntN(3) == 0 {
		hs.NodeNonce = []uint64{0, 1, 1<<64 - 1, 1 << 63}[r.IntN(4)]
	}
	hs.Version = proto.NewVersion(offered.Major(), offered.Minor(), uint32(r.IntN(30)))
	if r.Float64() < 0.2 { // One minor number apart is still fine.
		if r.IntN(2) == 0 && offered.Minor() > 0 {
			hs.Version = proto.NewVersion(offered.Major(), offered.Minor()-1, 3)
		} else if offered.Minor() < 1<<32-1 {
			hs.Version = proto.NewVersion(offered.Major(), offered.Minor()+1, 0)
		}
	}
	if r.IntN(20) == 0 {
		hs.AppName = w.app([]string{"W", "xW", strings.Repeat("a", 254) + "W", "waves\x00W"}[r.IntN(4)])
	}
	if r.IntN(3) == 0 { // The patch number means nothing.
		hs.Version = proto.NewVersion(hs.Version.Major(), hs.Version.Minor(), []uint32{99, 255, 256, 65536, 1<<31 - 1, 1 << 31, 1<<32 - 1}[r.IntN(7)])
	}
	if r.Float64() < w.odd {
		switch r.IntN(6) {
		case 0:
			if r.IntN(2) == 0 { // One bit, or one number, apart.
				own := int(w.m.scheme)
				hs.AppName = "waves" + string([]byte{byte([]int{own ^ 1<<r.IntN(8), own + 1, own - 1, 0, '0', 255}[r.IntN(6)])})
				break
			}
			hs.AppName = w.app([]string{"wavesT", "", "wavesw", "wavesS", "W ", "wavesW\x00", "wavesW\xff"}[r.IntN(7)])
		case 1:
			hs.Version = proto.NewVersion(offered.Major()+1, offered.Minor(), 0)
		case 2:
			if offered.Major() > 0 {
				hs.Version = proto.NewVersion(offered.Major()-1, offered.Minor(), 0)
			}
		case 3:
			if offered.Minor() < 1<<31 {
				hs.Version = proto.NewVersion(offered.Major(), offered.Minor()+2+uint32(r.IntN(5)), 0)
			} else {
				hs.Version = proto.NewVersion(offered.Major(), offered.Minor()-2-uint32(r.IntN(5)), 0)
			}
		case 4:
			if offered.Minor() >= 2 {
				hs.Version = proto.NewVersion(offered.Major(), offered.Minor()-2, 0)
			}
		case 5:
			hs.NodeName = []string{"\xff\xfe", "ok\xc3", strings.Repeat("n", 255), strings.Repeat("ё", 127)}[r.IntN(4)]
			if r.IntN(3) == 0 { // Both at once.
				hs.AppName = w.app("wavesT")
			}
		}
	}
	return hs
}

func (w *regWorld) doSuggest(a netip.Addr) (proto.Version, bool) {
	defer w.done()
	got, err := w.r.SuggestVersion(a)
	exp, ok := w.m.suggest(a)
	w.c.op("suggest %s -> %s %v", a, got, err)
	w.c.check((err == nil) == ok, "suggest", "offer to %s: %s, %v; expected an offer: %v", a, got, err, ok)
	if ok {
		w.c.check(got == exp, "suggest-version", "offer to %s is %s, expected %s", a, got, exp)
	}
	w.c.count("op_suggest", 1)
	return got, ok
}

func (w *regWorld) doRegister(a netip.Addr, hs proto.Handshake) *fakePeer {
	defer w.done()
	fp := newFakePeer(a, hs)
	before := *w.m.recs[a]
	res, old := w.m.register(a, fp, hs)
	err := w.r.RegisterPeer(a, fp, hs)
	w.c.op("register %s app=%q name=%q v%s decl=%s (offered/stored v%s %s) -> %s, err=%v closed=%v", a, hs.AppName, hs.NodeName, hs.Version,
		hs.DeclaredAddr, before.ver, before.state, res, err, fp.closed())
	w.c.count("op_register_"+res, 1)
	switch res {
	case "ok":
		w.c.noErr(err, "register", "registration of %s", a)
		w.c.check(!fp.closed(), "register-closed", "connection of the accepted peer %s is closed", a)
	case "hostile":
		w.c.check(fp.closed(), "hostile-not-closed", "connection of the hostile peer %s is not closed", a)
		for _, o := range old {
			w.c.check(o.closed(), "hostile-not-closed", "older connection of the hostile peer %s is not closed", a)
		}
	case "refused":
		w.c.check(err != nil, "register-accepted", "registration of %s was accepted", a)
		w.c.check(fp.closed(), "refused-not-closed", "connection of the refused peer %s is not closed", a)
	}
	return fp
}

// doUnregister ends one of the sessions of the peer, or reports the failure of an attempt.
func (w *regWorld) doUnregister(a netip.Addr) {
	var fp *fakePeer
	switch n := len(w.m.sess[a]); {
	case n > 0 && w.c.rng.IntN(6) > 0:
		fp = w.m.sess[a][w.c.rng.IntN(n)]
	case w.c.rng.IntN(4) == 0: // A session that was not registered.
		fp = newFakePeer(a, proto.Handshake{})
	}
	w.unregister(a, fp)
}

func (w *regWorld) unregister(a netip.Addr, fp *fakePeer) {
	defer w.done()
	var np peer.Peer
	if fp != nil {
		np = fp
	}
	ok := w.m.unregister(a, fp)
	err := w.r.UnregisterPeer(a, np)
	w.c.op("unregister a session (%v) of %s -> %v, %d left", fp != nil, a, err, len(w.m.sess[a]))
	w.c.check((err == nil) == ok, "unregister", "unregistering %s (known: %v) gives %v", a, ok, err)
	w.c.count("op_unregister", 1)
}

func (w *regWorld) announcement() []*net.TCPAddr {
	r := w.c.rng
	as := []*net.TCPAddr{}
	n := r.IntN(7)
	if w.long > 0 && r.IntN(w.long) == 0 {
		n = []int{30, 100, 255, 256, 257, 300, 600, 1000, 1200}[r.IntN(9)]
	}
	for range n {
		port := []int{0, 1, 80, 6868, 65535}[r.IntN(5)]
		x := r.IntN(20)
		if n > 20 && x < 10 {
			x += 3 + r.IntN(10)
		}
		switch {
		case x < 10:
			as = append(as, &net.TCPAddr{IP: net.IP(w.addr().AsSlice()), Port: port})
		case x < 13:
			as = append(as, &net.TCPAddr{IP: net.IP(w.addr().AsSlice()).To16(), Port: port})
		case x < 15:
			ip := net.IPv4(77, 0, byte(r.IntN(40)), 1)
			if n > 20 {
				ip = net.IPv4(77, byte(r.IntN(3)), byte(r.IntN(256)), byte(r.IntN(256)))
			}
			as = append(as, &net.TCPAddr{IP: ip, Port: port})
		case x < 16:
			as = append(as, &net.TCPAddr{IP: net.ParseIP([]string{"2001:db8::1", "::1", "::"}[r.IntN(3)]), Port: port})
		case x < 17:
			as = append(as, &net.TCPAddr{IP: net.IPv4(127, byte(r.IntN(256)), 0, 5), Port: port})
		case x < 18 && !w.declared.Empty():
			as = append(as, &net.TCPAddr{IP: w.declared.IP, Port: port})
		case x < 19 && len(as) > 0:
			as = append(as, as[r.IntN(len(as))])
		case x < 20 && len(as) > 0:
			d := *as[r.IntN(len(as))]
			d.Port = 4242
			as = append(as, &d)
		}
	}
	return as
}

func (w *regWorld) doAppend(as []*net.TCPAddr) {
	defer w.done()
	exp := w.m.appendAddrs(as)
	got := w.r.AppendAddresses(as)
	w.c.op("announce %v -> %d", as, got)
	w.c.check(got == exp, "announce-count", "announcement of %v counts %d new addresses, expected %d", as, got, exp)
	w.c.count("op_announce", 1)
}

func (w *regWorld) doScore(a netip.Addr, s *big.Int) {
	defer w.done()
	_, ok := w.m.recs[a]
	err := w.r.UpdatePeerScore(a, s)
	w.c.op("score of %s is %s -> %v", a, s, err)
	w.c.check((err == nil) == ok, "score", "score update of %s (known: %v) gives %v", a, ok, err)
	if ok {
		w.m.recs[a].score = new(big.Int).Set(s)
	}
	w.c.count("op_score", 1)
}

func (w *regWorld) doTake() []netip.AddrPort {
	defer w.done()
	must, may := w.m.available()
	got, err := w.r.TakeAvailableAddresses()
	w.c.noErr(err, "take-error", "taking addresses")
	w.c.op("take -> %v", got)
	seen := map[netip.AddrPort]bool{}
	for _, ap := range got {
		w.c.check(!seen[ap], "take-twice", "address %s is handed out twice in one call", ap)
		seen[ap] = true
		if !may[ap] {
			p := w.m.recs[ap.Addr()]
			if p == nil {
				w.c.fail("take-unknown", "address %s that was never announced is handed out", ap)
			}
			w.c.fail("take-not-due", "address %s is handed out: stored port %d, state %s, pending %v, connected %v, own %v, due in %s", ap,
				p.port, p.state, w.m.pending[ap.Addr()], w.m.conns[ap.Addr()] != nil, ap.Addr() == w.m.declared, p.next.Sub(time.Now()))
		}
		w.m.pending[ap.Addr()] = true
	}
	for ap := range must {
		w.c.check(seen[ap], "take-missing", "due address %s is not handed out", ap)
	}
	w.c.count("op_take", 1)
	w.c.count("handed_out", len(got))
	return got
}

func (w *regWorld) randScore() *big.Int {
	r := w.c.rng
	switch r.IntN(6) {
	case 5:
		if r.IntN(4) == 0 { // Of as many bytes as a length of one byte tells, and more.
			s := new(big.Int).Lsh(big.NewInt(1), uint(r.IntN(8200)))
			return s.Sub(s, big.NewInt(1))
		}
		return new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 8*uint(1+r.IntN(40))), big.NewInt(int64(r.IntN(2))))
	case 0:
		return new(big.Int)
	case 1:
		return new(big.Int).Lsh(big.NewInt(1), uint(r.IntN(600)))
	case 2:
		return new(big.Int).SetUint64(1<<63 + uint64(r.IntN(3)))
	}
	return new(big.Int).SetUint64(r.Uint64())
}

// compare one stored record with the model.
func (w *regWorld) checkRec(a netip.Addr, got peers.Peer, what string) {
	c := w.c
	p := w.m.recs[a]
	c.check(got.AddressPort == netip.AddrPortFrom(a, p.port), "rec-port", "%s: address of %s is %s, expected port %d", what, a, got.AddressPort, p.port)
	c.check(got.State == p.state, "rec-state", "%s: state of %s is %s, expected %s", what, a, got.State, p.state)
	if p.state != peers.PeerHostile {
		c.check(got.Name == p.name, "rec-name", "%s: name of %s is %q, expected %q", what, a, got.Name, p.name)
		c.check(got.Nonce == p.nonce, "rec-nonce", "%s: nonce of %s is %d, expected %d", what, a, got.Nonce, p.nonce)
		c.check(got.Version == p.ver, "rec-version", "%s: version of %s is %s, expected %s", what, a, got.Version, p.ver)
		if p.next.IsZero() {
			c.check(!got.NextAttempt.After(time.Now().Add(time.Second)), "rec-next", "%s: next attempt of %s is %s although nothing delays it", what, a, got.NextAttempt)
		} else {
			d := got.NextAttempt.Sub(p.next)
			c.check(d <= 1100*time.Millisecond && d >= -1100*time.Millisecond, "rec-next", "%s: next attempt of %s is %s, expected %s", what, a, got.NextAttempt, p.next)
		}
	}
	if p.score == nil {
		c.check(got.Score == nil || got.Score.Sign() == 0, "rec-score", "%s: score of %s is %v, none was reported", what, a, got.Score)
	} else {
		c.check(got.Score != nil && got.Score.Cmp(p.score) == 0, "rec-score", "%s: score of %s is %v, expected %v", what, a, got.Score, p.score)
	}
}

func (w *regWorld) checkList(ps []peers.Peer, want func(netip.Addr, *mpeer) bool, what string) {
	c := w.c
	seen := map[netip.Addr]bool{}
	for i, p := range ps {
		a := p.AddressPort.Addr()
		c.check(!seen[a], "list-twice", "%s: %s is listed twice", what, a)
		seen[a] = true
		mp, ok := w.m.recs[a]
		c.check(ok && want(a, mp), "list-extra", "%s: %s must not be listed", what, a)
		w.checkRec(a, p, what)
		if i > 0 {
			c.check(strings.ToUpper(ps[i-1].Name) <= strings.ToUpper(p.Name), "list-order", "%s: %q is listed before %q", what, ps[i-1].Name, p.Name)
		}
	}
	for a, mp := range w.m.recs {
		if want(a, mp) {
			c.check(seen[a], "list-missing", "%s: %s is missing", what, a)
		}
	}
}

// checkAll compares every listing with the model.
func (w *regWorld) checkAll() {
	c := w.c
	all, err := w.r.Peers()
	c.noErr(err, "query-error", "Peers")
	w.checkList(all, func(netip.Addr, *mpeer) bool { return true }, "all peers")
	fr, err := w.r.FriendlyPeers()
	c.noErr(err, "query-error", "FriendlyPeers")
	w.checkList(fr, func(_ netip.Addr, p *mpeer) bool { return p.state == peers.PeerConnected }, "friendly peers")
	cs, err := w.r.Connections()
	c.noErr(err, "query-error", "Connections")
	w.checkList(cs, func(a netip.Addr, _ *mpeer) bool { return w.m.conns[a] != nil }, "connections")
	addrs, err := w.r.Addresses()
	c.noErr(err, "query-error", "Addresses")
	c.check(len(addrs) == len(fr), "addresses", "%d public addresses for %d friendly peers", len(addrs), len(fr))
	for _, a := range w.addrs {
		p, pErr := w.r.Peer(a)
		_, ok := w.m.recs[a]
		c.check((pErr == nil) == ok, "peer", "record of %s (expected: %v): %v", a, ok, pErr)
		if ok {
			w.checkRec(a, p, "record")
		}
	}
	c.max("max_records", len(w.m.recs))
	c.max("max_connections", len(w.m.conns))
}

func (w *regWorld) checkBroadcast() {
	for _, fp := range w.m.conns {
		fp.takeSent()
	}
	msg := &proto.GetPeersMessage{}
	w.r.Broadcast(msg)
	for a, fp := range w.m.conns {
		s := fp.takeSent()
		w.c.check(len(s) == 1 && s[0] == proto.Message(msg), "broadcast", "connected peer %s got %d messages of one broadcast", a, len(s))
	}
	w.c.count("op_broadcast", 1)
}

func (m *regModel) fingerprint(op string) uint64 {
	h := vHash(op, len(m.recs))
	for a, p := range m.recs {
		h ^= vHash(a, p.port, p.state, p.ver, p.name, p.next.IsZero(), m.pending[a], len(m.sess[a]), p.score)
	}
	return h
}

// session runs one whole contact with an address the way the network layer does.
func (w *regWorld) session(a netip.Addr) {
	if w.m.conns[a] != nil && w.c.rng.IntN(3) > 0 {
		return
	}
	v, ok := w.doSuggest(a)
	if !ok {
		if w.c.rng.IntN(2) == 0 { // A hostile peer tries to register all the same (its offer was made before).
			w.doRegister(a, w.handshake(a, w.m.recs[a].ver))
			if w.c.rng.IntN(2) == 0 {
				w.doUnregister(a)
			}
		} else {
			w.doUnregister(a)
		}
		return
	}
	switch w.c.rng.IntN(6) {
	case 0: // No connection comes out of it.
		w.doUnregister(a)
	case 1: // Several offers before anything happens.
		for range w.c.rng.IntN(4) {
			if v, ok = w.doSuggest(a); !ok {
				return
			}
		}
		fallthrough
	case 2: // Several sessions at once, ending in any order.
		if w.c.rng.IntN(3) == 0 {
			n := 2 + w.c.rng.IntN(5)
			for range n {
				w.doRegister(a, w.handshake(a, v))
				if w.m.recs[a].state == peers.PeerHostile {
					return
				}
			}
			for range w.c.rng.IntN(n + 2) {
				w.doUnregister(a)
				if w.c.rng.IntN(4) == 0 {
					w.checkBroadcast()
				}
			}
			return
		}
		fallthrough
	default:
		w.doRegister(a, w.handshake(a, v))
		if w.c.rng.IntN(4) == 0 {
			w.doUnregister(a)
		}
	}
}

// vLater makes a case of virtual time: between the steps anything from a second to months goes by.
func vLater(fn func(*vc)) func(*vc) {
	return func(c *vc) {
		fn(c)
		time.Sleep(2 * time.Minute) // The database's own goroutines end.
	}
}

// step performs one random operation and returns its name.
func (w *regWorld) step() string {
	r := w.c.rng
	if w.c.inSync && r.IntN(8) == 0 {
		d := []time.Duration{time.Second, time.Minute, vDelay, time.Hour, 30 * time.Hour, 100 * 24 * time.Hour}[r.IntN(6)]
		d += time.Duration(r.Int64N(int64(d)))
		time.Sleep(d)
		w.c.op("%s passed", d)
		w.c.count("op_pause", 1)
	}
	switch x := r.IntN(100); {
	case x < 35:
		w.session(w.addr())
		return "session"
	case x < 45:
		w.doAppend(w.announcement())
		return "announce"
	case x < 60:
		for _, ap := range w.doTake() {
			if r.IntN(2) == 0 { // Dial it.
				if r.IntN(3) == 0 {
					w.doUnregister(ap.Addr())
				} else {
					w.session(ap.Addr())
				}
			}
		}
		return "take"
	case x < 70:
		w.doScore(w.addr(), w.randScore())
		return "score"
	case x < 85:
		a := w.addr()
		if w.m.conns[a] != nil || r.IntN(4) == 0 {
			w.doUnregister(a)
		}
		return "unregister"
	case x < 92:
		w.checkBroadcast()
		return "broadcast"
	case x < 96:
		w.reopen()
		return "reopen"
	default:
		w.doSuggest(w.addr())
		return "suggest"
	}
}
