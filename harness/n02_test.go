package main_test

// Sockets and goroutines of the real program while sessions, calls and API requests of all kinds come and go.

import (
	"fmt"
	"math/rand/v2"
	"net"
	"net/netip"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"github.com/wavesplatform/gowaves/pkg/proto"
)

const (
	lkAtOnce     = iota // hangs up without a word
	lkHalf              // half a handshake
	lkBabble            // something else instead of a handshake
	lkShaken            // hangs up right after the handshake
	lkDeaf              // sends its handshake and hangs up without reading the other
	lkListed            // hangs up once its session is shown
	lkAlien             // another network
	lkVersion           // not compatible
	lkHostile           // calls again after it has been found hostile
	lkJunk              // sends what is no message
	lkCut               // hangs up in the middle of a message
	lkLoading           // hangs up when it is asked for history or for a block
	lkNeverReads        // asks all the time, never reads
	lkTwofold           // several sessions at once
	lkNonsense          // content of a known message that can't be parsed
	lkDropped           // the second session of the two is ended before the first
	lkLocal             // declares an address that is none
	lkIn                // number of kinds of inbound peers
	lkOutRefused = iota - 1
	lkOutAtOnce
	lkOutHalf
	lkOutBabble
	lkOutAlien
	lkOutVersion
	lkOutListed
	lkOutLater
	lkOutMutes
	lkOutJunk
	lkKinds
)

var lkNames = []string{"at once", "half a handshake", "babble", "after the handshake", "without reading the handshake", "once listed", "another network", "incompatible", "hostile again", "junk",
	"amid a message", "while loading", "never reading", "several sessions", "unparsable content", "second session first", "odd declared address",
	"called: refused", "called: at once", "called: half a handshake", "called: babble", "called: another network", "called: incompatible", "called: once listed", "called: a while later", "called: mute for a while", "called: junk"}

type leakWorld struct {
	c     *vc
	u     *universe
	p     *vProc
	api   string
	net   string
	base  int  // third octet
	local bool // no network of its own: only calls to the detector
	next  atomic.Int32
	done  atomic.Int64
	errs  atomic.Int64
	mu    sync.Mutex
	kept  []net.Conn
}

// leave keeps this side of a connection open that the detector has to close by itself.
func (w *leakWorld) leave(cn net.Conn) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.kept = append(w.kept, cn)
}

func (w *leakWorld) closeKept() int {
	w.mu.Lock()
	defer w.mu.Unlock()
	n := len(w.kept)
	for _, cn := range w.kept {
		_ = cn.Close()
	}
	w.kept = nil
	return n
}

// addr gives an address nobody has used.
func (w *leakWorld) addr() netip.Addr {
	n := int(w.next.Add(1))
	first := byte(10)
	if w.local {
		first = 127
	}
	return netip.AddrFrom4([4]byte{first, 77, byte(w.base + n/250), byte(1 + n%250)})
}

func (w *leakWorld) end(cn net.Conn, r *rand.Rand) {
	if cn == nil {
		return
	}
	if r.IntN(3) == 0 {
		_ = cn.(*net.TCPConn).SetLinger(0)
	}
	_ = cn.Close()
}

func (w *leakWorld) dial(a netip.Addr) net.Conn {
	cn, err := vDialFrom(a, w.net, 10*time.Second)
	if err != nil {
		w.errs.Add(1)
		return nil
	}
	return cn
}

func (w *leakWorld) shake(a netip.Addr, hs proto.Handshake) (net.Conn, *tcpPeer) {
	cn := w.dial(a)
	if cn == nil {
		return nil, nil
	}
	p, err := vShake(cn, hs, true, 10*time.Second)
	if err != nil {
		w.errs.Add(1)
		return cn, nil
	}
	return cn, p
}

// awaited lets the session be registered: an answer to a request proves it, the lack of it doesn't matter here.
func (w *leakWorld) awaited(p *tcpPeer) {
	_ = p.send(&proto.GetPeersMessage{})
	vEventually(5*time.Second, func() bool { return len(p.messages()) > 0 || p.closed(0) })
}

func (w *leakWorld) junk(r *rand.Rand) []byte {
	b := make([]byte, 17+r.IntN(200))
	for i := range b {
		b[i] = byte(r.Uint32())
	}
	switch r.IntN(3) {
	case 0: // Absurd length.
		copy(b, []byte{0xff, 0xff, 0xff, 0xff, 0x12, 0x34, 0x56, 0x78, 23, 0xff, 0xff, 0xff, 0xf0})
	case 1:
		copy(b, "GET / HTTP/1.1\r\nHost: x\r\n\r\n")
	}
	return b
}

// inbound is one peer that calls and goes.
func (w *leakWorld) inbound(kind int, r *rand.Rand) {
	a := w.addr()
	hs := vHandshake(a, 0, vVer15, "n-"+a.String())
	w.talk(kind, a, hs, r)
}

func (w *leakWorld) talk(kind int, a netip.Addr, hs proto.Handshake, r *rand.Rand) {
	switch kind {
	case lkAtOnce, lkHalf, lkBabble, lkDeaf:
		cn := w.dial(a)
		if cn == nil {
			return
		}
		switch kind {
		case lkHalf:
			b := &sliceWriter{}
			_, _ = hs.WriteTo(b)
			_, _ = cn.Write(b.buf[:1+r.IntN(len(b.buf)-1)])
			if r.IntN(2) == 0 {
				_ = cn.(*net.TCPConn).CloseWrite()
				w.leave(cn)
				return
			}
		case lkBabble:
			_, _ = cn.Write(w.junk(r))
		case lkDeaf:
			_, _ = hs.WriteTo(cn)
		}
		if r.IntN(2) == 0 {
			time.Sleep(time.Duration(r.IntN(200)) * time.Millisecond)
		}
		w.end(cn, r)
		return
	case lkTwofold, lkDropped:
		var cns []net.Conn
		for range 2 + r.IntN(3) {
			cn, p := w.shake(a, hs)
			if p != nil {
				go p.run()
				if r.IntN(2) == 0 {
					w.awaited(p)
				}
			}
			if cn != nil {
				cns = append(cns, cn)
			}
		}
		if kind == lkTwofold && r.IntN(3) == 0 { // One of them is enough to end all.
			hs.AppName = "wavesT"
			cn, p := w.shake(a, hs)
			if p != nil {
				go p.run()
				for _, c := range cns {
					w.leave(c)
				}
				cns = nil
			}
			if cn != nil {
				w.leave(cn)
			}
		}
		for i := range cns {
			if kind == lkDropped {
				i = len(cns) - 1 - i
			}
			w.end(cns[i], r)
			time.Sleep(time.Duration(r.IntN(20)) * time.Millisecond)
		}
		return
	case lkAlien:
		hs.AppName = []string{"wavesT", "wavesS", "waves", ""}[r.IntN(4)]
	case lkVersion, lkHostile:
		hs.Version = proto.NewVersion(9, 9, 9)
	case lkLocal:
		hs.NodeName = "\xff\xfe" + hs.NodeName
		if r.IntN(2) == 0 { // Is refused like another network, but not hostile.
			kind = lkAlien
			hs.DeclaredAddr = proto.HandshakeTCPAddr(proto.NewTCPAddr(net.IPv4(127, 0, 0, byte(1+r.IntN(9))), 1+r.IntN(65535)))
			break
		}
		hs.DeclaredAddr = proto.HandshakeTCPAddr(proto.NewTCPAddr([]net.IP{net.IPv4(127, 0, 0, 1), net.IPv4(0, 0, 0, 0), net.ParseIP("fe80::1")}[r.IntN(3)], r.IntN(65536)))
	}
	cn, p := w.shake(a, hs)
	if p == nil {
		w.end(cn, r)
		return
	}
	if kind == lkNeverReads {
		_ = cn.(*net.TCPConn).SetReadBuffer(4096)
		var many []byte
		b, err := (&proto.GetPeersMessage{}).MarshalBinary()
		w.c.must(err)
		for range 2000 {
			many = append(many, b...)
		}
		for range 20 {
			_ = cn.SetWriteDeadline(time.Now().Add(300 * time.Millisecond))
			if _, err := cn.Write(many); err != nil {
				break
			}
		}
		w.end(cn, r)
		return
	}
	known := w.after(kind, cn, p, r)
	if kind == lkHostile {
		for range 3 {
			again := w.dial(a)
			if again == nil {
				return
			}
			if r.IntN(2) == 0 {
				_, _ = hs.WriteTo(again)
			}
			if known && r.IntN(2) == 0 {
				w.leave(again)
				continue
			}
			time.Sleep(time.Duration(r.IntN(50)) * time.Millisecond)
			w.end(again, r)
		}
	}
}

// after is the rest of a session whose handshakes have been exchanged.
func (w *leakWorld) after(kind int, cn net.Conn, p *tcpPeer, r *rand.Rand) (known bool) {
	left := false
	defer func() {
		if left {
			w.leave(cn)
			return
		}
		w.end(cn, r)
	}()
	switch kind {
	case lkShaken:
		return false
	case lkLoading:
		tip := w.u.all[len(w.u.all)-1]
		asked := make(chan struct{}, 1)
		deep := r.IntN(2) == 0
		p.onMsg = func(p *tcpPeer, m proto.Message) {
			ids, _, ok := vIDsOf(m)
			if ok && deep {
				_ = p.send(&proto.BlockIdsMessage{Blocks: w.u.answer(tip, ids, 100)})
				return
			}
			if g, isGet := m.(*proto.GetBlockMessage); ok || isGet && g != nil {
				select {
				case asked <- struct{}{}:
				default:
				}
			}
		}
		go p.run()
		_ = p.send(&proto.ScoreMessage{Score: tip.score.Bytes()})
		select {
		case <-asked:
			w.c.count("hung_up_while_loading", 1)
		case <-p.done:
		case <-time.After(time.Duration(500+r.IntN(2500)) * time.Millisecond):
		}
		return false
	}
	go p.run()
	w.awaited(p)
	if kind == lkHostile { // From now on it is known to be hostile.
		known = p.closed(10 * time.Second)
	}
	switch kind {
	case lkAlien, lkVersion, lkHostile:
		if r.IntN(2) == 0 { // It's the detector that hangs up.
			left = true
			return known
		}
	case lkJunk:
		if r.IntN(3) == 0 {
			_ = p.raw([]byte("GET / HTTP/1.1\r\nHost: x\r\n\r\n"))
			left = true
			return known
		}
		_ = p.raw(w.junk(r))
		if r.IntN(2) == 0 {
			p.closed(5 * time.Second)
		}
	case lkNonsense:
		_ = p.raw(vFrame([]byte{2, 20, 22, 23, 24, 29, 32}[r.IntN(7)], w.junk(r)))
		_ = p.send(&proto.GetPeersMessage{})
		if r.IntN(2) == 0 {
			p.closed(300 * time.Millisecond)
		}
	case lkCut:
		b, err := vBlockMessage(w.c, w.u.all[0].b).MarshalBinary()
		w.c.must(err)
		_ = p.raw(b[:1+r.IntN(len(b)-1)])
	}
	if r.IntN(3) == 0 {
		time.Sleep(time.Duration(r.IntN(300)) * time.Millisecond)
	}
	return known
}

// target waits for one call; the function ends it.
func (w *leakWorld) target(kind int, r *rand.Rand) (proto.PeerInfo, func(), *atomic.Bool) {
	a := w.addr()
	l, err := net.Listen("tcp", netip.AddrPortFrom(a, 0).String())
	w.c.must(err)
	port := l.Addr().(*net.TCPAddr).Port
	info := proto.PeerInfo{Addr: net.IP(a.AsSlice()), Port: uint16(port)}
	called := &atomic.Bool{}
	if kind == lkOutRefused {
		_ = l.Close()
		called.Store(true) // Nobody will know.
		return info, func() {}, called
	}
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		for {
			cn, err := l.Accept()
			if err != nil {
				return
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				w.called(kind, a, port, cn, r)
				called.Store(true)
				w.done.Add(1)
			}()
		}
	}()
	return info, func() {
		_ = l.Close()
		wg.Wait()
	}, called
}

func (w *leakWorld) called(kind int, a netip.Addr, port int, cn net.Conn, r *rand.Rand) {
	hs := vHandshake(a, port, vVer15, "t-"+a.String())
	switch kind {
	case lkOutAtOnce:
		w.end(cn, r)
		return
	case lkOutHalf, lkOutBabble:
		b := &sliceWriter{}
		_, _ = hs.WriteTo(b)
		if kind == lkOutBabble {
			b.buf = w.junk(r)
		}
		_, _ = cn.Write(b.buf[:1+r.IntN(len(b.buf)-1)])
		w.end(cn, r)
		return
	case lkOutMutes:
		time.Sleep(time.Duration(r.IntN(1500)) * time.Millisecond)
		w.end(cn, r)
		return
	case lkOutAlien:
		hs.AppName = []string{"wavesT", "wavesS", ""}[r.IntN(3)]
	case lkOutVersion:
		hs.Version = proto.NewVersion(9, 9, 9)
	}
	p, err := vShake(cn, hs, false, 10*time.Second)
	if err != nil {
		w.errs.Add(1)
		w.end(cn, r)
		return
	}
	as := map[int]int{lkOutAlien: lkAlien, lkOutVersion: lkVersion, lkOutListed: lkListed, lkOutLater: lkLoading, lkOutJunk: lkJunk}[kind]
	w.after(as, cn, p, r)
}

// client is an API client of one of several kinds.
func (w *leakWorld) client(r *rand.Rand) {
	paths := []string{"/api/status", "/api/peers/all", "/api/peers/friendly", "/api/connections", "/api/forks", "/api/active-forks", "/api/leashes", "/api/heads",
		"/api/fork/10.77.1.1", "/api/fork/10.77.1.1/generators/10", "/nothing", "/api/forks?peers=%zz"}
	path := paths[r.IntN(len(paths))]
	kind := r.IntN(4)
	if kind == 0 {
		_, _, _ = vGet(w.api, path, 10*time.Second, nil)
		return
	}
	cn, err := net.DialTimeout("tcp", w.api, 10*time.Second)
	if err != nil {
		w.errs.Add(1)
		return
	}
	req := "GET " + path + " HTTP/1.1\r\nHost: x\r\n\r\n"
	switch kind {
	case 1: // Half a request.
		_, _ = cn.Write([]byte(req[:r.IntN(len(req))]))
	case 2: // Several requests at once, no interest in the answers.
		_, _ = cn.Write([]byte(strings.Repeat(req, 1+r.IntN(10))))
	case 3: // One answer is read, the connection is kept a while.
		_, _ = cn.Write([]byte(req))
		_ = cn.SetReadDeadline(time.Now().Add(5 * time.Second))
		_, _ = cn.Read(make([]byte, 1+r.IntN(4096)))
	}
	if r.IntN(2) == 0 {
		time.Sleep(time.Duration(r.IntN(100)) * time.Millisecond)
	}
	w.end(cn, r)
}

// held counts goroutines and sockets of the program.
func (w *leakWorld) held() (gs, socks, connected int) {
	var s jStatus
	if st, _, err := vGet(w.api, "/api/status", 20*time.Second, &s); err != nil || st != 200 {
		return -1, -1, -1
	}
	dir := fmt.Sprintf("/proc/%d/fd", w.p.cmd.Process.Pid)
	fs, err := os.ReadDir(dir)
	if err != nil {
		return -1, -1, -1
	}
	for _, f := range fs {
		if t, err := os.Readlink(filepath.Join(dir, f.Name())); err == nil && strings.HasPrefix(t, "socket:") {
			socks++
		}
	}
	return s.Goroutines, socks, s.Connected
}

func (w *leakWorld) netstat() string {
	out := ""
	dir := fmt.Sprintf("/proc/%d/net/tcp", w.p.cmd.Process.Pid)
	b, _ := os.ReadFile(dir)
	states := map[string]int{}
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Fields(l)
		if len(f) > 9 && f[9] != "0" {
			states[f[3]]++
		}
	}
	out = fmt.Sprintf("TCP states in the namespace: %v", states)
	return out
}

func leakCase(c *vc) {
	k, _ := strconv.Atoi(c.name[len("leak-"):])
	r := c.rng
	w := &leakWorld{c: c, u: newUniverse(), base: 60 + k%18*10, local: os.Getenv("VERIF_NETNS") == ""}
	all := lkKinds
	if w.local { // Loopback addresses are never called.
		all = lkIn
		c.count("no_namespace", 1)
	}
	var tip *ublock
	for i := range 60 {
		p := w.u.genesis
		if tip != nil {
			p = tip.id()
		}
		tip = w.u.add(tip, vRealBlock(c, p, 1_700_000_000_000+uint64(i)*60_000, 50+r.Uint64N(100), true))
	}
	host := w.addr()
	dir := c.dir()
	w.api = fmt.Sprintf("%s:%d", host, vFreePort(host.String()))
	w.net = fmt.Sprintf("%s:%d", host, vFreePort(host.String()))
	w.p = vExec(c, dir, "-db", dir, "-api", w.api, "-net", w.net, "-declared-address", w.net, "-peers", "203.0.113.7:6868")
	if !w.p.started(w.api, 60*time.Second) {
		c.fail("start", "the program ends with %d: %s", w.p.rc, w.p.tail(3000))
	}
	// Sessions that stay.
	var steady []*tcpPeer
	for range 3 {
		a := w.addr()
		cn, p := w.shake(a, vHandshake(a, 0, vVer15, "steady"))
		if p == nil {
			c.fail("start", "no session: %v", cn)
		}
		go p.run()
		w.awaited(p)
		steady = append(steady, p)
	}
	g0, s0 := 1<<30, 1<<30
	vEventually(20*time.Second, func() bool {
		_, _, n := w.held()
		return n == len(steady)
	})
	for end := time.Now().Add(3 * time.Second); time.Now().Before(end); time.Sleep(100 * time.Millisecond) {
		if g, s, n := w.held(); n == len(steady) {
			g0, s0 = min(g0, g), min(s0, s)
		}
	}
	if g0 == 1<<30 {
		c.fail("start", "%d sessions have been started but are not shown: %s", len(steady), w.p.tail(3000))
	}
	// An unsettled start may be a low measurement as well; the rounds allow for some.
	const slackG, slackS = 6, 3
	rounds := vScale(4, 10)
	for round := range rounds {
		// The kinds of this round; each often enough to stand out.
		kinds := make([]int, 0, 8)
		if round%2 == 0 {
			for k := range all {
				kinds = append(kinds, k)
			}
		} else {
			for range 3 {
				kinds = append(kinds, r.IntN(all))
			}
		}
		each := 9
		if round%2 == 1 {
			each = 60
		}
		var wg sync.WaitGroup
		var infos []proto.PeerInfo
		var stops []func()
		var calls []*atomic.Bool
		slots := make(chan struct{}, 48)
		total := 0
		for _, kind := range kinds {
			n := each
			if kind == lkNeverReads {
				n = min(n, 12)
			}
			for range n {
				rr := rand.New(rand.NewPCG(r.Uint64(), r.Uint64()))
				total++
				c.count("sessions_"+strings.ReplaceAll(strings.ReplaceAll(lkNames[kind], " ", "_"), ":", ""), 1)
				if kind >= lkIn {
					i, f, b := w.target(kind, rr)
					infos, stops, calls = append(infos, i), append(stops, f), append(calls, b)
					continue
				}
				wg.Add(1)
				go func() {
					defer wg.Done()
					slots <- struct{}{}
					defer func() { <-slots }()
					w.inbound(kind, rr)
					w.done.Add(1)
				}()
			}
		}
		for range 80 {
			rr := rand.New(rand.NewPCG(r.Uint64(), r.Uint64()))
			wg.Add(1)
			go func() {
				defer wg.Done()
				slots <- struct{}{}
				defer func() { <-slots }()
				w.client(rr)
			}()
		}
		if len(infos) > 0 {
			if err := steady[0].send(&proto.PeersMessage{Peers: infos}); err != nil {
				c.fail("dropped", "announcing %d peers over a session that stays: %v", len(infos), err)
			}
		}
		wg.Wait()
		uncalled := 0
		vEventually(20*time.Second, func() bool {
			uncalled = 0
			for _, b := range calls {
				if !b.Load() {
					uncalled++
				}
			}
			return uncalled == 0
		})
		for _, f := range stops {
			f()
		}
		c.count("targets_called", len(calls)-uncalled)
		c.count("targets_not_called", uncalled)
		var g, s, n int
		ok := vEventually(60*time.Second, func() bool {
			if !w.p.running() {
				return true
			}
			g, s, n = w.held()
			if g >= 0 && g <= g0+slackG && s <= s0+slackS && n == len(steady) {
				return true
			}
			time.Sleep(150 * time.Millisecond)
			return false
		})
		w.p.healthy()
		if !w.p.running() {
			c.fail("crash", "the program has ended with %d: %s", w.p.rc, w.p.tail(6000))
		}
		names := make([]string, len(kinds))
		for i, k := range kinds {
			names[i] = lkNames[k]
		}
		if !ok {
			st := w.netstat()
			_ = w.p.cmd.Process.Signal(syscall.SIGQUIT)
			if !w.p.exited(10 * time.Second) {
				w.p.kill()
			}
			t := w.p.err.String()
			if i := strings.Index(t, "SIGQUIT"); i >= 0 {
				t = t[i:]
			}
			c.fail("leak", "round %d: a minute after %d sessions (%s) and 80 API clients have ended or must have been ended there are %d goroutines, %d sockets and %d sessions, with the %d sessions that stay there had been %d goroutines and %d sockets. %s\n%.40000s",
				round, total, strings.Join(names, ", "), g, s, n, len(steady), g0, s0, st, t)
		}
		c.count("connections_closed_by_the_detector", w.closeKept())
		for _, p := range steady {
			c.check(!p.closed(0), "dropped", "a session that stays has been closed by the detector")
		}
		c.count("sessions_over", total)
		c.max("max_goroutines_left_over", g-g0)
		c.max("max_sockets_left_over", max(0, s-s0))
		c.op("round %d: %d sessions over (%s), %d goroutines (%d at first), %d sockets (%d at first)", round, total, strings.Join(names, ", "), g, g0, s, s0)
		c.eval(vHash(c.name, round, strings.Join(names, ",")))
	}
	c.count("failed_attempts_of_the_workload", int(w.errs.Load()))
	w.p.stop(syscall.SIGTERM, 30*time.Second)
	for _, p := range steady {
		c.check(p.closed(5*time.Second), "not-closed", "a session is still open though the program has ended")
		_ = p.conn.Close()
	}
	_ = os.RemoveAll(dir)
	c.sampleTrace(6)
}

func TestN02(t *testing.T) {
	r := vStart(t, "N02", "the real program in a network of its own keeps three sessions while hundreds of others come and go in 27 ways in both directions (ended before, within and after the handshake, amid a message, while loading, refused, hostile, unparsable, never reading, in several sessions at once, with FIN and RST) "+
		"along with API clients that complete, abandon or cut their requests; after each round the goroutines it reports and the sockets in its descriptor table must come back to what they were before, and the sessions that stay must still be open and the only ones shown. One evaluation is one round.")
	// Connections that are only forgotten must not be closed by the garbage collector in time.
	_ = os.Setenv("GOGC", "off")
	_ = os.Setenv("GOMEMLIMIT", "1GiB")
	r.run(vCases(vScale(8, 60), "leak", leakCase), 8)
	r.finish()
}
