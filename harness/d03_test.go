package main_test

import (
	"fmt"
	"math/big"
	"net"
	"net/netip"
	"os"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"testing/synctest"
	"time"

	"github.com/rhansen/go-kairos/kairos"
	"github.com/wavesplatform/gowaves/pkg/p2p/peer"
	"github.com/wavesplatform/gowaves/pkg/proto"

	"github.com/alexeykiselev/waves-fork-detector/chains"
	"github.com/alexeykiselev/waves-fork-detector/peers"
)

// stopState is what must not change any more once all is stopped, and be found again.
type stopState struct {
	heads   map[proto.BlockID]uint64
	leashes map[netip.Addr]proto.BlockID
	peers   map[netip.Addr]string
	blocks  map[proto.BlockID]bool
}

func (w *aworld) snapshot(reg *peers.Registry, l *chains.Linkage, what string) stopState {
	c := w.c
	s := stopState{heads: headNumbers(c, l, what), leashes: map[netip.Addr]proto.BlockID{}, peers: map[netip.Addr]string{}, blocks: map[proto.BlockID]bool{}}
	ls, err := l.Leashes()
	c.noErr(err, "query", "%s: leashes", what)
	for _, x := range ls {
		s.leashes[x.Addr] = x.BlockID
	}
	ps, err := reg.Peers()
	c.noErr(err, "query", "%s: peers", what)
	for _, p := range ps {
		s.peers[p.ID()] = fmt.Sprintf("%s|%s|%d|%s|%d|%v|%s", p.AddressPort, p.Name, p.Nonce, p.Version, p.State, p.Score, p.NextAttempt.UTC().Format(time.RFC3339))
	}
	for id := range w.u.byID {
		ok, err := l.HasBlock(id)
		c.noErr(err, "query", "%s: block", what)
		if ok {
			s.blocks[id] = true
		}
	}
	return s
}

func headNumbers(c *vc, l *chains.Linkage, what string) map[proto.BlockID]uint64 {
	hs, err := l.Heads()
	c.noErr(err, "query", "%s: heads", what)
	r := map[proto.BlockID]uint64{}
	for _, h := range hs {
		r[h.BlockID] = h.ID
	}
	return r
}

func diffMaps[K comparable, V comparable](a, b map[K]V) string {
	var sb strings.Builder
	for k, v := range a {
		if o, ok := b[k]; !ok {
			fmt.Fprintf(&sb, "%v -> %v is missing; ", k, v)
		} else if o != v {
			fmt.Fprintf(&sb, "%v -> %v became %v; ", k, v, o)
		}
	}
	for k, v := range b {
		if _, ok := a[k]; !ok {
			fmt.Fprintf(&sb, "%v -> %v is new; ", k, v)
		}
	}
	return sb.String()
}

func (s stopState) diff(o stopState) string {
	return diffMaps(s.heads, o.heads) + diffMaps(s.leashes, o.leashes) + diffMaps(s.peers, o.peers) + diffMaps(s.blocks, o.blocks)
}

// stopCase ends the components at a random moment of a busy life.
func stopCase(c *vc) {
	w := newAworld(c)
	r := c.rng
	idle := r.IntN(8) == 0
	if !idle {
		for range 1 + r.IntN(6) {
			w.addActor(r.IntN(bhKinds))
		}
	}
	for _, x := range w.acts {
		w.connect(x)
	}
	var life time.Duration
	switch r.IntN(4) {
	case 0:
		life = time.Duration(r.IntN(3)) * time.Nanosecond
	case 1: // On the beat of the timers.
		life = time.Duration(r.IntN(120))*time.Second + time.Duration(r.IntN(3)-1)
	default:
		life = time.Duration(r.IntN(10*60*1000)) * time.Millisecond
	}
	stop := make(chan struct{})
	var wg sync.WaitGroup
	var sent atomic.Int64
	// Floods of everything; like real sessions they don't wait for room in the channel.
	floods := 0
	if !idle {
		floods = r.IntN(4)
	}
	w.mu.Lock()
	for range floods {
		x := w.acts[r.IntN(len(w.acts))]
		kind := r.IntN(6)
		pause := time.Duration(1+r.IntN(200))*time.Millisecond + life/200
		var ms []proto.Message
		junk := w.junk(100)
		for range 30 {
			u := w.u.all[r.IntN(len(w.u.all))]
			switch kind {
			case 0:
				ms = append(ms, vBlockMessage(c, u.b))
			case 1:
				ms = append(ms, &proto.BlockIdsMessage{Blocks: w.u.answer(u, []proto.BlockID{w.u.genesis}, 100)})
			case 2:
				ms = append(ms, &proto.ScoreMessage{Score: new(big.Int).Add(u.score, big.NewInt(int64(r.IntN(100)))).Bytes()})
			case 3:
				ms = append(ms, &proto.GetPeersMessage{})
			case 4:
				ms = append(ms, &proto.PeersMessage{Peers: []proto.PeerInfo{{Addr: net.IPv4(14, 1, byte(r.IntN(256)), byte(r.IntN(256))), Port: 6868}}})
			case 5:
				ms = append(ms, vBlockMessage(c, u.b), &proto.BlockIdsMessage{Blocks: junk}, &proto.GetPeersMessage{})
			}
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; ; i++ {
				select {
				case <-stop:
					return
				case <-time.After(pause):
				}
				n := 1 + i%3
				if i%16 == 0 { // Fills the channel.
					n = 300
				}
				for range n {
					select {
					case w.d.parent.MessageCh <- vProtoMessage(x.fp, ms[i%len(ms)]):
						sent.Add(1)
					default:
					}
				}
				if i%50 == 0 {
					select {
					case w.d.parent.InfoCh <- peer.InfoMessage{Peer: x.fp, Value: &peer.Connected{Peer: x.fp}}:
					default:
					}
				}
			}
		}()
	}
	sync_ := r.IntN(2) == 0
	w.mu.Unlock()
	if life > 0 {
		time.Sleep(life)
	}
	if sync_ {
		synctest.Wait()
	}
	w.mu.Lock()
	before := w.reqs
	w.mu.Unlock()
	acts := len(w.acts)
	at := time.Now()
	var stage atomic.Value
	stage.Store("")
	var final stopState
	// A burst just before the end or while the components end one after another.
	burst := ""
	var bms []peer.ProtoMessage
	if len(w.acts) > 0 && w.rand(3) > 0 {
		burst = []string{"start", "loader", "distributor"}[w.rand(3)]
		w.mu.Lock()
		for range 1 + r.IntN(40) {
			x := w.acts[r.IntN(len(w.acts))]
			u := w.u.all[r.IntN(len(w.u.all))]
			m := vProtoMessage(x.fp, vBlockMessage(c, u.b))
			switch r.IntN(3) {
			case 0:
				m = vProtoMessage(x.fp, &proto.BlockIdsMessage{Blocks: w.u.answer(u, []proto.BlockID{w.u.genesis}, 100)})
			case 1:
				m = vProtoMessage(x.fp, &proto.BlockIdsMessage{Blocks: w.junk(1 + r.IntN(100))})
			}
			bms = append(bms, m)
		}
		w.mu.Unlock()
	}
	fire := func() {
		for _, m := range bms {
			select {
			case w.d.parent.MessageCh <- m:
				sent.Add(1)
			default:
			}
		}
	}
	done := make(chan struct{})
	go func() {
		defer close(done)
		if burst == "start" {
			fire()
		}
		w.d.shutdown(func(s string) {
			stage.Store(s)
			if s == burst {
				fire()
			}
			if s != "storage" {
				return
			}
			c.check(time.Since(at) <= 5*time.Second, "slow", "components took %s to stop", time.Since(at))
			final = w.snapshot(w.d.reg, w.d.link, "after shutdown")
			w.mu.Lock()
			asked := w.reqs
			w.mu.Unlock()
			left := len(w.d.parent.MessageCh)
			time.Sleep(3 * time.Minute) // Whatever arrives now has no effect.
			synctest.Wait()
			now := w.snapshot(w.d.reg, w.d.link, "later")
			d := final.diff(now)
			c.check(d == "", "still-running", "state changes after everything has been shut down: %s", d)
			w.mu.Lock()
			c.check(asked == w.reqs, "still-running", "peers are asked for history after everything has been shut down")
			w.mu.Unlock()
			c.check(left == 0 || len(w.d.parent.MessageCh) >= left, "still-running", "messages are taken after everything has been shut down")
		})
	}()
	select {
	case <-done:
	case <-time.After(5 * time.Minute):
		c.fail("hang", "%d peers, %d floods, stopped after %s: no end at stage %q", acts, floods, life, stage.Load())
	}
	close(stop)
	wg.Wait()
	time.Sleep(3 * time.Minute)
	// The next start.
	reg, err := peers.NewRegistry(vScheme, w.d.declared, w.d.vers, w.d.dir)
	c.noErr(err, "reopen", "opening the registry again")
	l, err := chains.NewLinkage(w.d.dir, vScheme, vGenesis())
	c.noErr(err, "reopen", "opening the block storage again")
	d := final.diff(w.snapshot(reg, l, "next start"))
	c.check(d == "", "lost", "next start: %s", d)
	l.Close()
	c.noErr(reg.Close(), "close", "closing the registry")
	time.Sleep(3 * time.Minute)
	c.op("%d peers, %d floods, %d messages, %d history requests, stopped after %s", acts, floods, sent.Load(), before, life)
	if burst != "" {
		c.count("bursts_at_"+burst, 1)
	}
	c.count("blocks_stored", len(final.blocks))
	c.count("messages", int(sent.Load()))
	c.count("requests", before)
	if before > 0 && w.lastReq.Add(time.Minute).After(at) {
		c.count("stopped_while_loading", 1)
	}
	c.eval(vHash(acts, floods, life, len(final.blocks), len(final.heads)))
	c.sampleTrace(2)
}

// swarm is a crowd of network peers around the real program.
type swarm struct {
	c      *vc
	u      *universe
	net    string
	api    string
	stop   chan struct{}
	wg     sync.WaitGroup
	mu     sync.Mutex
	conns  []net.Conn
	served atomic.Int64
	polled atomic.Int64
}

func (s *swarm) rnd(n int) int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.c.rng.IntN(n)
}

func (s *swarm) pause(d time.Duration) bool {
	select {
	case <-s.stop:
		return false
	case <-time.After(d):
		return true
	}
}

func (s *swarm) keep(cn net.Conn) net.Conn {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.conns = append(s.conns, cn)
	return cn
}

// dial without insisting: the program may not listen yet or any more.
func (s *swarm) dial(from netip.Addr) net.Conn {
	for {
		dl := net.Dialer{Timeout: 2 * time.Second, LocalAddr: &net.TCPAddr{IP: net.IP(from.AsSlice())}}
		cn, err := dl.Dial("tcp", s.net)
		if err == nil {
			return s.keep(cn)
		}
		if !s.pause(20 * time.Millisecond) {
			return nil
		}
	}
}

// node behaves as the kind says until its connection ends.
func (s *swarm) node(a netip.Addr, kind int) {
	defer s.wg.Done()
	for {
		cn := s.dial(a)
		if cn == nil {
			return
		}
		s.session(cn, a, kind)
		_ = cn.Close()
		if !s.pause(time.Duration(1+s.rnd(30)) * time.Millisecond) {
			return
		}
	}
}

func (s *swarm) session(cn net.Conn, a netip.Addr, kind int) {
	switch kind {
	case 0: // Says nothing.
		<-s.stop
		return
	case 1: // Half a handshake.
		_, _ = cn.Write([]byte{6, 'w', 'a', 'v'})
		<-s.stop
		return
	}
	p, err := vShake(cn, vHandshake(a, 0, vVer15, "swarm"), true, 5*time.Second)
	if err != nil {
		return
	}
	tip := s.u.all[len(s.u.all)-1-s.rnd(min(20, len(s.u.all)))]
	p.onMsg = func(p *tcpPeer, m proto.Message) {
		var ans proto.Message
		if ids, _, ok := vIDsOf(m); ok {
			ans = &proto.BlockIdsMessage{Blocks: s.u.answer(tip, ids, 100)}
		} else if g, ok := m.(*proto.GetBlockMessage); ok && s.u.byID[g.BlockID] != nil {
			if kind == 4 { // Never gives blocks.
				return
			}
			ans = vBlockMessage(s.c, s.u.byID[g.BlockID].b)
		}
		if ans != nil && p.send(ans) == nil {
			s.served.Add(1)
		}
	}
	if kind == 5 { // Never reads.
		p.paused = make(chan struct{})
		go func() {
			<-s.stop
			close(p.paused)
		}()
	}
	go p.run()
	_ = p.send(&proto.ScoreMessage{Score: tip.score.Bytes()})
	for i := 0; ; i++ {
		select {
		case <-s.stop:
			return
		case <-p.done:
			return
		case <-time.After(time.Duration(1+s.rnd(40)) * time.Millisecond):
		}
		var err error
		switch kind {
		case 3, 5: // Talks all the time.
			b := s.u.all[min(i, len(s.u.all)-1)]
			err = p.send(vBlockMessage(s.c, b.b))
			if err == nil && i%4 == 0 {
				err = p.send(&proto.GetPeersMessage{})
			}
			if err == nil && i%7 == 0 {
				err = p.send(&proto.ScoreMessage{Score: b.score.Bytes()})
			}
		case 6: // Comes and goes.
			if i > s.rnd(5) {
				return
			}
		}
		if err != nil {
			return
		}
	}
}

func (s *swarm) poll() {
	defer s.wg.Done()
	paths := []string{"/api/status", "/api/forks/all", "/api/leashes", "/api/heads", "/api/peers/all", "/api/forks/active", "/api/connections"}
	for s.pause(time.Duration(s.rnd(20)) * time.Millisecond) {
		if st, _, err := vGet(s.api, paths[s.rnd(len(paths))], 5*time.Second, nil); err == nil && st == 200 {
			s.polled.Add(1)
		}
	}
}

// stall asks for a big answer and doesn't read it, or asks half a question.
func (s *swarm) stall() {
	for {
		dl := net.Dialer{Timeout: 2 * time.Second, Control: func(_, _ string, rc syscall.RawConn) error {
			return rc.Control(func(fd uintptr) { _ = syscall.SetsockoptInt(int(fd), syscall.SOL_SOCKET, syscall.SO_RCVBUF, 4096) })
		}}
		cn, err := dl.Dial("tcp", s.api)
		if err == nil {
			s.keep(cn)
			req := "GET /api/peers/all HTTP/1.1\r\nHost: x\r\n\r\n"
			if s.rnd(3) == 0 {
				req = req[:s.rnd(len(req))]
			}
			_, _ = cn.Write([]byte(req))
			return
		}
		if !s.pause(20 * time.Millisecond) {
			return
		}
	}
}

func (s *swarm) end() {
	close(s.stop)
	s.mu.Lock()
	for _, cn := range s.conns {
		_ = cn.Close()
	}
	s.mu.Unlock()
	s.wg.Wait()
}

// signalCase is the real program through several lives over the same folder.
func signalCase(c *vc) {
	r := c.rng
	dir, host := c.dir(), vOwnHost()
	u := newUniverse()
	var tip *ublock
	n := 30 + r.IntN(300)
	for i := range n {
		if tip != nil && r.IntN(20) == 0 {
			for range r.IntN(5) {
				if tip.p != nil {
					tip = tip.p
				}
			}
		}
		p := u.genesis
		if tip != nil {
			p = tip.id()
		}
		tip = u.add(tip, vRealBlock(c, p, 1_700_000_000_000+uint64(i)*60_000, 50+r.Uint64N(100), true))
	}
	hn := net.ParseIP(host).To4()
	leash, book := map[string]string{}, map[string]bool{}
	had := map[string]bool{}
	lives := 2 + r.IntN(2)
	k, _ := strconv.Atoi(c.name[len("signal-"):])
	big := k%72 < 6 // They take longer and begin first.
	if big {        // The list of peers doesn't fit into the buffers of a connection.
		reg, err := peers.NewRegistry(vScheme, proto.TCPAddr{}, []proto.Version{vVer15}, dir)
		c.must(err)
		as := make([]*net.TCPAddr, 30000)
		for i := range as {
			as[i] = &net.TCPAddr{IP: net.IPv4(240, byte(r.IntN(256)), byte(i>>8), byte(i)), Port: 6868}
		}
		if k := reg.AppendAddresses(as); k != len(as) {
			c.fail("append", "%d of %d addresses added", k, len(as))
		}
		// All have been called in vain, it's not the time to call them again.
		_, err = reg.TakeAvailableAddresses()
		c.must(err)
		for _, a := range as {
			c.must(reg.UnregisterPeer(a.AddrPort().Addr().Unmap(), nil))
		}
		c.must(reg.Close())
	}
	for life := range lives {
		s := &swarm{c: c, u: u, stop: make(chan struct{}), api: fmt.Sprintf("%s:%d", host, vFreePort(host)), net: fmt.Sprintf("%s:%d", host, vFreePort(host))}
		args := []string{"-db", dir, "-api", s.api, "-net", s.net, "-peers", "127.0.0.1:1,203.0.113.7:6868"}
		listens := r.IntN(5) > 0
		if listens {
			args = append(args, "-declared-address", "198.51.100.7:6868")
		}
		if r.IntN(3) == 0 {
			args = append(args, "-log-level", "DEBUG")
		}
		busy := r.IntN(4) > 0
		at := time.Now()
		p := vExec(c, dir, args...)
		if busy {
			for i := range 3 + r.IntN(8) {
				kind := r.IntN(7)
				if i == 0 {
					kind = 2
				}
				s.wg.Add(1)
				go s.node(netip.AddrFrom4([4]byte{127, hn[1], hn[2] + 100, byte(10 + i)}), kind)
			}
			for range 1 + s.rnd(3) {
				s.wg.Add(1)
				go s.poll()
			}
			if big {
				for range 1 + s.rnd(4) {
					s.wg.Add(1)
					go func() {
						defer s.wg.Done()
						s.stall()
						c.count("stalled_api_clients", 1)
					}()
				}
			}
		}
		// From the moment signals are caught on.
		for !strings.Contains(p.text(), "Waves Fork Detector") {
			if p.exited(time.Millisecond) {
				s.end()
				p.healthy()
				c.fail("start", "life %d: the program ends with %d: %s", life, p.rc, p.tail(3000))
			}
			if time.Since(at) > time.Minute {
				s.end()
				p.dump("start", time.Minute)
			}
		}
		var d time.Duration
		switch s.rnd(4) {
		case 0:
		case 1:
			d = time.Duration(s.rnd(100)) * time.Millisecond
		case 2:
			d = time.Duration(s.rnd(2500)) * time.Millisecond
		case 3: // While loading: the first attempt to load is made after 5 s.
			d = time.Duration(4500+s.rnd(3000)) * time.Millisecond
		}
		time.Sleep(d)
		// What is known now.
		var js []jLeash
		var jp []jPeerAddr
		if st, _, err := vGet(s.api, "/api/leashes", 5*time.Second, &js); err == nil && st == 200 {
			for _, l := range js {
				had[l.Block] = true
				for _, a := range l.Peers {
					leash[a] = l.Block
				}
			}
		}
		if st, _, err := vGet(s.api, "/api/peers/all", 5*time.Second, &jp); err == nil && st == 200 {
			for _, x := range jp {
				if ap, err := netip.ParseAddrPort(x.Address); err == nil {
					book[ap.Addr().String()] = true
				}
			}
		}
		sig := []syscall.Signal{syscall.SIGTERM, syscall.SIGINT}[s.rnd(2)]
		took := p.stop(sig, 30*time.Second)
		s.end()
		c.max("max_ms_to_stop", int(took/time.Millisecond))
		c.count("lives", 1)
		c.count("answers_to_history_requests", int(s.served.Load()))
		c.count("api_answers", int(s.polled.Load()))
		c.op("life %d: %s after %s, busy=%v listening=%v: stopped in %s; %d requests served, %d API answers, %d blocks seen leashed", life, sig, d, busy, listens, took,
			s.served.Load(), s.polled.Load(), len(had))
		c.eval(vHash(c.name, life, d, busy, listens, len(had)))
		// What was known is there.
		l, err := chains.NewLinkage(dir, vScheme, vGenesis())
		c.noErr(err, "reopen", "life %d: opening the block storage", life)
		for id := range had {
			b, err := proto.NewBlockIDFromBase58(id)
			c.must(err)
			ok, err := l.HasBlock(b)
			c.noErr(err, "query", "block")
			c.check(ok, "lost", "life %d: block %s was somebody's leash, now it is unknown", life, id)
		}
		for a := range leash {
			ok, err := l.HasLeash(vAddr(a))
			c.noErr(err, "query", "leash")
			c.check(ok, "lost", "life %d: %s had a leash, now it has none", life, a)
		}
		heads := headNumbers(c, l, "after the end")
		for id := range heads {
			ids, err := l.LastIDs(id, 1<<20)
			c.noErr(err, "query", "ancestors")
			c.check(len(ids) > 0 && ids[len(ids)-1] == u.genesis, "lost", "life %d: the branch of head %s does not reach the genesis block", life, id)
		}
		l.Close()
		reg, err := peers.NewRegistry(vScheme, proto.TCPAddr{}, []proto.Version{vVer15}, dir)
		c.noErr(err, "reopen", "life %d: opening the registry", life)
		for a := range book {
			_, err := reg.Peer(vAddr(a))
			c.noErr(err, "lost", "life %d: peer %s was known", life, a)
		}
		c.noErr(reg.Close(), "close", "closing the registry")
	}
	_ = os.RemoveAll(dir)
	c.sampleTrace(4)
}

// netStopCase stops the network components among real sessions in both directions.
func netStopCase(c *vc) {
	r := c.rng
	n, _ := strconv.Atoi(c.name[len("netstop-"):])
	if os.Getenv("VERIF_NETNS") == "" {
		c.count("no_namespace", 1)
		return
	}
	addr := func(i int) netip.Addr { return netip.AddrFrom4([4]byte{10, 77, byte(10 + n%200), byte(1 + i)}) }
	d := newDetector(c)
	d.bind = vTCPAddr(addr(0), 31000+n%20000)
	d.declared = d.bind
	d.start(true, true)
	u := newUniverse()
	var tip *ublock
	for i := range 40 {
		p := u.genesis
		if tip != nil {
			p = tip.id()
		}
		tip = u.add(tip, vRealBlock(c, p, 1_700_000_000_000+uint64(i)*60_000, 100, true))
	}
	score := &proto.ScoreMessage{Score: tip.score.Bytes()}
	var mu sync.Mutex
	var open []*tcpPeer
	var late atomic.Int64 // calls made by the detector after its shutdown
	var down atomic.Bool
	talk := r.IntN(3) > 0
	session := func(cn net.Conn, a netip.Addr, initiator bool, talks bool) {
		p, err := vShake(cn, vHandshake(a, 0, vVer15, "netstop"), initiator, 20*time.Second)
		if err != nil { // The detector is going down.
			_ = cn.Close()
			return
		}
		p.onMsg = func(p *tcpPeer, m proto.Message) {
			if ids, _, ok := vIDsOf(m); ok {
				_ = p.send(&proto.BlockIdsMessage{Blocks: u.answer(tip, ids, 100)})
			} else if g, ok := m.(*proto.GetBlockMessage); ok && u.byID[g.BlockID] != nil {
				_ = p.send(vBlockMessage(c, u.byID[g.BlockID].b))
			}
		}
		mu.Lock()
		open = append(open, p)
		mu.Unlock()
		go p.run()
		if !talks {
			return
		}
		for p.send(score) == nil && p.send(&proto.GetPeersMessage{}) == nil && !p.closed(5*time.Millisecond) {
		}
	}
	ins, outs := 1+r.IntN(6), 1+r.IntN(8)
	var held []net.Conn
	var ls []net.Listener
	var as []*net.TCPAddr
	for i := range outs {
		l, err := net.Listen("tcp", netip.AddrPortFrom(addr(50+i), 0).String())
		c.must(err)
		ls = append(ls, l)
		as = append(as, l.Addr().(*net.TCPAddr))
		talks := talk && r.IntN(2) == 0
		mute := r.IntN(4) == 0 // Accepts the call and says nothing.
		go func() {
			for {
				cn, err := l.Accept()
				if err != nil {
					return
				}
				if down.Load() {
					late.Add(1)
				}
				if mute {
					mu.Lock()
					held = append(held, cn)
					mu.Unlock()
					continue
				}
				go session(cn, addr(50+i), false, talks)
			}
		}()
	}
	if k := d.reg.AppendAddresses(as); k != len(as) {
		c.fail("append", "%d of %d addresses added", k, len(as))
	}
	for i := range ins {
		cn, err := vDialFrom(addr(10+i), d.bind.String(), 10*time.Second)
		c.noErr(err, "not-listening", "connecting to the detector")
		go session(cn, addr(10+i), true, talk && r.IntN(2) == 0)
	}
	life := time.Duration(r.IntN(1500)) * time.Millisecond
	if r.IntN(3) > 0 { // All sessions are there.
		vEventually(10*time.Second, func() bool { mu.Lock(); defer mu.Unlock(); return len(open)+len(held) == ins+outs })
		time.Sleep(life / 5)
	} else {
		time.Sleep(life)
	}
	mu.Lock()
	before := len(open)
	mu.Unlock()
	at := time.Now()
	var stage atomic.Value
	stage.Store("")
	done := make(chan struct{})
	go func() {
		defer close(done)
		d.shutdown(func(s string) {
			stage.Store(s)
			if s == "storage" { // Calls on the way are in the queues of the listeners.
				time.Sleep(500 * time.Millisecond)
				down.Store(true)
			}
		})
	}()
	select {
	case <-done:
	case <-time.After(30 * time.Second):
		c.fail("hang", "%d sessions: no end within 30 s at stage %q", before, stage.Load())
	}
	took := time.Since(at)
	mu.Lock()
	ps := append([]*tcpPeer(nil), open...)
	mu.Unlock()
	end := time.Now().Add(20 * time.Second)
	for _, p := range ps {
		c.check(p.closed(time.Until(end)), "still-running", "session %s - %s is still open 20 s after all components have been shut down", p.conn.LocalAddr(), p.conn.RemoteAddr())
	}
	if cn, err := net.DialTimeout("tcp", d.bind.String(), time.Second); err == nil {
		_ = cn.Close()
		c.fail("still-running", "connections to %s are accepted after the shutdown", d.bind)
	}
	time.Sleep(1500 * time.Millisecond) // More than a respawn period.
	c.check(late.Load() == 0, "still-running", "%d peers are called after the shutdown", late.Load())
	for _, l := range ls {
		_ = l.Close()
	}
	for _, p := range ps {
		_ = p.conn.Close()
	}
	mu.Lock()
	c.count("mute_peers_at_stop", len(held))
	for _, cn := range held {
		_ = cn.Close()
	}
	mu.Unlock()
	c.op("%d inbound and %d called peers, %d sessions, talking %v: stopped in %s", ins, outs, before, talk, took)
	c.count("network_sessions_at_stop", before)
	c.eval(vHash(c.name, ins, outs, before, talk))
	c.sampleTrace(1)
}

func TestD03(t *testing.T) {
	r := vStart(t, "D03", "(1) the real distributor and loader among misbehaving and flooding peers in virtual time are told to stop at random moments (also at once and on the beat of the timers): all must return within seconds, nothing may change or be taken afterwards, no goroutine may be left, and the next start must show the same state; "+
		"(2) listener, respawn, distributor and loader are stopped among real sessions in both directions: all sessions must be closed soon after the shutdown, nothing accepted or called any more; (3) the real program, built with the race detector, runs 2-3 lives over one folder among silent, half-open, loading, flooding and never reading network peers and API clients and gets SIGTERM or SIGINT at random moments from the very start on: it must end with status 0 in time without a panic or race, and everything it had shown must be in the storage. "+
		"One evaluation is one stop; distinct by moment, load and state.")
	if only := os.Getenv("VERIF_CASE"); only == "" || strings.HasPrefix(only, "stop") {
		r.runSync(vCases(vScale(110, 2500), "stop", stopCase), 0)
	}
	kairos.SetScale(10)
	r.run(vCases(vScale(24, 300), "netstop", netStopCase), 8)
	r.run(vCases(vScale(36, 500), "signal", signalCase), 10)
	r.finish()
}
