package main_test

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math/big"
	"net"
	"net/netip"
	"runtime"
	"strings"
	"sync"
	"syscall"
	"testing"
	"testing/synctest"
	"time"

	g "github.com/wavesplatform/gowaves/pkg/grpc/generated/waves"
	"github.com/wavesplatform/gowaves/pkg/p2p/peer"
	"github.com/wavesplatform/gowaves/pkg/proto"
	gproto "google.golang.org/protobuf/proto"

	"github.com/alexeykiselev/waves-fork-detector/chains"
	"github.com/alexeykiselev/waves-fork-detector/peers"
)

// snapshot is everything an outsider can see of the stored state.
type snapshot struct {
	recs   map[netip.Addr]string // without the score
	scores map[netip.Addr]string
	conns  map[netip.Addr]bool
	leash  map[netip.Addr]proto.BlockID
	heads  map[proto.BlockID]uint64
}

func vSnapshot(c *vc, reg *peers.Registry, l *chains.Linkage) *snapshot {
	s := &snapshot{recs: map[netip.Addr]string{}, scores: map[netip.Addr]string{}, conns: map[netip.Addr]bool{},
		leash: map[netip.Addr]proto.BlockID{}, heads: map[proto.BlockID]uint64{}}
	ps, err := reg.Peers()
	c.noErr(err, "query-error", "Peers")
	for _, p := range ps {
		s.recs[p.AddressPort.Addr()] = fmt.Sprint(p.AddressPort, p.Name, p.Nonce, p.State, p.Version)
		sc := p.Score
		if sc == nil {
			sc = new(big.Int)
		}
		s.scores[p.AddressPort.Addr()] = string(sc.Bytes())
	}
	cs, err := reg.Connections()
	c.noErr(err, "query-error", "Connections")
	for _, p := range cs {
		s.conns[p.AddressPort.Addr()] = true
	}
	ls, err := l.Leashes()
	c.noErr(err, "query-error", "Leashes")
	for _, x := range ls {
		s.leash[x.Addr] = x.BlockID
	}
	hs, err := l.Heads()
	c.noErr(err, "query-error", "Heads")
	for _, h := range hs {
		s.heads[h.BlockID] = h.ID
	}
	return s
}

// compare checks that only the given peers' scores and leashes differ (and connections in `gone`).
func (s *snapshot) compare(c *vc, n *snapshot, movers map[netip.Addr]bool, gone map[netip.Addr]bool, newRecs bool, heads bool) {
	for a, r := range s.recs {
		nr, ok := n.recs[a]
		c.check(ok, "record-lost", "record of %s is lost", a)
		c.check(r == nr, "record-changed", "record of %s changed from %s to %s by messages", a, r, nr)
		if !movers[a] {
			c.check(s.scores[a] == n.scores[a], "score-changed", "score of %s changed although it sent none", a)
		}
	}
	c.check(newRecs || len(n.recs) == len(s.recs), "record-new", "%d new records appeared without any announcement", len(n.recs)-len(s.recs))
	for a := range s.conns {
		c.check(n.conns[a] || gone[a], "connection-lost", "connection of %s is lost by messages of others", a)
	}
	for a, id := range s.leash {
		nid, ok := n.leash[a]
		c.check(ok, "leash-lost", "leash of %s is lost", a)
		c.check(id == nid || movers[a], "leash-moved", "leash of %s moved although it sent nothing", a)
	}
	for a := range n.leash {
		_, ok := s.leash[a]
		c.check(ok || movers[a], "leash-new", "%s got a leash although it sent nothing", a)
	}
	if !heads {
		c.check(len(s.heads) == len(n.heads), "heads-changed", "heads changed without any block")
		for id, num := range s.heads {
			c.check(n.heads[id] == num, "heads-changed", "head %d changed without any block", num)
		}
	}
}

// vQueryAll asks everything that can be asked and checks that the answers can be serialized.
func vQueryAll(c *vc, reg *peers.Registry, l *chains.Linkage) {
	ser := func(what string, v any, err error) {
		c.noErr(err, "query-error", "%s", what)
		_, err = json.Marshal(v)
		c.noErr(err, "serialize", "answer of %s", what)
	}
	ps, err := reg.Peers()
	ser("Peers", ps, err)
	fp, err := reg.FriendlyPeers()
	ser("FriendlyPeers", fp, err)
	cs, err := reg.Connections()
	ser("Connections", cs, err)
	_, err = reg.Addresses()
	c.noErr(err, "query-error", "Addresses")
	hs, err := l.Heads()
	ser("Heads", hs, err)
	ah, err := l.ActiveHeads()
	ser("ActiveHeads", ah, err)
	ls, err := l.Leashes()
	ser("Leashes", ls, err)
	fs, err := l.Forks(nil)
	ser("Forks", fs, err)
	l.LogInitialStats()
	_, err = l.Stats()
	c.noErr(err, "query-error", "Stats")
	for _, h := range hs {
		b, bErr := l.Block(h.BlockID)
		ser("Block", b, bErr)
		_, bErr = l.LastIDs(h.BlockID, 100)
		c.noErr(bErr, "query-error", "LastIDs")
		gs, bErr := l.ForkGenerators(h.BlockID, 50)
		ser("ForkGenerators", gs, bErr)
	}
	for _, x := range ls {
		f, fErr := l.Fork(x.Addr)
		ser("Fork", f, fErr)
		_, fErr = l.LCB(x.Addr)
		c.noErr(fErr, "query-error", "LCB")
		_, fErr = l.LeashScore(x.Addr)
		c.noErr(fErr, "query-error", "LeashScore")
	}
	c.count("query_rounds", 1)
}

// ---- in virtual time, over fake sessions -----------------------------------------------------

func fakesCase(c *vc) {
	r := c.rng
	d := newDetector(c)
	d.start(false, true)
	evil, good := []netip.Addr{}, []netip.Addr{}
	for i := range 1 + r.IntN(3) {
		evil = append(evil, netip.AddrFrom4([4]byte{66, 6, 6, byte(i)}))
	}
	for i := range 1 + r.IntN(3) {
		good = append(good, netip.AddrFrom4([4]byte{11, 1, 1, byte(i)}))
	}
	sess := map[netip.Addr]*fakePeer{}
	known := []*proto.Block{}
	tip := map[netip.Addr]proto.BlockID{}
	gen := vGenesis()
	h := &hostile{c: c, r: r, parent: func() proto.BlockID {
		if len(known) == 0 || r.IntN(8) == 0 {
			return gen.BlockID()
		}
		return known[len(known)-1-r.IntN(min(len(known), 6))].BlockID()
	}, big: r.IntN(3) == 0}
	var amu sync.Mutex
	answers := map[netip.Addr][]hframe{}
	connect := func(a netip.Addr) {
		fp := d.newSession(a, 6868)
		fp.onSend = func(_ *fakePeer, m proto.Message) {
			if a.As4()[0] != 66 {
				return
			}
			amu.Lock()
			defer amu.Unlock()
			switch v := m.(type) {
			case *proto.GetBlockIdsMessage: // Lure the loader into asking for something.
				if len(answers[a]) < 20 {
					p := h.ids(h.pick(0, 1, 5, 100, 2000))
					if len(v.Blocks) > 0 && h.r.IntN(2) == 0 {
						n := h.pick(1, 3, 150)
						p = binary.BigEndian.AppendUint32(nil, uint32(n+1))
						first := v.Blocks[0].Bytes()
						p = append(append(p, byte(len(first))), first...)
						for range n {
							p = append(append(p, 32), h.rb(32)...)
						}
					}
					answers[a] = append(answers[a], hframe{id: hBlockIDs, payload: p, kind: "answer-ids"})
				}
			case *proto.GetBlockMessage:
				if len(answers[a]) < 20 {
					f := h.block(true)
					if h.r.IntN(2) == 0 {
						f = h.next()
					}
					f.kind = "answer-" + f.kind
					answers[a] = append(answers[a], f)
				}
			}
		}
		d.connect(fp)
		synctest.Wait()
		c.check(!fp.closed(), "refused", "an ordinary session of %s is refused", a)
		sess[a] = fp
	}
	for _, a := range append(append([]netip.Addr{}, evil...), good...) {
		connect(a)
	}
	settle := func(what string) {
		began := time.Now()
		for {
			synctest.Wait()
			if len(d.parent.MessageCh) == 0 && len(d.parent.InfoCh) == 0 {
				break
			}
			time.Sleep(time.Millisecond)
			c.check(time.Since(began) < 10*time.Minute, "stuck", "%d messages and %d events stay unhandled after %s", len(d.parent.MessageCh), len(d.parent.InfoCh), what)
		}
	}
	nscore := uint64(1000)
	probe := func() {
		a := good[r.IntN(len(good))]
		fp := sess[a]
		fp.takeSent()
		nscore++
		s := new(big.Int).SetUint64(nscore)
		d.message(fp, &proto.ScoreMessage{Score: s.Bytes()})
		par, ok := tip[a]
		if !ok {
			par = gen.BlockID()
		}
		b := vRealBlock(c, par, 1_700_000_000_000+nscore*1000, 100, !par.IsSignature() || r.IntN(2) == 0)
		m, err := proto.UnmarshalMessage(vMarshal(c, vBlockMessage(c, b)))
		c.must(err)
		d.message(fp, m)
		d.message(fp, &proto.GetPeersMessage{})
		settle("the probe")
		p, err := d.reg.Peer(a)
		c.noErr(err, "probe", "record of the honest peer")
		c.check(p.Score != nil && p.Score.Cmp(s) == 0, "probe", "score %s of the honest peer is not set: %v", s, p.Score)
		id, err := d.link.Leash(a)
		c.noErr(err, "probe", "leash of the honest peer")
		c.check(id == b.BlockID(), "probe", "block of the honest peer is not accepted")
		n := 0
		for _, x := range fp.takeSent() {
			if pm, isPeers := x.(*proto.PeersMessage); isPeers {
				n++
				c.check(len(pm.Peers) >= len(good), "probe", "the honest peer is told of %d peers", len(pm.Peers))
			}
		}
		c.check(n == 1, "probe", "the honest peer got %d answers to its request", n)
		known = append(known, b)
		tip[a] = b.BlockID()
		c.count("probes", 1)
	}
	probe()
	for range vScale(40, 150) {
		movers, gone := map[netip.Addr]bool{}, map[netip.Addr]bool{}
		newRecs, allBroken := false, true
		kinds := []any{}
		before := vSnapshot(c, d.reg, d.link)
		a := evil[r.IntN(len(evil))]
		if sess[a] == nil {
			connect(a)
			before = vSnapshot(c, d.reg, d.link)
		}
		fs := []hframe{}
		switch x := r.IntN(10); {
		case x < 2:
			for range 1 + r.IntN(5) {
				fs = append(fs, h.broken())
			}
		case x < 4:
			amu.Lock()
			fs = answers[a]
			answers[a] = nil
			amu.Unlock()
		default:
			for range 1 + r.IntN(12) {
				fs = append(fs, h.next())
			}
		}
		for _, f := range fs {
			allBroken = allBroken && f.broken
			newRecs = newRecs || f.id == hPeers
			c.count("frame_"+f.kind, 1)
			c.max("max_payload", len(f.payload))
			c.op("%s: %s (id %d, %d bytes) %.80x", a, f.kind, f.id, len(f.payload), f.payload)
			kinds = append(kinds, f.kind)
			if len(f.payload) == 0 && f.id != hGetPeers { // Filtered before it gets so far, see the wire cases.
				continue
			}
			m, err := proto.UnmarshalMessage(f.bytes())
			if err != nil { // The network layer reports the failure and passes nothing more.
				gone[a] = true
				d.parent.InfoCh <- peer.InfoMessage{Peer: sess[a], Value: &peer.InternalErr{Err: err}}
				break
			}
			c.check(!f.broken || f.id == hInv || f.id == hBlock || f.id == hPBBlock || f.id == hScore, "harness", "a broken message parses")
			d.message(sess[a], m)
		}
		settle(fmt.Sprint(kinds))
		if !allBroken {
			movers[a] = true
		}
		after := vSnapshot(c, d.reg, d.link)
		before.compare(c, after, movers, gone, newRecs, !allBroken)
		if gone[a] {
			c.check(sess[a].closed() && !after.conns[a], "not-closed", "session of %s is not closed after a failure", a)
			delete(sess, a)
		}
		c.eval(vHash(kinds...))
		if r.IntN(2) == 0 {
			probe()
		}
		if r.IntN(4) == 0 {
			time.Sleep([]time.Duration{time.Second, 6 * time.Second, 35 * time.Second, 2 * time.Minute}[r.IntN(4)])
			synctest.Wait()
		}
		if r.IntN(10) == 0 {
			vQueryAll(c, d.reg, d.link)
		}
	}
	probe()
	vQueryAll(c, d.reg, d.link)
	before := vSnapshot(c, d.reg, d.link)
	d.shutdown(nil)
	d.start(false, true)
	n := vSnapshot(c, d.reg, d.link)
	before.compare(c, n, nil, before.conns, false, false)
	vQueryAll(c, d.reg, d.link)
	sess = map[netip.Addr]*fakePeer{}
	connect(good[0])
	for _, b := range known {
		ok, err := d.link.HasBlock(b.BlockID())
		c.check(err == nil && ok, "block-lost", "block %s is lost after a restart: %v", b.BlockID(), err)
	}
	probe0 := good
	good = good[:1]
	probe()
	good = probe0
	c.sampleTrace(8)
	d.shutdown(nil)
	time.Sleep(2 * time.Minute)
}

func vMarshal(c *vc, m proto.Message) []byte {
	b, err := m.MarshalBinary()
	c.must(err)
	return b
}

// ---- over real sockets -----------------------------------------------------------------------

// wire is a running detector on loopback addresses of its own.
type wire struct {
	c      *vc
	d      *detector
	n      byte
	addr   string
	nh     int
	known  []*proto.Block
	kmu    sync.Mutex
	api    []string
	honest *tcpPeer
	haddr  netip.Addr
	nscore uint64
}

func newWire(c *vc) *wire {
	n := byte(10 + vNetSeq.Add(1)%200)
	w := &wire{c: c, d: newDetector(c), n: n, nscore: 1000, haddr: netip.AddrFrom4([4]byte{127, n, 0, 1})}
	self := netip.AddrFrom4([4]byte{127, n, 255, 254})
	w.d.bind = vTCPAddr(self, vFreePort(self.String()))
	w.d.declared = w.d.bind
	w.d.apiBind = fmt.Sprintf("%s:%d", self, vFreePort(self.String()))
	w.addr = w.d.bind.String()
	w.d.start(true, true)
	return w
}

func (w *wire) from() netip.Addr {
	w.nh++
	return netip.AddrFrom4([4]byte{127, w.n, byte(1 + w.nh/250), byte(1 + w.nh%250)})
}

func (w *wire) dial(a netip.Addr) net.Conn {
	cn, err := vDialFrom(a, w.addr, 5*time.Second)
	w.c.noErr(err, "listen", "connecting to the detector")
	return cn
}

// session makes a proper session.
func (w *wire) session(a netip.Addr) *tcpPeer {
	cn := w.dial(a)
	p, err := vShake(cn, vHandshake(a, 0, vVer15, "n-"+a.String()), true, 15*time.Second)
	w.c.noErr(err, "handshake", "handshake of %s", a)
	return p
}

func (w *wire) listed(a netip.Addr) bool {
	cs, err := w.d.reg.Connections()
	w.c.noErr(err, "query-error", "Connections")
	for _, p := range cs {
		if p.AddressPort.Addr() == a {
			return true
		}
	}
	return false
}

// probe makes sure that the honest peer is served and the API answers.
func (w *wire) probe(what string) {
	c := w.c
	if w.honest == nil {
		w.honest = w.session(w.haddr)
		go w.honest.run()
		c.check(vEventually(20*time.Second, func() bool { return w.listed(w.haddr) }), "probe", "the honest peer is not connected 20 s after its handshake, during %s", what)
	}
	w.nscore++
	s := new(big.Int).SetUint64(w.nscore)
	gen := vGenesis()
	par := gen.BlockID()
	w.kmu.Lock()
	if len(w.known) > 0 {
		par = w.known[len(w.known)-1].BlockID()
	}
	w.kmu.Unlock()
	b := vRealBlock(c, par, 1_700_000_000_000+w.nscore*1000, 100, !par.IsSignature() || c.rng.IntN(2) == 0)
	before := len(w.honest.messages())
	send := func(m proto.Message) { // A message may be dropped under load, that is why it is repeated.
		c.noErr(w.honest.send(m), "probe", "sending to the detector during %s", what)
	}
	end := time.Now().Add(40 * time.Second)
	var scored, leashed, answered bool
	for i := 0; time.Now().Before(end) && !(scored && leashed && answered); i++ {
		if i%50 == 0 {
			if !scored {
				send(&proto.ScoreMessage{Score: s.Bytes()})
			}
			if !leashed {
				send(vBlockMessage(c, b))
			}
			if !answered {
				send(&proto.GetPeersMessage{})
			}
		}
		time.Sleep(10 * time.Millisecond)
		p, err := w.d.reg.Peer(w.haddr)
		scored = err == nil && p.Score != nil && p.Score.Cmp(s) == 0
		id, err := w.d.link.Leash(w.haddr)
		leashed = err == nil && id == b.BlockID()
		for _, m := range w.honest.messages()[before:] {
			_, isPeers := m.(*proto.PeersMessage)
			answered = answered || isPeers
		}
	}
	c.check(scored && leashed && answered, "probe", "the honest peer is not served any more during %s: score set %v, block accepted %v, request answered %v",
		what, scored, leashed, answered)
	w.kmu.Lock()
	w.known = append(w.known, b)
	w.kmu.Unlock()
	for _, path := range []string{"/api/status", "/api/peers/all", "/api/peers/friendly", "/api/connections", "/api/heads", "/api/leashes", "/api/forks",
		"/api/active-forks", "/api/fork/" + w.haddr.String(), "/api/fork/" + w.haddr.String() + "/generators/10"} {
		var v any
		code, body, err := vGet(w.d.apiBind, path, 15*time.Second, &v)
		c.check(err == nil && code == 200, "api", "%s during %s: %d %v %.300s", path, what, code, err, body)
	}
	c.count("wire_probes", 1)
}

func (w *wire) finish() {
	c := w.c
	w.probe("the end")
	_ = w.honest.conn.Close()
	time.Sleep(300 * time.Millisecond)
	done := make(chan struct{})
	at := make(chan string, 16)
	go func() {
		defer close(done)
		w.d.shutdown(func(s string) { at <- s })
	}()
	select {
	case <-done:
	case <-time.After(30 * time.Second):
		s := ""
		for len(at) > 0 {
			s = <-at
		}
		c.fail("shutdown", "the detector does not stop within 30 s after hostile input, at %s", s)
	}
	reg, err := peers.NewRegistry(vScheme, w.d.declared, w.d.vers, w.d.dir)
	c.noErr(err, "reopen", "opening the peer registry after hostile input")
	l, err := chains.NewLinkage(w.d.dir, vScheme, vGenesis())
	c.noErr(err, "reopen", "opening the block storage after hostile input")
	for _, b := range w.known {
		ok, hErr := l.HasBlock(b.BlockID())
		c.check(hErr == nil && ok, "block-lost", "block %s is lost: %v", b.BlockID(), hErr)
	}
	vQueryAll(c, reg, l)
	l.Close()
	c.noErr(reg.Close(), "close", "closing")
}

func (w *wire) hostile() *hostile {
	return &hostile{c: w.c, r: w.c.rng, big: true, parent: func() proto.BlockID {
		w.kmu.Lock()
		defer w.kmu.Unlock()
		if len(w.known) == 0 || w.c.rng.IntN(8) == 0 {
			g := vGenesis()
			return g.BlockID()
		}
		return w.known[len(w.known)-1-w.c.rng.IntN(min(len(w.known), 6))].BlockID()
	}}
}

// wireHandshakes sends garbage in place of handshakes.
func wireHandshakes(c *vc) {
	w := newWire(c)
	r := c.rng
	h := w.hostile()
	w.probe("the start")
	var open []net.Conn
	for i := range vScale(120, 1500) {
		a := w.from()
		cn := w.dial(a)
		hs := vHandshake(a, r.IntN(2)*6868, vVer15, "garbage")
		sw := &sliceWriter{}
		_, err := hs.WriteTo(sw)
		c.must(err)
		b := sw.buf
		kind := "mutated"
		switch r.IntN(8) {
		case 0:
			b, kind = h.rb(r.IntN(200)), "random"
		case 1:
			b, kind = b[:r.IntN(len(b))], "partial"
		case 2:
			b, kind = h.next().bytes(), "message"
			b = b[:min(len(b), 1<<16)]
		case 3:
			// Each field on its own, otherwise the first odd one hides the others.
			if r.IntN(3) == 0 {
				hs.AppName = string(h.rb(r.IntN(256)))
			}
			switch r.IntN(4) {
			case 0:
				hs.NodeName = string(h.rb(r.IntN(256)))
			case 1:
				hs.NodeName = strings.Repeat(string(rune(r.IntN(0x2ffff))), r.IntN(60))
			case 2:
				hs.NodeName = ""
			}
			if r.IntN(4) == 0 {
				x := []uint32{0, 1, 5, 6, 1 << 31, 1<<32 - 1}
				hs.Version = proto.NewVersion(x[r.IntN(6)], x[r.IntN(6)], x[r.IntN(6)])
			}
			hs.NodeNonce, hs.Timestamp = r.Uint64(), r.Uint64()
			if r.IntN(4) > 0 {
				hs.DeclaredAddr = proto.HandshakeTCPAddr(proto.NewTCPAddr(net.IP(h.rb(4)).To16(), []int{0, 1, 65535, 65536, 1<<31 - 1, 1 << 31, 1<<32 - 1}[r.IntN(7)]))
			}
			sw = &sliceWriter{}
			_, err = hs.WriteTo(sw)
			c.must(err)
			b, kind = sw.buf, "odd"
		default:
			for range 1 + r.IntN(3) {
				k := r.IntN(len(b))
				if k+4 <= len(b) && r.IntN(3) == 0 {
					binary.BigEndian.PutUint32(b[k:], []uint32{0, 1, 2, 7, 8, 9, 0x7fffffff, 0xffffffff}[r.IntN(8)])
				} else {
					b[k] = byte(r.Uint32())
				}
			}
			if r.IntN(2) == 0 {
				b = append(b, h.next().bytes()...)
				b = b[:min(len(b), 1<<16)]
			}
		}
		c.op("handshake %s from %s: %.200x", kind, a, b)
		c.count("handshake_"+kind, 1)
		_ = cn.SetWriteDeadline(time.Now().Add(10 * time.Second))
		_, _ = cn.Write(b)
		switch r.IntN(3) {
		case 0:
			_ = cn.Close()
		case 1:
			_ = cn.(*net.TCPConn).SetLinger(0)
			_ = cn.Close()
		default:
			open = append(open, cn)
		}
		c.eval(vHash(kind, len(b)))
		if i%40 == 39 {
			w.probe("hostile handshakes")
		}
	}
	w.probe("hostile handshakes")
	for _, cn := range open {
		_ = cn.Close()
	}
	w.finish()
}

// wireFrames sends garbage in place of messages.
func wireFrames(c *vc) {
	w := newWire(c)
	r := c.rng
	h := w.hostile()
	w.probe("the start")
	var open []*tcpPeer
	for i := range vScale(60, 800) {
		a := w.from()
		p := w.session(a)
		if r.IntN(4) != 0 {
			go p.run()
		}
		kind := ""
		for range 1 + r.IntN(6) {
			var b []byte
			switch r.IntN(7) {
			case 0: // An empty message.
				id := byte(h.pick(1, 2, 20, 21, 22, 23, 24, 25, 26, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 100, 0, 200))
				b, kind = vFrame(id, nil), fmt.Sprintf("empty-%d", id)
			case 1:
				f := h.next()
				b, kind = f.bytes(), "header"
				k := r.IntN(min(17, len(b)))
				b[k] = byte(r.Uint32())
				if r.IntN(3) == 0 && len(b) > 13 {
					binary.BigEndian.PutUint32(b[9:], []uint32{0, 1, 100 << 20, 0x7fffffff, 0xffffffff, 0xffffffef, 0xfffffff0, 104857583, 104857584}[r.IntN(9)])
				}
			case 2:
				b, kind = h.rb(1+r.IntN(400)), "random"
			case 3: // Messages of kinds nobody handles.
				b, kind = vFrame(byte(h.pick(20, 22, 25, 27, 28, 30, 31, 32, 34, 35, 36, 37, 100)), h.rb(1+r.IntN(1000))), "ignored-kind"
			default:
				f := h.next()
				b, kind = f.bytes(), f.kind
			}
			c.op("%s: %s %d bytes %.100x", a, kind, len(b), b)
			c.count("wire_"+kind, 1)
			if err := p.raw(b); err != nil {
				break
			}
			c.eval(vHash("frame", kind, len(b)))
			if r.IntN(3) == 0 {
				time.Sleep(time.Duration(r.IntN(30)) * time.Millisecond)
			}
		}
		switch r.IntN(3) {
		case 0:
			_ = p.conn.Close()
		case 1:
			_ = p.conn.(*net.TCPConn).SetLinger(0)
			_ = p.conn.Close()
		default:
			open = append(open, p)
		}
		if i%15 == 14 {
			w.probe("hostile messages")
		}
	}
	w.probe("hostile messages")
	for _, p := range open {
		_ = p.conn.Close()
	}
	w.finish()
}

// wireFloods sends more than the detector can take and does not read what it answers.
func wireFloods(c *vc) {
	w := newWire(c)
	r := c.rng
	h := w.hostile()
	w.probe("the start")
	for i := range vScale(4, 30) {
		a := w.from()
		p := w.session(a)
		kind := (i + r.IntN(2)) % 4
		stop := time.Now().Add(time.Duration(1500+r.IntN(1500)) * time.Millisecond)
		what := ""
		n := 0
		switch kind {
		case 0, 1: // Requests, the answers are not read.
			what = "peers requests"
			b := []byte{}
			for range 200 {
				b = append(b, vFrame(hGetPeers, nil)...)
			}
			_ = p.conn.(*net.TCPConn).SetReadBuffer(4096)
			for time.Now().Before(stop) {
				_ = p.conn.SetWriteDeadline(time.Now().Add(time.Second))
				if _, err := p.conn.Write(b); err != nil {
					break
				}
				n += 200
				if n > 60_000 {
					time.Sleep(20 * time.Millisecond)
				}
			}
		case 2:
			what = "mixed messages"
			for time.Now().Before(stop) {
				_ = p.conn.SetWriteDeadline(time.Now().Add(time.Second))
				f := h.good()
				if _, err := p.conn.Write(f.bytes()); err != nil {
					break
				}
				n++
			}
		case 3: // Lure the loader into asking for very many blocks and never read.
			what = "unknown IDs"
			sc := new(big.Int).Lsh(big.NewInt(1), 80)
			_ = p.send(&proto.ScoreMessage{Score: sc.Bytes()})
			got := make(chan struct{})
			var once sync.Once
			p.onMsg = func(p *tcpPeer, m proto.Message) {
				if _, ok := m.(*proto.GetBlockIdsMessage); ok {
					_ = p.raw(vFrame(hBlockIDs, h.ids(20_000)))
					once.Do(func() { close(got) })
					time.Sleep(2 * time.Second)
					_ = p.conn.(*net.TCPConn).SetLinger(0)
					_ = p.conn.Close()
				}
			}
			go p.run()
			select {
			case <-got:
				time.Sleep(2500 * time.Millisecond)
			case <-time.After(20 * time.Second): // Another peer may be loading.
			}
		}
		c.count("flood_"+what, max(n, 1))
		c.op("flood of %d %s from %s", n, what, a)
		if r.IntN(2) == 0 {
			w.probe("a flood of " + what)
		}
		_ = p.conn.(*net.TCPConn).SetLinger(0)
		_ = p.conn.Close()
		w.probe("the end of a flood of " + what)
		c.eval(vHash("flood", what, i))
	}
	w.finish()
}

// wireTrickle asks for much and reads the answers so slowly that the connection just stays alive.
func wireTrickle(c *vc) {
	w := newWire(c)
	r := c.rng
	h := w.hostile()
	w.probe("the start")
	a := w.from()
	p := w.session(a)
	_ = p.conn.(*net.TCPConn).SetReadBuffer(2048)
	stop := make(chan struct{})
	var wg sync.WaitGroup
	wg.Add(1)
	go func() { // Reads a little every now and then.
		defer wg.Done()
		buf := make([]byte, 48<<10)
		for {
			_ = p.conn.SetReadDeadline(time.Now().Add(500 * time.Millisecond))
			for end := time.Now().Add(300 * time.Millisecond); time.Now().Before(end); {
				if _, err := p.conn.Read(buf); err != nil {
					break
				}
			}
			select {
			case <-stop:
				return
			case <-time.After(9 * time.Second):
			}
		}
	}()
	what := "trickle of requested blocks"
	if r.IntN(2) == 0 {
		what = "trickle of peers"
		wg.Add(1)
		go func() {
			defer wg.Done()
			b := []byte{}
			for range 200 {
				b = append(b, vFrame(hGetPeers, nil)...)
			}
			for {
				select {
				case <-stop:
					return
				case <-time.After(10 * time.Millisecond):
				}
				_ = p.conn.SetWriteDeadline(time.Now().Add(time.Second))
				if _, err := p.conn.Write(b); err != nil {
					return
				}
			}
		}()
	} else {
		sc := new(big.Int).Lsh(big.NewInt(1), 80)
		_ = p.send(&proto.ScoreMessage{Score: sc.Bytes()})
		wg.Add(1)
		go func() { // The loader asks at some time.
			defer wg.Done()
			ids := vFrame(hBlockIDs, h.ids(30_000))
			for {
				select {
				case <-stop:
					return
				case <-time.After(time.Second):
				}
				_ = p.conn.SetWriteDeadline(time.Now().Add(time.Second))
				if _, err := p.conn.Write(ids); err != nil {
					return
				}
			}
		}()
	}
	time.Sleep(7 * time.Second)
	for range vScale(2, 10) {
		at := time.Now()
		w.probe("a " + what)
		c.max("max_probe_ms_trickle", int(time.Since(at)/time.Millisecond))
		c.eval(vHash("trickle", what))
		time.Sleep(3 * time.Second)
	}
	c.count("flood_"+what, 1)
	close(stop)
	_ = p.conn.(*net.TCPConn).SetLinger(0)
	_ = p.conn.Close()
	wg.Wait()
	w.finish()
}

// ---- time in proportion to the size -----------------------------------------------------------

// sizedPayload makes a message of n items of the kind.
func sizedPayload(h *hostile, kind string, n int) hframe {
	r := h.r
	count := binary.BigEndian.AppendUint32(nil, uint32(n))
	switch kind {
	case "new-peers", "same-peers", "loopback-peers":
		p := count
		for i := range n {
			switch kind {
			case "new-peers":
				p = append(p, 100, byte(i>>16), byte(i>>8), byte(i))
			case "same-peers":
				p = append(p, 100, 1, 1, 1)
			default:
				p = append(p, 127, byte(i>>16), byte(i>>8), byte(i))
			}
			p = binary.BigEndian.AppendUint32(p, uint32(1+i%65535))
		}
		return hframe{id: hPeers, payload: p}
	case "new-ids", "same-ids", "known-ids":
		p := count
		one := h.rb(32)
		for range n {
			switch kind {
			case "known-ids":
				one = h.parent().Bytes()
			case "new-ids":
				for k := 0; k < 32; k += 8 {
					binary.BigEndian.PutUint64(one[k:], r.Uint64())
				}
			}
			p = append(append(p, byte(len(one))), one...)
		}
		return hframe{id: hBlockIDs, payload: p}
	case "signatures":
		p := append(count, make([]byte, 64*n)...)
		for i := range n {
			binary.BigEndian.PutUint64(p[4+64*i:], r.Uint64())
		}
		return hframe{id: hSignatures, payload: p}
	case "block":
		parent := h.parent()
		b := vRealBlock(h.c, parent, 1_700_000_000_000, 100, false)
		b.Version = proto.RewardBlockVersion
		tx := vTransfer(h.c)
		b.Transactions = make(proto.Transactions, n)
		for i := range b.Transactions {
			b.Transactions[i] = tx
		}
		b.TransactionCount = n
		b.TransactionBlockLength = uint32(b.Transactions.BinarySize() + 4)
		h.c.must(b.GenerateBlockID(vScheme))
		m, ok := vBlockMessage(h.c, b).(*proto.BlockMessage)
		h.c.check(ok, "harness", "not a binary block")
		return hframe{id: hBlock, payload: m.BlockBytes}
	case "pb-block":
		b := &g.Block{}
		h.protoHeader(b)
		tx := &g.Transaction{ChainId: int32(vScheme), SenderPublicKey: h.rb(32), Fee: &g.Amount{Amount: 1}, Timestamp: 1, Version: 2,
			Data: &g.Transaction_Transfer{Transfer: &g.TransferTransactionData{Recipient: &g.Recipient{Recipient: &g.Recipient_Alias{Alias: "alias"}}, Amount: &g.Amount{Amount: 1}}}}
		for range n {
			b.Transactions = append(b.Transactions, &g.SignedTransaction{Transaction: &g.SignedTransaction_WavesTransaction{WavesTransaction: tx}, Proofs: [][]byte{make([]byte, 64)}})
		}
		data, err := gproto.Marshal(b)
		h.c.must(err)
		return hframe{id: hPBBlock, payload: data}
	case "score":
		return hframe{id: hScore, payload: append([]byte{1}, make([]byte, 20*n)...)}
	}
	panic(kind)
}

// timedMessage is the processor time it takes a fresh detector to handle one message of n items.
func timedMessage(c *vc, kind string, n int) time.Duration {
	d := newDetector(c)
	d.start(false, true)
	gen := vGenesis()
	known := []proto.BlockID{gen.BlockID()}
	h := &hostile{c: c, r: c.rng, parent: func() proto.BlockID { return known[c.rng.IntN(len(known))] }}
	a := vAddr("66.6.6.6")
	fp := d.newSession(a, 6868)
	asked := 0
	fp.onSend = func(_ *fakePeer, m proto.Message) {
		if _, _, ok := vIDsOf(m); ok {
			asked++
		}
	}
	d.connect(fp)
	synctest.Wait()
	parent := gen.BlockID()
	for i := range 20 {
		b := vRealBlock(c, parent, 1_700_000_000_000+uint64(i), 100, i > 0)
		m, err := proto.UnmarshalMessage(vMarshal(c, vBlockMessage(c, b)))
		c.must(err)
		d.message(fp, m)
		parent = b.BlockID()
		if kind != "block" {
			known = append(known, parent)
		}
	}
	if kind == "new-ids" || kind == "same-ids" || kind == "known-ids" || kind == "signatures" { // The loader is waiting for them.
		d.message(fp, &proto.ScoreMessage{Score: hugeScore(100).Bytes()})
		for range 60 {
			time.Sleep(time.Second)
			synctest.Wait()
			if asked > 0 {
				break
			}
		}
		c.check(asked > 0, "stuck", "the lagging peer is not asked for IDs")
	}
	m, err := proto.UnmarshalMessage(sizedPayload(h, kind, n).bytes())
	c.noErr(err, "harness", "making a message")
	runtime.GC()
	began := vCPU()
	d.message(fp, m)
	for range 100_000 {
		synctest.Wait()
		if len(d.parent.MessageCh) == 0 {
			break
		}
		time.Sleep(time.Millisecond)
	}
	time.Sleep(5 * time.Millisecond)
	synctest.Wait()
	used := vCPU() - began
	d.message(fp, &proto.ScoreMessage{Score: []byte{7}})
	synctest.Wait()
	p, err := d.reg.Peer(a)
	c.check(err == nil && p.Score != nil && p.Score.Int64() == 7, "probe", "the peer is not served after a message of %d items of kind %s", n, kind)
	d.shutdown(nil)
	time.Sleep(2 * time.Minute)
	return used
}

// sizesCase compares the time of a message with that of one 32 times longer.
func sizesCase(kind string, n int) func(c *vc) {
	return func(c *vc) {
		const k = 32
		small := min(timedMessage(c, kind, n), timedMessage(c, kind, n))
		large := timedMessage(c, kind, k*n)
		c.op("%s: %d items in %s, %d items in %s", kind, n, small, k*n, large)
		c.check(large <= 6*k*small+1500*time.Millisecond, "disproportionate", "message of kind %s with %d items takes %s of processor time, but with %d items %s",
			kind, n, small, k*n, large)
		c.max("size_ms_"+kind, int(large/time.Millisecond))
		c.eval(vHash(kind))
		c.sampleTrace(1)
	}
}

func vCPU() time.Duration {
	var ru syscall.Rusage
	if err := syscall.Getrusage(syscall.RUSAGE_SELF, &ru); err != nil {
		return 0
	}
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

func TestD02(t *testing.T) {
	r := vStart(t, "D02", "A case is a history of hostile inputs given to the assembled components: in virtual time through fake sessions (real distributor, loader, registry and block "+
		"storage), or over real TCP (all components of the program, API included). Between inputs an honest peer must be served in full and every query must answer and serialize; inputs that do "+
		"not parse must change nothing, others nothing but what belongs to their sender; processor time of messages of each kind is compared with that of ones 32 times longer; at the end everything is reopened and queried. One evaluation is one burst of fake messages, one hostile "+
		"handshake or one hostile frame; distinct by kinds and sizes.")
	r.limit = 240 * time.Second
	var wg sync.WaitGroup
	wg.Add(1)
	go func() { // The wire cases mostly wait.
		defer wg.Done()
		cs := vCases(vScale(4, 16), "handshakes", wireHandshakes)
		cs = append(cs, vCases(vScale(6, 32), "frames", wireFrames)...)
		cs = append(cs, vCases(vScale(4, 16), "floods", wireFloods)...)
		cs = append(cs, vCases(vScale(4, 16), "trickle", wireTrickle)...)
		r.run(cs, 18)
	}()
	wg.Wait()
	r.runSync(vCases(vScale(64, 1500), "fakes", fakesCase), 0)
	var sized []vCase // One at a time, their processor time is measured.
	for _, x := range []struct {
		kind string
		n    int
	}{{"new-peers", 3000}, {"same-peers", 8000}, {"loopback-peers", 8000}, {"new-ids", 2000}, {"same-ids", 2000}, {"known-ids", 1000},
		{"signatures", 1000}, {"block", 1500}, {"pb-block", 1500}, {"score", 40_000}} {
		sized = append(sized, vCase{name: "size-" + x.kind, fn: sizesCase(x.kind, x.n)})
	}
	r.runSync(sized, 1)
	r.finish()
}
