package main_test

import (
	"context"
	"fmt"
	"math/big"
	"net/netip"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/wavesplatform/gowaves/pkg/proto"

	"github.com/alexeykiselev/waves-fork-detector/loading"
	"github.com/alexeykiselev/waves-fork-detector/peers"
)

const (
	phIDs = iota
	phBlocks
)

type lmsg struct {
	to netip.Addr
	m  proto.Message
	at time.Time
}

type litem struct {
	id proto.BlockID
	b  *proto.Block
}

type lpeer struct {
	tip   *ublock
	fp    *fakePeer // nil: not connected
	score *big.Int
	ver   proto.Version
}

// lworld is the real loader with the storage and registry it uses, and the model of a load.
type lworld struct {
	c     *vc
	cw    *chainWorld
	u     *universe
	reg   *peers.Registry
	ldr   *loading.Loader
	ids   chan loading.IDsPackage
	blks  chan loading.BlockPackage
	addrs []netip.Addr
	ps    map[netip.Addr]*lpeer
	mu    sync.Mutex
	log   []lmsg
	old   bool
	crowd bool // many peers that hardly ever answer

	cur     netip.Addr // being loaded
	curFP   *fakePeer
	phase   int
	since   time.Time
	queue   []litem
	req     []proto.BlockID
	fails   map[netip.Addr]int
	pending int // blocks of the queue not received yet
	loads   int
	lastRes string
}

func newLworld(c *vc) *lworld {
	r := c.rng
	w := &lworld{c: c, u: newUniverse(), ids: make(chan loading.IDsPackage), blks: make(chan loading.BlockPackage),
		ps: map[netip.Addr]*lpeer{}, fails: map[netip.Addr]int{}, old: r.IntN(4) == 0}
	w.crowd = r.IntN(40) == 0
	n := 1 + r.IntN(5)
	if w.crowd {
		n = 9 + r.IntN(16)
	}
	near := r.IntN(2) == 0 // Neighbours in one network.
	for i := range n {
		a := [4]byte{12, 0, byte(i), byte(1 + r.IntN(250))}
		if near {
			a = [4]byte{12, 0, 0, byte(7 * (i + 1))}
		}
		w.addrs = append(w.addrs, netip.AddrFrom4(a))
	}
	prof := chainProfile{peers: w.addrs, btMode: []int{0, 1, 2}[r.IntN(3)], idMode: 2, closeIDs: r.IntN(3) == 0, twins: r.IntN(2) == 0}
	vers := []proto.Version{vVer15}
	if w.old {
		vers, prof.idMode = []proto.Version{proto.NewVersion(1, 2, 0)}, 0
	}
	w.cw = newChainWorld(c, prof)
	var err error
	w.reg, err = peers.NewRegistry(vScheme, proto.TCPAddr{}, vers, w.cw.dir)
	c.noErr(err, "open", "opening the peer registry")
	// The hidden tree.
	n = []int{5, 30, 120, 350}[r.IntN(4)]
	if n == 350 && r.IntN(6) == 0 {
		n = 800
	}
	forky := []float64{0, 0.03, 0.2}[r.IntN(3)]
	bad := []float64{0, 0, 0.02}[r.IntN(3)]
	var tip *ublock
	for range n {
		if r.Float64() < forky && len(w.u.all) > 0 {
			tip = w.u.all[r.IntN(len(w.u.all))]
			if r.IntN(8) == 0 {
				tip = nil
			}
		}
		p := w.u.genesis
		if tip != nil {
			p = tip.id()
		}
		b := w.cw.newBlock(p)
		if r.Float64() < bad {
			b.Timestamp = vBadTS + r.Uint64N(1<<40)
		}
		tip = w.u.add(tip, b)
	}
	for _, a := range w.addrs {
		ver := vers[0]
		if w.old && r.IntN(2) == 0 {
			ver = proto.NewVersion(1, 1, 0)
		}
		w.ps[a] = &lpeer{tip: w.randTip(), ver: ver}
	}
	// The known part.
	for _, a := range w.addrs {
		if r.IntN(3) == 0 {
			continue
		}
		ch := w.ps[a].tip.chain()
		for _, b := range ch[:r.IntN(len(ch)+1)] {
			w.put(b.b, a)
		}
	}
	w.ldr = loading.NewLoader(w.reg, w.cw.l, w.ids, w.blks)
	return w
}

func (w *lworld) randTip() *ublock {
	r := w.c.rng
	if r.IntN(2) == 0 {
		return w.u.all[max(0, len(w.u.all)-1-r.IntN(5))]
	}
	return w.u.all[r.IntN(len(w.u.all))]
}

// put delivers a block to the storage directly, as the distributor does.
func (w *lworld) put(b *proto.Block, a netip.Addr) {
	want := w.apply(b, a)
	err := w.cw.l.PutBlock(b, a)
	w.c.check((err == nil) == want, "put", "block %s stored: %v, expected %v", w.cw.name(b.BlockID()), err, want)
}

// apply is the effect of a block in the model.
func (w *lworld) apply(b *proto.Block, a netip.Addr) bool {
	m := w.cw.m
	if _, known := m.blocks[b.BlockID()]; !known && b.Timestamp >= vBadTS {
		return false
	}
	return m.put(b, a) != "noparent"
}

func (w *lworld) takeLog() []lmsg {
	w.mu.Lock()
	defer w.mu.Unlock()
	l := w.log
	w.log = nil
	return l
}

func (w *lworld) leash(a netip.Addr) *mblock {
	if b := w.cw.m.leash[a]; b != nil {
		return b
	}
	return w.cw.m.genesis()
}

func ancestorIDs(b *mblock) []proto.BlockID {
	var r []proto.BlockID
	for ; b != nil && len(r) < 100; b = b.p {
		r = append(r, b.id)
	}
	return r
}

// expectList checks the list of IDs in a history request to the peer.
func (w *lworld) expectList(a netip.Addr, m lmsg, ids []proto.BlockID, sigs, restart bool) {
	c := w.c
	c.check(sigs == (w.ps[a].ver.Cmp(proto.NewVersion(1, 2, 0)) < 0), "request-kind", "%s of version %s is sent %T", a, w.ps[a].ver, m.m)
	var cands []*mblock
	lsh := w.leash(a)
	switch {
	case !restart:
		cands = []*mblock{lsh}
	case w.cw.m.leash[a] == nil:
		cands = []*mblock{w.cw.m.genesis()}
	default:
		for _, l := range w.cw.m.longest(w.cw.m.groups(nil)) {
			cands = append(cands, w.cw.m.lca(l, lsh))
		}
	}
	for _, b := range cands {
		if vSameIDs(ids, ancestorIDs(b)) {
			return
		}
	}
	exp := ancestorIDs(cands[0])
	c.fail("request-list", "history request to %s (restart: %v) lists %d IDs %s..%s, expected %d IDs %s..%s (leash %s, candidates %v)", a, restart,
		len(ids), w.cw.name(ids[0]), w.cw.name(ids[len(ids)-1]), len(exp), w.cw.name(exp[0]), w.cw.name(exp[len(exp)-1]), lsh, cands)
}

// begin accounts for a request that starts a new load.
func (w *lworld) begin(m lmsg) {
	c, a := w.c, m.to
	ids, sigs, ok := vIDsOf(m.m)
	c.check(ok, "unexpected", "%s is sent %T without any reason", a, m.m)
	c.check(!w.cur.IsValid(), "two-loads", "loading from %s starts while %s is being loaded since %s", a, w.cur, time.Since(w.since))
	p := w.ps[a]
	c.check(p.fp != nil, "not-connected", "loading starts for %s that is not connected", a)
	c.check(p.score != nil, "no-score", "loading starts for %s that reported no score", a)
	c.check(p.score.Cmp(w.leash(a).score) > 0, "not-lagging", "loading starts for %s with score %s that has a leash on %s of score %s",
		a, p.score, w.leash(a), w.leash(a).score)
	restart := w.fails[a] >= 10
	w.expectList(a, m, ids, sigs, restart)
	if restart {
		w.fails[a] = 0
		c.count("restarts", 1)
	}
	c.op("load of %s starts with %d IDs, restart %v", a, len(ids), restart)
	w.cur, w.curFP, w.phase, w.since, w.queue, w.req = a, p.fp, phIDs, m.at, nil, ids
	w.loads++
	c.count("loads", 1)
}

// ok is the successful end of a batch: the loader continues with the same peer or looks for another.
func (w *lworld) ok(log []lmsg) {
	c := w.c
	a := w.cur
	w.fails[a] = 0
	c.count("batches", 1)
	w.cur, w.queue = netip.Addr{}, nil
	if len(log) == 0 {
		return
	}
	c.check(len(log) == 1, "extra", "%d messages are sent after a batch", len(log))
	m := log[0]
	ids, sigs, is := vIDsOf(m.m)
	c.check(is && m.to == a, "unexpected", "%s is sent %T after a batch of %s", m.to, m.m, a)
	p := w.ps[a]
	c.check(p.score.Cmp(w.leash(a).score) > 0, "not-lagging", "loading from %s continues though its score is %s and that of its leash %s", a, p.score, w.leash(a).score)
	w.expectList(a, m, ids, sigs, false)
	w.cur, w.phase, w.since, w.req = a, phIDs, m.at, ids
	c.op("load of %s continues with %d IDs", a, len(ids))
	c.count("continued", 1)
}

func (w *lworld) give(f func(), what string) {
	done := make(chan struct{})
	go func() {
		f()
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(5 * time.Minute):
		w.c.fail("stuck", "the loader does not take %s", what)
	}
	synctest.Wait()
}

func (w *lworld) silent(log []lmsg, why string) {
	if len(log) > 0 {
		w.c.fail("unexpected", "%T is sent to %s after %s", log[0].m, log[0].to, why)
	}
}

// sendIDs gives a list of IDs of the peer to the loader.
func (w *lworld) sendIDs(a netip.Addr, ids []proto.BlockID, kind string) {
	c := w.c
	c.op("IDs %s from %s: %d", kind, a, len(ids))
	w.give(func() { w.ids <- loading.IDsPackage{Peer: a, IDs: ids} }, "a list of IDs")
	log := w.takeLog()
	w.lastRes = "ignored"
	if a != w.cur || w.phase != phIDs || len(ids) == 0 {
		w.silent(log, "IDs of "+a.String()+" that were to be ignored")
		w.state()
		return
	}
	c.count("ids_"+kind, 1)
	i := 0
	for ; i < len(ids); i++ {
		b, ok := w.cw.m.blocks[ids[i]]
		if !ok {
			break
		}
		if w.leash(a) != b {
			w.cw.m.leash[a] = b
		}
	}
	if i == len(ids) {
		w.lastRes = "allknown"
		w.ok(log)
		w.state()
		return
	}
	w.lastRes = "requested"
	want := ids[i:]
	for k, id := range want {
		c.check(k < len(log), "not-requested", "%d blocks are requested from %s, expected %d", len(log), a, len(want))
		g, is := log[k].m.(*proto.GetBlockMessage)
		c.check(is && log[k].to == a, "unexpected", "%s is sent %T while blocks of %s are to be requested", log[k].to, log[k].m, a)
		c.check(g.BlockID == id, "request-order", "request %d of %s is for %s, expected %s", k, a, w.cw.name(g.BlockID), w.cw.name(id))
	}
	w.silent(log[len(want):], "all missing blocks were requested")
	c.count("requested", len(want))
	w.phase, w.since, w.queue = phBlocks, log[len(want)-1].at, nil
	for _, id := range want {
		w.queue = append(w.queue, litem{id: id})
	}
	w.state()
}

// sendBlock gives a block of the peer to the loader, after the storage if it comes the usual way.
func (w *lworld) sendBlock(a netip.Addr, b *proto.Block, stored bool) {
	c := w.c
	c.op("block %s from %s (stored before: %v)", w.cw.name(b.BlockID()), a, stored)
	if stored {
		w.put(b, a)
	}
	cp := *b
	w.give(func() { w.blks <- loading.BlockPackage{Peer: a, Block: &cp} }, "a block")
	log := w.takeLog()
	w.lastRes = "ignored"
	if a != w.cur || w.phase != phBlocks {
		w.silent(log, "a block of "+a.String()+" that was to be ignored")
		w.state()
		return
	}
	full := true
	for i := range w.queue {
		if w.queue[i].id == b.BlockID() {
			w.queue[i].b = b
		}
		full = full && w.queue[i].b != nil
	}
	if !full {
		w.lastRes = "queued"
		w.silent(log, "a part of the requested blocks")
		w.state()
		return
	}
	for _, it := range w.queue {
		if !w.apply(it.b, a) {
			w.lastRes = "refused"
			c.count("refused", 1)
			w.silent(log, "a batch that can't be applied")
			w.state()
			return
		}
		c.count("applied", 1)
	}
	w.lastRes = "complete"
	w.ok(log)
	w.state()
}

// pass lets time go by; it never stops within the uncertain time around a timeout.
func (w *lworld) pass(dt time.Duration) {
	c := w.c
	if w.cur.IsValid() && time.Since(w.since)+dt > 29*time.Second {
		wait := 34500*time.Millisecond + time.Duration(c.rng.IntN(2500))*time.Millisecond
		time.Sleep(wait - time.Since(w.since))
		synctest.Wait()
		a := w.cur
		n := 0
		for _, it := range w.queue {
			if it.b == nil || !w.apply(it.b, a) {
				break
			}
			n++
		}
		w.fails[a]++
		c.op("load of %s timed out, %d of %d blocks applied, %d failures", a, n, len(w.queue), w.fails[a])
		c.count("timeouts", 1)
		c.count("applied_at_timeout", n)
		w.cur, w.queue = netip.Addr{}, nil
		w.lastRes = fmt.Sprintf("timeout%v", n > 0)
	} else {
		time.Sleep(min(dt, 25*time.Second))
		synctest.Wait()
		w.lastRes = "time"
	}
	for _, m := range w.takeLog() {
		w.begin(m)
	}
	w.state()
}

func (w *lworld) state() {
	for _, a := range w.addrs {
		w.cw.checkLeash(a)
	}
	cur := -1
	if w.cur.IsValid() {
		cur = len(w.queue)
	}
	w.c.eval(vHash(w.lastRes, w.phase, cur, len(w.cw.m.order), w.fails[w.cur], len(w.req)))
}

func (w *lworld) connect(a netip.Addr) {
	c := w.c
	p := w.ps[a]
	ver, err := w.reg.SuggestVersion(a)
	c.noErr(err, "suggest", "offering a version to %s", a)
	if p.ver.Cmp(ver) > 0 { // It was connected with the older one.
		ver = p.ver
	}
	fp := newFakePeer(a, vHandshake(a, 0, p.ver, "n-"+a.String()))
	fp.onSend = func(_ *fakePeer, m proto.Message) {
		w.mu.Lock()
		w.log = append(w.log, lmsg{a, m, time.Now()})
		w.mu.Unlock()
	}
	c.noErr(w.reg.RegisterPeer(a, fp, fp.hs), "register", "registering %s", a)
	p.fp = fp
	c.op("connect %s", a)
}

func (w *lworld) disconnect(a netip.Addr, cl bool) {
	p := w.ps[a]
	if cl {
		_ = p.fp.Close()
	}
	w.c.noErr(w.reg.UnregisterPeer(a, p.fp), "unregister", "unregistering %s", a)
	p.fp = nil
	w.c.op("disconnect %s, closed %v", a, cl)
}

// muted peers may say nothing: what the loader sends to them is not seen.
func (w *lworld) muted(a netip.Addr) bool { return a == w.cur && w.curFP.closed() }

func (w *lworld) report(a netip.Addr) {
	r := w.c.rng
	p := w.ps[a]
	s := new(big.Int).Set(p.tip.score)
	switch r.IntN(8) {
	case 0:
		s = new(big.Int).Set(w.leash(a).score)
	case 1:
		s = new(big.Int).Sub(w.leash(a).score, big.NewInt(1))
		if s.Sign() < 0 {
			s.SetInt64(0)
		}
	case 2:
		s = new(big.Int).Add(w.leash(a).score, big.NewInt(1))
	case 3:
		s = new(big.Int).Lsh(s, 70)
	case 4:
		s = new(big.Int)
	}
	w.c.noErr(w.reg.UpdatePeerScore(a, s), "score", "updating the score of %s", a)
	p.score = s
	w.c.op("score of %s is %s", a, s)
}

func (w *lworld) junk(n int) []proto.BlockID {
	var r []proto.BlockID
	for range n {
		r = append(r, w.cw.newID())
	}
	return r
}

// makeIDs composes an answer of the peer to the last request; no ID occurs twice in it.
func (w *lworld) makeIDs(a netip.Addr) ([]proto.BlockID, string) {
	r := w.c.rng
	p := w.ps[a]
	limit := 100
	if r.IntN(5) == 0 { // There is no limit for what is answered.
		limit = 101 + r.IntN(900)
	}
	honest := w.u.answer(p.tip, w.req, limit)
	w.c.max("max_ids", len(honest))
	dedup := func(l []proto.BlockID) []proto.BlockID {
		seen := map[proto.BlockID]bool{}
		var o []proto.BlockID
		for _, id := range l {
			if !seen[id] {
				seen[id] = true
				o = append(o, id)
			}
		}
		return o
	}
	switch x := r.IntN(24); {
	case x < 12:
		return honest, "honest"
	case x < 14 && len(honest) > 1: // Only a part of it.
		return honest[:1+r.IntN(len(honest))], "short"
	case x < 15 && len(honest) > 1: // A gap after the common block.
		k := 1 + r.IntN(len(honest)-1)
		return append(append([]proto.BlockID(nil), honest[0]), honest[k:]...), "gap"
	case x < 16 && len(honest) > 1:
		s := append([]proto.BlockID(nil), honest...)
		r.Shuffle(len(s), func(i, j int) { s[i], s[j] = s[j], s[i] })
		return s, "shuffled"
	case x < 17:
		return w.junk(1 + r.IntN(5)), "junk"
	case x < 18:
		return append(append([]proto.BlockID(nil), honest...), w.junk(1+r.IntN(3))...), "junk-tail"
	case x < 19:
		return nil, "empty"
	case x < 20: // Known ones only.
		var l []proto.BlockID
		for range 1 + r.IntN(6) {
			l = append(l, w.cw.m.order[r.IntN(len(w.cw.m.order))].id)
		}
		return dedup(l), "known"
	case x < 22: // Any mixture of known and unknown ones.
		var l []proto.BlockID
		for range 1 + r.IntN(12) {
			switch r.IntN(3) {
			case 0:
				l = append(l, w.cw.m.order[r.IntN(len(w.cw.m.order))].id)
			case 1:
				l = append(l, w.u.all[r.IntN(len(w.u.all))].id())
			default:
				l = append(l, w.junk(1)...)
			}
		}
		return dedup(l), "mixture"
	default: // The branch of another peer.
		return w.u.answer(w.ps[w.addrs[r.IntN(len(w.addrs))]].tip, w.req, 100), "other-branch"
	}
}

// serve answers block requests in some order, with losses.
func (w *lworld) serve(loss float64, shuffle, stored bool) {
	r := w.c.rng
	a := w.cur
	var todo []*proto.Block
	for _, it := range w.queue {
		if u := w.u.byID[it.id]; it.b == nil && u != nil && r.Float64() >= loss {
			todo = append(todo, u.b)
		}
	}
	if shuffle {
		r.Shuffle(len(todo), func(i, j int) { todo[i], todo[j] = todo[j], todo[i] })
	}
	for _, b := range todo {
		if w.cur != a || w.phase != phBlocks {
			return
		}
		w.sendBlock(a, b, stored)
		if r.IntN(10) == 0 { // Again.
			w.sendBlock(a, b, stored)
		}
		if r.IntN(12) == 0 {
			w.noise()
		}
		if r.IntN(20) == 0 {
			w.pass(time.Duration(r.IntN(4000)) * time.Millisecond)
		}
	}
}

// noise is anything that must not influence the load, or influences it only through the storage.
func (w *lworld) noise() {
	r := w.c.rng
	a := w.addrs[r.IntN(len(w.addrs))]
	if w.muted(a) {
		return
	}
	u := w.u.all[r.IntN(len(w.u.all))]
	switch r.IntN(6) {
	case 0, 1:
		if a != w.cur || w.phase == phIDs { // Blocks of the loaded peer are given by serve.
			w.sendBlock(a, u.b, false)
		}
	case 2: // An ordinary announcement of a block.
		w.put(u.b, a)
		w.state()
	case 3:
		if a != w.cur || w.phase == phBlocks {
			ids, _ := w.makeIDs(a)
			w.sendIDs(a, ids, "noise")
		}
	case 4:
		b := w.cw.newBlock(w.cw.m.order[r.IntN(len(w.cw.m.order))].id) // A block out of the universe.
		w.put(b, a)
		w.state()
	case 5:
		w.cw.moveLeash(w.cw.m.order[r.IntN(len(w.cw.m.order))], a)
		w.state()
	}
}

func loaderCase(c *vc) {
	w := newLworld(c)
	r := c.rng
	ctx, cancel := context.WithCancel(context.Background())
	w.ldr.Run(ctx)
	lossy := []float64{0, 0, 0.3, 0.9}[r.IntN(4)]
	stored := []float64{0, 0.5, 1}[r.IntN(3)]
	deaf := []float64{0, 0.1, 0.95}[r.IntN(3)] // probability of no answer to a request of IDs
	for _, a := range w.addrs {
		w.connect(a)
		w.report(a)
	}
	steps := vScale(120, 600)
	if w.crowd {
		deaf = 0.97
		steps = 60 * len(w.addrs)
	}
	for range steps {
		switch x := r.IntN(100); {
		case x < 5:
			a := w.addrs[r.IntN(len(w.addrs))]
			if p := w.ps[a]; p.fp == nil {
				w.connect(a)
				if r.IntN(2) == 0 {
					w.report(a)
				}
			} else {
				w.disconnect(a, r.IntN(2) == 0)
			}
			w.state()
		case x < 12:
			a := w.addrs[r.IntN(len(w.addrs))]
			if r.IntN(2) == 0 {
				w.ps[a].tip = w.randTip()
			}
			if _, err := w.reg.Peer(a); err == nil {
				w.report(a)
			}
		case x < 22:
			w.noise()
		case x < 40 || !w.cur.IsValid() || w.muted(w.cur):
			w.pass(time.Duration(1+r.IntN(7000)) * time.Millisecond)
		default:
			switch {
			case r.IntN(12) == 0: // The storage changes meanwhile, then the peer keeps silent.
				if r.IntN(2) == 0 {
					w.cw.moveLeash(w.cw.m.order[r.IntN(len(w.cw.m.order))], w.cur)
				} else {
					w.put(w.cw.newBlock(w.cw.m.order[r.IntN(len(w.cw.m.order))].id), w.cur)
				}
				w.state()
				w.pass(time.Minute)
			case r.Float64() < deaf:
				w.pass(time.Minute)
			case w.phase == phIDs:
				ids, kind := w.makeIDs(w.cur)
				w.sendIDs(w.cur, ids, kind)
			case r.IntN(30) == 0: // A burst of everything requested twice.
				w.serve(0, true, false)
			default:
				w.serve(lossy, r.IntN(2) == 0, r.Float64() < stored)
				if w.cur.IsValid() && w.phase == phBlocks && r.IntN(3) > 0 {
					w.pass(time.Minute)
				}
			}
		}
	}
	w.cw.checkBlocks(true)
	c.sampleTrace(25)
	cancel()
	done := make(chan struct{})
	go func() { w.ldr.Shutdown(); close(done) }()
	select {
	case <-done:
	case <-time.After(time.Minute):
		c.fail("shutdown", "the loader does not stop within a minute")
	}
	w.cw.close()
	c.noErr(w.reg.Close(), "close", "closing the registry")
	time.Sleep(2 * time.Minute)
}

func TestL02(t *testing.T) {
	r := vStart(t, "L02", "A case is a history of the real loader in virtual time over a hidden tree of blocks: peers with own tips connect, report scores, answer requests for IDs honestly or not, "+
		"deliver blocks in any order, lose or repeat them, while other peers talk and the storage changes. Every message sent by the loader must be the one a reference model of a load "+
		"expects, and after every input the leashes of all peers must be the expected ones. One evaluation is one input with its complete comparison; distinct by effect, phase, sizes and failures.")
	r.runSync(vCases(vScale(2400, 20000), "loads", loaderCase), 0)
	r.finish()
}
