package main_test

import (
	"errors"
	"fmt"
	"math/big"
	"math/rand/v2"
	"net/netip"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/wavesplatform/gowaves/pkg/proto"

	"github.com/alexeykiselev/waves-fork-detector/chains"
)

// item is one block of the tree prepared in advance; its place in the tree never depends on the schedule.
type citem struct {
	m        *mblock
	block    *proto.Block
	inv      *proto.MicroBlockInv
	children []*citem
	started  atomic.Bool // some delivery of it has begun
	done     atomic.Bool // some delivery of it has been completed
}

type cwriter struct {
	addr    netip.Addr
	list    []*citem
	started atomic.Int32 // deliveries begun
	done    atomic.Int32 // deliveries completed
}

type cworld struct {
	c       *vc
	l       *chains.Linkage
	m       *chainModel
	items   []*citem
	byID    map[proto.BlockID]*citem
	writers []*cwriter
	byAddr  map[netip.Addr]*cwriter
	a, b    *cwriter // a pair moved over the same blocks in turn, a first
	failed  atomic.Bool
	fmu     sync.Mutex
	order   []byte
	omu     sync.Mutex
	reads   atomic.Int64
	solo    []*cwriter // peers that build a line of their own
}

// bad reports from any goroutine.
func (w *cworld) bad(key, format string, args ...any) {
	if w.failed.CompareAndSwap(false, true) {
		w.c.report(key, fmt.Sprintf(format, args...))
	}
}

func (w *cworld) ok(cond bool, key, format string, args ...any) bool {
	if !cond {
		w.bad(key, format, args...)
	}
	return cond
}

// deliver repeats a delivery until its parent is there, delivered by another peer. A parent seen as delivered
// before the try has to be found by it.
func (w *cworld) deliver(it *citem, a netip.Addr) error {
	p := w.byID[it.m.p.id]
	if it.inv != nil {
		p = w.byID[it.inv.Reference]
	}
	for try := 0; ; try++ {
		there := p == nil || p.done.Load()
		var err error
		if it.block != nil {
			err = w.l.PutBlock(it.block, a)
		} else {
			err = w.l.PutMicroBlock(it.inv, a)
		}
		if !errors.Is(err, chains.ErrParentNotFound) && !errors.Is(err, chains.ErrRefNotFound) {
			return err
		}
		if there {
			return fmt.Errorf("the parent was delivered before: %w", err)
		}
		if w.failed.Load() || try > 2_000_000 {
			return fmt.Errorf("gave up: %w", err)
		}
		runtime.Gosched()
	}
}

func (w *cworld) write(wr *cwriter, rng *rand.Rand, k byte) {
	for _, it := range wr.list {
		if w.failed.Load() {
			return
		}
		wr.started.Add(1)
		it.started.Store(true)
		err := w.deliver(it, wr.addr)
		if !w.ok(err == nil, "put-error", "delivery of %s by %s: %v", it.m, wr.addr, err) {
			return
		}
		it.done.Store(true)
		wr.done.Add(1)
		w.omu.Lock()
		w.order = append(w.order, k)
		w.omu.Unlock()
		if rng.IntN(6) == 0 {
			runtime.Gosched()
		}
	}
}

// pair moves the leashes of a and b over a list of blocks, a first.
func (w *cworld) pair(list []*citem) {
	for _, it := range list {
		for _, wr := range []*cwriter{w.a, w.b} {
			for !it.done.Load() {
				if w.failed.Load() {
					return
				}
				runtime.Gosched()
			}
			wr.started.Add(1)
			err := w.l.MoveLeash(it.m.id, wr.addr)
			if !w.ok(err == nil, "move-error", "moving leash: %v", err) {
				return
			}
			wr.done.Add(1)
		}
	}
}

// at tells whether the block is the leash of the peer at some moment between lo completed and hi begun deliveries.
func (wr *cwriter) at(id proto.BlockID, lo, hi int32) bool {
	for i := max(lo-1, 0); i < hi; i++ {
		if wr.list[i].m.id == id {
			return true
		}
	}
	return false
}

func (w *cworld) lows() []int32 {
	r := make([]int32, len(w.writers))
	for i, wr := range w.writers {
		r[i] = wr.done.Load()
	}
	return r
}

func (w *cworld) highs() []int32 {
	r := make([]int32, len(w.writers))
	for i, wr := range w.writers {
		r[i] = wr.started.Load()
	}
	return r
}

func (w *cworld) checkLeashMap(got map[netip.Addr]proto.BlockID, lo, hi []int32, what string) {
	for i, wr := range w.writers {
		id, ok := got[wr.addr]
		if !ok {
			w.ok(lo[i] == 0, "leash-lost", "%s: peer %s is missing though %d deliveries of it were complete", what, wr.addr, lo[i])
			continue
		}
		w.ok(wr.at(id, lo[i], hi[i]), "leash-window", "%s: leash of %s is %s, but deliveries %d..%d were complete or under way", what, wr.addr, id.ShortString(), lo[i], hi[i])
	}
	if w.a != nil {
		ia, ib := w.a.indexOf(got[w.a.addr]), w.b.indexOf(got[w.b.addr])
		w.ok(ia == ib || ia == ib+1, "torn-snapshot", "%s: leashes moved in turn are at positions %d and %d", what, ia, ib)
	}
}

func (wr *cwriter) indexOf(id proto.BlockID) int {
	for i, it := range wr.list {
		if it.m.id == id {
			return i
		}
	}
	return -1
}

func (w *cworld) checkData(b chains.Block, it *citem) {
	w.ok(b.ID == it.m.id && b.Height == it.m.height && b.Score.Cmp(it.m.score) == 0 && b.Parent == it.m.p.id && b.Timestamp == it.m.ts && b.Generator == it.m.gen,
		"block-data", "block %s reads as %+v", it.m, b)
}

func (w *cworld) read(rng *rand.Rand) {
	l := w.l
	w.reads.Add(1)
	switch rng.IntN(13) {
	case 0:
		lo := w.lows()
		ls, err := l.Leashes()
		hi := w.highs()
		if !w.ok(err == nil, "query-error", "Leashes: %v", err) {
			return
		}
		got := map[netip.Addr]proto.BlockID{}
		for _, x := range ls {
			_, dup := got[x.Addr]
			w.ok(!dup && w.byAddr[x.Addr] != nil, "leash-list", "leash of %s is listed twice or unknown", x.Addr)
			got[x.Addr] = x.BlockID
		}
		w.checkLeashMap(got, lo, hi, "Leashes")
	case 1, 2:
		lo := w.lows()
		fs, err := l.Forks(nil)
		hi := w.highs()
		if !w.ok(err == nil, "query-error", "Forks: %v", err) {
			return
		}
		got := map[netip.Addr]proto.BlockID{}
		var longest *mblock
		for i, f := range fs {
			it := w.byID[f.HeadBlock]
			if !w.ok(it != nil, "fork-unknown", "fork on an unknown block") {
				return
			}
			w.ok(f.HeadHeight == it.m.height && f.Score.Cmp(it.m.score) == 0 && f.PeersCount == len(f.Peers) && f.PeersCount > 0, "fork-data", "fork on %s: %+v", it.m, f)
			for _, a := range f.Peers {
				_, dup := got[a]
				w.ok(!dup, "fork-peer-twice", "peer %s is on two forks", a)
				got[a] = f.HeadBlock
			}
			if f.Longest {
				w.ok(longest == nil, "fork-longest", "two longest forks")
				longest = it.m
				w.ok(f.Length == 0, "fork-longest", "longest fork has length %d", f.Length)
			}
			if i > 0 {
				w.ok(fs[i-1].Score.Cmp(f.Score) >= 0, "fork-order", "forks are not sorted")
			}
		}
		if len(fs) > 0 {
			if !w.ok(longest != nil && fs[0].Score.Cmp(longest.score) == 0, "fork-longest", "no longest fork among %d", len(fs)) {
				return
			}
			for _, f := range fs {
				b := w.byID[f.HeadBlock].m
				if !f.Longest {
					a := w.m.lca(longest, b)
					w.ok(a.id == f.LastCommonBlock && f.Length == int(b.height)-int(a.height), "fork-lcb", "fork on %s with the longest %s: common block %s, length %d, expected %s",
						b, longest, f.LastCommonBlock.ShortString(), f.Length, a)
				}
			}
		}
		w.checkLeashMap(got, lo, hi, "Forks")
	case 3, 4:
		doneB := make([]bool, len(w.items))
		for i, it := range w.items {
			doneB[i] = it.done.Load()
		}
		hs, err := l.Heads()
		if !w.ok(err == nil, "query-error", "Heads: %v", err) {
			return
		}
		ids, nums := map[proto.BlockID]bool{}, map[uint64]bool{}
		for _, h := range hs {
			w.ok(!ids[h.BlockID] && !nums[h.ID], "head-twice", "head %d on %s is listed twice", h.ID, h.BlockID.ShortString())
			ids[h.BlockID], nums[h.ID] = true, true
		}
		for i, it := range w.items {
			ext, may := false, false
			for _, ch := range it.children {
				ext = ext || doneB[ch.m.seq-1]
				may = may || ch.started.Load()
			}
			if ids[it.m.id] {
				w.ok(it.started.Load() && !ext, "head-window", "%s is listed as head although it was extended before", it.m)
			} else {
				w.ok(!doneB[i] || may, "head-window", "%s is complete and nobody began to extend it, but it is no head", it.m)
			}
		}
	case 5:
		lo := w.lows()
		hs, err := l.ActiveHeads()
		hi := w.highs()
		if !w.ok(err == nil, "query-error", "ActiveHeads: %v", err) {
			return
		}
		act := map[proto.BlockID]bool{}
		for _, h := range hs {
			w.ok(!act[h.BlockID], "active-twice", "active head is listed twice")
			act[h.BlockID] = true
			found := false
			for i, wr := range w.writers {
				found = found || wr.at(h.BlockID, lo[i], hi[i])
			}
			w.ok(found, "active-unleashed", "active head %s cannot be anybody's leash", h.BlockID.ShortString())
		}
		for i, wr := range w.writers { // A line only one peer delivers: its tip is always a head and its leash.
			if wr.isSolo(w) && lo[i] > 0 {
				n := 0
				for _, it := range wr.list {
					if act[it.m.id] {
						n++
					}
				}
				w.ok(n == 1, "active-torn", "the line of %s has %d active heads", wr.addr, n)
			}
		}
	case 6:
		it := w.items[rng.IntN(len(w.items))]
		was := it.done.Load()
		has, err := l.HasBlock(it.m.id)
		w.ok(err == nil, "query-error", "HasBlock: %v", err)
		w.ok(has || !was, "block-lost", "block %s is missing after its delivery", it.m)
		w.ok(!has || it.started.Load(), "block-early", "block %s is there before its delivery", it.m)
		if has {
			b, bErr := l.Block(it.m.id)
			if w.ok(bErr == nil, "query-error", "Block: %v", bErr) {
				w.checkData(b, it)
			}
		}
	case 7:
		it := w.items[rng.IntN(len(w.items))]
		if !it.done.Load() {
			return
		}
		n := 1 + rng.IntN(30)
		ids, err := l.LastIDs(it.m.id, n)
		if !w.ok(err == nil, "query-error", "LastIDs: %v", err) {
			return
		}
		b := it.m
		for i, id := range ids {
			w.ok(b != nil && b.id == id, "last-ids", "ancestor %d of %s", i, it.m)
			if b != nil {
				b = b.p
			}
		}
		_, err = l.ForkGenerators(it.m.id, n)
		w.ok(err == nil, "query-error", "ForkGenerators: %v", err)
	case 8, 9:
		i := rng.IntN(len(w.writers))
		wr := w.writers[i]
		lo := wr.done.Load()
		id, err := l.Leash(wr.addr)
		hi := wr.started.Load()
		if !w.ok(err == nil, "query-error", "Leash: %v", err) {
			return
		}
		if id != w.m.genesis().id || lo > 0 {
			w.ok(wr.at(id, lo, hi), "leash-window", "Leash of %s", wr.addr)
		}
		lo = wr.done.Load()
		sc, err := l.LeashScore(wr.addr)
		hi = wr.started.Load()
		if !w.ok(err == nil, "query-error", "LeashScore: %v", err) {
			return
		}
		found := lo == 0 && sc.Cmp(w.m.genesis().score) == 0
		for k := max(lo-1, 0); k < hi; k++ {
			found = found || wr.list[k].m.score.Cmp(sc) == 0
		}
		w.ok(found, "leash-score", "LeashScore of %s", wr.addr)
		has, err := l.HasLeash(wr.addr)
		w.ok(err == nil && (has || lo == 0), "has-leash", "HasLeash of %s: %v %v", wr.addr, has, err)
	case 10:
		i := rng.IntN(len(w.writers))
		wr := w.writers[i]
		lo := wr.done.Load()
		if lo == 0 {
			return
		}
		f, err := l.Fork(wr.addr)
		hi := wr.started.Load()
		if !w.ok(err == nil, "query-error", "Fork: %v", err) {
			return
		}
		it, lc := w.byID[f.HeadBlock], w.m.blocks[f.LastCommonBlock]
		if !w.ok(it != nil && lc != nil && wr.at(f.HeadBlock, lo, hi), "fork-window", "Fork of %s on %s", wr.addr, f.HeadBlock.ShortString()) {
			return
		}
		w.ok(w.m.lca(it.m, lc) == lc && (f.Longest || f.Length == int(it.m.height)-int(lc.height)), "fork-lcb", "Fork of %s on %s: common block %s, length %d", wr.addr, it.m, lc, f.Length)
		lo = wr.done.Load()
		id, err := l.LCB(wr.addr)
		hi = wr.started.Load()
		if !w.ok(err == nil, "query-error", "LCB: %v", err) {
			return
		}
		lcb := w.m.blocks[id]
		found := false
		for k := max(lo-1, 0); k < hi && lcb != nil; k++ {
			found = found || w.m.lca(wr.list[k].m, lcb) == lcb
		}
		w.ok(found, "lcb-window", "LCB of %s is %v", wr.addr, lcb)
	case 11:
		st, err := l.Stats()
		w.ok(err == nil, "query-error", "Stats: %v", err)
		w.ok(st.Short+st.Long <= len(w.writers), "stats", "Stats %+v with %d peers", st, len(w.writers))
	case 12:
		l.LogInitialStats()
	}
}

func (wr *cwriter) isSolo(w *cworld) bool {
	for _, s := range w.solo {
		if s == wr {
			return true
		}
	}
	return false
}

func concurrentCase(c *vc) {
	r := c.rng
	prev := runtime.GOMAXPROCS([]int{2, 3, 4, 8}[r.IntN(4)])
	defer runtime.GOMAXPROCS(prev)
	gen := &chainWorld{c: c, gen: vGenesis(), prof: vProfile(c, r.IntN(7)), ts: 1_700_000_000_000}
	gen.m = newChainModel(gen.gen)
	gen.prof.closeIDs = gen.prof.closeIDs && r.IntN(2) == 0
	w := &cworld{c: c, m: gen.m, byID: map[proto.BlockID]*citem{}, byAddr: map[netip.Addr]*cwriter{}}
	any0 := vAddr("9.9.9.9")
	nSolo := 1 + r.IntN(2)
	nPeers := 2 + r.IntN(5)
	lines := make([][]*citem, nSolo)
	addItem := func(it *citem, parent proto.BlockID) *citem {
		it.m = gen.m.order[len(gen.m.order)-1]
		if p := w.byID[parent]; p != nil {
			p.children = append(p.children, it)
		}
		w.items = append(w.items, it)
		w.byID[it.m.id] = it
		return it
	}
	n := vScale(40, 120) + r.IntN(40)
	var shared []*citem
	for len(w.items) < n {
		if k := r.IntN(3 * nSolo); k < nSolo { // The next block of a solo line.
			parent := gen.m.genesis().id
			if q := len(lines[k]); q > 0 {
				parent = lines[k][q-1].m.id
			}
			b := gen.newBlock(parent)
			gen.m.put(b, any0)
			lines[k] = append(lines[k], addItem(&citem{block: b}, parent))
			continue
		}
		parent := gen.m.genesis()
		if len(shared) > 0 {
			x := r.Float64()
			switch {
			case x < 0.6:
				parent = shared[len(shared)-1].m
			case x < 0.9:
				parent = shared[max(0, len(shared)-1-r.IntN(5))].m
			case x < 0.97:
				parent = shared[r.IntN(len(shared))].m
			}
		}
		if parent != gen.m.genesis() && r.Float64() < 0.15 {
			inv := gen.newInv(parent.id)
			gen.m.putMicro(inv, any0)
			shared = append(shared, addItem(&citem{inv: inv}, parent.id))
			continue
		}
		b := gen.newBlock(parent.id)
		gen.m.put(b, any0)
		shared = append(shared, addItem(&citem{block: b}, parent.id))
	}
	if len(shared) == 0 {
		return
	}
	for i := range nPeers {
		w.writers = append(w.writers, &cwriter{addr: netip.AddrFrom4([4]byte{10, byte(r.IntN(256)), byte(i), 1})})
	}
	for _, it := range shared {
		got := false
		for _, wr := range w.writers[:nPeers] {
			if r.IntN(nPeers) == 0 || r.IntN(8) == 0 {
				wr.list = append(wr.list, it)
				got = true
			}
		}
		if !got {
			wr := w.writers[r.IntN(nPeers)]
			wr.list = append(wr.list, it)
		}
	}
	if r.IntN(2) == 0 { // The same block by everybody at once.
		it := shared[len(shared)-1]
		for _, wr := range w.writers {
			if len(wr.list) == 0 || wr.list[len(wr.list)-1] != it {
				wr.list = append(wr.list, it)
			}
		}
	}
	for k, line := range lines {
		if len(line) > 0 {
			s := &cwriter{addr: netip.AddrFrom4([4]byte{20, 0, byte(k), 1}), list: line}
			w.writers = append(w.writers, s)
			w.solo = append(w.solo, s)
		}
	}
	workers := append([]*cwriter(nil), w.writers...)
	w.a, w.b = &cwriter{addr: vAddr("30.0.0.1")}, &cwriter{addr: vAddr("30.0.0.2")}
	w.a.list, w.b.list = shared, shared
	w.writers = append(w.writers, w.a, w.b)
	for _, wr := range w.writers {
		w.byAddr[wr.addr] = wr
	}
	for _, it := range w.items { // Micro-blocks: the model's parent is the parent of the reference.
		_ = it
	}
	dir := c.dir()
	l, err := chains.NewLinkage(dir, vScheme, vGenesis())
	c.noErr(err, "open", "opening")
	w.l = l

	var wg, rg sync.WaitGroup
	start := make(chan struct{})
	guard := func(f func()) func() {
		return func() {
			defer func() {
				if p := recover(); p != nil {
					buf := make([]byte, 16<<10)
					w.bad("panic", "panic: %v\n%s", p, buf[:runtime.Stack(buf, false)])
				}
			}()
			<-start
			f()
		}
	}
	for k, wr := range workers {
		rng := rand.New(rand.NewPCG(r.Uint64(), 1))
		f := guard(func() { w.write(wr, rng, byte(k)) })
		wg.Add(1)
		go func() { defer wg.Done(); f() }()
	}
	f := guard(func() { w.pair(shared) })
	wg.Add(1)
	go func() { defer wg.Done(); f() }()
	var over atomic.Bool
	for range 2 + r.IntN(4) {
		rng := rand.New(rand.NewPCG(r.Uint64(), 2))
		f := guard(func() {
			for !over.Load() && !w.failed.Load() {
				w.read(rng)
			}
		})
		rg.Add(1)
		go func() { defer rg.Done(); f() }()
	}
	close(start)
	wg.Wait()
	over.Store(true)
	rg.Wait()
	c.count("reads", int(w.reads.Load()))
	c.count("writes", len(w.order))
	c.eval(vHash(w.order))
	if w.failed.Load() {
		l.Close()
		return
	}
	// The final state is that of any serial order.
	for _, wr := range w.writers {
		if k := len(wr.list); k > 0 {
			w.m.leash[wr.addr] = wr.list[k-1].m
		}
	}
	delete(w.m.leash, any0)
	gen.l, gen.dir = l, dir
	for i := range 2 {
		gen.checkBlocks(true)
		gen.checkLeashes()
		newHeadTracker().check(gen)
		fs, fErr := gen.l.Forks(nil)
		c.noErr(fErr, "query-error", "Forks")
		vCheckForks(c, w.m, fs, nil)
		if i == 0 {
			gen.reopen()
		}
	}
	gen.close()
	c.sample(map[string]any{"case": c.name, "blocks": len(w.items), "peers": len(w.writers), "reads": w.reads.Load(), "order": fmt.Sprint(w.order[:min(40, len(w.order))])})
	time.Sleep(time.Millisecond)
}

// tornCase: a writer moves leashes through a short cycle of states over a fixed tree. Each answer was recorded in every state
// of the cycle without any concurrency first; while the writer goes on no query may answer anything else.
func tornCase(c *vc) {
	r := c.rng
	prev := runtime.GOMAXPROCS([]int{2, 3, 4, 8}[r.IntN(4)])
	defer runtime.GOMAXPROCS(prev)
	gen := &chainWorld{c: c, gen: vGenesis(), prof: vProfile(c, 0), ts: 1_700_000_000_000}
	gen.m = newChainModel(gen.gen)
	l, err := chains.NewLinkage(c.dir(), vScheme, vGenesis())
	c.noErr(err, "open", "opening")
	defer l.Close()
	setup := vAddr("10.0.0.1")
	var blocks []*proto.Block
	put := func(parent proto.BlockID, bt uint64) *proto.Block {
		b := vProtoBlock(gen.newID(), parent, gen.timestamp(), bt, vGenPKs[r.IntN(len(vGenPKs))])
		gen.m.put(b, setup)
		c.noErr(l.PutBlock(b, setup), "put-error", "setting up")
		blocks = append(blocks, b)
		return b
	}
	type move struct {
		a netip.Addr
		b *proto.Block
	}
	ps := []netip.Addr{setup, vAddr("10.0.0.2"), vAddr("2.0.0.1")}
	var cycle []move
	g := gen.m.genesis().id
	crafted := r.IntN(2) == 0
	if crafted { // p alternates between two branches of u, one is shorter and one longer than the fork of q.
		root := put(g, 1000+r.Uint64N(50))
		u := put(root.BlockID(), 1000)
		x, w := put(u.BlockID(), 900), put(u.BlockID(), 100)
		y := put(root.BlockID(), 300)
		cycle = []move{{ps[0], x}, {ps[1], y}, {ps[0], w}, {ps[0], x}, {ps[0], w}}
	} else {
		seen := map[string]bool{}
		for i := range 8 + r.IntN(20) {
			parent := g
			if i > 0 && r.IntN(8) > 0 {
				parent = blocks[max(0, i-1-r.IntN(4))].BlockID()
			}
			for { // No ties.
				bt := uint64(20 + r.IntN(2000))
				sc := new(big.Int).Add(gen.m.blocks[parent].score, vScoreOf(bt)).String()
				if !seen[sc] {
					seen[sc] = true
					put(parent, bt)
					break
				}
			}
		}
		for i := range 3 + r.IntN(6) {
			cycle = append(cycle, move{ps[i%len(ps)], blocks[r.IntN(len(blocks))]})
		}
	}
	setLeash := func(mv move, put bool) error {
		if put {
			return l.PutBlock(mv.b, mv.a)
		}
		return l.MoveLeash(mv.b.BlockID(), mv.a)
	}
	forks := func(fs []chains.Fork, err error) string {
		var sb strings.Builder
		for _, f := range fs {
			as := append([]netip.Addr(nil), f.Peers...)
			sort.Slice(as, func(i, j int) bool { return as[i].Less(as[j]) })
			fmt.Fprintf(&sb, "%v %s %d %s common %s length %d peers %d %v; ", f.Longest, gen.name(f.HeadBlock), f.HeadHeight, f.Score, gen.name(f.LastCommonBlock), f.Length, f.PeersCount, as)
		}
		return fmt.Sprint(sb.String(), err)
	}
	type query struct {
		name string
		f    func() string
	}
	qs := []query{
		{"Forks", func() string { return forks(l.Forks(nil)) }},
		{"Forks of two", func() string { return forks(l.Forks(chains.LookupPeers{ps[0]: {}, ps[1]: {}})) }},
		{"Leashes", func() string {
			ls, err := l.Leashes()
			m := map[netip.Addr]string{}
			for _, x := range ls {
				m[x.Addr] = gen.name(x.BlockID)
			}
			return fmt.Sprint(len(ls), m, err)
		}},
		{"ActiveHeads", func() string {
			hs, err := l.ActiveHeads()
			var ns []string
			for _, h := range hs {
				ns = append(ns, fmt.Sprint(h.ID, gen.name(h.BlockID)))
			}
			sort.Strings(ns)
			return fmt.Sprint(ns, err)
		}},
		{"Stats", func() string { st, err := l.Stats(); return fmt.Sprintf("%+v %v", st, err) }},
		{"Heads", func() string {
			hs, err := l.Heads()
			var ns []string
			for _, h := range hs {
				ns = append(ns, fmt.Sprint(h.ID, gen.name(h.BlockID)))
			}
			sort.Strings(ns)
			return fmt.Sprint(ns, err)
		}},
	}
	for _, a := range ps {
		qs = append(qs,
			query{"LCB of " + a.String(), func() string { id, err := l.LCB(a); return fmt.Sprint(gen.name(id), err) }},
			query{"LCB of " + a.String(), func() string { id, err := l.LCB(a); return fmt.Sprint(gen.name(id), err) }},
			query{"Fork of " + a.String(), func() string { f, err := l.Fork(a); return forks([]chains.Fork{f}, err) }},
			query{"Leash of " + a.String(), func() string { id, err := l.Leash(a); return fmt.Sprint(gen.name(id), err) }},
			query{"LeashScore of " + a.String(), func() string { s, err := l.LeashScore(a); return fmt.Sprint(s, err) }},
		)
	}
	for _, mv := range cycle {
		c.noErr(setLeash(mv, false), "move-error", "setting up")
	}
	// The cycle has been gone through once, from here on it repeats itself.
	want := make([]map[string]bool, len(qs))
	for i := range qs {
		want[i] = map[string]bool{}
	}
	for round := range 2 {
		for k, mv := range cycle {
			c.noErr(setLeash(mv, round == 1), "move-error", "setting up")
			c.op("state %d.%d: leash of %s to %s", round, k, mv.a, gen.name(mv.b.BlockID()))
			for i, q := range qs {
				want[i][q.f()] = true
			}
		}
	}
	states := 0
	for i := range qs {
		states += len(want[i])
	}
	var over, failed atomic.Bool
	var reads atomic.Int64
	var wg sync.WaitGroup
	// One query is asked over and over, or a few, or all of them in turn. Those that put together several reads come first.
	var focus, several []int
	for i, q := range qs {
		switch {
		case crafted && (q.name == "LCB of "+ps[0].String() || q.name == "Fork of "+ps[0].String()):
			several = append(several, i)
		case !crafted && !strings.HasPrefix(q.name, "Leash of") && q.name != "Leashes" && q.name != "Heads":
			several = append(several, i)
		}
	}
	switch r.IntN(6) {
	case 0:
		for i := range qs {
			focus = append(focus, i)
		}
	case 1:
		focus = []int{r.IntN(len(qs)), several[r.IntN(len(several))], several[r.IntN(len(several))]}
	default:
		focus = []int{several[r.IntN(len(several))]}
	}
	for range 2 + r.IntN(4) {
		rng := rand.New(rand.NewPCG(r.Uint64(), 3))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for !over.Load() && !failed.Load() {
				i := focus[rng.IntN(len(focus))]
				got := qs[i].f()
				reads.Add(1)
				if !want[i][got] && failed.CompareAndSwap(false, true) {
					c.report("torn-answer", fmt.Sprintf("%s answers %q while leashes move, in the %d states passed through it answers only %d others, e.g. %q",
						qs[i].name, got, len(cycle), len(want[i]), vKeys(want[i], func(a, b string) bool { return a < b })[0]))
				}
			}
		}()
	}
	moves := 0
	began := time.Now()
	for time.Since(began) < time.Duration(vScale(400, 2000))*time.Millisecond && !failed.Load() {
		for _, mv := range cycle {
			if err := setLeash(mv, r.IntN(3) == 0); err != nil && failed.CompareAndSwap(false, true) {
				c.report("move-error", fmt.Sprintf("moving a leash: %v", err))
			}
			moves++
			if r.IntN(8) == 0 {
				runtime.Gosched()
			}
		}
	}
	over.Store(true)
	wg.Wait()
	c.count("torn_reads", int(reads.Load()))
	c.count("torn_moves", moves)
	c.eval(vHash(gen.m.shape(), len(cycle), states))
}

func TestC07(t *testing.T) {
	r := vStart(t, "C07", "a random tree is delivered by up to 9 concurrent writers in topological but otherwise unsynchronized order (a child may be tried before its parent, blocks shared by several peers), while up to 5 readers run every query; under the race detector, with 2 to 8 processors; "+
		"readers check answers against windows of deliveries completed before and begun before the end of the query, pairs of leashes moved in turn and lines of single writers show torn snapshots; the final state is compared with the model; in another kind of case a writer moves leashes through a short cycle of states, the answers of every query in each of the states are recorded beforehand and no other answer may be given meanwhile; an evaluation is one concurrent history, distinct ones differ in the order of completions")
	r.limit = 60 * time.Second
	r.run(append(vCases(vScale(20, 600), "conc", concurrentCase), vCases(vScale(40, 400), "torn", tornCase)...), 2)
	r.finish()
}
