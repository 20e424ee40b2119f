package main_test

import (
	"net/netip"
	"testing"

	"github.com/alexeykiselev/waves-fork-detector/chains"
)

func (w *chainWorld) checkForkViews(peers []netip.Addr) {
	c := w.c
	forks, err := w.l.Forks(nil)
	c.noErr(err, "query-error", "Forks(all)")
	vCheckForks(c, w.m, forks, nil)
	// A restriction.
	f := chains.LookupPeers{}
	size := 4
	if c.rng.IntN(3) == 0 {
		size = len(peers)
	}
	for range 1 + c.rng.IntN(size) {
		f[peers[c.rng.IntN(len(peers))]] = struct{}{}
	}
	if c.rng.IntN(8) == 0 {
		f[vAddr("77.77.77.77")] = struct{}{}
	}
	if c.rng.IntN(10) == 0 {
		f = chains.LookupPeers{vAddr("77.77.77.77"): {}}
	}
	forks, err = w.l.Forks(f)
	c.noErr(err, "query-error", "Forks(%d peers)", len(f))
	vCheckForks(c, w.m, forks, f)
	// Statistics.
	g := w.m.groups(nil)
	ls := w.m.longest(g)
	st, err := w.l.Stats()
	c.noErr(err, "query-error", "Stats")
	ok := len(g) == 0 && st.Short == 0 && st.Long == 0
	for _, l := range ls {
		short, long := 0, 0
		for b := range g {
			if int(b.height)-int(w.m.lca(l, b).height) > 5 {
				long++
			} else {
				short++
			}
		}
		ok = ok || st.Short == short && st.Long == long
	}
	c.check(ok, "stats", "statistics say %d short and %d long forks of %d", st.Short, st.Long, len(g))
	w.checkPeerFork(peers[c.rng.IntN(len(peers))], g, ls)
	w.checkPeerFork(peers[c.rng.IntN(len(peers))], g, ls)
}

func (w *chainWorld) checkPeerFork(a netip.Addr, g map[*mblock][]netip.Addr, ls []*mblock) {
	c := w.c
	b, has := w.m.leash[a]
	lcb, err := w.l.LCB(a)
	c.noErr(err, "query-error", "LCB(%s)", a)
	if !has {
		c.check(lcb == w.m.genesis().id, "lcb", "last common block of unleashed peer is %s", w.name(lcb))
		return
	}
	ok := false
	for _, l := range ls {
		ok = ok || w.m.lca(l, b).id == lcb
	}
	c.check(ok, "lcb", "last common block of %s on %s with longest %s is reported as %s, expected %s", a, b, ls[0], w.name(lcb), w.m.lca(ls[0], b))
	f, err := w.l.Fork(a)
	c.noErr(err, "query-error", "Fork(%s)", a)
	c.check(f.HeadBlock == b.id, "fork-head", "fork of %s is on %s, its leash is on %s", a, w.name(f.HeadBlock), b)
	vCheckForkData(c, &f, b, g[b])
	in := false
	for _, l := range ls {
		in = in || l == b
	}
	c.check(!f.Longest || in, "fork-longest", "fork of %s is flagged longest but %s is longer", a, ls[0])
	c.check(f.Longest || !in || len(ls) > 1, "fork-longest", "fork of %s is the longest but is not flagged so", a)
	vCheckForkBranch(c, w.m, &f, b, ls)
}

func TestC04(t *testing.T) {
	r := vStart(t, "C04", "random delivery histories over 7 tree profiles, fork grids (two branches from every height up to 70, leashes moved over all positions) and trees with branches of thousands of blocks; "+
		"fork lists, single forks, last common blocks and statistics are compared with a naive walk over the model tree; an evaluation is one comparison of all views, non-trivial ones are distinct (tree shape, leashes) states")
	cases := vCases(vScale(300, 3000), "history", func(c *vc) {
		prof := vProfile(c, c.rng.IntN(7))
		w := newChainWorld(c, prof)
		defer w.close()
		w.checkForkViews(prof.peers)
		k := 0
		w.after = func(op string) {
			k++
			if len(w.m.order) > 60 && k%5 != 0 {
				return
			}
			w.checkForkViews(prof.peers)
			c.eval(w.m.quick(op))
		}
		for range 20 + c.rng.IntN(vScale(110, 300)) {
			w.step()
		}
		w.reopen()
		if c.rng.IntN(2) == 0 { // Crowds on blocks of the same, greatest score.
			top := w.m.genesis()
			for _, b := range w.m.order {
				if b.score.Cmp(top.score) > 0 {
					top = b
				}
			}
			ps := vPeers(13)
			same := []*mblock{top}
			for range 2 + c.rng.IntN(5) {
				if b := same[c.rng.IntN(len(same))]; b.p != nil {
					inv := w.newInv(b.id)
					w.putMicro(inv, ps[0])
					same = append(same, w.m.blocks[inv.TotalBlockID])
				}
			}
			for range 6 {
				for _, a := range ps {
					w.moveLeash(same[min(c.rng.IntN(len(same)), c.rng.IntN(len(same)))], a)
				}
				g := w.m.groups(nil)
				ls := w.m.longest(g)
				for _, a := range ps {
					w.checkPeerFork(a, g, ls)
				}
			}
		}
		c.sampleTrace(25)
	})
	// Two branches from the same block: all relations of heights around powers of two.
	for base := 1; base <= 70; base++ {
		if base > 20 && base%3 != 0 && !vThorough() {
			continue
		}
		cases = append(cases, vCase{"grid-" + vItoa(base), func(c *vc) {
			prof := chainProfile{peers: vPeers(3), btMode: c.rng.IntN(3), idMode: 2, micro: 0}
			w := newChainWorld(c, prof)
			defer w.close()
			ps := prof.peers
			grow := func(from *mblock, n int, micro bool) []*mblock {
				r := []*mblock{}
				for range n {
					b := w.newBlock(from.id)
					w.putBlock(b, ps[2])
					from = w.m.blocks[b.BlockID()]
					r = append(r, from)
					if micro && c.rng.IntN(4) == 0 {
						inv := w.newInv(from.id)
						w.putMicro(inv, ps[2])
						if c.rng.IntN(2) == 0 {
							from = w.m.blocks[inv.TotalBlockID]
							r = append(r, from)
						}
					}
				}
				return r
			}
			trunk := append([]*mblock{w.m.genesis()}, grow(w.m.genesis(), base-1, false)...)
			fork := trunk[len(trunk)-1]
			a := append([]*mblock{fork}, grow(fork, 20+c.rng.IntN(50), true)...)
			b := append([]*mblock{fork}, grow(fork, 1+c.rng.IntN(40), true)...)
			a = append(trunk[max(0, len(trunk)-3):len(trunk)-1:len(trunk)-1], a...)
			for range vScale(160, 1500) {
				x, y := a[c.rng.IntN(len(a))], b[c.rng.IntN(len(b))]
				w.moveLeash(x, ps[0])
				w.moveLeash(y, ps[1])
				if c.rng.IntN(3) > 0 {
					w.moveLeash(x, ps[2])
				}
				w.checkForkViews(ps)
				c.eval(vHash(base, x.seq, y.seq, w.m.leash[ps[2]].seq))
			}
		}})
	}
	cases = append(cases, vCases(vScale(3, 16), "long", func(c *vc) {
		prof := chainProfile{peers: vPeers(6), btMode: 2, idMode: 2}
		w := newChainWorld(c, prof)
		defer w.close()
		tips := []*mblock{w.m.genesis()}
		for br := range 6 {
			from := w.m.order[c.rng.IntN(len(w.m.order))]
			if br == 1 {
				from = w.m.genesis()
			}
			for range 200 + c.rng.IntN(vScale(1500, 6000)) {
				b := w.newBlock(from.id)
				w.putBlock(b, prof.peers[br])
				from = w.m.blocks[b.BlockID()]
			}
			tips = append(tips, from)
		}
		for range vScale(150, 2000) {
			w.moveLeash(w.m.order[c.rng.IntN(len(w.m.order))], w.peer())
			if c.rng.IntN(3) == 0 {
				w.moveLeash(tips[c.rng.IntN(len(tips))], w.peer())
			}
			w.checkForkViews(prof.peers)
			c.eval(vHash(c.name, w.m.leashVector()))
		}
		c.max("max_height", int(w.m.top().height))
	})...)
	// Hundreds of forks at once.
	cases = append(cases, vCases(vScale(4, 24), "many", func(c *vc) {
		prof := chainProfile{peers: vPeers(260 + c.rng.IntN(340)), btMode: c.rng.IntN(5), idMode: c.rng.IntN(3)}
		w := newChainWorld(c, prof)
		defer w.close()
		straight := 0.2 + 0.6*c.rng.Float64()
		for i := range len(prof.peers) + c.rng.IntN(300) {
			from := w.m.order[len(w.m.order)-1]
			if c.rng.Float64() > straight {
				from = w.m.order[c.rng.IntN(len(w.m.order))]
			}
			w.putBlock(w.newBlock(from.id), prof.peers[i%len(prof.peers)])
		}
		for i := range vScale(30, 200) {
			for range 10 {
				w.moveLeash(w.m.order[c.rng.IntN(len(w.m.order))], w.peer())
			}
			if i%10 == 5 {
				w.reopen()
			}
			w.checkForkViews(prof.peers)
			c.eval(vHash(c.name, w.m.leashVector()))
		}
		c.max("max_forks", len(w.m.groups(nil)))
	})...)
	// Numbers and heights beyond 16 bits.
	cases = append([]vCase{{"deep", func(c *vc) {
		prof := chainProfile{peers: vPeers(4), idMode: 2, btMode: 2}
		w := newChainWorld(c, prof)
		defer w.close()
		from := w.m.genesis()
		var marks []*mblock
		for i := range vScale(66_500, 140_000) {
			b := w.newBlock(from.id)
			b.BaseTarget = 1<<40 + c.rng.Uint64N(1<<30)
			c.noErr(w.l.PutBlock(b, prof.peers[0]), "put-error", "delivering block %d of a line", i)
			w.m.put(b, prof.peers[0])
			from = w.m.blocks[b.BlockID()]
			if h := from.height; h&(h-1) == 0 || h > 65_400 && h < 65_600 && h%20 == 0 || i%5000 == 4999 {
				marks = append(marks, from)
			}
		}
		c.op("a line of %d blocks", len(w.m.order))
		w.checkBlock(from)
		for i := range 24 {
			at := marks[len(marks)-1-c.rng.IntN(min(len(marks), 12+i*4))]
			b := w.newBlock(at.id)
			for range 1 + c.rng.IntN(20) {
				w.putBlock(b, prof.peers[1])
				b = w.newBlock(b.BlockID())
			}
			w.checkBlock(w.m.order[len(w.m.order)-1])
			w.moveLeash(marks[c.rng.IntN(len(marks))], prof.peers[2])
			w.moveLeash(marks[c.rng.IntN(len(marks))], prof.peers[3])
			w.checkForkViews(prof.peers)
			c.eval(vHash(c.name, w.m.leashVector()))
		}
		// The line is the long fork, and the longest one of higher score is short.
		b := w.newBlock(marks[0].id)
		b.BaseTarget = 1
		for range 3 { // The score of a block is limited, so it takes some of the lowest base target.
			w.putBlock(b, prof.peers[1])
			b = w.newBlock(b.BlockID())
			b.BaseTarget = 1
		}
		head := w.m.order[len(w.m.order)-1]
		for range 6 {
			w.moveLeash(head, prof.peers[1])
			w.moveLeash(from, prof.peers[0])
			w.moveLeash(marks[len(marks)-1-c.rng.IntN(20)], prof.peers[2])
			w.checkForkViews(prof.peers)
			w.checkPeerFork(prof.peers[0], w.m.groups(nil), w.m.longest(w.m.groups(nil)))
			c.eval(vHash(c.name, w.m.leashVector()))
		}
		c.check(head.score.Cmp(from.score) > 0, "scenario", "the short fork has the lower score")
		c.max("max_height", int(w.m.top().height))
	}}}, cases...)
	r.run(cases, 0)
	r.finish()
}
