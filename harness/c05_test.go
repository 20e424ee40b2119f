package main_test

import (
	"math"
	"runtime"
	"testing"

	"github.com/wavesplatform/gowaves/pkg/proto"
)

func (w *chainWorld) checkWalk(b *mblock, count int) {
	c := w.c
	var want []*mblock
	for x := b; x != nil && len(want) < count; x = x.p {
		want = append(want, x)
	}
	ids, err := w.l.LastIDs(b.id, count)
	c.noErr(err, "query-error", "LastIDs(%s, %d)", b, count)
	c.check(len(ids) == len(want), "lastids-length", "LastIDs(%s, %d) gives %d IDs, expected %d", b, count, len(ids), len(want))
	for i := range ids {
		c.check(ids[i] == want[i].id, "lastids", "LastIDs(%s, %d)[%d] is %s, expected %s", b, count, i, w.name(ids[i]), want[i])
	}
	tally := map[proto.WavesAddress]int{}
	for _, x := range want {
		tally[x.gen]++
	}
	gs, err := w.l.ForkGenerators(b.id, count)
	c.noErr(err, "query-error", "ForkGenerators(%s, %d)", b, count)
	c.check(len(gs) == len(tally), "generators", "ForkGenerators(%s, %d) lists %d generators, expected %d", b, count, len(gs), len(tally))
	sum := 0
	for i, g := range gs {
		c.check(tally[g.Generator] == g.Blocks && g.Blocks > 0, "generators", "ForkGenerators(%s, %d) counts %d blocks of %s, expected %d (or it is listed twice)",
			b, count, g.Blocks, g.Generator, tally[g.Generator])
		delete(tally, g.Generator)
		sum += g.Blocks
		c.check(i == 0 || gs[i-1].Blocks >= g.Blocks, "generators-order", "generators are not sorted: %d before %d", gs[max(i-1, 0)].Blocks, g.Blocks)
	}
	c.check(sum == len(want), "generators-sum", "generators sum up to %d of %d blocks", sum, len(want))
}

func TestC05(t *testing.T) {
	r := vStart(t, "C05", "random trees; ancestor lists and generator tallies of random blocks for counts around 0, the height and the extremes are compared with a naive walk; "+
		"an evaluation is one (block, count) pair, non-trivial ones are distinct (tree shape, block, count) triples")
	cases := vCases(vScale(500, 4000), "history", func(c *vc) {
		prof := vProfile(c, c.rng.IntN(7))
		w := newChainWorld(c, prof)
		defer w.close()
		one := func() {
			b := w.m.order[c.rng.IntN(len(w.m.order))]
			if c.rng.IntN(2) == 0 {
				b = w.m.order[len(w.m.order)-1]
			}
			h := int(b.height)
			cnt := []int{0, 1, 2, h - 1, h, h + 1, 100, 1000, c.rng.IntN(h + 3), -1, -5, 1 << 20}[c.rng.IntN(12)]
			w.checkWalk(b, cnt)
			c.eval(vHash(c.name, len(w.m.order), b.seq, cnt))
		}
		for range 20 + c.rng.IntN(vScale(140, 300)) {
			w.step()
			one()
		}
		w.reopen()
		for range 50 {
			one()
		}
		_, err := w.l.LastIDs(w.newID(), 10)
		c.check(err != nil, "unknown-block", "LastIDs of an unknown block gives no error")
		_, err = w.l.ForkGenerators(w.newID(), 10)
		c.check(err != nil, "unknown-block", "ForkGenerators of an unknown block gives no error")
		c.sampleTrace(25)
	})
	cases = append(cases, vCases(vScale(2, 10), "long", func(c *vc) {
		prof := chainProfile{peers: vPeers(3), idMode: 2, btMode: 2, gens: 1 + c.rng.IntN(3)}
		w := newChainWorld(c, prof)
		defer w.close()
		from := w.m.genesis()
		for range vScale(2500, 8000) {
			if c.rng.IntN(50) == 0 {
				from = w.m.order[len(w.m.order)-1-c.rng.IntN(min(len(w.m.order), 30))]
			}
			b := w.newBlock(from.id)
			w.putBlock(b, w.peer())
			from = w.m.blocks[b.BlockID()]
		}
		for range vScale(60, 300) {
			b := w.m.order[c.rng.IntN(len(w.m.order))]
			cnt := c.rng.IntN(int(b.height) + 5)
			w.checkWalk(b, cnt)
			c.eval(vHash(c.name, b.seq, cnt))
		}
	})...)
	// Counts and heights beyond 16 bits.
	cases = append([]vCase{{"deep", func(c *vc) {
		w := newChainWorld(c, chainProfile{peers: vPeers(1), idMode: 1, gens: 2})
		defer w.close()
		from, a := w.m.genesis(), w.peer()
		for range vScale(67_000, 140_000) {
			b := w.newBlock(from.id)
			if from.height%70 != 0 { // One of the generators has nearly all of them.
				b.GeneratorPublicKey = vGenPKs[0]
			}
			c.noErr(w.l.PutBlock(b, a), "put-error", "delivering a block on %s", from)
			w.m.put(b, a)
			from = w.m.blocks[b.BlockID()]
		}
		for i := range vScale(8, 40) {
			h := int(from.height)
			cnt := []int{h, h - 1, 65535, 65536, 65537, 1 << 20, h - c.rng.IntN(1000), c.rng.IntN(h)}[i%8]
			w.checkWalk(from, cnt)
			c.eval(vHash(c.name, from.seq, cnt))
		}
	}}}, cases...)
	r.run(cases, 0)
	// Memory: one at a time, nothing else running.
	r.run([]vCase{{"memory", func(c *vc) {
		w := newChainWorld(c, chainProfile{peers: vPeers(2)})
		defer w.close()
		from := w.m.genesis()
		for range 20 {
			b := w.newBlock(from.id)
			w.putBlock(b, w.peer())
			from = w.m.blocks[b.BlockID()]
		}
		for _, cnt := range []int{1 << 24, 1 << 26, 1 << 31, 1 << 40, math.MaxInt, math.MinInt} {
			var a, b runtime.MemStats
			runtime.ReadMemStats(&a)
			w.c.op("walk with count %d", cnt)
			w.checkWalk(from, cnt)
			runtime.ReadMemStats(&b)
			d := b.TotalAlloc - a.TotalAlloc
			c.check(d < 64<<20, "memory", "walking 21 blocks with count %d allocated %d bytes", cnt, d)
			c.eval(vHash("memory", cnt))
		}
	}}}, 1)
	r.finish()
}
