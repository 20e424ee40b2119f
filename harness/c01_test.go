package main_test

import "testing"

func TestC01(t *testing.T) {
	r := vStart(t, "C01", "random delivery histories over 7 tree profiles (branching, micro-blocks, repetitions, refusals, extreme header values, reopenings); "+
		"every operation is followed by reading back the newest and random old blocks and refused IDs, every history ends with reading back everything before and after reopening; "+
		"an evaluation is one operation, non-trivial ones are distinct (tree shape, leashes) states")
	cases := []vCase{{"deep", func(c *vc) { // Numbers and heights beyond 16 bits.
		w := newChainWorld(c, chainProfile{peers: vPeers(3), idMode: 1, btMode: 4})
		defer w.close()
		from := w.m.genesis()
		for i := range vScale(66_500, 140_000) {
			b := w.newBlock(from.id)
			a := w.peer()
			c.noErr(w.l.PutBlock(b, a), "put-error", "delivering block %d of a line", i)
			w.m.put(b, a)
			from = w.m.blocks[b.BlockID()]
		}
		c.op("a line of %d blocks", len(w.m.order))
		for i := range 400 {
			switch i % 4 {
			case 0:
				w.putMicro(w.newInv(from.id), w.peer())
			case 1:
				w.putBlock(w.newBlock(w.m.order[len(w.m.order)-1].id), w.peer())
			default:
				w.putBlock(w.newBlock(w.m.order[c.rng.IntN(len(w.m.order))].id), w.peer())
			}
			w.checkBlock(w.m.order[len(w.m.order)-1])
			w.checkBlock(w.m.order[c.rng.IntN(len(w.m.order))])
			c.eval(vHash(c.name, i))
		}
		w.reopen()
		for i, b := range w.m.order {
			if i%16 == 0 || i > 65_400 {
				w.checkBlock(b)
			}
		}
		c.max("max_height", int(w.m.top().height))
	}}}
	r.run(append(cases, vCases(vScale(800, 5000), "history", func(c *vc) {
		var k int
		k = int(c.rng.Uint64() % 7)
		prof := vProfile(c, k)
		w := newChainWorld(c, prof)
		defer w.close()
		n := 20 + c.rng.IntN(vScale(160, 400))
		w.after = func(op string) {
			w.checkBlocks(false)
			c.eval(w.m.quick(op))
		}
		for range n {
			w.step()
		}
		w.checkBlocks(true)
		w.reopen()
		w.checkBlocks(true)
		c.max("max_blocks", len(w.m.order))
		c.max("max_height", int(w.m.top().height))
		c.sampleTrace(25)
	})...), 0)
	r.finish()
}
