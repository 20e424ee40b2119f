package main_test

import "testing"

func TestC03(t *testing.T) {
	r := vStart(t, "C03", "random delivery histories, bushy ones included, and stars with hundreds of heads; after every single accepted block the heads, their numbers and the active heads are compared with the model and with the numbers seen before; "+
		"an evaluation is one comparison, non-trivial ones are distinct (operation, tree shape, leash) states")
	cases := vCases(vScale(500, 4000), "history", func(c *vc) {
		prof := vProfile(c, c.rng.IntN(7))
		prof.reopen = 0.03
		w := newChainWorld(c, prof)
		defer w.close()
		tr := newHeadTracker()
		tr.check(w)
		w.after = func(op string) {
			tr.check(w)
			c.eval(w.m.quick(op))
		}
		for range 20 + c.rng.IntN(vScale(110, 300)) {
			w.step()
		}
		w.reopen()
		c.sampleTrace(25)
	})
	cases = append(cases, vCases(vScale(4, 12), "star", func(c *vc) {
		prof := vProfile(c, 4)
		if c.rng.IntN(2) == 0 {
			prof.peers = vPeers(300) // Most heads are active.
		}
		w := newChainWorld(c, prof)
		defer w.close()
		tr := newHeadTracker()
		for i := range vScale(330, 900) {
			p := w.m.order[c.rng.IntN(min(len(w.m.order), 3))]
			if i%5 == 4 && len(w.m.order) > 3 {
				p = w.m.order[c.rng.IntN(len(w.m.order))]
			}
			if i%7 == 6 && p.p != nil {
				w.putMicro(w.newInv(p.id), w.peer())
			} else {
				w.putBlock(w.newBlock(p.id), w.peer())
			}
			tr.check(w)
			c.eval(w.m.quick("star"))
			if c.rng.IntN(150) == 0 {
				w.reopen()
				tr.check(w)
			}
		}
	})...)
	// All the heads grow, and what they grew from branches again.
	cases = append(cases, vCases(vScale(3, 9), "regrown", func(c *vc) {
		prof := vProfile(c, 4)
		n := 262 + c.rng.IntN(40)
		if c.rng.IntN(2) == 0 {
			prof.peers = vPeers(n + 20)
		}
		w := newChainWorld(c, prof)
		defer w.close()
		tr := newHeadTracker()
		for i := range n {
			b := w.newBlock(w.m.genesis().id)
			w.putBlock(b, prof.peers[i%len(prof.peers)])
		}
		tr.check(w)
		old := w.m.order[1:]
		perm := c.rng.Perm(len(old))
		for k, i := range perm {
			p := old[i]
			if c.rng.IntN(4) == 0 {
				w.putMicro(w.newInv(p.id), w.peer())
			} else {
				w.putBlock(w.newBlock(p.id), prof.peers[i%len(prof.peers)])
			}
			if k%8 == 0 {
				tr = newHeadTracker()
			}
			tr.check(w)
			c.eval(w.m.quick("grow"))
			if k%3 == 0 || c.rng.IntN(2) == 0 {
				continue
			}
			w.putBlock(w.newBlock(p.id), w.peer())
			tr.check(w)
		}
		for _, i := range perm[:100] {
			w.putBlock(w.newBlock(old[i].id), prof.peers[i%len(prof.peers)])
			tr.check(w)
		}
	})...)
	// All the leashes are on heads of their own, or nearly all.
	cases = append(cases, vCases(vScale(4, 12), "spread", func(c *vc) {
		prof := vProfile(c, 4)
		prof.peers = vPeers([]int{17, 33, 66, 129, 257, 300}[c.rng.IntN(6)] + c.rng.IntN(8))
		w := newChainWorld(c, prof)
		defer w.close()
		for range len(prof.peers) + c.rng.IntN(5) {
			w.putBlock(w.newBlock(w.m.order[c.rng.IntN(min(len(w.m.order), 2))].id), prof.peers[0])
		}
		var heads []*mblock
		for _, b := range w.m.order {
			if !b.ext {
				heads = append(heads, b)
			}
		}
		for range 6 {
			c.rng.Shuffle(len(heads), func(i, j int) { heads[i], heads[j] = heads[j], heads[i] })
			for i, a := range prof.peers {
				w.moveLeash(heads[i%len(heads)], a)
				if i%16 == 0 || i+8 > len(prof.peers) {
					newHeadTracker().check(w)
				}
			}
			newHeadTracker().check(w)
			c.eval(w.m.quick("spread"))
		}
	})...)
	// Numbers beyond 16 bits.
	cases = append([]vCase{{"crowd", func(c *vc) {
		w := newChainWorld(c, chainProfile{peers: vPeers(3), idMode: 2})
		defer w.close()
		n := vScale(66_000, 140_000)
		for i := range n {
			p := w.m.genesis()
			if i == 1 || i > 65_500 && i%9 == 0 { // Old heads grow.
				p = w.m.order[1+c.rng.IntN(len(w.m.order)-1)]
			}
			b := w.newBlock(p.id)
			a := w.peer()
			c.noErr(w.l.PutBlock(b, a), "put-error", "delivering block %d on %s", i, p)
			w.m.put(b, a)
		}
		tr := newHeadTracker()
		tr.check(w)
		for range 5 {
			w.putBlock(w.newBlock(w.m.order[c.rng.IntN(len(w.m.order))].id), w.peer())
			tr.check(w)
			c.eval(w.m.quick("crowd"))
		}
		w.reopen()
		tr.check(w)
		c.op("%d blocks on the genesis block", n)
	}}}, cases...)
	r.run(cases, 0)
	r.finish()
}
