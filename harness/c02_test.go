package main_test

import "testing"

func TestC02(t *testing.T) {
	r := vStart(t, "C02", "random delivery histories with up to 43 peers at ordinary and extreme addresses; after every operation the leash, leash score and presence of the acting and of random peers and the whole list of leashes are compared with the model; "+
		"an evaluation is one operation, non-trivial ones are distinct (operation, leash vector) pairs")
	r.run(vCases(vScale(900, 6000), "history", func(c *vc) {
		prof := vProfile(c, c.rng.IntN(7))
		prof.move += 0.1
		prof.dup += 0.1
		prof.unknown += 0.05
		prof.bad += 0.03
		if c.rng.IntN(2) == 0 {
			prof.peers = vPeers(2 + c.rng.IntN(40))
		}
		if c.rng.IntN(3) == 0 {
			prof.peers = append(prof.peers, vAddr("::1"), vAddr("2001:db8::1"), vAddr("::"), vAddr("::ffff:1.2.3.4"))
		}
		w := newChainWorld(c, prof)
		defer w.close()
		w.checkLeashes()
		w.after = func(op string) {
			for range 3 {
				w.checkLeash(w.peer())
			}
			w.checkLeash(vAddr("99.99.99.99"))
			w.checkLeashes()
			c.eval(w.m.quick(op))
		}
		for range 20 + c.rng.IntN(vScale(120, 300)) {
			w.step()
		}
		for _, a := range prof.peers {
			w.checkLeash(a)
		}
		w.reopen()
		for _, a := range prof.peers {
			w.checkLeash(a)
		}
		c.max("max_leashes", len(w.m.leash))
		c.sampleTrace(25)
	}), 0)
	r.finish()
}
