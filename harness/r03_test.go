package main_test

import "testing"

func bookCase(c *vc) {
	w := newRegWorld(c, 2+c.rng.IntN(30))
	steps := vScale(100, 400)
	if c.rng.IntN(8) == 0 { // Announcements of up to 1200 addresses.
		w.long, steps = 2, 12
	}
	for range steps {
		op := "announce"
		if c.rng.IntN(3) == 0 {
			op = w.step()
		} else {
			w.doAppend(w.announcement())
		}
		w.checkAll() // Every record: an announcement may change nothing of a known peer.
		c.eval(w.m.fingerprint(op))
	}
	w.reopen()
	w.checkAll()
	c.sampleTrace(15)
	w.close()
}

func TestR03(t *testing.T) {
	r := vStart(t, "R03", "random announcements (known, new, own, loopback, IPv6, mapped and repeated addresses, any port) in random histories of sessions; the count of every announcement and the complete address book after it are compared with a model; "+
		"an evaluation is one step, distinct ones differ in model state")
	r.run(vCases(vScale(200, 2500), "book", bookCase), 0)
	r.runSync(vCases(vScale(30, 300), "later", vLater(bookCase)), 0)
	r.finish()
}
