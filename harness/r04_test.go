package main_test

import (
	"net/netip"
	"testing"

	"github.com/alexeykiselev/waves-fork-detector/peers"
)

func cycleCase(c *vc) {
	r := c.rng
	w := newRegWorld(c, 2+r.IntN(8))
	w.odd = []float64{0, 0.15}[r.IntN(2)]
	c.op("versions %v", w.vers)
	for range vScale(120, 600) {
		var op string
		switch x := r.IntN(10); {
		case x < 5: // A run of offers over interleaved addresses.
			op = "offers"
			n := 1 + r.IntN(2*len(w.vers)+2)
			as := []int{r.IntN(len(w.addrs)), r.IntN(len(w.addrs))}
			for range n {
				a := w.addrs[as[r.IntN(2)]]
				if w.m.conns[a] != nil && r.IntN(3) > 0 {
					continue
				}
				w.doSuggest(a)
				if r.IntN(12) == 0 {
					w.reopen()
				}
			}
		case x < 6: // An announced address has never got an offer: the first one is the highest version.
			op = "announce"
			w.doAppend(w.announcement())
			for _, a := range vKeys(w.m.recs, netip.Addr.Less) {
				if p := w.m.recs[a]; p.state == peers.PeerUnknown && r.IntN(3) == 0 {
					w.doSuggest(a)
				}
			}
		default:
			op = w.step()
		}
		c.eval(w.m.fingerprint(op))
	}
	w.checkAll()
	c.max("max_versions", len(w.m.vers))
	c.sampleTrace(15)
	w.close()
}

func TestR04(t *testing.T) {
	r := vStart(t, "R04", "random sets of up to five versions (any order, patch numbers, extreme numbers) and random interleavings of offers, registrations, failures, announcements and restarts over several addresses; "+
		"every offer is compared with the model of the cycle; an evaluation is one step, distinct ones differ in model state")
	r.run(vCases(vScale(300, 4000), "cycle", cycleCase), 0)
	r.runSync(vCases(vScale(60, 600), "later", vLater(cycleCase)), 0)
	r.finish()
}
