package main_test

import (
	"fmt"
	"net"
	"net/netip"
	"testing"
	"time"

	"github.com/alexeykiselev/waves-fork-detector/peers"
)

func dueCase(c *vc) {
	r := c.rng
	w := newRegWorld(c, 2+r.IntN(14))
	w.odd = []float64{0, 0.1, 0.4}[r.IntN(3)]
	start := time.Now()
	for range vScale(150, 800) {
		var op string
		switch x := r.IntN(10); {
		case x < 3:
			op = "sleep"
			var d time.Duration
			switch r.IntN(6) {
			case 0:
				d = time.Duration(r.IntN(5000)) * time.Millisecond
			case 1:
				d = time.Duration(r.IntN(600)) * time.Second
			case 2:
				d = vDelay - 3*time.Second + time.Duration(r.IntN(6000))*time.Millisecond
			case 3:
				d = time.Duration(r.IntN(5)) * time.Hour
			case 4: // To the next moment an address becomes due, just before or just after.
				for _, a := range vKeys(w.m.recs, netip.Addr.Less) {
					p := w.m.recs[a]
					if q := time.Until(p.next); q > 0 && p.state != peers.PeerHostile {
						d = q + []time.Duration{-1200 * time.Millisecond, 1200 * time.Millisecond}[r.IntN(2)]
						break
					}
				}
			default:
				d = vDelay + 2*time.Second
			}
			if d > 0 {
				time.Sleep(d)
				c.op("%s passed (%s since start)", d, time.Since(start))
			}
			w.doTake()
		case x < 5:
			op = "take"
			took := w.doTake()
			for _, ap := range took {
				switch r.IntN(4) {
				case 0: // The attempt fails at once.
					w.doUnregister(ap.Addr())
				case 1:
					w.session(ap.Addr())
				case 2: // A version is offered, the attempt goes on.
					if w.m.conns[ap.Addr()] == nil {
						w.doSuggest(ap.Addr())
					}
				}
			}
			if r.IntN(2) == 0 {
				w.doTake()
			}
		case x < 6: // End some attempts that are under way.
			op = "finish"
			for _, a := range vKeys(w.m.pending, netip.Addr.Less) {
				if r.IntN(3) == 0 {
					w.doUnregister(a)
				}
			}
			w.doTake()
		case x < 7:
			op = "announce"
			w.doAppend(w.announcement())
			if r.IntN(2) == 0 {
				w.doTake()
			}
		default:
			op = w.step()
		}
		c.eval(w.m.fingerprint(op))
	}
	// Nothing eligible is withheld forever.
	for _, a := range vKeys(w.m.pending, netip.Addr.Less) {
		w.doUnregister(a)
	}
	for _, a := range vKeys(w.m.sess, netip.Addr.Less) {
		for len(w.m.sess[a]) > 0 {
			w.unregister(a, w.m.sess[a][r.IntN(len(w.m.sess[a]))])
		}
	}
	if r.IntN(2) == 0 {
		w.reopen()
	}
	time.Sleep(vDelay + 2*time.Second)
	w.doTake()
	c.op("end after %s", time.Since(start))
	c.count("virtual_hours", int(time.Since(start)/time.Hour))
	c.sampleTrace(15)
	w.close()
	time.Sleep(2 * time.Minute) // The database's own goroutines end.
}

// crowdCase: hundreds of addresses, announced in lists of all sizes, become due at once.
func crowdCase(c *vc) {
	r := c.rng
	w := newRegWorld(c, 100+r.IntN(vScale(500, 1500)))
	for i := 0; i < len(w.addrs); {
		n := min(1+r.IntN(400), len(w.addrs)-i)
		as := make([]*net.TCPAddr, 0, n)
		for _, a := range w.addrs[i : i+n] {
			as = append(as, &net.TCPAddr{IP: net.IP(a.AsSlice()), Port: []int{0, 6868, 6868, 6868, 1, 65535}[r.IntN(6)]})
		}
		w.doAppend(as)
		i += n
	}
	for round := range 4 {
		took := w.doTake()
		c.max("max_handed_out", len(took))
		c.eval(w.m.fingerprint(fmt.Sprint(round)))
		w.doTake() // All of them are under way.
		for i, ap := range took {
			switch {
			case i < 20 && r.IntN(4) == 0:
				w.session(ap.Addr())
			case r.IntN(3) > 0:
				w.doUnregister(ap.Addr())
			}
		}
		w.doTake()
		switch r.IntN(3) {
		case 0:
			w.reopen()
			w.doTake()
			for _, a := range vKeys(w.m.pending, netip.Addr.Less) {
				if r.IntN(5) > 0 {
					w.doUnregister(a)
				}
			}
			time.Sleep(vDelay + 2*time.Second)
		case 1:
			time.Sleep(time.Duration(r.IntN(5000)) * time.Millisecond)
		default:
			time.Sleep(vDelay + 2*time.Second)
		}
	}
	w.checkAll()
	c.eval(w.m.fingerprint("end"))
	w.close()
	time.Sleep(2 * time.Minute)
}

func TestR02(t *testing.T) {
	r := vStart(t, "R02", "random histories over hours of virtual time: announcements, hand-outs with all outcomes, offers, registrations, disconnects, restarts, and sleeps that end shortly before or after an address becomes due; "+
		"every hand-out is compared with the model (addresses within one second of the boundary are undecided); crowds of 100 to 600 addresses (thorough: 1600) become due at once and every address has to be in the hand-out; an evaluation is one step, distinct ones differ in model state")
	r.runSync(append(vCases(vScale(150, 1500), "due", dueCase), vCases(vScale(12, 100), "crowd", crowdCase)...), 0)
	r.finish()
}
