package main_test

import (
	"fmt"
	"net/netip"
	"os"
	"path/filepath"
	"testing"

	"github.com/alexeykiselev/waves-fork-detector/peers"
)

func recordsCase(c *vc) {
	w := newRegWorld(c, 2+c.rng.IntN(20))
	w.odd = []float64{0.05, 0.3, 0.6}[c.rng.IntN(3)]
	for range vScale(80, 400) {
		op := w.step()
		w.checkAll()
		if c.rng.IntN(4) == 0 {
			w.checkBroadcast()
		}
		c.eval(w.m.fingerprint(op))
	}
	w.reopen()
	w.checkAll()
	w.checkBroadcast()
	c.sampleTrace(15)
	w.close()
}

// crowdCase has more sessions than any list of connections is made for.
func crowdCase(c *vc) {
	n := []int{20, 40, 70, 110, 150, 260, 300}[c.rng.IntN(7)]
	w := newRegWorld(c, n+c.rng.IntN(20))
	w.odd = 0.02
	for _, a := range w.addrs {
		if v, ok := w.doSuggest(a); ok {
			w.doRegister(a, w.handshake(a, v))
		}
	}
	w.checkAll()
	w.checkBroadcast()
	for range vScale(25, 150) {
		c.eval(w.m.fingerprint(w.step()))
	}
	w.checkAll()
	for range 3 {
		w.checkBroadcast()
	}
	c.sampleTrace(15)
	w.close()
}

func (m *regModel) copyRecs() map[netip.Addr]*mpeer {
	r := make(map[netip.Addr]*mpeer, len(m.recs))
	for a, p := range m.recs {
		x := *p
		r[a] = &x
	}
	return r
}

// crashRecords cuts the journal of the peers database after, and inside of, every operation.
func crashRecords(c *vc) {
	w := newRegWorld(c, 2+c.rng.IntN(10))
	type point struct {
		size int64
		recs map[netip.Addr]*mpeer
	}
	journal, size := journalOf(c, w.dir)
	pts := []point{{size, w.m.copyRecs()}}
	recover := func(off int64, from, to map[netip.Addr]*mpeer) {
		img := c.dir()
		copyDir(c, w.dir, img)
		rel, _ := filepath.Rel(w.dir, journal)
		c.must(os.Truncate(filepath.Join(img, rel), off))
		c.op("journal cut at %d", off)
		x := *w
		x.after, x.before = nil, nil
		x.dir = img
		x.m = newRegModel(w.m.scheme, w.m.declared, w.vers)
		x.open()
		all, err := x.r.Peers()
		c.noErr(err, "query-error", "Peers after a crash")
		seen := map[netip.Addr]bool{}
		for _, p := range all {
			a := p.AddressPort.Addr()
			seen[a] = true
			old, new_ := from[a], to[a]
			c.check(old != nil || new_ != nil, "crash-extra", "cut at %d: record of %s did not exist before the crash", off, a)
			r := old
			if old == nil || new_ != nil && vDiffersFrom(p, old) {
				r = new_
			}
			cp := *r
			x.m.recs[a] = &cp
			x.checkRec(a, p, fmt.Sprintf("after the crash (journal cut at %d)", off))
		}
		for a := range from {
			c.check(seen[a], "crash-lost", "cut at %d: record of %s is lost", off, a)
		}
		x.checkAll()
		for range c.rng.IntN(6) { // It goes on from here.
			x.step()
			x.checkAll()
		}
		x.close()
		_ = os.RemoveAll(img)
		c.eval(vHash(c.name, journal, off))
		c.count("crash_points", 1)
	}
	epoch := func() {
		for i, p := range pts {
			recover(p.size, p.recs, p.recs)
			if i+1 == len(pts) || pts[i+1].size == p.size {
				continue
			}
			d := pts[i+1].size - p.size
			for _, o := range []int64{1, d / 2, d - 1, c.rng.Int64N(d)} {
				if o > 0 && o < d {
					recover(p.size+o, p.recs, pts[i+1].recs)
				}
			}
		}
	}
	w.before = func() {
		epoch()
		pts = pts[:0]
	}
	w.after = func() {
		j, s := journalOf(c, w.dir)
		journal = j
		pts = append(pts, point{s, w.m.copyRecs()})
	}
	for range vScale(25, 80) {
		w.step()
		if len(pts) >= 12 {
			epoch()
			pts = pts[len(pts)-1:]
		}
	}
	epoch()
	w.close()
	c.sampleTrace(15)
}

// vDiffersFrom tells whether the record cannot be the one of the model.
func vDiffersFrom(p peers.Peer, m *mpeer) bool {
	if p.AddressPort.Port() != m.port || p.State != m.state || p.Version != m.ver || m.state != peers.PeerHostile && (p.Name != m.name || p.Nonce != m.nonce) {
		return true
	}
	if (p.Score == nil) != (m.score == nil) || p.Score != nil && p.Score.Cmp(m.score) != 0 {
		return true
	}
	d := p.NextAttempt.Sub(m.next)
	return !m.next.IsZero() && (d > 1100*1e6 || d < -1100*1e6)
}

func TestR05(t *testing.T) {
	r := vStart(t, "R05", "random sessions (names of any bytes, declared addresses matching or not, ports beyond the range, loopback), scores, disconnects, broadcasts and restarts: all records and listings are compared with a model after every step; "+
		"and the journal of the peers database is cut after and inside every operation and reopened; an evaluation is one step or crash point, distinct ones differ in model state or cut")
	cs := vCases(vScale(200, 2000), "records", recordsCase)
	cs = append(cs, vCases(vScale(40, 400), "crash", crashRecords)...)
	cs = append(cs, vCases(vScale(16, 160), "crowd", crowdCase)...)
	r.run(cs, 0)
	r.runSync(vCases(vScale(60, 600), "later", vLater(recordsCase)), 0)
	r.finish()
}
