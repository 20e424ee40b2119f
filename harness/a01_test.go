package main_test

import (
	"net"
	"net/url"
	"testing"
)

// malformed values must be refused by every endpoint that takes them.
func (w *apiWorld) checkRefusals() {
	c := w.c
	bad := []string{"x", "1.2.3", "1.2.3.4.5", "1.2.3.256", "01.2.3.4", "1.2.3.4:80", "1.2.3.4/24", "localhost", "[::1]", ":::", "1.2.3.4 5.6.7.8",
		"ffff", "-1", "1,2", "\x00", "ё", "1.2.3.4;5.6.7.8", "0x01020304", "16909060", " 1. 2.3.4"}
	s := bad[c.rng.IntN(len(bad))]
	a := w.cw.peer().String()
	for _, p := range []string{"/api/fork/" + url.PathEscape(s), "/api/fork/" + url.PathEscape(s) + "/generators/5",
		"/api/forks?peers=" + url.QueryEscape(s), "/api/active-forks?peers=" + url.QueryEscape(s),
		"/api/forks?peers=" + url.QueryEscape(a+","+s), "/api/active-forks?peers=" + url.QueryEscape(s+","+a)} {
		var v any
		st := w.s.get(p, &v)
		c.check(st == 400, "malformed", "GET %s (address %q) answers %d: %.200v", p, s, st, v)
	}
	cnt := []string{"x", "1.5", "1e3", "0x10", " 1", "1 ", "--1", "99999999999999999999", "-99999999999999999999", "+-1", "ё", "1,000", "1_000"}
	n := cnt[c.rng.IntN(len(cnt))]
	var v any
	p := "/api/fork/" + url.PathEscape(a) + "/generators/" + url.PathEscape(n)
	st := w.s.get(p, &v)
	c.check(st == 400, "malformed", "GET %s (count %q) answers %d", p, n, st)
	c.count("refusals_checked", 7)
}

func TestA01(t *testing.T) {
	r := vStart(t, "A01", "random histories of both storages behind the real HTTP server; after every few changes all endpoints are asked, with random filters, addresses and counts, and compared with the models of both storages; "+
		"an evaluation is one comparison of all endpoints, non-trivial ones are distinct states")
	cases := vCases(vScale(260, 2500), "history", func(c *vc) {
		w := newAPIWorld(c)
		defer w.close()
		w.checkAll()
		for range 3 + c.rng.IntN(vScale(16, 60)) {
			for range 1 + c.rng.IntN(12) {
				w.step()
			}
			w.checkAll()
			w.checkRefusals()
		}
		c.sampleTrace(30)
	})
	cases = append(cases, vCases(vScale(2, 8), "long", func(c *vc) {
		w := newAPIWorld(c)
		defer w.close()
		// A trunk of more than a thousand blocks and long branches.
		for _, n := range []int{900, 300, 40, 1100} {
			a := w.cw.peer()
			p := w.cw.m.order[c.rng.IntN(len(w.cw.m.order))]
			if n == 300 {
				p = w.cw.m.top()
			}
			for range n {
				b := w.cw.newBlock(p.id)
				w.cw.putBlock(b, a)
				p = w.cw.m.blocks[b.BlockID()]
			}
			w.checkAll()
		}
		// A long fork of a low score.
		low := w.cw.peer()
		p := w.cw.m.genesis()
		for range 1001 + c.rng.IntN(150) {
			b := w.cw.newBlock(p.id)
			b.BaseTarget = 1 << 50
			w.cw.putBlock(b, low)
			p = w.cw.m.blocks[b.BlockID()]
		}
		for _, n := range []int{0, 999, 1000, 1001, 1050, 1 << 20} {
			w.checkForkOf(low, n)
		}
		for range 20 {
			w.step()
			w.checkAll()
		}
	})...)
	// Lists of hundreds: of connections, peers, heads, leashes, and forks.
	cases = append(cases, vCases(vScale(6, 60), "crowd", func(c *vc) {
		n := 130 + c.rng.IntN(vScale(250, 1000))
		w := newAPIWorldOf(c, n)
		w.rw.odd = 0.03
		defer w.close()
		for _, a := range w.rw.addrs {
			if c.rng.IntN(8) > 0 {
				w.rw.session(a)
			}
			if c.rng.IntN(6) == 0 {
				continue
			}
			p := w.cw.m.order[c.rng.IntN(len(w.cw.m.order))]
			for range 1 + c.rng.IntN(3) {
				b := w.cw.newBlock(p.id)
				w.cw.putBlock(b, a)
				if p = w.cw.m.blocks[b.BlockID()]; p == nil {
					break
				}
			}
		}
		if c.rng.IntN(2) == 0 { // A book of thousands.
			var as []*net.TCPAddr
			for i := range []int{1100, 2500, 5000}[c.rng.IntN(3)] {
				as = append(as, &net.TCPAddr{IP: net.IPv4(78, 1, byte(i>>8), byte(i)), Port: 1 + i})
			}
			w.rw.doAppend(as)
			c.max("max_records", len(w.rw.m.recs))
		}
		c.max("max_connections", len(w.rw.m.conns))
		c.max("max_leashes", len(w.cw.m.leash))
		w.checkAll()
		if c.rng.IntN(2) == 0 { // Nearly all on one fork.
			at := w.cw.m.order[c.rng.IntN(len(w.cw.m.order))]
			for _, a := range w.cw.prof.peers {
				if c.rng.IntN(40) > 0 {
					w.cw.moveLeash(at, a)
				}
			}
			w.checkAll()
		}
		for range 6 {
			for range 30 {
				w.step()
			}
			w.checkAll()
		}
		c.max("max_connections", len(w.rw.m.conns))
	})...)
	r.run(cases, 0)
	r.finish()
}
