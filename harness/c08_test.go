package main_test

import (
	"errors"
	"fmt"
	"net"
	"net/netip"
	"os"
	"path/filepath"
	"slices"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/wavesplatform/gowaves/pkg/proto"

	"github.com/alexeykiselev/waves-fork-detector/chains"
	"github.com/alexeykiselev/waves-fork-detector/peers"
)

// Every question has a name; its answer is rendered as a string or is an error.
type answers map[string]string

const unreadable = "!error"

func (a answers) put(name string, err error, format string, args ...any) {
	if err != nil {
		a[name] = unreadable
		return
	}
	a[name] = fmt.Sprintf(format, args...)
}

// stable keeps the questions that are answered equally every time.
func (a answers) stable(other answers) {
	for k, v := range a {
		if other[k] != v {
			delete(a, k)
		}
	}
}

func sortedAddrs(ps []netip.Addr) string {
	r := make([]string, len(ps))
	for i, p := range ps {
		r[i] = p.String()
	}
	sort.Strings(r)
	return strings.Join(r, ",")
}

func renderForks(fs []chains.Fork) string {
	r := make([]string, len(fs))
	for i, f := range fs {
		r[i] = fmt.Sprint(f.HeadBlock, f.HeadHeight, f.Score, f.PeersCount, sortedAddrs(f.Peers))
	}
	sort.Strings(r)
	return strings.Join(r, "\n")
}

func renderHeads(hs []chains.Head) string {
	r := make([]string, len(hs))
	for i, h := range hs {
		r[i] = fmt.Sprint(h.ID, h.BlockID)
	}
	sort.Strings(r)
	return strings.Join(r, "\n")
}

func askChain(l *chains.Linkage, ids []proto.BlockID, absent proto.BlockID, ps []netip.Addr) answers {
	a := answers{}
	leashes := func() {
		ls, err := l.Leashes()
		r := make([]string, len(ls))
		for i, x := range ls {
			r[i] = fmt.Sprint(x.Addr, x.BlockID)
		}
		sort.Strings(r)
		a.put("leashes", err, "%s", strings.Join(r, "\n"))
	}
	heads, err := l.Heads()
	a.put("heads", err, "%s", renderHeads(heads))
	heads, err = l.ActiveHeads()
	a.put("active heads", err, "%s", renderHeads(heads))
	leashes()
	fs, err := l.Forks(nil)
	a.put("forks", err, "%s", renderForks(fs))
	filter := chains.LookupPeers{}
	for i, p := range ps {
		if i%3 == 0 {
			filter[p] = struct{}{}
		}
	}
	fs, err = l.Forks(filter)
	a.put("forks of some", err, "%s", renderForks(fs))
	st, err := l.Stats()
	a.put("stats", err, "%v", st)
	for i, id := range append(ids[:len(ids):len(ids)], absent) {
		has, hErr := l.HasBlock(id)
		a.put("has "+id.String(), hErr, "%v", has)
		if id == absent {
			continue
		}
		b, bErr := l.Block(id)
		a.put("block "+id.String(), bErr, "%v", b)
		if i%7 == 0 {
			last, lErr := l.LastIDs(id, 100)
			a.put("ancestors "+id.String(), lErr, "%v", last)
			gs, gErr := l.ForkGenerators(id, 100)
			r := make([]string, len(gs))
			for j, g := range gs {
				r[j] = fmt.Sprint(g.Generator, g.Blocks)
			}
			sort.Strings(r)
			a.put("generators "+id.String(), gErr, "%v", r)
		}
	}
	for i, p := range ps {
		has, hErr := l.HasLeash(p)
		a.put("has leash "+p.String(), hErr, "%v", has)
		lsh, lErr := l.Leash(p)
		a.put("leash "+p.String(), lErr, "%v", lsh)
		sc, sErr := l.LeashScore(p)
		a.put("leash score "+p.String(), sErr, "%v", sc)
		if i%5 == 0 {
			f, fErr := l.Fork(p)
			a.put("fork "+p.String(), fErr, "%v %v %v %v", f.HeadBlock, f.LastCommonBlock, f.Length, sortedAddrs(f.Peers))
			lcb, cErr := l.LCB(p)
			a.put("lcb "+p.String(), cErr, "%v", lcb)
		}
	}
	return a
}

// damage spoils one table of the database in dir and tells what it did.
func damage(c *vc, dir string) string {
	var tables []string
	c.must(filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err == nil && (strings.HasSuffix(p, ".ldb") || strings.HasSuffix(p, ".sst")) {
			tables = append(tables, p)
		}
		return err
	}))
	if len(tables) == 0 {
		c.inconclusive("no tables to damage in " + dir)
	}
	p := tables[c.rng.IntN(len(tables))]
	data, err := os.ReadFile(p)
	c.must(err)
	what := ""
	switch c.rng.IntN(4) {
	case 0, 1:
		i := c.rng.IntN(len(data))
		data[i] ^= 1 << c.rng.IntN(8)
		what = fmt.Sprintf("bit flip at %d", i)
		c.count("damage_flip", 1)
	case 2:
		i := c.rng.IntN(len(data))
		n := min(512, len(data)-i)
		for j := range n {
			data[i+j] = byte(c.rng.IntN(256))
		}
		what = fmt.Sprintf("%d bytes of garbage at %d", n, i)
		c.count("damage_sector", 1)
	case 3:
		i := c.rng.IntN(len(data))
		clear(data[i:])
		what = fmt.Sprintf("zeroes from %d on", i)
		c.count("damage_tail", 1)
	}
	c.must(os.WriteFile(p, data, 0o600))
	if c.rng.IntN(8) == 0 { // The list of tables is gone too.
		ms, gErr := filepath.Glob(filepath.Join(filepath.Dir(p), "MANIFEST-*"))
		c.must(gErr)
		for _, m := range ms {
			c.must(os.WriteFile(m, make([]byte, 4096), 0o600))
		}
		what += ", no manifest"
		c.count("damage_manifest", 1)
	}
	return fmt.Sprintf("%s of %d bytes: %s", filepath.Base(p), len(data), what)
}

// compare demands the answer of the undamaged storage or an error.
func (a answers) compare(c *vc, got answers, what string) {
	errs, same := 0, 0
	for k, v := range a {
		g, ok := got[k]
		switch {
		case !ok:
			c.fail("harness", "question '%s' was not asked", k)
		case g == unreadable:
			errs++
		case g != v:
			c.fail("wrong-answer", "%s: the answer to '%s' is neither right nor an error\n got: %.600s\nwant: %.600s", what, k, g, v)
		default:
			same++
		}
	}
	c.count("answers_right", same)
	c.count("answers_error", errs)
	if errs > 0 {
		c.count("damages_met", 1)
	}
	c.eval(vHash(what, errs))
}

func damagedChain(c *vc) {
	prof := vProfile(c, c.rng.IntN(7))
	prof.peers = vPeers(150 + c.rng.IntN(200))
	prof.reopen, prof.bad, prof.jump, prof.wildTimes = 0.003, 0, 1, false
	prof.tip, prof.recent, prof.early = 0.3, 0.4, 0.1
	w := newChainWorld(c, prof)
	for range 500 + c.rng.IntN(300) {
		w.step()
	}
	ids := make([]proto.BlockID, 0, len(w.m.order))
	for _, b := range w.m.order {
		ids = append(ids, b.id)
	}
	absent := w.newID()
	ask := func(l *chains.Linkage) answers { return askChain(l, ids, absent, prof.peers) }
	w.reopen() // Writes the journal into tables.
	want := ask(w.l)
	want.stable(ask(w.l))
	c.count("questions", len(want))
	tie := len(w.m.longest(w.m.groups(nil))) > 1 // Any of the longest forks may be taken.
	for k, v := range want {
		if tie && (k == "stats" || strings.HasPrefix(k, "lcb ") || strings.HasPrefix(k, "fork ")) {
			delete(want, k)
			continue
		}
		if v == unreadable && strings.HasPrefix(k, "fork ") { // The peer has no leash.
			delete(want, k)
			continue
		}
		c.check(v != unreadable, "query-error", "'%s' is an error on the undamaged storage", k)
	}
	w.reopen()
	w.close()
	for range vScale(10, 40) {
		dir := c.dir()
		copyDir(c, w.dir, dir)
		what := damage(c, dir)
		c.op("%s", what)
		l, err := chains.NewLinkage(dir, w.m.scheme, w.gen)
		if err != nil {
			c.count("not_opened", 1)
			c.eval(vHash(what))
			_ = os.RemoveAll(dir)
			continue
		}
		want.compare(c, ask(l), what)
		l.Close()
		l, err = chains.NewLinkage(dir, w.m.scheme, w.gen)
		if err != nil {
			_ = os.RemoveAll(dir)
			continue
		}
		damagedDeliveries(c, w, l, ids, what)
		l.Close()
		_ = os.RemoveAll(dir)
	}
	c.sampleTrace(5)
}

// damagedDeliveries delivers known and new blocks to the damaged storage.
func damagedDeliveries(c *vc, w *chainWorld, l *chains.Linkage, ids []proto.BlockID, what string) {
	ids = slices.Clone(ids)
	tops := map[proto.BlockID]bool{}
	if hs, err := l.Heads(); err == nil {
		for _, h := range hs {
			tops[h.BlockID] = true
		}
	}
	for range 40 {
		p := w.peer()
		k := c.rng.IntN(len(ids))
		if len(tops) > 0 && c.rng.IntN(2) == 0 {
			for i := range ids {
				if j := (k + i) % len(ids); tops[ids[j]] {
					k = j
					break
				}
			}
		}
		parent := w.m.blocks[ids[k]]
		ids[k] = ids[len(ids)-1] // Each parent once: the model does not follow these deliveries.
		ids = ids[:len(ids)-1]
		before, bErr := l.Leash(p)
		hs, hErr := l.Heads()
		known := true
		var id proto.BlockID
		var err error
		height := parent.height + 1
		switch c.rng.IntN(3) {
		case 0:
			b := w.newBlock(parent.id)
			known = false
			id, err = b.BlockID(), l.PutBlock(b, p)
		case 1:
			inv := w.newInv(parent.id)
			known = false
			id, err = inv.TotalBlockID, l.PutMicroBlock(inv, p)
			height = parent.height
		case 2:
			id, height = parent.id, parent.height
			err = l.MoveLeash(id, p)
		}
		c.check(!errors.Is(err, chains.ErrParentNotFound) && !errors.Is(err, chains.ErrRefNotFound), "denied",
			"%s: delivery on a stored block was refused for its absence: %v", what, err)
		after, aErr := l.Leash(p)
		if err != nil {
			c.count("deliveries_failed", 1)
			if bErr == nil && aErr == nil {
				c.check(after == before, "failed-leash", "%s: a failed delivery (%v) moved the leash", what, err)
			}
			continue
		}
		c.count("deliveries_done", 1)
		if now, nErr := l.Heads(); nErr == nil && hErr == nil && !known {
			damagedHeads(c, hs, now, parent.id, id, what)
		}
		if aErr == nil {
			c.check(after == id, "lost-leash", "%s: the leash is not on the block just delivered", what)
		}
		if b, gErr := l.Block(id); gErr == nil {
			c.check(uint64(b.Height) == uint64(height), "lost-block", "%s: delivered block has height %d, expected %d", what, b.Height, height)
		}
	}
}

// damagedHeads checks that the head of the parent moved to the new block or, without one, that a new head appeared.
func damagedHeads(c *vc, before, after []chains.Head, parent, id proto.BlockID, what string) {
	want := map[uint64]proto.BlockID{}
	moved := false
	for _, h := range before {
		want[h.ID] = h.BlockID
		if h.BlockID == parent {
			want[h.ID] = id
			moved = true
		}
	}
	fresh := 0
	for _, h := range after {
		b, ok := want[h.ID]
		if !ok && !moved && h.BlockID == id {
			fresh++
			continue
		}
		c.check(ok && b == h.BlockID, "heads", "%s: after a delivery head %d is on %s, expected %s (known %v, the parent was a head: %v)", what, h.ID, h.BlockID, b, ok, moved)
	}
	n := len(before)
	if !moved {
		n++
		c.check(fresh == 1, "heads", "%s: %d new heads after a delivery on a block that is not a head", what, fresh)
	}
	c.check(len(after) == n, "heads", "%s: %d heads after a delivery, expected %d", what, len(after), n)
	c.count("heads_checked", 1)
}

func askRegistry(r *peers.Registry, addrs []netip.Addr) answers {
	a := answers{}
	render := func(ps []peers.Peer) string {
		s := make([]string, len(ps))
		for i, p := range ps {
			s[i] = fmt.Sprint(p.AddressPort, p.Name, p.Nonce, p.Version, p.State, p.Score, p.NextAttempt.UnixNano())
		}
		sort.Strings(s)
		return strings.Join(s, "\n")
	}
	ps, err := r.Peers()
	a.put("peers", err, "%s", render(ps))
	ps, err = r.FriendlyPeers()
	a.put("friendly peers", err, "%s", render(ps))
	as, err := r.Addresses()
	s := make([]string, len(as))
	for i, x := range as {
		s[i] = x.String()
	}
	sort.Strings(s)
	a.put("addresses", err, "%v", s)
	for _, x := range addrs {
		p, pErr := r.Peer(x)
		a.put("peer "+x.String(), pErr, "%s", render([]peers.Peer{p}))
	}
	tcp := make([]*net.TCPAddr, len(addrs))
	for i, x := range addrs {
		tcp[i] = net.TCPAddrFromAddrPort(netip.AddrPortFrom(x, 7777))
	}
	a.put("addresses added again", nil, "%d", r.AppendAddresses(tcp))
	free, err := r.TakeAvailableAddresses()
	s = make([]string, len(free))
	for i, x := range free {
		s[i] = x.String()
	}
	sort.Strings(s)
	a.put("available addresses", err, "%v", s)
	return a
}

func damagedRegistry(c *vc) {
	w := newRegWorld(c, 150+c.rng.IntN(250))
	for range 500 + c.rng.IntN(400) {
		w.step()
	}
	known := vKeys(w.m.recs, func(a, b netip.Addr) bool { return a.Less(b) })
	w.close()
	w.m.restart()
	open := func(dir string) (*peers.Registry, error) {
		return peers.NewRegistry(w.m.scheme, w.declared, append([]proto.Version(nil), w.vers...), dir)
	}
	r, err := open(w.dir) // Writes the journal into tables.
	c.noErr(err, "open", "opening the undamaged registry")
	c.must(r.Close())
	time.Sleep(1500 * time.Millisecond) // What is due stays due then: moments are rounded to seconds.
	var want answers
	for i := range 3 {
		r, err = open(w.dir)
		c.noErr(err, "open", "opening the undamaged registry")
		a := askRegistry(r, known)
		c.must(r.Close())
		if i == 0 {
			want = a
		}
		want.stable(a)
	}
	for k, v := range want {
		c.check(v != unreadable, "query-error", "'%s' is an error on the undamaged storage", k)
	}
	c.count("questions", len(want))
	for range vScale(14, 60) {
		dir := c.dir()
		copyDir(c, w.dir, dir)
		what := damage(c, dir)
		c.op("%s", what)
		r, err = open(dir)
		if err != nil {
			c.count("not_opened", 1)
			c.eval(vHash(what))
			_ = os.RemoveAll(dir)
			continue
		}
		want.compare(c, askRegistry(r, known), what)
		for range 40 { // A record that can't be read is neither forgotten nor replaced.
			a := known[c.rng.IntN(len(known))]
			before, bErr := r.Peer(a)
			_, sErr := r.SuggestVersion(a)
			after, aErr := r.Peer(a)
			if bErr != nil {
				c.check(sErr != nil && aErr != nil, "replaced", "%s: the unreadable record of %s was replaced", what, a)
				c.count("unreadable_kept", 1)
			} else if aErr == nil {
				c.check(before.State == after.State && before.AddressPort == after.AddressPort, "replaced",
					"%s: the record of %s was replaced", what, a)
			}
		}
		_ = r.Close() // May report that a compaction met the damage.
		_ = os.RemoveAll(dir)
	}
	c.sampleTrace(5)
}

func TestC08(t *testing.T) {
	r := vStart(t, "C08", "databases of blocks (random trees, 150-350 peers) and of peers (150-400 records) are closed and one table of a copy is damaged: a bit, 512 bytes or the rest; it is opened again, all queries are asked and compared with the answers of the undamaged one, "+
		"then things are delivered; an evaluation is one damaged copy, non-trivial ones are distinct (damage, questions that failed)")
	cs := vCases(vScale(16, 100), "blocks", damagedChain)
	cs = append(cs, vCases(vScale(16, 100), "peers", damagedRegistry)...)
	r.run(cs, 0)
	r.finish()
}
