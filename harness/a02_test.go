package main_test

import (
	"compress/gzip"
	"encoding/json"
	"fmt"
	"io"
	"math/big"
	"math/rand/v2"
	"net"
	"net/http"
	"net/netip"
	"net/url"
	"runtime"
	"slices"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/wavesplatform/gowaves/pkg/proto"
)

// ---- requests of all kinds ---------------------------------------------------------------------

var vEndpoints = []string{"/api/peers/all", "/api/peers/friendly", "/api/connections", "/api/heads", "/api/leashes", "/api/status", "/api/forks", "/api/active-forks"}

// odd makes a piece of a request that nobody expects.
func (w *apiWorld) odd() string {
	r := w.c.rng
	switch r.IntN(15) {
	case 0:
		return ""
	case 1:
		return "."
	case 2:
		return ".."
	case 3:
		return strings.Repeat("9", 1+r.IntN(3000))
	case 4:
		b := make([]byte, 1+r.IntN(40))
		for i := range b {
			b[i] = byte(r.Uint32())
		}
		return string(b)
	case 5:
		return strings.Repeat("1.2.3.4,", 1+r.IntN(5000))
	case 6:
		return "::ffff:" + w.cw.prof.peers[0].String()
	case 7:
		return "fe80::1%" + strings.Repeat("z", 1+r.IntN(300))
	case 8:
		return strings.Repeat(",", 1+r.IntN(9000))
	case 9:
		return fmt.Sprint(-1 << uint(r.IntN(63)))
	case 10:
		return fmt.Sprint(uint64(1) << uint(r.IntN(64)))
	case 11:
		return "%s%n%d\r\n\x00"
	case 12:
		return "::ffff:" + w.cw.peer().Unmap().String()
	case 13:
		return w.cw.peer().String() + "%eth0"
	}
	return w.cw.peer().String()
}

func (w *apiWorld) oddPath() string {
	r := w.c.rng
	e := url.PathEscape
	q := url.QueryEscape
	switch r.IntN(12) {
	case 0:
		return "/api/fork/" + e(w.odd())
	case 1:
		return "/api/fork/" + e(w.cw.peer().String()) + "/generators/" + e(w.odd())
	case 2:
		return "/api/fork/" + e(w.odd()) + "/generators/" + e(w.odd())
	case 3:
		return "/api/forks?peers=" + q(w.odd())
	case 4:
		return "/api/active-forks?peers=" + q(w.odd())
	case 5:
		return "/api/forks?peers=" + q(w.cw.peer().String()) + "&peers=" + q(w.odd()) + "&" + q(w.odd())
	case 6:
		return "/api/forks?" + strings.Map(func(c rune) rune {
			if c <= ' ' || c > '~' || c == '#' {
				return 'x'
			}
			return c
		}, w.odd())
	case 7:
		return "/" + e(w.odd())
	case 8:
		return "/api/" + e(w.odd())
	case 9:
		return vEndpoints[r.IntN(len(vEndpoints))] + "/" + e(w.odd())
	case 10:
		return fmt.Sprintf("/api/fork/%s/generators/%d", e(w.cw.peer().String()), []int{0, 1 << 31, 1<<62 - 1, -1 << 62, -1, 1 << 40}[r.IntN(6)])
	}
	return vEndpoints[r.IntN(len(vEndpoints))] + "?" + q(w.odd()) + "=" + q(w.odd())
}

// ask sends one well-formed request and judges the answer.
func (w *apiWorld) ask(method, path string, body string, hdr map[string]string) {
	c := w.c
	req, err := http.NewRequest(method, "http://"+w.s.base+path, strings.NewReader(body))
	if err != nil {
		return // Not a request at all.
	}
	for k, v := range hdr {
		req.Header.Set(k, v)
	}
	resp, err := w.s.cl.Do(req)
	if err != nil && strings.Contains(err.Error(), "invalid") {
		return // The client refuses to send it.
	}
	c.noErr(err, "no-answer", "%s %.200q", method, path)
	b, err := io.ReadAll(resp.Body)
	_ = resp.Body.Close()
	c.noErr(err, "no-answer", "reading the answer to %s %.200q", method, path)
	c.op("%s %.120q %v -> %d, %d bytes", method, path, hdr, resp.StatusCode, len(b))
	c.check(resp.StatusCode < 500, "server-error", "%s %.300q answers %d: %.300s", method, path, resp.StatusCode, b)
	c.count(fmt.Sprintf("status_%d", resp.StatusCode), 1)
	c.eval(vHash(method, path, resp.StatusCode, w.cw.m.quick(""), w.rw.m.fingerprint("")))
	if resp.StatusCode != http.StatusOK || method == http.MethodHead {
		return
	}
	c.check(strings.HasPrefix(resp.Header.Get("Content-Type"), "application/json"), "content-type", "%s %.200q has content type %q", method, path, resp.Header.Get("Content-Type"))
	if resp.Header.Get("Content-Encoding") == "gzip" {
		zr, err := gzip.NewReader(strings.NewReader(string(b)))
		c.noErr(err, "encoding", "%s %.200q", method, path)
		b, err = io.ReadAll(zr)
		c.noErr(err, "encoding", "%s %.200q", method, path)
	} else if e := resp.Header.Get("Content-Encoding"); e != "" {
		return
	}
	c.check(json.Valid(b), "json", "%s %.200q is no JSON: %.300s", method, path, b)
	t := strings.TrimSpace(string(b))
	p, _, _ := strings.Cut(path, "?")
	list := strings.Contains(path, "/generators/")
	for _, e := range vEndpoints {
		list = list || e == p && e != "/api/status"
	}
	if list {
		c.check(strings.HasPrefix(t, "["), "null-list", "%s %.200q answers no list: %.300s", method, path, t)
	} else {
		c.check(strings.HasPrefix(t, "{"), "json", "%s %.200q answers no object: %.300s", method, path, t)
	}
	c.check(!strings.Contains(t, `"peers":null`), "null-list", "%s %.200q contains null for a list: %.300s", method, path, t)
}

func (w *apiWorld) ask1() {
	r := w.c.rng
	hdr := map[string]string{}
	switch r.IntN(12) {
	case 0:
		hdr["X-Real-IP"] = strings.Map(vPrintable, w.odd())
		hdr["X-Forwarded-For"] = strings.Map(vPrintable, w.odd())
	case 1:
		hdr["Accept-Encoding"] = []string{"gzip", "deflate", "*", "br", "gzip;q=0", "identity", ",,;"}[r.IntN(7)]
	case 2:
		hdr["X-Request-Id"] = strings.Map(vPrintable, w.odd())
	case 3:
		hdr["Accept"] = "text/html"
		hdr["Content-Type"] = strings.Map(vPrintable, w.odd())
		hdr["Range"] = "bytes=0-1"
	}
	m := "GET"
	if r.IntN(6) == 0 {
		m = []string{"HEAD", "POST", "PUT", "DELETE", "OPTIONS", "PATCH", "TRACE", "FOO"}[r.IntN(8)]
	}
	p := w.oddPath()
	if r.IntN(3) == 0 {
		p = vEndpoints[r.IntN(len(vEndpoints))]
	}
	body := ""
	if r.IntN(8) == 0 {
		body = w.odd()
	}
	w.ask(m, p, body, hdr)
}

func vPrintable(c rune) rune {
	if c < ' ' || c > '~' {
		return '?'
	}
	return c
}

// garbage sends bytes that need not be HTTP.
func (w *apiWorld) garbage() {
	c, r := w.c, w.c.rng
	cn, err := net.DialTimeout("tcp", w.s.base, 10*time.Second)
	c.noErr(err, "no-answer", "connecting to the API")
	defer func() { _ = cn.Close() }()
	_ = cn.SetDeadline(time.Now().Add(5 * time.Second))
	b := []byte(nil)
	switch r.IntN(6) {
	case 0:
		b = []byte("GET /api/status HTTP/1.1\r\nHost: x\r\nContent-Length: -1\r\n\r\n")
	case 1:
		b = []byte("GET /api/fork/" + w.odd() + " HTTP/1.1\r\nHost: x\r\n\r\n")
	case 2:
		b = []byte("POST /api/forks HTTP/1.1\r\nHost: x\r\nTransfer-Encoding: chunked\r\n\r\nffffffffffffffffff\r\n")
	case 3:
		b = make([]byte, r.IntN(5000))
		for i := range b {
			b[i] = byte(r.Uint32())
		}
	case 4:
		b = []byte("GET /api/forks?peers=%zz%%%" + w.odd() + " HTTP/1.0\r\n\r\n")
	default:
		b = []byte("GET //api//../api/./status HTTP/1.1\r\nHost: x\r\nExpect: 100-continue\r\nContent-Length: 5\r\n\r\nab")
	}
	_, _ = cn.Write(b)
	if r.IntN(2) == 0 {
		_ = cn.(*net.TCPConn).CloseWrite()
	}
	if r.IntN(2) == 0 {
		_ = cn.SetReadDeadline(time.Now().Add(50 * time.Millisecond))
		_, _ = io.Copy(io.Discard, cn)
	}
	c.count("garbage", 1)
}

func hostileRequests(c *vc) {
	w := newAPIWorld(c)
	defer w.close()
	all := func() {
		for _, e := range vEndpoints {
			w.ask("GET", e, "", nil)
			w.ask("GET", e, "", map[string]string{"Accept-Encoding": "gzip"})
		}
	}
	again := func() { // The storages may be other ones now.
		w.s.close()
		w.s = vServe(c, w.rw.r, w.cw.l, w.host)
	}
	all() // Empty.
	mode := c.rng.IntN(4)
	for range 4 {
		for range 1 + c.rng.IntN(12) {
			switch mode {
			case 0: // No connections ever.
				w.cw.step()
				again()
			case 1: // No leashes ever.
				w.rw.step()
				again()
			default:
				w.step()
			}
		}
		all()
		for range vScale(40, 200) {
			w.ask1()
		}
		for range 3 {
			w.garbage()
		}
	}
	all()
	c.sampleTrace(40)
}

// crowdedRequests ask a detector that has run for long: thousands of known addresses, hundreds of sessions, leashes and forks, long chains.
func crowdedRequests(c *vc) {
	w := newAPIWorldOf(c, 120+c.rng.IntN(180))
	defer w.close()
	w.rw.odd = 0.05
	p := w.cw.m.genesis()
	for range 1 + c.rng.IntN(1200) {
		b := w.cw.newBlock(p.id)
		w.cw.putBlock(b, w.cw.peer())
		p = w.cw.m.blocks[b.BlockID()]
	}
	for _, a := range w.rw.addrs {
		if c.rng.IntN(6) > 0 {
			w.rw.session(a)
		}
		p := w.cw.m.order[c.rng.IntN(len(w.cw.m.order))]
		for range c.rng.IntN(3) {
			b := w.cw.newBlock(p.id)
			w.cw.putBlock(b, a)
			if p = w.cw.m.blocks[b.BlockID()]; p == nil {
				break
			}
		}
	}
	var as []*net.TCPAddr
	for i := range 1 + c.rng.IntN(6000) {
		as = append(as, &net.TCPAddr{IP: net.IPv4(78, 1, byte(i>>8), byte(i)), Port: 1 + i})
	}
	w.rw.doAppend(as)
	for _, e := range vEndpoints {
		w.ask("GET", e, "", nil)
	}
	for range vScale(100, 1000) {
		w.ask1()
	}
	c.max("max_known_addresses", len(w.rw.m.recs))
	c.max("max_blocks", len(w.cw.m.order))
	c.sampleTrace(20)
}

// bigRequests measures the memory an answer takes; nothing else runs meanwhile.
func bigRequests(c *vc) {
	w := newAPIWorld(c)
	defer w.close()
	a := w.cw.peer()
	p := w.cw.m.genesis()
	for range 60 {
		b := w.cw.newBlock(p.id)
		w.cw.putBlock(b, a)
		p = w.cw.m.blocks[b.BlockID()]
	}
	many := strings.Repeat(a.String()+",", 50000)
	for _, q := range []string{
		fmt.Sprintf("/api/fork/%s/generators/%d", a, 1<<24), fmt.Sprintf("/api/fork/%s/generators/%d", a, 1<<31),
		fmt.Sprintf("/api/fork/%s/generators/%d", a, 1<<62), fmt.Sprintf("/api/fork/%s/generators/%d", a, -1<<62),
		"/api/forks?peers=" + url.QueryEscape(many), "/api/active-forks?peers=" + url.QueryEscape(strings.Repeat(",", 500000)),
	} {
		var x, y runtime.MemStats
		runtime.ReadMemStats(&x)
		w.ask("GET", q, "", nil)
		runtime.ReadMemStats(&y)
		d := y.TotalAlloc - x.TotalAlloc
		c.check(d < 256<<20, "memory", "answering %.100s allocated %d bytes", q, d)
		c.max("max_alloc_of_a_request", int(d))
	}
}

// ---- answers while the state changes ------------------------------------------------------------

// amover is a peer whose leash goes along a list of blocks known in advance.
type amover struct {
	a       netip.Addr
	list    []*mblock
	blocks  []*proto.Block // nil: a move to a stored block
	started atomic.Int32
	done    atomic.Int32
}

// asess is a peer that comes and goes; even counts: disconnected.
type asess struct {
	a       netip.Addr
	started atomic.Int32 // register and unregister calls begun
	done    atomic.Int32 // and completed
	scores  atomic.Int32 // last score begun
}

type aconc struct {
	w    *apiWorld
	c    *vc
	mv   map[netip.Addr]*amover
	ss   map[netip.Addr]*asess
	ids  map[string]*mblock
	gone atomic.Bool
	stop atomic.Bool
}

func (k *aconc) bad(key, format string, args ...any) {
	if k.gone.CompareAndSwap(false, true) {
		k.c.report(key, fmt.Sprintf(format, args...))
	}
}

type awin struct{ lo, hi int32 }

// view takes the positions of all peers before a request; the function returned completes the windows after it.
func (k *aconc) view() func() map[netip.Addr]awin {
	r := map[netip.Addr]awin{}
	for a, m := range k.mv {
		r[a] = awin{lo: m.done.Load()}
	}
	return func() map[netip.Addr]awin {
		for a, m := range k.mv {
			r[a] = awin{lo: r[a].lo, hi: m.started.Load()}
		}
		return r
	}
}

// at tells whether the peer may have been on the block within the window.
func (k *aconc) at(a netip.Addr, b *mblock, w awin) bool {
	m := k.mv[a]
	for i := max(w.lo, 1); i <= w.hi; i++ {
		if m.list[i-1] == b {
			return true
		}
	}
	return false
}

// peersOn checks which peers are shown on a block; seen collects them over the whole answer.
func (k *aconc) peersOn(what string, b *mblock, ps []string, win map[netip.Addr]awin, seen map[netip.Addr]bool) {
	for _, s := range ps {
		a, err := netip.ParseAddr(s)
		if err != nil || k.mv[a] == nil {
			k.bad("address", "%s shows peer %q", what, s)
			return
		}
		if seen[a] {
			k.bad("peer-twice", "%s shows peer %s twice", what, a)
		}
		seen[a] = true
		if !k.at(a, b, win[a]) {
			k.bad("leash", "%s shows %s on %s where its leash was not during the request", what, a, b)
		}
	}
}

func (k *aconc) missing(what string, win map[netip.Addr]awin, seen map[netip.Addr]bool, filter map[netip.Addr]bool) {
	for a, x := range win {
		if x.lo > 0 && !seen[a] && (filter == nil || filter[a]) {
			k.bad("peer-missing", "%s does not show %s that was leashed before the request", what, a)
		}
	}
}

func (k *aconc) fetch(path string, v any) bool {
	resp, err := k.w.s.cl.Get("http://" + k.w.s.base + path)
	if err != nil {
		k.bad("no-answer", "GET %s: %v", path, err)
		return false
	}
	b, err := io.ReadAll(resp.Body)
	_ = resp.Body.Close()
	if err != nil || resp.StatusCode != 200 {
		if strings.HasPrefix(path, "/api/fork/") && resp.StatusCode == 404 {
			return false
		}
		k.bad("server-error", "GET %s: %d %v %.300s", path, resp.StatusCode, err, b)
		return false
	}
	if err = json.Unmarshal(b, v); err != nil {
		k.bad("json", "GET %s: %v: %.300s", path, err, b)
		return false
	}
	k.c.count("answers_under_load", 1)
	return true
}

func (k *aconc) readLeashes() {
	fin := k.view()
	var ls []jLeash
	if !k.fetch("/api/leashes", &ls) {
		return
	}
	win, seen := fin(), map[netip.Addr]bool{}
	for _, l := range ls {
		b := k.ids[l.Block]
		if b == nil || l.Height != b.height || l.Score == nil || l.Score.Cmp(b.score) != 0 || l.Timestamp.UnixMilli() != b.ts || l.Generator != b.gen.String() || l.Count != len(l.Peers) {
			k.bad("leash-data", "/leashes shows %s as %+v", b, l)
			return
		}
		k.peersOn("/leashes", b, l.Peers, win, seen)
	}
	k.missing("/leashes", win, seen, nil)
	k.c.eval(vHash("l", win, ls))
}

func (k *aconc) forkData(what string, f *jFork) *mblock {
	b, l := k.ids[f.Head], k.ids[f.LCB]
	if b == nil || l == nil || f.Height != b.height || f.Score == nil || f.Score.Cmp(b.score) != 0 || f.Timestamp.UnixMilli() != b.ts ||
		f.Generator != b.gen.String() || f.Count != len(f.Peers) || f.Length < 0 {
		k.bad("fork-data", "%s shows %s as %+v", what, b, f)
		return nil
	}
	if m := k.w.cw.m.lca(b, l); m != l && l.id != b.id || f.Length != int(b.height)-int(l.height) {
		k.bad("fork-branch", "%s shows %s with last common block %s and length %d", what, b, l, f.Length)
		return nil
	}
	if f.Longest && (f.Length != 0 || l != b) {
		k.bad("fork-branch", "%s shows the longest %s with last common block %s and length %d", what, b, l, f.Length)
		return nil
	}
	return b
}

func (k *aconc) readForks(path string, filter map[netip.Addr]bool, active bool) {
	fin := k.view()
	var fs []jFork
	if !k.fetch(path, &fs) {
		return
	}
	win, seen := fin(), map[netip.Addr]bool{}
	var lb *mblock
	for i := range fs {
		f := &fs[i]
		b := k.forkData(path, f)
		if b == nil {
			return
		}
		k.peersOn(path, b, f.Peers, win, seen)
		if f.Longest != (i == 0) {
			k.bad("fork-longest", "%s: fork %d of %d flagged longest: %v", path, i, len(fs), f.Longest)
			return
		}
		if i == 0 {
			lb = b
			continue
		}
		p := &fs[i-1]
		if x := p.Score.Cmp(f.Score); x < 0 || x == 0 && p.Count < f.Count {
			k.bad("fork-order", "%s is not ordered", path)
		}
		if x := k.w.cw.m.lca(lb, b); x.id.String() != f.LCB {
			k.bad("fork-branch", "%s: last common block of %s with the longest %s is shown as %s, it is %s", path, b, lb, k.ids[f.LCB], x)
		}
	}
	for a := range seen {
		if filter != nil && !filter[a] {
			k.bad("filter", "%s shows %s that was not asked for", path, a)
		}
	}
	if !active {
		k.missing(path, win, seen, filter)
	}
	k.c.eval(vHash("f", win, fs))
}

func (k *aconc) readFork(a netip.Addr) {
	path := "/api/fork/" + a.String()
	fin := k.view()
	var f jFork
	if !k.fetch(path, &f) {
		if !k.gone.Load() && fin()[a].lo > 0 {
			k.bad("peer-missing", "%s is not found but was leashed before the request", path)
		}
		return
	}
	win := fin()
	b := k.forkData(path, &f)
	if b == nil {
		return
	}
	if !k.at(a, b, win[a]) {
		k.bad("leash", "%s shows it on %s where its leash was not during the request", path, b)
	}
	own := false
	for _, p := range f.Peers {
		own = own || p == a.String()
		x, err := netip.ParseAddr(p)
		if err != nil || !k.at(x, b, win[x]) {
			k.bad("leash", "%s shows %s on %s where its leash was not during the request", path, p, b)
		}
	}
	if !own {
		k.bad("fork-peers", "%s is not among the peers of its fork", a)
	}
	k.c.eval(vHash("1", win, f))
}

func (k *aconc) readGenerators(a netip.Addr, n int) {
	path := fmt.Sprintf("/api/fork/%s/generators/%d", a, n)
	fin := k.view()
	var gs []jGen
	if !k.fetch(path, &gs) {
		return
	}
	win := fin()[a]
	got := map[string]int{}
	sum := 0
	for _, g := range gs {
		got[g.Generator] += g.Blocks
		sum += g.Blocks
	}
	m := k.mv[a]
	for i := max(win.lo, 1); i <= win.hi; i++ {
		b := m.list[i-1]
		if min(n, int(b.height)) != sum {
			continue
		}
		t := map[string]int{}
		for x, j := b, sum; j > 0; x, j = x.p, j-1 {
			t[x.gen.String()]++
		}
		same := len(t) == len(got)
		for g, v := range t {
			same = same && got[g] == v
		}
		if same {
			k.c.eval(vHash("g", b.seq, n))
			return
		}
	}
	k.bad("generators", "%s shows %v which is the tally of no leash of the peer during the request", path, gs)
}

func (k *aconc) readHeads() {
	var hs []jHead
	if !k.fetch("/api/heads", &hs) {
		return
	}
	num, ids := map[uint64]bool{}, map[string]bool{}
	for _, h := range hs {
		b := k.ids[h.ID]
		if b == nil || h.Height != b.height || h.Score == nil || h.Score.Cmp(b.score) != 0 || h.Timestamp.UnixMilli() != b.ts {
			k.bad("head-data", "/heads shows %s as %+v", b, h)
			return
		}
		if num[h.Number] || ids[h.ID] {
			k.bad("head-twice", "/heads shows number %d or block %s twice", h.Number, b)
		}
		num[h.Number], ids[h.ID] = true, true
	}
	k.c.eval(vHash("h", hs))
}

// readPeers compares the lists with who was connected all the time or not at all.
func (k *aconc) readPeers(path string) {
	type span struct{ done, started int32 }
	before := map[netip.Addr]span{}
	for a, s := range k.ss {
		before[a] = span{s.done.Load(), s.started.Load()}
	}
	var ps []jPeer
	if !k.fetch(path, &ps) {
		return
	}
	seen := map[netip.Addr]bool{}
	for _, p := range ps {
		ap, err := netip.ParseAddrPort(p.Address)
		if err != nil || k.ss[ap.Addr()] == nil {
			k.bad("address", "%s shows %q", path, p.Address)
			return
		}
		a := ap.Addr()
		if seen[a] {
			k.bad("peer-twice", "%s shows %s twice", path, a)
		}
		seen[a] = true
		if path != "/api/peers/all" {
			if ap.Port() != 6868 || p.Name != "n-"+a.String() || p.State != 1 || p.Nonce.String() != fmt.Sprint(vHash(a.String())) {
				k.bad("peer-data", "%s shows %+v", path, p)
			}
		}
		if p.Score != nil && p.Score.Sign() != 0 && p.Score.Cmp(big.NewInt(int64(k.ss[a].scores.Load()))) > 0 {
			k.bad("peer-data", "%s shows %s with score %s that was not reported yet", path, a, p.Score)
		}
	}
	for a, s := range k.ss {
		x, end := before[a], s.started.Load()
		same := x.done == end // No change during the request.
		switch {
		case path == "/api/connections":
			if same && seen[a] != (end%2 == 1) {
				k.bad("connections", "%s shows %s: %v, after %d connects and disconnects", path, a, seen[a], end)
			}
		case x.done > 0 && !seen[a]:
			k.bad("peer-missing", "%s does not show %s that was connected before the request", path, a)
		case end == 0 && seen[a]:
			k.bad("peer-extra", "%s shows %s that was never seen", path, a)
		}
	}
	k.c.eval(vHash("p", path, ps))
}

func (k *aconc) readStatus() {
	var lo int
	for _, m := range k.mv {
		if m.done.Load() > 0 {
			lo = 1
		}
	}
	var s jStatus
	if !k.fetch("/api/status", &s) {
		return
	}
	if s.Short+s.Long < lo || s.Short+s.Long > len(k.mv) || s.Connected > len(k.ss) || s.All > len(k.ss) || s.Friendly > len(k.ss) || s.Connected < 0 {
		k.bad("status", "/status shows %+v", s)
	}
	k.c.eval(vHash("s", s.Short, s.Long, s.Connected, s.All))
}

func underLoad(c *vc) {
	w := newAPIWorld(c)
	defer w.close()
	r := c.rng
	k := &aconc{w: w, c: c, mv: map[netip.Addr]*amover{}, ss: map[netip.Addr]*asess{}, ids: map[string]*mblock{}}
	// A trunk without peers of interest, then a line for everyone, planned in the model only.
	m := w.cw.m
	nobody := vAddr("250.0.0.1")
	p := m.genesis()
	for range 5 + r.IntN(60) {
		b := w.cw.newBlock(p.id)
		w.cw.putBlock(b, nobody)
		p = m.blocks[b.BlockID()]
	}
	trunk := append([]*mblock(nil), m.order...)
	k.mv[nobody] = &amover{a: nobody, list: []*mblock{p}}
	k.mv[nobody].started.Store(1)
	k.mv[nobody].done.Store(1)
	n := 2 + r.IntN(5)
	for i := range n {
		mv := &amover{a: netip.AddrFrom4([4]byte{250, 0, 1, byte(i)})}
		tip := trunk[r.IntN(len(trunk))]
		own := []*mblock{}
		for range vScale(60, 150) {
			switch {
			case r.IntN(10) == 0:
				mv.list, mv.blocks = append(mv.list, trunk[r.IntN(len(trunk))]), append(mv.blocks, nil)
				continue
			case r.IntN(10) == 0 && len(own) > 0:
				tip = own[r.IntN(len(own))]
			case r.IntN(15) == 0:
				tip = trunk[r.IntN(len(trunk))]
			}
			b := w.cw.newBlock(tip.id)
			m.put(b, mv.a)
			tip = m.blocks[b.BlockID()]
			own = append(own, tip)
			mv.list, mv.blocks = append(mv.list, tip), append(mv.blocks, b)
		}
		k.mv[mv.a] = mv
	}
	for _, b := range m.order {
		k.ids[b.id.String()] = b
	}
	for i := range 2 + r.IntN(4) {
		a := netip.AddrFrom4([4]byte{250, 0, 1, byte(i)})
		k.ss[a] = &asess{a: a}
	}
	var wg, rg sync.WaitGroup
	for _, mv := range k.mv {
		if mv.a == nobody {
			continue
		}
		rng := rand.New(rand.NewPCG(r.Uint64(), 1))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i, b := range mv.blocks {
				if k.gone.Load() {
					return
				}
				mv.started.Add(1)
				var err error
				if b == nil {
					err = w.cw.l.MoveLeash(mv.list[i].id, mv.a)
				} else {
					err = w.cw.l.PutBlock(b, mv.a)
				}
				if err != nil {
					k.bad("put-error", "step %d of %s: %v", i, mv.a, err)
				}
				mv.done.Add(1)
				time.Sleep(time.Duration(rng.IntN(4000)) * time.Microsecond)
			}
		}()
	}
	for _, s := range k.ss {
		rng := rand.New(rand.NewPCG(r.Uint64(), 2))
		wg.Add(1)
		go func() {
			defer wg.Done()
			var fp *fakePeer
			for i := range 60 {
				if k.gone.Load() {
					return
				}
				s.started.Add(1)
				var err error
				if i%2 == 0 {
					ver, e := w.rw.r.SuggestVersion(s.a)
					if e != nil {
						k.bad("register", "offer to %s: %v", s.a, e)
						return
					}
					hs := vHandshake(s.a, 6868, ver, "n-"+s.a.String())
					hs.AppName = "waves" + string(w.rw.m.scheme)
					fp = newFakePeer(s.a, hs)
					err = w.rw.r.RegisterPeer(s.a, fp, hs)
				} else {
					err = w.rw.r.UnregisterPeer(s.a, fp)
				}
				if err != nil {
					k.bad("register", "step %d of %s: %v", i, s.a, err)
				}
				s.done.Add(1)
				for range rng.IntN(4) {
					v := s.scores.Add(1)
					if err := w.rw.r.UpdatePeerScore(s.a, big.NewInt(int64(v))); err != nil {
						k.bad("score", "score of %s: %v", s.a, err)
					}
					time.Sleep(time.Duration(rng.IntN(2000)) * time.Microsecond)
				}
			}
		}()
	}
	addrs := vKeys(k.mv, func(a, b netip.Addr) bool { return a.Less(b) })
	for range 4 {
		rng := rand.New(rand.NewPCG(r.Uint64(), 3))
		rg.Add(1)
		go func() {
			defer rg.Done()
			for !k.stop.Load() && !k.gone.Load() {
				a := addrs[rng.IntN(len(addrs))]
				switch rng.IntN(11) {
				case 0:
					k.readLeashes()
				case 1:
					k.readForks("/api/forks", nil, false)
				case 2:
					f := map[netip.Addr]bool{a: true, addrs[rng.IntN(len(addrs))]: true}
					q := []string{}
					for x := range f {
						q = append(q, x.String())
					}
					slices.Sort(q)
					k.readForks("/api/forks?peers="+strings.Join(q, ","), f, false)
				case 3:
					k.readForks("/api/active-forks", nil, true)
				case 4:
					k.readForks("/api/active-forks?peers="+a.String(), map[netip.Addr]bool{a: true}, true)
				case 5:
					k.readFork(a)
				case 6:
					k.readGenerators(a, 1+rng.IntN(80))
				case 7:
					k.readHeads()
				case 8:
					k.readPeers([]string{"/api/peers/friendly", "/api/peers/all"}[rng.IntN(2)])
				case 9:
					k.readPeers("/api/connections")
				case 10:
					k.readStatus()
				}
			}
		}()
	}
	wg.Wait()
	k.stop.Store(true)
	rg.Wait()
}

func TestA02(t *testing.T) {
	r := vStart(t, "A02", "(1) requests of all kinds, well-formed HTTP with any method, path, query and headers as well as raw bytes, in empty, one-sided and random states: no server error, JSON and content type of successes; "+
		"(2) memory taken by requests with huge numbers and lists; (3) all endpoints while peers' leashes, blocks, sessions and scores change, race detector on: each answer must be a state between the completed and the begun changes. "+
		"One evaluation is one judged answer; distinct by request, state and status, or by the contents and the window of changes.")
	r.run(vCases(vScale(40, 400), "requests", hostileRequests), 0)
	r.run(vCases(vScale(5, 60), "crowded", crowdedRequests), 0)
	r.run(vCases(1, "memory", bigRequests), 1)
	r.run(vCases(vScale(48, 500), "load", underLoad), 4)
	r.finish()
}
