package main_test

// The HTTP API as its clients see it, and the state it must show.

import (
	"context"
	"encoding/json"
	"fmt"
	"io"
	"math/big"
	"net"
	"net/http"
	"net/netip"
	"net/url"
	"sort"
	"strings"
	"sync/atomic"
	"time"

	"github.com/wavesplatform/gowaves/pkg/proto"

	"github.com/alexeykiselev/waves-fork-detector/api"
	"github.com/alexeykiselev/waves-fork-detector/chains"
	"github.com/alexeykiselev/waves-fork-detector/peers"
	"github.com/alexeykiselev/waves-fork-detector/version"
)

var vHostSeq atomic.Uint32

// vOwnHost gives a loopback address of its own to every case.
func vOwnHost() string {
	n := vHostSeq.Add(1)
	return fmt.Sprintf("127.%d.%d.%d", 20+n/40000, n/200%200, 1+n%200)
}

// apiServer is the API over some storages.
type apiServer struct {
	c    *vc
	base string
	a    *api.API
	cl   *http.Client
	stop context.CancelFunc
}

func vServe(c *vc, reg *peers.Registry, l *chains.Linkage, host string) *apiServer {
	s := &apiServer{c: c, base: fmt.Sprintf("%s:%d", host, vFreePort(host))}
	var err error
	s.a, err = api.NewAPI(reg, l, s.base)
	c.noErr(err, "api", "creating the API")
	var ctx context.Context
	ctx, s.stop = context.WithCancel(context.Background())
	s.a.Run(ctx)
	s.cl = &http.Client{Timeout: 60 * time.Second, Transport: &http.Transport{MaxIdleConnsPerHost: 16}}
	ok := vEventually(20*time.Second, func() bool {
		cn, err := net.Dial("tcp", s.base)
		if err != nil {
			return false
		}
		_ = cn.Close()
		return true
	})
	c.check(ok, "api", "the API does not listen on %s", s.base)
	return s
}

func (s *apiServer) close() {
	s.cl.CloseIdleConnections()
	s.a.Shutdown()
	s.stop()
}

// get asks and decodes a successful answer; it returns the status.
func (s *apiServer) get(path string, v any) int {
	c := s.c
	resp, err := s.cl.Get("http://" + s.base + path)
	c.noErr(err, "no-answer", "GET %s", path)
	b, err := io.ReadAll(resp.Body)
	_ = resp.Body.Close()
	c.noErr(err, "no-answer", "reading the answer to GET %s", path)
	c.count("requests", 1)
	if resp.StatusCode != http.StatusOK {
		c.op("GET %s -> %d %.100s", path, resp.StatusCode, b)
		return resp.StatusCode
	}
	c.check(strings.HasPrefix(resp.Header.Get("Content-Type"), "application/json"), "content-type", "GET %s has content type %q", path, resp.Header.Get("Content-Type"))
	dec := json.NewDecoder(strings.NewReader(string(b)))
	dec.UseNumber()
	err = dec.Decode(v)
	c.noErr(err, "json", "decoding the answer to GET %s: %.300s", path, b)
	var rest any
	c.check(dec.Decode(&rest) == io.EOF, "json", "the answer to GET %s goes on after the JSON value: %.300s", path, b)
	return resp.StatusCode
}

func (s *apiServer) ok(path string, v any) {
	st := s.get(path, v)
	s.c.check(st == 200, "status", "GET %s answers %d", path, st)
}

type jFork struct {
	Longest   bool      `json:"longest"`
	Head      string    `json:"head_block"`
	Timestamp time.Time `json:"head_timestamp"`
	Generator string    `json:"head_generator"`
	Height    uint32    `json:"head_height"`
	Score     *big.Int  `json:"score"`
	Count     int       `json:"peers_count"`
	Peers     []string  `json:"peers"`
	LCB       string    `json:"last_common_block"`
	Length    int       `json:"length"`
}

type jPeer struct {
	Address string      `json:"address"`
	Nonce   json.Number `json:"nonce"`
	Name    string      `json:"name"`
	Version string      `json:"version"`
	State   int         `json:"state"`
	Next    time.Time   `json:"next_attempt"`
	Score   *big.Int    `json:"score"`
}

type jPeerAddr struct {
	Address string `json:"address"`
}

type jHead struct {
	Number    uint64    `json:"number"`
	ID        string    `json:"id"`
	Height    uint32    `json:"height"`
	Score     *big.Int  `json:"score"`
	Timestamp time.Time `json:"timestamp"`
}

type jLeash struct {
	Block     string    `json:"block_id"`
	Height    uint32    `json:"height"`
	Score     *big.Int  `json:"score"`
	Timestamp time.Time `json:"timestamp"`
	Generator string    `json:"generator"`
	Count     int       `json:"peers_count"`
	Peers     []string  `json:"peers"`
}

type jGen struct {
	Generator string `json:"generator"`
	Blocks    int    `json:"blocks"`
}

type jStatus struct {
	Version    string `json:"version"`
	Short      int    `json:"short_forks_count"`
	Long       int    `json:"long_forks_count"`
	All        int    `json:"all_peers_count"`
	Friendly   int    `json:"friendly_peers_count"`
	Connected  int    `json:"connected_peers_count"`
	Goroutines int    `json:"goroutines_count"`
}

// apiWorld is both storages with their models and the API over them.
type apiWorld struct {
	c    *vc
	cw   *chainWorld
	rw   *regWorld
	s    *apiServer
	host string
	ids  map[string]*mblock
	nids int
}

func newAPIWorld(c *vc) *apiWorld { return newAPIWorldOf(c, 2+c.rng.IntN(14)) }

func newAPIWorldOf(c *vc, naddrs int) *apiWorld {
	w := &apiWorld{c: c, host: vOwnHost()}
	w.rw = newRegWorld(c, naddrs)
	prof := vProfile(c, c.rng.IntN(7))
	prof.reopen = 0
	// Peers with leashes overlap with those in the registry.
	ps := append([]netip.Addr(nil), prof.peers...)
	for _, a := range w.rw.addrs {
		if c.rng.IntN(4) > 0 {
			ps = append(ps, a)
		}
	}
	seen := map[netip.Addr]bool{}
	prof.peers = nil
	for _, a := range ps {
		if !seen[a] {
			seen[a] = true
			prof.peers = append(prof.peers, a)
		}
	}
	c.rng.Shuffle(len(prof.peers), func(i, j int) { prof.peers[i], prof.peers[j] = prof.peers[j], prof.peers[i] })
	w.cw = newChainWorld(c, prof)
	w.ids = map[string]*mblock{}
	w.s = vServe(c, w.rw.r, w.cw.l, w.host)
	return w
}

func (w *apiWorld) close() {
	w.s.close()
	w.cw.close()
	w.rw.close()
}

// step changes the state; the API follows a restart of the storages.
func (w *apiWorld) step() {
	r, l := w.rw.r, w.cw.l
	switch w.c.rng.IntN(40) {
	case 0:
		w.cw.reopen()
	default:
		if w.c.rng.IntN(2) == 0 {
			w.cw.step()
		} else {
			w.rw.step()
		}
	}
	if r != w.rw.r || l != w.cw.l {
		w.s.close()
		w.s = vServe(w.c, w.rw.r, w.cw.l, w.host)
		w.c.count("restarts", 1)
	}
}

func (w *apiWorld) block(id string, what string) *mblock {
	for ; w.nids < len(w.cw.m.order); w.nids++ {
		b := w.cw.m.order[w.nids]
		w.ids[b.id.String()] = b
	}
	b := w.ids[id]
	w.c.check(b != nil, "unknown-block", "%s shows unknown block %q", what, id)
	return b
}

func (w *apiWorld) addrs(ss []string, what string) []netip.Addr {
	r := make([]netip.Addr, 0, len(ss))
	for _, s := range ss {
		a, err := netip.ParseAddr(s)
		w.c.noErr(err, "address", "%s shows address %q", what, s)
		r = append(r, a)
	}
	return r
}

func (w *apiWorld) fork(f jFork, what string) chains.Fork {
	g, err := proto.NewAddressFromString(f.Generator)
	w.c.noErr(err, "generator", "%s shows generator %q", what, f.Generator)
	w.c.check(f.Score != nil, "score", "%s shows no score", what)
	return chains.Fork{Longest: f.Longest, HeadBlock: w.block(f.Head, what).id, HeadTimestamp: f.Timestamp, HeadGenerator: g,
		HeadHeight: f.Height, Score: f.Score, PeersCount: f.Count, Peers: w.addrs(f.Peers, what),
		LastCommonBlock: w.block(f.LCB, what).id, Length: f.Length}
}

func (w *apiWorld) forks(path string) []chains.Fork {
	var fs []jFork
	w.s.ok(path, &fs)
	w.c.check(fs != nil, "null-list", "GET %s answers null", path)
	r := make([]chains.Fork, len(fs))
	for i := range fs {
		r[i] = w.fork(fs[i], path)
	}
	return r
}

func (w *apiWorld) peerList(path string) []peers.Peer {
	var ps []jPeer
	w.s.ok(path, &ps)
	w.c.check(ps != nil, "null-list", "GET %s answers null", path)
	r := make([]peers.Peer, len(ps))
	for i, p := range ps {
		ap, err := netip.ParseAddrPort(p.Address)
		w.c.noErr(err, "address", "%s shows address %q", path, p.Address)
		var n uint64
		_, err = fmt.Sscan(p.Nonce.String(), &n)
		w.c.noErr(err, "nonce", "%s shows nonce %q", path, p.Nonce)
		v, err := proto.NewVersionFromString(p.Version)
		w.c.noErr(err, "version", "%s shows version %q", path, p.Version)
		r[i] = peers.Peer{AddressPort: ap, Nonce: n, Name: p.Name, Version: v, State: peers.State(p.State), NextAttempt: p.Next, Score: p.Score}
	}
	return r
}

func (w *apiWorld) connected() map[netip.Addr]struct{} {
	r := map[netip.Addr]struct{}{}
	for a := range w.rw.m.conns {
		r[a] = struct{}{}
	}
	return r
}

func (w *apiWorld) checkPeers() {
	w.rw.checkList(w.peerList("/api/peers/all"), func(netip.Addr, *mpeer) bool { return true }, "/peers/all")
	w.rw.checkList(w.peerList("/api/peers/friendly"), func(_ netip.Addr, p *mpeer) bool { return p.state == peers.PeerConnected }, "/peers/friendly")
	w.rw.checkList(w.peerList("/api/connections"), func(a netip.Addr, _ *mpeer) bool { return w.rw.m.conns[a] != nil }, "/connections")
}

func (w *apiWorld) checkHeads() {
	c := w.c
	var hs []jHead
	w.s.ok("/api/heads", &hs)
	c.check(hs != nil, "null-list", "GET /api/heads answers null")
	ah, err := w.cw.l.Heads()
	c.noErr(err, "query-error", "Heads")
	num := map[*mblock]uint64{}
	for _, h := range ah {
		num[w.cw.m.blocks[h.BlockID]] = h.ID
	}
	want := map[*mblock]bool{}
	for _, b := range w.cw.m.leash {
		if !b.ext {
			want[b] = true
		}
	}
	for _, h := range hs {
		b := w.block(h.ID, "/heads")
		c.check(want[b], "head-extra", "/heads shows %s that is not an active head (or twice)", b)
		delete(want, b)
		c.check(h.Number == num[b], "head-number", "/heads shows %s with number %d, it is head %d", b, h.Number, num[b])
		c.check(h.Height == b.height && h.Score != nil && h.Score.Cmp(b.score) == 0 && h.Timestamp.UnixMilli() == b.ts, "head-data",
			"/heads shows %s as %+v", b, h)
	}
	for b := range want {
		c.fail("head-missing", "/heads does not show active head %s", b)
	}
}

func (w *apiWorld) checkLeashes() {
	c := w.c
	var ls []jLeash
	w.s.ok("/api/leashes", &ls)
	c.check(ls != nil, "null-list", "GET /api/leashes answers null")
	g := w.cw.m.groups(nil)
	for i, l := range ls {
		b := w.block(l.Block, "/leashes")
		ps, ok := g[b]
		c.check(ok, "leash-extra", "/leashes shows %s without peers on it (or twice)", b)
		delete(g, b)
		c.check(l.Height == b.height && l.Score != nil && l.Score.Cmp(b.score) == 0 && l.Timestamp.UnixMilli() == b.ts && l.Generator == b.gen.String(),
			"leash-data", "/leashes shows %s as %+v", b, l)
		c.check(l.Count == len(ps) && len(l.Peers) == len(ps), "leash-peers", "/leashes shows %s with %d peers %v, expected %v", b, l.Count, l.Peers, ps)
		got, exp := w.addrs(l.Peers, "/leashes"), append([]netip.Addr(nil), ps...)
		sort.Slice(got, func(i, j int) bool { return got[i].Less(got[j]) })
		sort.Slice(exp, func(i, j int) bool { return exp[i].Less(exp[j]) })
		for k := range got {
			c.check(got[k] == exp[k], "leash-peers", "/leashes shows %s with peers %v, expected %v", b, got, exp)
		}
		if i > 0 {
			k := ls[i-1].Score.Cmp(l.Score)
			c.check(k > 0 || k == 0 && ls[i-1].Count >= l.Count, "leash-order", "/leashes is not ordered by score and peers")
		}
	}
	for b := range g {
		c.fail("leash-missing", "/leashes does not show %s with peers %v", b, g[b])
	}
}

func (w *apiWorld) checkStatus() {
	c := w.c
	var s jStatus
	w.s.ok("/api/status", &s)
	fr := 0
	for _, p := range w.rw.m.recs {
		if p.state == peers.PeerConnected {
			fr++
		}
	}
	c.check(s.All == len(w.rw.m.recs) && s.Friendly == fr && s.Connected == len(w.rw.m.conns), "status-peers",
		"/status shows %d, %d friendly, %d connected peers, expected %d, %d, %d", s.All, s.Friendly, s.Connected, len(w.rw.m.recs), fr, len(w.rw.m.conns))
	g := w.cw.m.groups(nil)
	ok := len(g) == 0 && s.Short == 0 && s.Long == 0
	for _, l := range w.cw.m.longest(g) {
		short, long := 0, 0
		for b := range g {
			if int(b.height)-int(w.cw.m.lca(l, b).height) > 5 {
				long++
			} else {
				short++
			}
		}
		ok = ok || s.Short == short && s.Long == long
	}
	c.check(ok, "status-forks", "/status shows %d short and %d long forks of %d", s.Short, s.Long, len(g))
	c.check(s.Version == version.ForkDetectorVersion() && s.Goroutines > 0, "status", "/status shows version %q and %d goroutines", s.Version, s.Goroutines)
}

// filter makes a list of peers in some spelling.
func (w *apiWorld) filter() (string, map[netip.Addr]struct{}) {
	r := w.c.rng
	m := map[netip.Addr]struct{}{}
	var ss []string
	n := r.IntN(6)
	if r.IntN(4) == 0 { // A long list, the last ones may be the only ones that matter.
		n = []int{16, 33, 65, 101, 129, 260}[r.IntN(6)]
		for range n - 1 {
			a := netip.AddrFrom4([4]byte{99, 1, byte(r.IntN(256)), byte(r.IntN(256))})
			if r.IntN(3) == 0 {
				a = w.cw.peer()
			}
			m[a] = struct{}{}
			ss = append(ss, a.String())
		}
		n = 1 + r.IntN(4)
	}
	if r.IntN(8) == 0 { // All that have a leash, or all but a few.
		for a := range w.cw.m.leash {
			if len(ss) < 500 && r.IntN(50) > 0 {
				m[a] = struct{}{}
				ss = append(ss, a.String())
			}
		}
		n = r.IntN(2)
	}
	for range n {
		a := w.cw.peer()
		switch r.IntN(5) {
		case 0:
			a = w.rw.addr()
		case 1:
			a = netip.AddrFrom4([4]byte{99, 0, 0, byte(r.IntN(3))})
		case 2:
			for x := range w.rw.m.conns {
				a = x
				break
			}
		}
		m[a] = struct{}{}
		s := a.String()
		switch r.IntN(6) {
		case 0:
			s = " " + s
		case 1:
			s += " "
		case 2:
			s += ","
		case 3:
			s = ", ," + s
		}
		ss = append(ss, s)
	}
	return strings.Join(ss, ","), m
}

func (w *apiWorld) checkForks() {
	c := w.c
	vCheckForks(c, w.cw.m, w.forks("/api/forks"), nil)
	con := w.connected()
	act := w.forks("/api/active-forks")
	if len(con) == 0 {
		c.check(len(act) == 0, "active-forks", "%d active forks without connections", len(act))
	} else {
		vCheckForks(c, w.cw.m, act, con)
	}
	q, m := w.filter()
	vCheckForks(c, w.cw.m, w.forks("/api/forks?peers="+url.QueryEscape(q)), m)
	both := con
	if len(m) > 0 {
		both = map[netip.Addr]struct{}{}
		for a := range m {
			if _, ok := con[a]; ok {
				both[a] = struct{}{}
			}
		}
	}
	act = w.forks("/api/active-forks?peers=" + url.QueryEscape(q))
	c.op("active forks for %q, %d of them connected -> %d", q, len(both), len(act))
	if len(both) == 0 {
		c.check(len(act) == 0, "active-forks", "%d active forks for peers %q none of which is connected", len(act), q)
	} else {
		vCheckForks(c, w.cw.m, act, both)
	}
}

func (w *apiWorld) checkFork() {
	c := w.c
	a := w.cw.peer()
	switch c.rng.IntN(6) {
	case 0:
		a = w.rw.addr()
	case 1:
		a = netip.AddrFrom4([4]byte{99, 0, 0, byte(c.rng.IntN(3))})
	}
	w.checkForkOf(a, []int{0, 0, 1, 2, 5, 100, 1000, 1001, 1 << 30, -1, c.rng.IntN(50)}[c.rng.IntN(11)])
}

func (w *apiWorld) checkForkOf(a netip.Addr, cnt int) {
	c := w.c
	path := "/api/fork/" + a.String()
	gpath := fmt.Sprintf("%s/generators/%d", path, cnt)
	b, has := w.cw.m.leash[a]
	var jf jFork
	var gs []jGen
	s1, s2 := w.s.get(path, &jf), w.s.get(gpath, &gs)
	if !has {
		c.check(s1 == 404, "status", "GET %s of a peer without leash answers %d", path, s1)
		c.check(s2 == 404, "status", "GET %s of a peer without leash answers %d", gpath, s2)
		return
	}
	c.check(s1 == 200 && s2 == 200, "status", "GET %s and generators answer %d and %d", path, s1, s2)
	f := w.fork(jf, path)
	m := w.cw.m
	g := m.groups(nil)
	ls := m.longest(g)
	c.check(f.HeadBlock == b.id, "fork-head", "%s is on %s, its leash is on %s", path, w.cw.name(f.HeadBlock), b)
	vCheckForkData(c, &f, b, g[b])
	in := false
	for _, l := range ls {
		in = in || l == b
	}
	c.check(!f.Longest || in, "fork-longest", "%s is flagged longest but %s is longer", path, ls[0])
	c.check(f.Longest || !in || len(ls) > 1, "fork-longest", "%s is the longest but is not flagged so", path)
	vCheckForkBranch(c, m, &f, b, ls)
	c.check(gs != nil, "null-list", "GET %s answers null", gpath)
	counts := map[int]bool{cnt: true}
	if cnt == 0 { // Any of the longest forks.
		counts = map[int]bool{}
		for _, l := range ls {
			if l == b {
				counts[1000] = true
			} else {
				counts[int(b.height)-int(m.lca(l, b).height)] = true
			}
		}
	}
	total := map[int]bool{}
	sum := 0
	for i, x := range gs {
		sum += x.Blocks
		c.check(i == 0 || gs[i-1].Blocks >= x.Blocks, "generators-order", "%s is not ordered", gpath)
	}
	for n := range counts {
		total[max(0, min(n, int(b.height)))] = true
	}
	c.check(total[sum], "generators-sum", "%s counts %d blocks, expected one of %v", gpath, sum, total)
	tally := map[string]int{}
	for x, n := b, sum; n > 0; x, n = x.p, n-1 {
		tally[x.gen.String()]++
	}
	for _, x := range gs {
		c.check(tally[x.Generator] == x.Blocks, "generators", "%s counts %d blocks of %s, expected %d (or it is listed twice)", gpath, x.Blocks, x.Generator, tally[x.Generator])
		delete(tally, x.Generator)
	}
	c.check(len(tally) == 0, "generators", "%s misses generators %v", gpath, tally)
}

func (w *apiWorld) checkAll() {
	w.checkPeers()
	w.checkHeads()
	w.checkLeashes()
	w.checkStatus()
	w.checkForks()
	for range 4 {
		w.checkFork()
	}
	w.c.eval(w.cw.m.quick("api") ^ w.rw.m.fingerprint("api"))
}
