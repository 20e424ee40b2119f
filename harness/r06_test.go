package main_test

import (
	"fmt"
	"math/big"
	"math/rand/v2"
	"net"
	"net/netip"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/wavesplatform/gowaves/pkg/crypto"
	"github.com/wavesplatform/gowaves/pkg/proto"

	"github.com/alexeykiselev/waves-fork-detector/peers"
)

// rstress drives one registry from many goroutines. Groups of addresses are disjoint, so that the
// outcome of every operation is known up to a window in spite of the unknown schedule.
type rstress struct {
	c      *vc
	r      *peers.Registry
	failed atomic.Bool
	omu    sync.Mutex
	order  []byte
	taken  sync.Map // address -> who took it
	nTaken atomic.Int64
	lists  atomic.Int64
}

func (s *rstress) bad(key, format string, args ...any) {
	if s.failed.CompareAndSwap(false, true) {
		s.c.report(key, fmt.Sprintf(format, args...))
	}
}

func (s *rstress) ok(cond bool, key, format string, args ...any) bool {
	if !cond {
		s.bad(key, format, args...)
	}
	return cond
}

func (s *rstress) note(b byte) {
	s.omu.Lock()
	s.order = append(s.order, b)
	s.omu.Unlock()
}

// toggler is one address with sessions by one goroutine. phase%4: 0 off, 1 registering, 2 on, 3 unregistering.
type toggler struct {
	addr  netip.Addr
	phase atomic.Int64
	score atomic.Int64 // last score completely reported
	begun atomic.Int64 // last score the report of which was begun
	name  atomic.Int64 // number in the name of the last completed registration
}

func (s *rstress) on(t *toggler, v proto.Version, n int) *fakePeer {
	hs := proto.Handshake{AppName: "wavesW", Version: v, NodeName: fmt.Sprintf("n%d", n), NodeNonce: uint64(n),
		DeclaredAddr: proto.HandshakeTCPAddr(proto.NewTCPAddr(net.IP(t.addr.AsSlice()).To16(), 1000+n%1000))}
	fp := newFakePeer(t.addr, hs)
	t.phase.Add(1)
	err := s.r.RegisterPeer(t.addr, fp, hs)
	s.ok(err == nil, "register", "registration of %s: %v", t.addr, err)
	t.name.Store(int64(n))
	t.phase.Add(1)
	return fp
}

func (s *rstress) off(t *toggler, fp *fakePeer) {
	t.phase.Add(1)
	err := s.r.UnregisterPeer(t.addr, fp)
	s.ok(err == nil, "unregister", "unregistration of %s: %v", t.addr, err)
	t.phase.Add(1)
}

func sorted(ps []peers.Peer) bool {
	return sort.SliceIsSorted(ps, func(i, j int) bool { return strings.ToUpper(ps[i].Name) < strings.ToUpper(ps[j].Name) })
}

func registryStress(c *vc) {
	r := c.rng
	s := &rstress{c: c}
	vers := []proto.Version{}
	for i := range 1 + r.IntN(5) {
		vers = append(vers, proto.NewVersion(1, uint32(i+1), 0))
	}
	nv := len(vers)
	best := vers[nv-1]
	declared := proto.NewTCPAddr(net.IPv4(50, 0, 0, 1), 6868)
	dir := c.dir()
	reg, err := peers.NewRegistry('W', declared, append([]proto.Version(nil), vers...), dir)
	c.noErr(err, "open", "opening the registry")
	s.r = reg
	scale := vScale(1, 4)

	// Announced pool.
	pool := []*net.TCPAddr{}
	nPool := 20 + r.IntN(40*scale)
	for i := range nPool {
		port := 6000 + i
		if i%7 == 3 {
			port = 0 // Known, but cannot be dialled.
		}
		pool = append(pool, &net.TCPAddr{IP: net.IPv4(60, 0, byte(i>>8), byte(i)), Port: port})
	}
	junk := []*net.TCPAddr{{IP: net.IPv4(127, 0, 0, 9), Port: 1}, {IP: declared.IP, Port: 6868}, {IP: net.ParseIP("2001:db8::7"), Port: 5}}
	var announced atomic.Int64
	var wg, bg sync.WaitGroup
	start := make(chan struct{})
	spawn := func(g *sync.WaitGroup, f func(rng *rand.Rand)) {
		rng := rand.New(rand.NewPCG(r.Uint64(), 7))
		g.Add(1)
		go func() {
			defer g.Done()
			defer func() {
				if p := recover(); p != nil {
					buf := make([]byte, 16<<10)
					s.bad("panic", "panic: %v\n%s", p, buf[:runtime.Stack(buf, false)])
				}
			}()
			<-start
			f(rng)
		}()
	}
	var over atomic.Bool
	for range 2 + r.IntN(3) {
		spawn(&wg, func(rng *rand.Rand) {
			perm := rng.Perm(nPool)
			for len(perm) > 0 && !s.failed.Load() {
				k := min(len(perm), 1+rng.IntN(9))
				list := []*net.TCPAddr{}
				for _, i := range perm[:k] {
					list = append(list, pool[i])
				}
				list = append(list, junk[rng.IntN(3)], list[rng.IntN(len(list))])
				rng.Shuffle(len(list), func(i, j int) { list[i], list[j] = list[j], list[i] })
				announced.Add(int64(s.r.AppendAddresses(list)))
				s.note('a')
				perm = perm[k:]
			}
		})
	}
	take := func(who string, release func(a netip.Addr)) {
		got, tErr := s.r.TakeAvailableAddresses()
		s.ok(tErr == nil, "take-error", "taking addresses: %v", tErr)
		for _, ap := range got {
			s.nTaken.Add(1)
			prev, dup := s.taken.LoadOrStore(ap, who)
			s.ok(!dup, "taken-twice", "%s is handed out to %s and to %v", ap, who, prev)
			if release != nil {
				release(ap.Addr())
			}
		}
		if len(got) > 0 {
			s.note('t')
		}
	}
	for k := range 2 + r.IntN(2) {
		who := fmt.Sprintf("taker %d", k)
		spawn(&bg, func(rng *rand.Rand) {
			for !over.Load() && !s.failed.Load() {
				take(who, func(a netip.Addr) {
					switch rng.IntN(4) {
					case 0: // The attempt fails: not before ten minutes again.
						s.ok(s.r.UnregisterPeer(a, nil) == nil, "unregister", "unregistration of %s", a)
					case 1: // It ends in a session.
						v, vErr := s.r.SuggestVersion(a)
						if s.ok(vErr == nil && v == best || nv == 1, "offer", "first offer to %s: %s %v", a, v, vErr) {
							hs := proto.Handshake{AppName: "wavesW", Version: v, NodeName: "t", DeclaredAddr: proto.HandshakeTCPAddr(proto.NewTCPAddr(net.IP(a.AsSlice()).To16(), 777))}
							fp := newFakePeer(a, hs)
							s.ok(s.r.RegisterPeer(a, fp, hs) == nil, "register", "registration of %s", a)
							if rng.IntN(2) == 0 {
								s.ok(s.r.UnregisterPeer(a, fp) == nil, "unregister", "unregistration of %s", a)
							}
						}
					}
				})
				runtime.Gosched()
			}
		})
	}

	// Offers to the same addresses by several goroutines.
	offers := make([][]atomic.Int64, 2)
	total := make([]atomic.Int64, len(offers))
	for i := range offers {
		offers[i] = make([]atomic.Int64, nv)
	}
	for range 2 + r.IntN(3) {
		spawn(&wg, func(rng *rand.Rand) {
			for range 10 + rng.IntN(20*scale) {
				i := rng.IntN(len(offers))
				a := netip.AddrFrom4([4]byte{61, 0, 0, byte(i + 1)})
				v, vErr := s.r.SuggestVersion(a)
				if !s.ok(vErr == nil && v.Major() == 1 && v.Minor() >= 1 && int(v.Minor()) <= nv, "offer", "offer to %s: %s %v", a, v, vErr) {
					return
				}
				offers[i][v.Minor()-1].Add(1)
				total[i].Add(1)
				s.note('o')
			}
		})
	}

	// Sessions, each of its own goroutine, with scores reported by another one.
	var togglers []*toggler
	var bmu sync.Mutex
	seenBy := map[*fakePeer]map[proto.Message]int{}
	for i := range 2 + r.IntN(3) {
		t := &toggler{addr: netip.AddrFrom4([4]byte{62, 0, 0, byte(i + 1)})}
		_, vErr := reg.SuggestVersion(t.addr)
		c.noErr(vErr, "offer", "offer")
		togglers = append(togglers, t)
		spawn(&wg, func(rng *rand.Rand) {
			for n := 1; n <= 8*scale+rng.IntN(8*scale) && !s.failed.Load(); n++ {
				lo := t.score.Load()
				fp := s.on(t, best, n)
				s.note('r')
				p, pErr := s.r.Peer(t.addr)
				hi := t.begun.Load()
				s.ok(pErr == nil && p.Name == fmt.Sprintf("n%d", n) && p.State == peers.PeerConnected && p.Nonce == uint64(n), "lost-update",
					"record of %s after its registration number %d: name %q, state %s (%v)", t.addr, n, p.Name, p.State, pErr)
				if lo > 0 {
					s.ok(p.Score != nil && p.Score.Int64() >= lo && p.Score.Int64() <= hi, "lost-score", "score of %s is %v; %d..%d were reported", t.addr, p.Score, lo, hi)
				}
				if rng.IntN(3) == 0 {
					runtime.Gosched()
				}
				s.off(t, fp)
				s.note('u')
				for _, m := range fp.takeSent() { // Whatever broadcast came, came once.
					bmu.Lock()
					if seenBy[fp] == nil {
						seenBy[fp] = map[proto.Message]int{}
					}
					seenBy[fp][m]++
					k := seenBy[fp][m]
					bmu.Unlock()
					s.ok(k == 1, "broadcast-twice", "%s got a broadcast %d times", t.addr, k)
				}
			}
		})
		spawn(&wg, func(rng *rand.Rand) {
			for k := int64(1); k <= int64(20*scale) && !s.failed.Load(); k++ {
				t.begun.Store(k)
				uErr := s.r.UpdatePeerScore(t.addr, big.NewInt(k))
				s.ok(uErr == nil, "score", "score of %s: %v", t.addr, uErr)
				t.score.Store(k)
				s.note('s')
			}
		})
	}
	// A nested pair: a is connected whenever b is.
	pa, pb := &toggler{addr: vAddr("63.0.0.1")}, &toggler{addr: vAddr("63.0.0.2")}
	for _, t := range []*toggler{pa, pb} {
		_, vErr := reg.SuggestVersion(t.addr)
		c.noErr(vErr, "offer", "offer")
	}
	spawn(&wg, func(rng *rand.Rand) {
		for n := 1; n <= 15*scale && !s.failed.Load(); n++ {
			fa := s.on(pa, best, n)
			fb := s.on(pb, best, n)
			s.off(pb, fb)
			s.off(pa, fa)
			s.note('p')
		}
	})
	// Scores moved in turn.
	sa, sb := vAddr("64.0.0.1"), vAddr("64.0.0.2")
	for _, a := range []netip.Addr{sa, sb} {
		_, vErr := reg.SuggestVersion(a)
		c.noErr(vErr, "offer", "offer")
		c.noErr(reg.UpdatePeerScore(a, big.NewInt(0)), "score", "score")
	}
	spawn(&wg, func(rng *rand.Rand) {
		for k := int64(1); k <= int64(20*scale) && !s.failed.Load(); k++ {
			for _, a := range []netip.Addr{sa, sb} {
				uErr := s.r.UpdatePeerScore(a, big.NewInt(k))
				s.ok(uErr == nil, "score", "score of %s: %v", a, uErr)
			}
		}
	})
	// Sessions ended because their peer turns out to be hostile.
	foe := func(n int64) netip.Addr { return netip.AddrFrom4([4]byte{66, 0, byte(n / 200), byte(1 + n%200)}) }
	var foes atomic.Int64 // completely known to be hostile
	nFoes := int64(8 * scale)
	spawn(&wg, func(rng *rand.Rand) {
		for n := int64(0); n < nFoes && !s.failed.Load(); n++ {
			a := foe(n)
			v, fErr := s.r.SuggestVersion(a)
			hs := proto.Handshake{AppName: "wavesW", Version: v, NodeName: "foe"}
			var fps []*fakePeer
			for range 1 + rng.IntN(2) {
				if fErr == nil {
					fps = append(fps, newFakePeer(a, hs))
					fErr = s.r.RegisterPeer(a, fps[len(fps)-1], hs)
				}
			}
			s.ok(fErr == nil, "register", "registration of %s: %v", a, fErr)
			for range rng.IntN(4) {
				runtime.Gosched()
			}
			if n%2 == 0 {
				fErr = s.r.MarkAsHostile(&net.IPAddr{IP: net.IP(a.AsSlice())})
			} else {
				hs.AppName = "wavesT"
				fps = append(fps, newFakePeer(a, hs))
				fErr = s.r.RegisterPeer(a, fps[len(fps)-1], hs)
			}
			s.ok(fErr == nil, "hostile", "marking %s as hostile: %v", a, fErr)
			for _, fp := range fps {
				s.ok(fp.closed(), "hostile", "%s is hostile but a session with it is open", a)
			}
			foes.Store(n + 1)
			s.note('h')
		}
	})
	// Stable sessions receive each broadcast once.
	stable := []*fakePeer{}
	for i := range 3 {
		a := netip.AddrFrom4([4]byte{65, 0, 0, byte(i + 1)})
		v, vErr := reg.SuggestVersion(a)
		c.noErr(vErr, "offer", "offer")
		hs := proto.Handshake{AppName: "wavesW", Version: v, NodeName: "stable"}
		fp := newFakePeer(a, hs)
		c.noErr(reg.RegisterPeer(a, fp, hs), "register", "registration")
		stable = append(stable, fp)
	}
	var bcast atomic.Int64
	for range 2 {
		spawn(&wg, func(rng *rand.Rand) {
			for range 10 * scale {
				s.r.Broadcast(&proto.GetSignaturesMessage{}) // Not an empty struct: each message has its own address.
				bcast.Add(1)
				s.note('b')
			}
		})
	}
	// Readers.
	for range 2 + r.IntN(2) {
		spawn(&bg, func(rng *rand.Rand) {
			for !over.Load() && !s.failed.Load() {
				s.lists.Add(1)
				banned := foes.Load()
				ph := make([]int64, len(togglers))
				lo := make([]int64, len(togglers))
				for i, t := range togglers {
					ph[i], lo[i] = t.phase.Load(), t.score.Load()
				}
				switch rng.IntN(4) {
				case 0, 1:
					cs, cErr := s.r.Connections()
					if !s.ok(cErr == nil, "query-error", "Connections: %v", cErr) {
						return
					}
					in := map[netip.Addr]bool{}
					for _, p := range cs {
						s.ok(!in[p.ID()], "list-twice", "connection %s is listed twice", p.ID())
						s.ok(p.State == peers.PeerConnected, "list-state", "connection %s is in state %s", p.ID(), p.State)
						in[p.ID()] = true
					}
					for n := range banned {
						s.ok(!in[foe(n)], "list-hostile", "%s is listed as connected after it had been found hostile", foe(n))
					}
					if len(cs) > 0 { // What is listed can be asked.
						if p := cs[rng.IntN(len(cs))]; p.ID().As4()[0] != 65 {
							p.RequestBlock(proto.NewBlockIDFromSignature(crypto.Signature{1}))
							p.RequestBlockIDs([]proto.BlockID{proto.NewBlockIDFromSignature(crypto.Signature{1})})
						}
					}
					s.ok(sorted(cs), "list-order", "connections are not ordered by name")
					for i, t := range togglers {
						if q := t.phase.Load(); q == ph[i] && q%2 == 0 {
							s.ok(in[t.addr] == (q%4 == 2), "list-window", "%s in connections: %v, but its session phase was %d all the time", t.addr, in[t.addr], q%4)
						}
					}
					s.ok(in[pa.addr] || !in[pb.addr], "torn-listing", "%s is listed without %s, which is connected whenever the first is", pb.addr, pa.addr)
					for _, fp := range stable {
						s.ok(in[fp.addr.Addr()], "list-window", "%s is connected all the time but not listed", fp.addr)
					}
				case 2:
					ps, pErr := s.r.Peers()
					if !s.ok(pErr == nil, "query-error", "Peers: %v", pErr) {
						return
					}
					m := map[netip.Addr]peers.Peer{}
					for _, p := range ps {
						_, dup := m[p.ID()]
						s.ok(!dup, "list-twice", "peer %s is listed twice", p.ID())
						m[p.ID()] = p
					}
					s.ok(sorted(ps), "list-order", "peers are not ordered by name")
					x, y := m[sa].Score, m[sb].Score
					if s.ok(x != nil && y != nil, "list-missing", "peers are missing") {
						d := x.Int64() - y.Int64()
						s.ok(d == 0 || d == 1, "torn-listing", "scores moved in turn are listed as %s and %s", x, y)
					}
					for i, t := range togglers {
						p, found := m[t.addr]
						hi := t.begun.Load()
						if s.ok(found, "list-missing", "%s is missing", t.addr) && lo[i] > 0 {
							s.ok(p.Score != nil && p.Score.Int64() >= lo[i] && p.Score.Int64() <= hi, "lost-score", "score of %s is %v; %d..%d were reported", t.addr, p.Score, lo[i], hi)
						}
					}
				case 3:
					fs, fErr := s.r.FriendlyPeers()
					if !s.ok(fErr == nil, "query-error", "FriendlyPeers: %v", fErr) {
						return
					}
					in := map[netip.Addr]bool{}
					for _, p := range fs {
						s.ok(p.State == peers.PeerConnected && !in[p.ID()], "list-state", "friendly peer %s", p.ID())
						in[p.ID()] = true
					}
					for i, t := range togglers {
						s.ok(ph[i] < 2 || in[t.addr], "list-window", "%s was connected before but is not listed as friendly", t.addr)
					}
					for n := range banned {
						s.ok(!in[foe(n)], "list-hostile", "%s is listed as friendly after it had been found hostile", foe(n))
					}
					_, aErr := s.r.Addresses()
					s.ok(aErr == nil, "query-error", "Addresses: %v", aErr)
				}
				runtime.Gosched()
			}
		})
	}
	close(start)
	wg.Wait()
	over.Store(true)
	bg.Wait()
	c.eval(vHash(s.order))
	c.count("listings", int(s.lists.Load()))
	c.count("operations", len(s.order))
	if s.failed.Load() {
		_ = reg.Close()
		return
	}
	// Conservation.
	c.check(announced.Load() == int64(nPool), "announce-count", "%d distinct addresses were announced, the calls counted %d as new", nPool, announced.Load())
	take("the end", nil)
	for _, t := range pool {
		a, _ := netip.AddrFromSlice(t.IP.To4())
		ap := netip.AddrPortFrom(a, uint16(t.Port))
		_, was := s.taken.Load(ap)
		c.check(was == (t.Port != 0), "take-missing", "%s handed out: %v", ap, was)
	}
	for i := range offers {
		n := total[i].Load()
		for k := range nv {
			exp := n / int64(nv)
			if int64(nv-1-k) < n%int64(nv) {
				exp++
			}
			c.check(offers[i][k].Load() == exp, "offer-lost", "of %d offers to one address %d were of version 1.%d, expected %d", n, offers[i][k].Load(), k+1, exp)
		}
	}
	for _, fp := range stable {
		got := fp.takeSent()
		c.check(int64(len(got)) == bcast.Load(), "broadcast", "%s got %d of %d broadcasts", fp.addr, len(got), bcast.Load())
		m := map[proto.Message]bool{}
		for _, x := range got {
			c.check(!m[x], "broadcast-twice", "%s got a broadcast twice", fp.addr)
			m[x] = true
		}
	}
	c.noErr(reg.Close(), "close", "closing")
	reg, err = peers.NewRegistry('W', declared, append([]proto.Version(nil), vers...), dir)
	c.noErr(err, "open", "reopening")
	for _, t := range togglers {
		p, pErr := reg.Peer(t.addr)
		c.check(pErr == nil && p.Score != nil && p.Score.Int64() == t.score.Load() && p.Name == fmt.Sprintf("n%d", t.name.Load()), "lost-update",
			"record of %s at the end: name %q score %v, expected n%d and %d", t.addr, p.Name, p.Score, t.name.Load(), t.score.Load())
	}
	ps, err := reg.Peers()
	c.noErr(err, "query-error", "Peers")
	c.check(len(ps) == nPool+len(offers)+len(togglers)+2+2+3+int(nFoes), "records", "%d records at the end", len(ps))
	c.noErr(reg.Close(), "close", "closing")
	c.sample(map[string]any{"case": c.name, "operations": len(s.order), "listings": s.lists.Load(), "order": string(s.order[:min(80, len(s.order))])})
}

func TestR06(t *testing.T) {
	r := vStart(t, "R06", "announcers of overlapping lists, takers, version offers to the same addresses, sessions with scores reported by another goroutine, pairs changed in turn, broadcasts and listings run at once on one registry, under the race detector; "+
		"counts, hand-outs, offers and broadcasts are conserved, listings are compared with windows of completed and begun operations; an evaluation is one concurrent history, distinct ones differ in the order of completions")
	r.limit = 60 * time.Second
	r.run(vCases(vScale(72, 600), "stress", registryStress), 2)
	r.finish()
}
