package main_test

// Scripted peers of a real distributor and loader.

import (
	"fmt"
	"math/big"
	"net/netip"
	"sync"
	"time"

	"github.com/wavesplatform/gowaves/pkg/crypto"
	"github.com/wavesplatform/gowaves/pkg/proto"
)

const (
	bhHonest = iota
	bhSlow
	bhInflated // honest, with a score it never reaches
	bhSilent
	bhLate
	bhLossy
	bhNoBlocks
	bhJunkIDs
	bhOtherBranch
	bhRepeat
	bhSeesaw
	bhSeesawScore
	bhDeadEnd
	bhShuffled
	bhHuge
	bhGarbage
	bhFlap
	bhChatter // answers with IDs, then repeats blocks that bring nothing new for ever
	bhModest  // reports the score of nothing at all once in a while
	bhKinds
)

var bhNames = []string{"honest", "slow", "inflated", "silent", "late", "lossy", "noblocks", "junkids", "otherbranch", "repeat", "seesaw",
	"seesawscore", "deadend", "shuffled", "huge", "garbage", "flap", "chatter", "modest"}

// actor is a peer with a behaviour.
type actor struct {
	a    netip.Addr
	kind int
	tip  *ublock
	bad  *ublock // a tip behind a block that can't be stored
	fp   *fakePeer
	n    int
	base time.Duration // usual delay of an answer

	talking bool
}

// aworld is the real distributor and loader among actors.
type aworld struct {
	c       *vc
	d       *detector
	u       *universe
	mu      sync.Mutex // of everything below and of the generator
	acts    []*actor
	near    bool // The peers are neighbours in one network.
	lastReq time.Time
	reqs    int
	asked   map[netip.Addr]int
	flap    bool
}

func (w *aworld) say(x *actor, fp *fakePeer, delay time.Duration, ms ...proto.Message) {
	ctx := w.d.ctx
	go func() {
		select {
		case <-time.After(delay):
		case <-ctx.Done():
			return
		}
		for _, m := range ms {
			select {
			case w.d.parent.MessageCh <- vProtoMessage(fp, m):
			case <-ctx.Done():
				return
			}
		}
	}()
}

func (w *aworld) idsMessage(sigs bool, ids []proto.BlockID) proto.Message {
	if !sigs {
		return &proto.BlockIdsMessage{Blocks: ids}
	}
	var r []crypto.Signature
	for _, id := range ids {
		if id.IsSignature() {
			r = append(r, id.Signature())
		}
	}
	return &proto.SignaturesMessage{Signatures: r}
}

func (w *aworld) junk(n int) []proto.BlockID {
	r := make([]proto.BlockID, n)
	for i := range r {
		var d crypto.Digest
		for k := 0; k < 32; k += 8 {
			x := w.c.rng.Uint64()
			for j := range 8 {
				d[k+j] = byte(x >> (8 * j))
			}
		}
		r[i] = proto.NewBlockIDFromDigest(d)
	}
	return r
}

// onSend is called by the code under test with every message to a peer.
func (w *aworld) onSend(x *actor, fp *fakePeer, m proto.Message) {
	w.mu.Lock()
	defer w.mu.Unlock()
	r := w.c.rng
	if req, sigs, ok := vIDsOf(m); ok {
		w.lastReq = time.Now()
		w.reqs++
		w.asked[x.a]++
		x.n++
		w.c.count("asked_"+bhNames[x.kind], 1)
		delay := x.base + time.Duration(r.IntN(50))*time.Millisecond
		ids := w.u.answer(x.tip, req, 100)
		switch x.kind {
		case bhSlow:
			delay = time.Duration(5+r.IntN(22)) * time.Second
		case bhSilent:
			return
		case bhLate:
			delay = time.Duration(28+r.IntN(60)) * time.Second
		case bhJunkIDs:
			ids = w.junk(1 + r.IntN(100))
		case bhOtherBranch:
			ids = w.u.answer(w.u.all[r.IntN(len(w.u.all))], req, 100)
		case bhRepeat: // Always the first one only.
			ids = ids[:min(1, len(ids))]
		case bhSeesaw, bhSeesawScore: // Known blocks in turn.
			ch := x.tip.chain()
			ids = []proto.BlockID{w.u.genesis}
			if x.n%2 == 0 && len(ch) > 0 {
				ids = []proto.BlockID{ch[0].id()}
			}
			if x.kind == bhSeesawScore {
				s := new(big.Int).Lsh(big.NewInt(int64(1+r.IntN(1000))), 200)
				w.say(x, fp, 0, &proto.ScoreMessage{Score: s.Bytes()})
				ids = []proto.BlockID{w.u.genesis}
			}
		case bhDeadEnd:
			ids = w.u.answer(x.bad, req, 100)
		case bhShuffled:
			r.Shuffle(len(ids), func(i, j int) { ids[i], ids[j] = ids[j], ids[i] })
		case bhChatter:
			if r.IntN(3) == 0 { // No IDs at all.
				return
			}
			ids = append(ids, w.junk(1)...)
		case bhModest:
			w.say(x, fp, 0, &proto.ScoreMessage{Score: make([]byte, 1)})
			if r.IntN(2) == 0 { // And back again.
				w.say(x, fp, delay+time.Duration(r.IntN(60))*time.Second, &proto.ScoreMessage{Score: x.tip.score.Bytes()})
			}
		case bhHuge:
			ids = append(ids, w.junk(1500)...)
		case bhGarbage:
			w.say(x, fp, delay, &proto.BlockIdsMessage{Blocks: nil}, &proto.BlockMessage{BlockBytes: []byte{1, 2, 3}},
				&proto.PBBlockMessage{PBBlockBytes: make([]byte, 100)}, &proto.SignaturesMessage{}, w.idsMessage(sigs, ids), w.idsMessage(sigs, ids))
			return
		}
		w.say(x, fp, delay, w.idsMessage(sigs, ids))
		return
	}
	g, ok := m.(*proto.GetBlockMessage)
	if !ok {
		return
	}
	u := w.u.byID[g.BlockID]
	if u == nil {
		return
	}
	delay := x.base + time.Duration(r.IntN(20))*time.Millisecond
	switch x.kind {
	case bhModest:
		if r.IntN(20) == 0 || g.BlockID == x.tip.id() {
			w.say(x, fp, 0, &proto.ScoreMessage{Score: make([]byte, 1)})
		}
	case bhSlow:
		delay = time.Duration(1+r.IntN(20)) * time.Second
	case bhLossy:
		if r.IntN(100) < 5 {
			return
		}
	case bhNoBlocks, bhSilent:
		return
	case bhLate:
		delay = time.Duration(r.IntN(45)) * time.Second
	case bhShuffled:
		delay = time.Duration(r.IntN(5000)) * time.Millisecond
		if r.IntN(4) == 0 {
			w.say(x, fp, time.Duration(r.IntN(40000))*time.Millisecond, vBlockMessage(w.c, u.b)) // Twice.
		}
	case bhChatter:
		return
	case bhGarbage:
		o := w.u.all[r.IntN(len(w.u.all))]
		w.say(x, fp, delay, vBlockMessage(w.c, o.b))
		if r.IntN(3) > 0 {
			return
		}
	}
	w.say(x, fp, delay, vBlockMessage(w.c, u.b))
}

func newAworld(c *vc) *aworld {
	r := c.rng
	w := &aworld{c: c, d: newDetector(c), u: newUniverse(), asked: map[netip.Addr]int{}, near: r.IntN(2) == 0}
	w.d.vers = []proto.Version{vVer15}
	if r.IntN(4) == 0 {
		w.d.vers = []proto.Version{proto.NewVersion(1, 2, 0)}
	}
	old := w.d.vers[0].Minor() == 2
	n := []int{3, 40, 150, 330}[r.IntN(4)]
	forky := []float64{0, 0.02, 0.1}[r.IntN(3)]
	var tip *ublock
	for i := range n {
		if r.Float64() < forky && tip != nil { // Forks are not deeper than 50 blocks.
			for range r.IntN(min(50, tip.height)) {
				if tip.p == nil {
					break
				}
				tip = tip.p
			}
		}
		p := w.u.genesis
		if tip != nil {
			p = tip.id()
		}
		digest := !p.IsSignature() || !old && r.IntN(1+n/3) == 0 // No way back to the old encoding.
		tip = w.u.add(tip, vRealBlock(c, p, 1_700_000_000_000+uint64(i)*60_000, 50+r.Uint64N(100), digest))
	}
	w.d.start(false, true)
	return w
}

// addActor makes a peer; honest ones have tips that can be reached.
func (w *aworld) addActor(kind int) *actor {
	r := w.c.rng
	x := &actor{a: netip.AddrFrom4([4]byte{byte(1 + r.IntN(100)), byte(r.IntN(256)), byte(len(w.acts)), byte(1 + r.IntN(250))}), kind: kind}
	if w.near {
		x.a = netip.AddrFrom4([4]byte{77, 1, 1, byte(len(w.acts) + 1)})
	}
	x.tip = w.u.all[max(0, len(w.u.all)-1-r.IntN(min(40, len(w.u.all))))]
	for x.tip.bad {
		x.tip = x.tip.p
	}
	x.base = time.Duration(r.IntN(3)) * time.Second * time.Duration(r.IntN(2))
	if kind == bhDeadEnd {
		p := x.tip
		for range r.IntN(3) {
			if p.p != nil {
				p = p.p
			}
		}
		for i := range 1 + r.IntN(8) {
			ts := uint64(1_700_000_000_000) + uint64(i)
			if i == r.IntN(4) {
				ts = vBadTS + uint64(r.IntN(1000))
			}
			p = w.u.add(p, vRealBlock(w.c, p.id(), ts, 60, !p.id().IsSignature()))
		}
		x.bad = p
	}
	w.acts = append(w.acts, x)
	w.c.op("actor %s is %s, tip at %d of %d blocks, base delay %s", x.a, bhNames[kind], x.tip.height, len(w.u.all), x.base)
	return x
}

func (w *aworld) rand(n int) int {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.c.rng.IntN(n)
}

func (w *aworld) connect(x *actor) {
	ver, err := w.d.reg.SuggestVersion(x.a)
	w.c.noErr(err, "suggest", "offering a version to %s", x.a)
	if ver.Minor() == 2 && w.rand(2) == 0 {
		ver = proto.NewVersion(1, 1, 0)
	}
	fp := newFakePeer(x.a, vHandshake(x.a, 0, ver, fmt.Sprintf("%x", vHash(x.a))))
	fp.onSend = func(fp *fakePeer, m proto.Message) { w.onSend(x, fp, m) }
	w.mu.Lock()
	x.fp = fp
	w.mu.Unlock()
	w.d.connect(x.fp)
	w.score(x)
	if x.kind == bhChatter && !x.talking {
		x.talking = true
		w.chatter(x)
	}
}

// chatter repeats blocks, stored or not, that were asked for long ago or never, and lists of IDs.
func (w *aworld) chatter(x *actor) {
	ctx := w.d.ctx
	w.mu.Lock()
	u := x.tip
	for n := w.c.rng.IntN(3); n > 0 && u.p != nil; n-- {
		u = u.p
	}
	ms := []proto.Message{vBlockMessage(w.c, u.b)}
	switch w.c.rng.IntN(4) {
	case 0:
		ms = append(ms, vBlockMessage(w.c, vRealBlock(w.c, w.junk(1)[0], 1_700_000_000_000, 60, true)))
	case 1:
		ms = append(ms, w.idsMessage(false, nil))
	case 2:
		ms = append(ms, w.idsMessage(false, w.junk(1)))
	}
	pause := time.Duration(1+w.c.rng.IntN(25)) * time.Second
	w.mu.Unlock()
	go func() {
		for i := 0; ; i++ {
			select {
			case <-ctx.Done():
				return
			case <-time.After(pause):
			}
			w.mu.Lock()
			fp, on := x.fp, x.kind == bhChatter
			w.mu.Unlock()
			if !on {
				return
			}
			select {
			case w.d.parent.MessageCh <- vProtoMessage(fp, ms[i%len(ms)]):
			case <-ctx.Done():
				return
			}
		}
	}()
}

func (w *aworld) score(x *actor) {
	s := x.tip.score
	if x.kind == bhInflated || x.kind >= bhJunkIDs && x.kind <= bhSeesawScore || x.kind == bhGarbage || x.kind == bhChatter {
		s = new(big.Int).Lsh(s, uint(1+w.rand(200)))
	}
	if x.bad != nil {
		s = x.bad.score
	}
	w.d.message(x.fp, &proto.ScoreMessage{Score: s.Bytes()})
}
