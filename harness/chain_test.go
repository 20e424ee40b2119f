package main_test

// Reference model of the block storage and generator of delivery histories.

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"math"
	"math/big"
	"net/netip"
	"os"
	"slices"
	"sort"
	"strings"

	"github.com/wavesplatform/gowaves/pkg/crypto"
	"github.com/wavesplatform/gowaves/pkg/proto"
	"github.com/wavesplatform/gowaves/pkg/settings"

	"github.com/alexeykiselev/waves-fork-detector/chains"
)

// The network of the detector under test. It differs between the checks; many of them use all three.
var vScheme = vSchemeOf()

func vSchemeOf() proto.Scheme {
	for _, a := range os.Args {
		switch strings.Trim(a, "^$") {
		case "TestD01", "TestA01":
			return proto.TestNetScheme
		case "TestL02", "TestN01":
			return proto.StageNetScheme
		}
	}
	return proto.MainNetScheme
}

var (
	vTwo64  = new(big.Int).Lsh(big.NewInt(1), 64)
	vMaxTS  = uint64(253370764800000)         // 9999-01-01, the last timestamp we demand to be accepted.
	vBadTS  = uint64(253402300800000)         // 10000-01-01, must be refused from here on.
	vGenPKs = func() (r []crypto.PublicKey) { // A fixed set of generators.
		for i := range 24 {
			d := crypto.MustFastHash(binary.BigEndian.AppendUint64(nil, uint64(i)))
			var pk crypto.PublicKey
			copy(pk[:], d[:])
			switch i { // Keys that differ from another one in a single place and extreme ones.
			case 18:
				pk = crypto.PublicKey{}
			case 19:
				pk = crypto.PublicKey(bytes.Repeat([]byte{0xff}, crypto.PublicKeySize))
			case 20, 21, 22, 23:
				pk = r[0]
				pk[[]int{0, 15, 16, 31}[i-20]] ^= 1
			}
			r = append(r, pk)
		}
		return r
	}()
)

type mblock struct {
	id     proto.BlockID
	p      *mblock
	height uint32
	gen    proto.WavesAddress
	ts     int64
	score  *big.Int
	seq    int
	ext    bool // Some block or micro-block extends it.
	by     *mblock
	micro  bool
}

func (b *mblock) String() string {
	if b == nil {
		return "<none>"
	}
	return fmt.Sprintf("#%d@%d", b.seq, b.height)
}

type chainModel struct {
	scheme proto.Scheme
	blocks map[proto.BlockID]*mblock
	order  []*mblock
	leash  map[netip.Addr]*mblock
}

func vGenesis() proto.Block { return vGenesisOf(vScheme) }

func vGenesisOf(scheme proto.Scheme) proto.Block {
	switch scheme {
	case proto.TestNetScheme:
		return settings.TestNetSettings.Genesis
	case proto.StageNetScheme:
		return settings.StageNetSettings.Genesis
	}
	return settings.MainNetSettings.Genesis
}

func vScoreOf(bt uint64) *big.Int {
	if bt == 0 {
		return new(big.Int)
	}
	return new(big.Int).Div(vTwo64, new(big.Int).SetUint64(bt))
}

func newChainModel(g proto.Block) *chainModel { return newSchemeModel(vScheme, g) }

func newSchemeModel(scheme proto.Scheme, g proto.Block) *chainModel {
	ga, err := proto.NewAddressFromPublicKey(scheme, g.GeneratorPublicKey)
	if err != nil {
		panic(err)
	}
	b := &mblock{id: g.BlockID(), height: 1, gen: ga, ts: int64(g.Timestamp), score: vScoreOf(g.BaseTarget)}
	return &chainModel{
		scheme: scheme,
		blocks: map[proto.BlockID]*mblock{b.id: b},
		order:  []*mblock{b},
		leash:  map[netip.Addr]*mblock{},
	}
}

func (m *chainModel) genesis() *mblock { return m.order[0] }

func (m *chainModel) clone() *chainModel {
	n := &chainModel{scheme: m.scheme, blocks: make(map[proto.BlockID]*mblock, len(m.blocks)), leash: make(map[netip.Addr]*mblock, len(m.leash))}
	mp := make(map[*mblock]*mblock, len(m.order))
	for _, b := range m.order {
		x := *b
		mp[b] = &x
		n.order = append(n.order, &x)
		n.blocks[x.id] = &x
	}
	for _, b := range n.order {
		if b.p != nil {
			b.p = mp[b.p]
		}
		if b.by != nil {
			b.by = mp[b.by]
		}
	}
	for a, b := range m.leash {
		n.leash[a] = mp[b]
	}
	return n
}

// put applies a delivery to the model; the answer is "", "new", "known", "noparent".
func (m *chainModel) put(b *proto.Block, addr netip.Addr) string {
	if k, ok := m.blocks[b.BlockID()]; ok {
		m.leash[addr] = k
		return "known"
	}
	p, ok := m.blocks[b.Parent]
	if !ok {
		return "noparent"
	}
	ga, err := proto.NewAddressFromPublicKey(m.scheme, b.GeneratorPublicKey)
	if err != nil {
		panic(err)
	}
	n := &mblock{id: b.BlockID(), p: p, height: p.height + 1, gen: ga, ts: int64(b.Timestamp),
		score: new(big.Int).Add(p.score, vScoreOf(b.BaseTarget)), seq: len(m.order)}
	m.add(n, p)
	m.leash[addr] = n
	return "new"
}

func (m *chainModel) add(n, extends *mblock) {
	if !extends.ext {
		extends.ext = true
		extends.by = n
	}
	m.blocks[n.id] = n
	m.order = append(m.order, n)
}

func (m *chainModel) putMicro(inv *proto.MicroBlockInv, addr netip.Addr) string {
	if k, ok := m.blocks[inv.TotalBlockID]; ok {
		m.leash[addr] = k
		return "known"
	}
	r, ok := m.blocks[inv.Reference]
	if !ok {
		return "noref"
	}
	n := &mblock{id: inv.TotalBlockID, p: r.p, height: r.height, gen: r.gen, ts: r.ts, score: r.score, seq: len(m.order), micro: true}
	m.add(n, r)
	m.leash[addr] = n
	return "new"
}

func (m *chainModel) lca(a, b *mblock) *mblock {
	for a != b {
		if a.height < b.height {
			a, b = b, a
		}
		if a.height > b.height {
			a = a.p
			continue
		}
		a, b = a.p, b.p
	}
	return a
}

// groups returns leashed blocks with the peers on them, restricted to the filter if it is not empty.
func (m *chainModel) groups(filter map[netip.Addr]struct{}) map[*mblock][]netip.Addr {
	g := map[*mblock][]netip.Addr{}
	for a, b := range m.leash {
		if _, ok := filter[a]; len(filter) > 0 && !ok {
			continue
		}
		g[b] = append(g[b], a)
	}
	return g
}

// longest returns all blocks that may be called the longest fork (ties in both score and peers).
func (m *chainModel) longest(g map[*mblock][]netip.Addr) []*mblock {
	var best []*mblock
	for b, ps := range g {
		if len(best) == 0 {
			best = append(best, b)
			continue
		}
		c := b.score.Cmp(best[0].score)
		if c == 0 {
			c = len(ps) - len(g[best[0]])
		}
		switch {
		case c > 0:
			best = append(best[:0], b)
		case c == 0:
			best = append(best, b)
		}
	}
	return best
}

// ---------------------------------------------------------------------------------------------

type chainProfile struct {
	name      string
	peers     []netip.Addr
	btMode    int     // 0 constant, 1 few values (ties), 2 wide, 3 extreme, 4 tiny (huge scores)
	idMode    int     // 0 signatures, 1 digests, 2 mixed
	micro     float64 // probability of a micro-block
	dup       float64
	unknown   float64
	bad       float64
	move      float64
	reopen    float64
	tip       float64 // continue from the peer's own leash
	recent    float64 // branch from one of the last few blocks
	early     float64 // branch from near genesis; the rest branches anywhere
	gens      int     // number of generators, all if 0
	jump      int     // add chains of up to that many blocks at once
	closeIDs  bool
	twins     bool
	wildTimes bool
}

type chainWorld struct {
	c    *vc
	dir  string
	l    *chains.Linkage
	m    *chainModel
	prof chainProfile
	gen  proto.Block
	ts   uint64
	idc  uint64
	// last refused things, to be checked for absence
	refused []proto.BlockID
	known   []*proto.Block // all delivered proto blocks, for repetitions
	invs    []*proto.MicroBlockInv
	lastOp  string
	after   func(op string) // called after every single delivery or change
}

func (w *chainWorld) done(op string) {
	w.lastOp = op
	w.c.count("op_"+op, 1)
	if w.after != nil {
		w.after(op)
	}
}

func newChainWorld(c *vc, prof chainProfile) *chainWorld {
	scheme := []proto.Scheme{proto.MainNetScheme, proto.TestNetScheme, proto.StageNetScheme}[c.rng.IntN(3)]
	w := &chainWorld{c: c, dir: c.dir(), gen: vGenesisOf(scheme), prof: prof, ts: 1_700_000_000_000}
	w.m = newSchemeModel(scheme, w.gen)
	w.open()
	return w
}

func (w *chainWorld) open() {
	l, err := chains.NewLinkage(w.dir, w.m.scheme, w.gen)
	w.c.noErr(err, "open", "opening the block storage")
	w.l = l
}

func (w *chainWorld) close() {
	if w.l != nil {
		w.l.Close()
		w.l = nil
	}
}

func (w *chainWorld) newID() proto.BlockID {
	r := w.c.rng
	if w.idc == 0 {
		w.idc = r.Uint64N(1 << 30)
	}
	w.idc++
	mode := w.prof.idMode
	if mode == 2 {
		mode = r.IntN(2)
	}
	fill := func(b []byte) {
		for i := range b {
			b[i] = byte(r.Uint32())
		}
		if w.prof.closeIDs { // Long shared prefixes and suffixes, unique middle.
			for i := range b {
				b[i] = byte(r.IntN(2)) * 0xff
			}
			binary.BigEndian.PutUint64(b[12:], w.idc)
			if w.prof.twins { // Both ends of the texts of the IDs are the same too.
				for i := range b {
					b[i] = 0x5a
				}
				binary.BigEndian.PutUint64(b[12:], w.idc*594823321) // 29^6, the base is 2*29.
			}
		}
	}
	if mode == 0 {
		var s crypto.Signature
		fill(s[:])
		if w.prof.closeIDs && !w.prof.twins && len(w.m.order) > 1 && r.IntN(4) == 0 { // Same first half as an earlier ID.
			copy(s[:32], w.m.order[r.IntN(len(w.m.order))].id.Bytes())
		}
		return proto.NewBlockIDFromSignature(s)
	}
	var d crypto.Digest
	fill(d[:])
	return proto.NewBlockIDFromDigest(d)
}

func (w *chainWorld) baseTarget() uint64 {
	r := w.c.rng
	switch w.prof.btMode {
	case 0:
		return 100
	case 1:
		return []uint64{50, 100, 200}[r.IntN(3)]
	case 2:
		return 1 + r.Uint64N(1<<uint(1+r.IntN(50)))
	case 4: // Scores grow beyond 2^70.
		return []uint64{1, 1, 1, 2, 3}[r.IntN(5)]
	default:
		if r.IntN(2) == 0 {
			return r.Uint64() >> (1 + r.IntN(63))
		}
		return []uint64{0, 1, 2, 3, math.MaxInt64, math.MaxInt64 - 1, 1 << 62, 1 << 32, 153722867, 60, 1000}[r.IntN(11)]
	}
}

func (w *chainWorld) timestamp() uint64 {
	r := w.c.rng
	w.ts += 1000 + r.Uint64N(120_000)
	if w.prof.wildTimes {
		switch r.IntN(6) {
		case 0:
			return 0
		case 1:
			return vMaxTS
		case 2:
			return r.Uint64N(vMaxTS)
		}
	}
	return w.ts
}

func vProtoBlock(id, parent proto.BlockID, ts, bt uint64, pk crypto.PublicKey) *proto.Block {
	b := &proto.Block{BlockHeader: proto.BlockHeader{Timestamp: ts, Parent: parent, GeneratorPublicKey: pk}}
	b.BaseTarget = bt
	if id.IsSignature() {
		b.Version = proto.RewardBlockVersion
		b.BlockSignature = id.Signature()
		b.ID = id
	} else {
		b.Version = proto.ProtobufBlockVersion
		b.ID = id
	}
	return b
}

func (w *chainWorld) newBlock(parent proto.BlockID) *proto.Block {
	r := w.c.rng
	b := vProtoBlock(w.newID(), parent, w.timestamp(), w.baseTarget(), vGenPKs[r.IntN(w.gens())])
	if r.IntN(3) == 0 { // Parts of the block that are not used.
		if b.ID.IsSignature() {
			b.Version = proto.BlockVersion(1 + r.IntN(4))
		}
		b.TransactionCount = r.IntN(1000)
		b.RewardVote = int64(r.IntN(3) - 1)
		for range r.IntN(4) {
			b.Features = append(b.Features, int16(r.IntN(100)))
		}
		b.FeaturesCount = len(b.Features)
		b.ConsensusBlockLength = uint32(r.IntN(100))
	}
	return b
}

func (w *chainWorld) gens() int {
	if w.prof.gens > 0 {
		return w.prof.gens
	}
	return len(vGenPKs)
}

func (w *chainWorld) peer() netip.Addr { return w.prof.peers[w.c.rng.IntN(len(w.prof.peers))] }

func (w *chainWorld) pickParent(addr netip.Addr) *mblock {
	r := w.c.rng
	x := r.Float64()
	n := len(w.m.order)
	switch {
	case x < w.prof.tip:
		if b := w.m.leash[addr]; b != nil {
			return b
		}
		return w.m.order[n-1]
	case x < w.prof.tip+w.prof.recent:
		k := min(n, 6)
		return w.m.order[n-1-r.IntN(k)]
	case x < w.prof.tip+w.prof.recent+w.prof.early:
		return w.m.order[r.IntN(min(n, 4))]
	}
	return w.m.order[r.IntN(n)]
}

func (w *chainWorld) name(id proto.BlockID) string {
	if b, ok := w.m.blocks[id]; ok {
		return b.String()
	}
	return "?" + id.ShortString()
}

func (w *chainWorld) putBlock(b *proto.Block, addr netip.Addr) {
	before, known := w.m.blocks[b.BlockID()]
	res := w.m.put(b, addr)
	err := w.l.PutBlock(b, addr)
	switch res {
	case "noparent":
		w.c.op("put block with unknown parent by %s -> %v", addr, err)
		w.c.check(errors.Is(err, chains.ErrParentNotFound), "refusal",
			"a block with unknown parent must be refused with 'parent not found', got %v", err)
		w.refused = append(w.refused, b.BlockID())
		w.checkLeash(addr)
	default:
		nb := w.m.blocks[b.BlockID()]
		if known {
			w.c.op("repeat block %s by %s -> %v", before, addr, err)
		} else {
			w.c.op("put block %s on %s bt=%d by %s -> %v", nb, nb.p, b.BaseTarget, addr, err)
		}
		w.c.noErr(err, "put-error", "delivering block %s", nb)
		w.known = append(w.known, b)
	}
	w.done(res)
}

func (w *chainWorld) putMicro(inv *proto.MicroBlockInv, addr netip.Addr) {
	res := w.m.putMicro(inv, addr)
	err := w.l.PutMicroBlock(inv, addr)
	w.c.op("micro-block %s on %s by %s -> %s %v", w.name(inv.TotalBlockID), w.name(inv.Reference), addr, res, err)
	if res == "noref" {
		w.c.check(errors.Is(err, chains.ErrRefNotFound), "refusal",
			"a micro-block with unknown reference must be refused with 'reference not found', got %v", err)
		w.refused = append(w.refused, inv.TotalBlockID)
		w.checkLeash(addr)
	} else {
		w.c.noErr(err, "put-error", "delivering micro-block %s", w.name(inv.TotalBlockID))
		w.invs = append(w.invs, inv)
	}
	w.done("micro-" + res)
}

func (w *chainWorld) newInv(ref proto.BlockID) *proto.MicroBlockInv {
	return &proto.MicroBlockInv{PublicKey: vGenPKs[0], TotalBlockID: w.newID(), Reference: ref}
}

func (w *chainWorld) moveLeash(b *mblock, addr netip.Addr) {
	err := w.l.MoveLeash(b.id, addr)
	w.c.op("move leash of %s to %s -> %v", addr, b, err)
	w.c.noErr(err, "move-error", "moving leash")
	w.m.leash[addr] = b
	w.done("move")
}

func (w *chainWorld) reopen() {
	w.c.op("reopen")
	w.close()
	w.open()
	w.done("reopen")
}

// bad delivers a block whose numbers cannot be represented; it must be refused.
func (w *chainWorld) bad(addr netip.Addr) {
	r := w.c.rng
	p := w.m.order[r.IntN(len(w.m.order))]
	b := w.newBlock(p.id)
	hi := []uint64{math.MaxInt64 + 1, math.MaxUint64, math.MaxUint64 - 1, 1<<63 + r.Uint64N(1<<62)}
	switch r.IntN(3) {
	case 0:
		b.Timestamp = hi[r.IntN(4)]
	case 1:
		b.BaseTarget = hi[r.IntN(4)]
	default:
		b.Timestamp = vBadTS + []uint64{0, 1, 1000, r.Uint64N(1 << 36), r.Uint64N(1 << 62)}[r.IntN(5)]
	}
	err := w.l.PutBlock(b, addr)
	w.c.op("put block on %s with ts=%d bt=%d by %s -> %v", p, b.Timestamp, b.BaseTarget, addr, err)
	w.c.check(err != nil, "out-of-range", "a block with timestamp %d and base target %d was accepted", b.Timestamp, b.BaseTarget)
	w.refused = append(w.refused, b.BlockID())
	w.checkLeash(addr)
	w.done("out-of-range")
}

// microOnGenesis announces a micro-block of the genesis block, there can't be such a micro-block, so it must be refused.
func (w *chainWorld) microOnGenesis(addr netip.Addr) {
	inv := w.newInv(w.m.genesis().id)
	err := w.l.PutMicroBlock(inv, addr)
	w.c.op("micro-block of genesis by %s -> %v", addr, err)
	w.c.check(err != nil, "micro-genesis", "a micro-block of the genesis block was accepted")
	w.refused = append(w.refused, inv.TotalBlockID)
	w.checkLeash(addr)
	w.done("micro-genesis")
}

// early delivers a block or micro-block before the one it extends, which is a block or a micro-block too, and again after
// it: at once, after other deliveries, or after reopening.
func (w *chainWorld) early(addr netip.Addr) {
	r := w.c.rng
	ref := w.pickParent(addr)
	put := func(b *proto.Block, inv *proto.MicroBlockInv, a netip.Addr) {
		if b != nil {
			w.putBlock(b, a)
		} else {
			w.putMicro(inv, a)
		}
	}
	mk := func(parent proto.BlockID, micro bool) (*proto.Block, *proto.MicroBlockInv, proto.BlockID) {
		if micro {
			inv := w.newInv(parent)
			return nil, inv, inv.TotalBlockID
		}
		b := w.newBlock(parent)
		return b, nil, b.BlockID()
	}
	b1, i1, id := mk(ref.id, ref.p != nil && r.IntN(2) == 0)
	b2, i2, id2 := mk(id, r.IntN(3) == 0)
	b3, i3, _ := mk(id2, r.IntN(3) == 0)
	for range 1 + r.IntN(3) {
		put(b2, i2, w.peer())
		if r.IntN(2) == 0 {
			put(b3, i3, w.peer())
		}
	}
	if r.IntN(4) == 0 {
		w.putBlock(w.newBlock(w.pickParent(addr).id), addr)
	}
	put(b1, i1, w.peer())
	if r.IntN(8) == 0 {
		w.reopen()
	}
	if r.IntN(2) == 0 {
		put(b3, i3, w.peer())
	}
	put(b2, i2, addr)
	put(b3, i3, w.peer())
}

// step performs one random operation.
func (w *chainWorld) step() {
	r := w.c.rng
	addr := w.peer()
	x := r.Float64()
	p := &w.prof
	take := func(q float64) bool {
		if x < q {
			return true
		}
		x -= q
		return false
	}
	switch {
	case take(p.dup) && len(w.known) > 0:
		if len(w.invs) > 0 && r.IntN(3) == 0 {
			w.putMicro(w.invs[r.IntN(len(w.invs))], addr)
			return
		}
		if r.IntN(4) == 0 { // The announced block is known, whatever it is said to refer to: itself, its parent, nothing known.
			b := w.m.order[r.IntN(len(w.m.order))]
			inv := w.newInv(w.m.order[r.IntN(len(w.m.order))].id)
			switch r.IntN(3) {
			case 0:
				inv.Reference = b.id
			case 1:
				inv.Reference = w.newID()
			}
			inv.TotalBlockID = b.id
			w.putMicro(inv, addr)
			return
		}
		b := *w.known[r.IntN(len(w.known))]
		if r.IntN(3) == 0 { // The same ID again, with other contents that must be ignored.
			b.Timestamp++
			b.BaseTarget = 77
			if r.IntN(3) == 0 {
				b.Timestamp, b.BaseTarget = vBadTS+r.Uint64N(1<<62), 1<<63
			}
			b.GeneratorPublicKey = vGenPKs[r.IntN(len(vGenPKs))]
			switch r.IntN(4) {
			case 0, 1:
				b.Parent = w.newID()
			case 2:
				b.Parent = b.BlockID()
			}
		}
		w.putBlock(&b, addr)
	case take(p.unknown):
		if r.IntN(3) == 0 {
			inv := w.newInv(w.newID())
			if r.IntN(4) == 0 { // Of itself.
				inv.Reference = inv.TotalBlockID
			}
			w.putMicro(inv, addr)
			return
		}
		if r.IntN(2) == 0 {
			w.early(addr)
			return
		}
		parent := w.newID()
		if len(w.refused) > 0 && r.IntN(2) == 0 { // A child of a refused block is refused too.
			parent = w.refused[r.IntN(len(w.refused))]
			if _, ok := w.m.blocks[parent]; ok {
				return
			}
		}
		b := w.newBlock(parent)
		switch r.IntN(8) { // Parents that are nobody's block.
		case 0:
			b.Parent = b.BlockID()
		case 1:
			b.Parent = proto.NewBlockIDFromSignature(crypto.Signature{})
		case 2:
			b.Parent = proto.NewBlockIDFromDigest(crypto.Digest{})
		case 3: // A part of a known ID.
			id := w.m.order[r.IntN(len(w.m.order))].id.Bytes()
			if d, err := crypto.NewDigestFromBytes(id[:crypto.DigestSize]); err == nil && len(id) > crypto.DigestSize {
				b.Parent = proto.NewBlockIDFromDigest(d)
			} else {
				b.Parent = proto.NewBlockIDFromSignature(crypto.Signature(append(slices.Clone(id[:crypto.DigestSize]), make([]byte, 32)...)))
			}
		}
		if _, ok := w.m.blocks[b.Parent]; ok {
			return
		}
		w.putBlock(b, addr)
	case take(p.bad):
		w.bad(addr)
	case take(p.move):
		w.moveLeash(w.m.order[r.IntN(len(w.m.order))], addr)
	case take(p.reopen):
		w.reopen()
	case take(p.micro):
		ref := w.pickParent(addr)
		if ref == w.m.genesis() || ref.p == nil {
			w.microOnGenesis(addr)
			return
		}
		w.putMicro(w.newInv(ref.id), addr)
	default:
		parent := w.pickParent(addr).id
		n := 1
		if p.jump > 1 && r.IntN(3) == 0 {
			n = 1 + r.IntN(p.jump)
		}
		for range n {
			b := w.newBlock(parent)
			w.putBlock(b, addr)
			parent = b.BlockID()
		}
	}
}

func vPeers(n int) []netip.Addr {
	base := []string{"1.2.3.4", "0.0.0.0", "255.255.255.255", "127.0.0.1", "10.0.0.1", "10.0.0.2", "224.0.0.1", "0.0.0.1",
		"255.255.255.254", "192.168.1.1", "4.0.0.0", "128.0.0.0", "5.5.5.5", "3.255.255.255", "0.255.0.255"}
	r := []netip.Addr{}
	for i := range n {
		if i < len(base) {
			r = append(r, vAddr(base[i]))
		} else {
			r = append(r, netip.AddrFrom4([4]byte{byte(i >> 8), byte(i), 9, byte(i * 37)}))
		}
	}
	return r
}

func vProfile(c *vc, k int) chainProfile {
	r := c.rng
	p := chainProfile{peers: vPeers(1 + r.IntN(12)), btMode: r.IntN(5), idMode: r.IntN(3), micro: 0.1, dup: 0.08,
		unknown: 0.05, bad: 0.02, move: 0.05, reopen: 0.01, tip: 0.5, recent: 0.3, early: 0.1, jump: 1,
		closeIDs: r.IntN(3) == 0, twins: r.IntN(2) == 0, wildTimes: r.IntN(3) == 0}
	r.Shuffle(len(p.peers), func(i, j int) { p.peers[i], p.peers[j] = p.peers[j], p.peers[i] })
	switch k % 7 {
	case 0:
		p.name = "mixed"
	case 1:
		p.name, p.early, p.tip, p.recent, p.micro = "early-forks", 0.5, 0.4, 0.05, 0.05
	case 2:
		p.name, p.micro, p.tip, p.recent = "micro", 0.5, 0.5, 0.4
	case 3:
		p.name, p.jump, p.tip, p.recent = "long-branches", 40, 0.2, 0.1
	case 4:
		p.name, p.tip, p.recent, p.early = "bushy", 0.1, 0.2, 0.1
		p.peers = vPeers(40)
	case 5:
		p.name, p.btMode, p.dup, p.move = "ties", 1-r.IntN(2), 0.2, 0.2
	case 6:
		p.name, p.tip, p.recent, p.early, p.jump = "straight", 0.93, 0.05, 0.01, 3
		p.micro = 0.02
	}
	if r.IntN(4) == 0 {
		p.peers = append(p.peers, vAddr("::1"), vAddr("2001:db8::1"), vAddr("::"), vAddr("ffff:ffff:ffff:ffff:ffff:ffff:ffff:ffff"), vAddr("ff02::1"), vAddr("::ffff:1.2.3.4"))
	}
	return p
}

func (m *chainModel) shape() uint64 {
	var sb strings.Builder
	for _, b := range m.order[1:] {
		p := 0
		if b.p != nil {
			p = b.p.seq
		}
		fmt.Fprintf(&sb, "%d,%v;", p, b.micro)
	}
	ls := make([]string, 0, len(m.leash))
	for a, b := range m.leash {
		ls = append(ls, fmt.Sprintf("%s=%d", a, b.seq))
	}
	sort.Strings(ls)
	return vHash(sb.String(), ls)
}

// ---- oracles ---------------------------------------------------------------------------------

func vSameBlock(c *vc, what string, got chains.Block, b *mblock) {
	var par proto.BlockID
	if b.p != nil {
		par = b.p.id
	}
	c.check(got.ID == b.id, "block-id", "%s: block %s is stored under another ID %s", what, b, got.ID)
	if b.p != nil || got.Parent.Bytes() != nil && len(got.Parent.Bytes()) > 0 {
		c.check(got.Parent == par, "block-parent", "%s: parent of %s is %s, expected %s", what, b, got.Parent, par)
	}
	c.check(got.Height == b.height, "block-height", "%s: height of %s is %d, expected %d", what, b, got.Height, b.height)
	c.check(got.Generator == b.gen, "block-generator", "%s: generator of %s is %s, expected %s", what, b, got.Generator, b.gen)
	c.check(got.Timestamp == b.ts, "block-timestamp", "%s: timestamp of %s is %d, expected %d", what, b, got.Timestamp, b.ts)
	c.check(got.Score != nil && got.Score.Cmp(b.score) == 0, "block-score", "%s: score of %s is %v, expected %v", what, b, got.Score, b.score)
}

func (w *chainWorld) checkBlock(b *mblock) {
	ok, err := w.l.HasBlock(b.id)
	w.c.noErr(err, "query-error", "HasBlock")
	w.c.check(ok, "block-lost", "block %s is not found", b)
	got, err := w.l.Block(b.id)
	w.c.noErr(err, "query-error", "Block %s", b)
	if b.p == nil {
		got.Parent = proto.BlockID{}
		w.c.check(got.ID == b.id && got.Height == 1 && got.Generator == b.gen && got.Timestamp == b.ts && got.Score.Cmp(b.score) == 0,
			"block-genesis", "genesis block reads as %+v", got)
		return
	}
	vSameBlock(w.c, "stored", got, b)
}

func (w *chainWorld) checkAbsent(id proto.BlockID) {
	if _, ok := w.m.blocks[id]; ok {
		return
	}
	ok, err := w.l.HasBlock(id)
	w.c.noErr(err, "query-error", "HasBlock")
	w.c.check(!ok, "refused-stored", "refused or never delivered block %s is stored", id.ShortString())
	_, err = w.l.Block(id)
	w.c.check(err != nil, "refused-stored", "refused or never delivered block %s can be read", id.ShortString())
}

func (w *chainWorld) checkBlocks(all bool) {
	if all {
		for _, b := range w.m.order {
			w.checkBlock(b)
		}
		for _, id := range w.refused {
			w.checkAbsent(id)
		}
		return
	}
	n := len(w.m.order)
	w.checkBlock(w.m.order[n-1])
	for range 3 {
		w.checkBlock(w.m.order[w.c.rng.IntN(n)])
	}
	if k := len(w.refused); k > 0 {
		w.checkAbsent(w.refused[k-1])
		w.checkAbsent(w.refused[w.c.rng.IntN(k)])
	}
	w.checkAbsent(w.newID())
}

func (w *chainWorld) checkLeash(a netip.Addr) {
	b, has := w.m.leash[a]
	ok, err := w.l.HasLeash(a)
	w.c.noErr(err, "query-error", "HasLeash")
	w.c.check(ok == has, "leash-presence", "peer %s has leash: %v, expected %v", a, ok, has)
	id, err := w.l.Leash(a)
	w.c.noErr(err, "query-error", "Leash")
	if !has {
		b = w.m.genesis()
	}
	w.c.check(id == b.id, "leash", "leash of %s is on %s, expected %s", a, w.name(id), b)
	sc, err := w.l.LeashScore(a)
	w.c.noErr(err, "query-error", "LeashScore")
	w.c.check(sc.Cmp(b.score) == 0, "leash-score", "leash score of %s is %s, expected %s", a, sc, b.score)
}

func vCheckLeashes(c *vc, got []chains.Leash, m *chainModel) {
	seen := map[netip.Addr]bool{}
	for _, lsh := range got {
		c.check(!seen[lsh.Addr], "leash-twice", "peer %s is listed twice among leashes", lsh.Addr)
		seen[lsh.Addr] = true
		b, ok := m.leash[lsh.Addr]
		c.check(ok, "leash-extra", "peer %s is listed among leashes but never got one", lsh.Addr)
		c.check(b.id == lsh.BlockID, "leash-list", "leash of %s is listed on %s, expected %s", lsh.Addr, lsh.BlockID.ShortString(), b)
	}
	for a := range m.leash {
		c.check(seen[a], "leash-missing", "leashed peer %s is missing in the list of %d leashes", a, len(got))
	}
}

func (w *chainWorld) checkLeashes() {
	got, err := w.l.Leashes()
	w.c.noErr(err, "query-error", "Leashes")
	vCheckLeashes(w.c, got, w.m)
}

// headTracker follows head numbers as they are observed.
type headTracker struct {
	num  map[proto.BlockID]uint64
	used map[uint64]bool
}

func newHeadTracker() *headTracker {
	return &headTracker{num: map[proto.BlockID]uint64{}, used: map[uint64]bool{}}
}

// check compares the listed heads with the model; it assumes at most one block was accepted since the last call.
func (t *headTracker) check(w *chainWorld) {
	c := w.c
	hs, err := w.l.Heads()
	c.noErr(err, "query-error", "Heads")
	got := map[proto.BlockID]uint64{}
	nums := map[uint64]bool{}
	for _, h := range hs {
		_, dup := got[h.BlockID]
		c.check(!dup, "head-twice", "block %s is listed as head twice", w.name(h.BlockID))
		c.check(!nums[h.ID], "head-number-twice", "head number %d is used twice", h.ID)
		got[h.BlockID], nums[h.ID] = h.ID, true
		b, ok := w.m.blocks[h.BlockID]
		c.check(ok, "head-unknown", "head %d is on an unknown block", h.ID)
		c.check(!b.ext, "head-extended", "block %s is listed as head %d but %s extends it", b, h.ID, b.by)
	}
	n := 0
	for _, b := range w.m.order {
		if b.ext {
			continue
		}
		n++
		num, ok := got[b.id]
		c.check(ok, "head-missing", "block %s was never extended but is not among the %d heads", b, len(hs))
		if old, was := t.num[b.id]; was {
			c.check(num == old, "head-renumbered", "head on %s changed number from %d to %d", b, old, num)
		}
	}
	// Numbers of new heads.
	for id, num := range got {
		if _, was := t.num[id]; was {
			continue
		}
		b := w.m.blocks[id]
		inherited := false
		for pid, old := range t.num {
			pb := w.m.blocks[pid]
			if pb.ext && pb.by == b {
				c.check(num == old, "head-number", "block %s extends head %d of %s but has number %d", b, old, pb, num)
				inherited = true
			}
		}
		if !inherited && len(t.used) > 0 {
			c.check(!t.used[num], "head-number-reused", "new branch %s got the number %d that was used before", b, num)
		}
	}
	t.num = got
	for k := range nums {
		t.used[k] = true
	}
	// Active heads.
	ah, err := w.l.ActiveHeads()
	c.noErr(err, "query-error", "ActiveHeads")
	leashed := map[proto.BlockID]bool{}
	for _, b := range w.m.leash {
		leashed[b.id] = true
	}
	act := map[proto.BlockID]bool{}
	for _, h := range ah {
		num, ok := got[h.BlockID]
		c.check(ok && num == h.ID, "active-head", "active head %d on %s is not that head", h.ID, w.name(h.BlockID))
		c.check(leashed[h.BlockID], "active-head-unleashed", "active head %d on %s is nobody's leash", h.ID, w.name(h.BlockID))
		c.check(!act[h.BlockID], "active-head-twice", "active head %d is listed twice", h.ID)
		act[h.BlockID] = true
	}
	for id := range got {
		c.check(!leashed[id] || act[id], "active-head-missing", "head on %s is a leash but not active", w.name(id))
	}
	c.max("max_heads", n)
}

func vCheckForks(c *vc, m *chainModel, forks []chains.Fork, filter map[netip.Addr]struct{}) {
	g := m.groups(filter)
	c.check(len(forks) == len(g), "forks-count", "%d forks are listed, expected %d", len(forks), len(g))
	if len(g) == 0 {
		return
	}
	var longest *chains.Fork
	seen := map[*mblock]bool{}
	for i := range forks {
		f := &forks[i]
		b, ok := m.blocks[f.HeadBlock]
		c.check(ok, "fork-head", "fork on unknown block %s", f.HeadBlock)
		c.check(!seen[b], "fork-twice", "block %s is listed as fork twice", b)
		seen[b] = true
		ps, ok := g[b]
		c.check(ok, "fork-extra", "fork on block %s that no considered peer is leashed to", b)
		vCheckForkData(c, f, b, ps)
		if f.Longest {
			c.check(longest == nil, "fork-longest", "two forks are flagged the longest")
			longest = f
		}
		if i > 0 {
			prev := &forks[i-1]
			k := prev.Score.Cmp(f.Score)
			c.check(k > 0 || k == 0 && prev.PeersCount >= f.PeersCount, "forks-order", "forks are not ordered by score and peers: %s/%d before %s/%d",
				prev.Score, prev.PeersCount, f.Score, f.PeersCount)
		}
	}
	c.check(longest != nil, "fork-longest", "no fork is flagged the longest")
	lb := m.blocks[longest.HeadBlock]
	ok := false
	for _, b := range m.longest(g) {
		ok = ok || b == lb
	}
	c.check(ok, "fork-longest", "fork %s with score %s and %d peers is flagged longest, but e.g. %s is longer", lb, lb.score, len(g[lb]), m.longest(g)[0])
	for i := range forks {
		f := &forks[i]
		b := m.blocks[f.HeadBlock]
		vCheckForkBranch(c, m, f, b, []*mblock{lb})
	}
}

func vCheckForkData(c *vc, f *chains.Fork, b *mblock, ps []netip.Addr) {
	c.check(f.HeadHeight == b.height, "fork-data", "fork %s has height %d", b, f.HeadHeight)
	c.check(f.HeadGenerator == b.gen, "fork-data", "fork %s has generator %s, expected %s", b, f.HeadGenerator, b.gen)
	c.check(f.HeadTimestamp.UnixMilli() == b.ts, "fork-data", "fork %s has timestamp %d, expected %d", b, f.HeadTimestamp.UnixMilli(), b.ts)
	c.check(f.Score.Cmp(b.score) == 0, "fork-data", "fork %s has score %s, expected %s", b, f.Score, b.score)
	c.check(f.PeersCount == len(ps), "fork-peers", "fork %s counts %d peers, expected %d", b, f.PeersCount, len(ps))
	c.check(len(f.Peers) == len(ps), "fork-peers", "fork %s lists %d peers, expected %d", b, len(f.Peers), len(ps))
	want := map[netip.Addr]bool{}
	for _, a := range ps {
		want[a] = true
	}
	for _, a := range f.Peers {
		c.check(want[a], "fork-peers", "fork %s lists peer %s that is not on it (or twice)", b, a)
		delete(want, a)
	}
}

func vCheckForkBranch(c *vc, m *chainModel, f *chains.Fork, b *mblock, longest []*mblock) {
	if f.Longest {
		c.check(f.LastCommonBlock == b.id, "fork-lcb", "last common block of the longest fork %s is not its head", b)
		c.check(f.Length == 0, "fork-length", "length of the longest fork %s is %d", b, f.Length)
		return
	}
	var got *mblock
	for _, l := range longest {
		a := m.lca(l, b)
		if a.id == f.LastCommonBlock {
			got = a
		}
	}
	if got == nil {
		x, ok := m.blocks[f.LastCommonBlock]
		if !ok {
			c.fail("fork-lcb", "last common block of %s is unknown", b)
		}
		c.fail("fork-lcb", "last common block of %s with the longest %s is reported as %s, expected %s", b, longest[0], x, m.lca(longest[0], b))
	}
	c.check(f.Length == int(b.height)-int(got.height), "fork-length", "length of %s is %d, last common block is %s", b, f.Length, got)
}

func vItoa(n int) string { return fmt.Sprintf("%02d", n) }

func (m *chainModel) top() *mblock {
	t := m.genesis()
	for _, b := range m.order {
		if b.height > t.height {
			t = b
		}
	}
	return t
}

func (m *chainModel) leashVector() []string {
	ls := make([]string, 0, len(m.leash))
	for a, b := range m.leash {
		ls = append(ls, fmt.Sprintf("%s=%d", a, b.seq))
	}
	sort.Strings(ls)
	return ls
}

// quick is a cheap fingerprint of the state after an operation.
func (m *chainModel) quick(op string) uint64 {
	h := vHash(op, len(m.order))
	for i := max(0, len(m.order)-12); i < len(m.order); i++ {
		b := m.order[i]
		p := -1
		if b.p != nil {
			p = b.p.seq
		}
		h = h*1099511628211 ^ uint64(p*7+i*131) ^ b.score.Uint64()
	}
	for a, b := range m.leash { // Order independent.
		h ^= vHash(a, b.seq)
	}
	return h
}
