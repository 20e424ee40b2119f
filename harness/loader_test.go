package main_test

// A hidden tree of blocks of which the detector knows a part, and the peers that own its branches.

import (
	"math/big"
	"net/netip"

	"github.com/wavesplatform/gowaves/pkg/proto"
)

type ublock struct {
	b      *proto.Block
	p      *ublock // nil: child of the genesis block
	height int
	score  *big.Int
	bad    bool // it or an ancestor of it must be refused by the storage
}

func (u *ublock) id() proto.BlockID { return u.b.BlockID() }

// universe holds all blocks that exist.
type universe struct {
	genesis proto.BlockID
	all     []*ublock
	byID    map[proto.BlockID]*ublock
}

func newUniverse() *universe {
	g := vGenesis()
	return &universe{genesis: g.BlockID(), byID: map[proto.BlockID]*ublock{}}
}

func (u *universe) add(p *ublock, b *proto.Block) *ublock {
	g := vGenesis()
	h, s, bad := 2, vScoreOf(g.BaseTarget), false
	if p != nil {
		h, s, bad = p.height+1, p.score, p.bad
	}
	n := &ublock{b: b, p: p, height: h, score: new(big.Int).Add(s, vScoreOf(b.BaseTarget)), bad: bad || b.Timestamp >= vBadTS}
	u.all = append(u.all, n)
	u.byID[b.BlockID()] = n
	return n
}

// chain lists the branch from the child of the genesis block to the tip.
func (u *ublock) chain() []*ublock {
	if u == nil {
		return nil
	}
	r := make([]*ublock, u.height-1)
	for ; u != nil; u = u.p {
		r[u.height-2] = u
	}
	return r
}

// answer is what an honest peer with that tip sends in reply to the list of IDs, newest first.
func (u *universe) answer(tip *ublock, req []proto.BlockID, limit int) []proto.BlockID {
	ch := append([]proto.BlockID{u.genesis}, nil...)
	pos := map[proto.BlockID]int{u.genesis: 0}
	for i, b := range tip.chain() {
		ch = append(ch, b.id())
		pos[b.id()] = i + 1
	}
	for _, id := range req {
		if i, ok := pos[id]; ok {
			return append([]proto.BlockID(nil), ch[i:min(i+limit, len(ch))]...)
		}
	}
	return nil
}

// vIDsOf tells which IDs a history request lists; ok is false for other messages.
func vIDsOf(m proto.Message) (ids []proto.BlockID, sigs, ok bool) {
	switch v := m.(type) {
	case *proto.GetBlockIdsMessage:
		return v.Blocks, false, true
	case *proto.GetSignaturesMessage:
		for _, s := range v.Signatures {
			ids = append(ids, proto.NewBlockIDFromSignature(s))
		}
		return ids, true, true
	}
	return nil, false, false
}

func vSameIDs(a, b []proto.BlockID) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

var _ netip.Addr
