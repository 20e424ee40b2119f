package main_test

// Generator of hostile network messages.

import (
	"encoding/binary"
	"math"
	"math/big"
	"math/rand/v2"

	"github.com/wavesplatform/gowaves/pkg/crypto"
	g "github.com/wavesplatform/gowaves/pkg/grpc/generated/waves"
	"github.com/wavesplatform/gowaves/pkg/proto"
	gproto "google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
)

const (
	hGetPeers   = 1
	hPeers      = 2
	hSignatures = 21
	hBlock      = 23
	hScore      = 24
	hInv        = 26
	hPBBlock    = 29
	hBlockIDs   = 33
)

// hframe is one network message: its kind, payload and what is known of it.
type hframe struct {
	id      byte
	payload []byte
	kind    string
	broken  bool // certainly does not parse
}

func (f hframe) bytes() []byte { return vFrame(f.id, f.payload) }

type hostile struct {
	c      *vc
	r      *rand.Rand
	parent func() proto.BlockID // some block known to the detector
	big    bool                 // the expensive kinds too
}

func (h *hostile) rb(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(h.r.Uint32())
	}
	return b
}

func (h *hostile) pick(ns ...int) int { return ns[h.r.IntN(len(ns))] }

// good makes a well-formed message of one of the handled kinds.
func (h *hostile) good() hframe {
	r := h.r
	switch r.IntN(9) {
	case 0:
		return hframe{id: hGetPeers, kind: "get-peers"}
	case 1:
		p := binary.BigEndian.AppendUint32(nil, 3)
		for range 3 {
			p = append(p, h.rb(4)...)
			p = binary.BigEndian.AppendUint32(p, uint32(h.pick(0, 1, 6868, 65535, 65536, 1<<31-1)))
		}
		return hframe{id: hPeers, payload: p, kind: "peers"}
	case 2:
		n := h.pick(0, 1, 3, 100)
		p := binary.BigEndian.AppendUint32(nil, uint32(n))
		p = append(p, h.rb(64*n)...)
		return hframe{id: hSignatures, payload: p, kind: "signatures"}
	case 3:
		return hframe{id: hScore, payload: h.rb(h.pick(1, 8, 10, 1024)), kind: "score"}
	case 4:
		return hframe{id: hInv, payload: h.inv(), kind: "inv"}
	case 5:
		return hframe{id: hBlockIDs, payload: h.ids(h.pick(0, 1, 2, 100, 300)), kind: "ids"}
	case 6, 7:
		return h.block(true)
	default:
		return h.block(false)
	}
}

func (h *hostile) ids(n int) []byte {
	p := binary.BigEndian.AppendUint32(nil, uint32(n))
	for range n {
		var b []byte
		switch h.r.IntN(5) {
		case 0:
			b = h.parent().Bytes()
		case 1:
			b = h.rb(64)
		default:
			b = h.rb(32)
		}
		p = append(p, byte(len(b)))
		p = append(p, b...)
	}
	return p
}

func (h *hostile) inv() []byte {
	ref := h.parent()
	p := h.rb(32)
	if ref.IsSignature() {
		p = append(p, h.rb(64)...)
	} else {
		p = append(p, h.rb(32)...)
	}
	p = append(p, ref.Bytes()...)
	return append(p, h.rb(64)...)
}

// block makes a valid block of either encoding, some with transactions.
func (h *hostile) block(pb bool) hframe {
	r := h.r
	parent := h.parent()
	if r.IntN(4) == 0 {
		parent = proto.NewBlockIDFromSignature(crypto.Signature(h.rb(64)))
	}
	pb = pb || !parent.IsSignature()
	ts := []uint64{0, 1, 1_700_000_000_000, vMaxTS, vBadTS, math.MaxInt64, math.MaxUint64}[r.IntN(7)]
	bt := []uint64{0, 1, 100, math.MaxInt64, math.MaxUint64}[r.IntN(5)]
	if r.IntN(2) == 0 {
		ts, bt = 1_700_000_000_000+r.Uint64N(1e9), 1+r.Uint64N(1000)
	}
	if pb {
		ts, bt = min(ts, math.MaxInt64), min(bt, math.MaxInt64)
	}
	b := vRealBlock(h.c, parent, ts, bt, pb)
	if r.IntN(3) == 0 {
		b.Transactions = proto.Transactions{}
		for range 1 + r.IntN(3) {
			b.Transactions = append(b.Transactions, vTransfer(h.c))
		}
		b.TransactionCount = len(b.Transactions)
	}
	if !pb {
		b.Version = proto.BlockVersion(1 + r.IntN(4))
		sz := 1
		if b.Version >= proto.NgBlockVersion {
			sz = 4
			if r.IntN(2) == 0 {
				b.Features, b.FeaturesCount = []int16{1, 7}, 2
			}
		}
		b.TransactionBlockLength = uint32(b.Transactions.BinarySize() + sz)
	}
	switch m := vBlockMessage(h.c, b).(type) {
	case *proto.BlockMessage:
		return hframe{id: hBlock, payload: m.BlockBytes, kind: "block"}
	case *proto.PBBlockMessage:
		return hframe{id: hPBBlock, payload: m.PBBlockBytes, kind: "pb-block"}
	}
	panic("unreachable")
}

// mutate damages a message.
func (h *hostile) mutate(f hframe) hframe {
	r := h.r
	p := append([]byte(nil), f.payload...)
	for range 1 + r.IntN(4) {
		n := len(p)
		if n == 0 {
			p = h.rb(1 + r.IntN(40))
			continue
		}
		k := r.IntN(n)
		if r.IntN(2) == 0 { // The interesting fields are near the ends.
			k = r.IntN(min(n, 48))
			if r.IntN(2) == 0 {
				k = n - 1 - k
			}
		}
		switch r.IntN(9) {
		case 0:
			p = p[:k]
		case 1:
			p = append(p, h.rb(1+r.IntN(70))...)
		case 2:
			p[k] ^= 1 << r.IntN(8)
		case 3:
			p[k] = byte(h.pick(0, 1, 127, 128, 255))
		case 4:
			if k+4 <= n {
				binary.BigEndian.PutUint32(p[k:], []uint32{0, 1, 0x7fffffff, 0x80000000, 0xffffffff, 0xfffffffe, uint32(n), uint32(n + 1), 1 << 24}[r.IntN(9)])
			}
		case 5:
			if k+8 <= n {
				binary.BigEndian.PutUint64(p[k:], []uint64{0, 1, 1 << 62, 1<<63 - 1, 1 << 63, 1<<64 - 1}[r.IntN(6)])
			}
		case 6:
			e := k + r.IntN(min(n-k, 64)+1)
			p = append(append([]byte(nil), p[:k]...), p[e:]...)
		case 7:
			e := k + r.IntN(min(n-k, 64)+1)
			p = append(append(append([]byte(nil), p[:e]...), p[k:e]...), p[e:]...)
		case 8:
			o := h.good().payload
			if len(o) > 0 {
				p = append(p[:k:k], o[r.IntN(len(o)):]...)
			}
		}
	}
	return hframe{id: f.id, payload: p, kind: "mutated-" + f.kind}
}

// fill sets random fields of a protobuf message.
func (h *hostile) fill(m protoreflect.Message, depth int, p float64) {
	r := h.r
	fs := m.Descriptor().Fields()
	for i := range fs.Len() {
		fd := fs.Get(i)
		if r.Float64() > p || fd.ContainingOneof() != nil && r.IntN(3) != 0 {
			continue
		}
		scalar := func() protoreflect.Value {
			switch fd.Kind() {
			case protoreflect.BoolKind:
				return protoreflect.ValueOfBool(r.IntN(2) == 0)
			case protoreflect.Int32Kind, protoreflect.Sint32Kind:
				return protoreflect.ValueOfInt32([]int32{0, 1, 2, 3, 87, -1, math.MaxInt32, math.MinInt32}[r.IntN(8)])
			case protoreflect.Int64Kind:
				return protoreflect.ValueOfInt64([]int64{0, 1, 100, -1, math.MaxInt64, math.MinInt64}[r.IntN(6)])
			case protoreflect.Uint32Kind:
				return protoreflect.ValueOfUint32([]uint32{0, 1, math.MaxUint32}[r.IntN(3)])
			case protoreflect.StringKind:
				return protoreflect.ValueOfString("abcdefghijklmnop"[:r.IntN(16)])
			case protoreflect.BytesKind:
				return protoreflect.ValueOfBytes(h.rb(h.pick(0, 1, 20, 22, 26, 32, 32, 32, 64, 64, 33, 100)))
			case protoreflect.EnumKind:
				return protoreflect.ValueOfEnum(protoreflect.EnumNumber(r.IntN(12) - 1))
			}
			panic(fd.Kind().String())
		}
		switch {
		case fd.IsMap():
		case fd.IsList():
			l := m.Mutable(fd).List()
			for range 1 + r.IntN(2) {
				if fd.Kind() == protoreflect.MessageKind {
					e := l.NewElement()
					if depth > 0 {
						h.fill(e.Message(), depth-1, p)
					}
					l.Append(e)
				} else {
					l.Append(scalar())
				}
			}
		case fd.Kind() == protoreflect.MessageKind:
			e := m.NewField(fd)
			if depth > 0 {
				h.fill(e.Message(), depth-1, p)
			}
			m.Set(fd, e)
		default:
			m.Set(fd, scalar())
		}
	}
}

// protoHeader gives the message a valid header on top of a known block.
func (h *hostile) protoHeader(b *g.Block) {
	b.Header = &g.Block_Header{ChainId: int32(vScheme), Reference: h.parent().Bytes(), BaseTarget: 1 + h.r.Int64N(1000), GenerationSignature: h.rb(32),
		Timestamp: 1_700_000_000_000 + h.r.Int64N(1e9), Version: 5, Generator: vGenPKs[h.r.IntN(len(vGenPKs))].Bytes(), TransactionsRoot: h.rb(32)}
	b.Signature = h.rb(64)
}

func (h *hostile) protoFuzz() hframe {
	r := h.r
	b := &g.Block{}
	h.fill(b.ProtoReflect(), 6, []float64{0.5, 0.8, 0.95, 1}[r.IntN(4)])
	if r.IntN(3) != 0 {
		ch := (*g.Block_Header_ChallengedHeader)(nil)
		if b.Header != nil && r.IntN(2) == 0 {
			ch = b.Header.ChallengedHeader
		}
		h.protoHeader(b)
		b.Header.ChallengedHeader = ch
		switch r.IntN(8) {
		case 0:
			b.Header.Timestamp = []int64{-1, math.MinInt64, math.MaxInt64, int64(vBadTS)}[r.IntN(4)]
		case 1:
			b.Header.BaseTarget = []int64{0, -1, math.MinInt64, math.MaxInt64}[r.IntN(4)]
		case 2:
			b.Header.Version = []int32{0, 1, 4, 6, 255, 256, 261, -1, -251}[r.IntN(9)]
		case 3:
			b.Header.ChainId = []int32{0, 84, 256 + 87, -1}[r.IntN(4)]
		case 4:
			b.Header.Generator = h.rb(h.pick(0, 31, 33))
		case 5:
			b.Header.Reference = h.rb(h.pick(0, 31, 33, 63, 65))
		case 6:
			b.Signature = h.rb(h.pick(0, 63, 65))
		}
	}
	data, err := gproto.Marshal(b)
	if err != nil {
		return h.good()
	}
	return hframe{id: hPBBlock, payload: data, kind: "pb-fuzz"}
}

// bomb makes one of the messages that are cheap to send and expensive to handle.
func (h *hostile) bomb() hframe {
	r := h.r
	pbTx := func(kind string, tx *g.SignedTransaction) hframe {
		b := &g.Block{}
		h.protoHeader(b)
		b.Transactions = []*g.SignedTransaction{tx}
		data, err := gproto.Marshal(b)
		h.c.must(err)
		return hframe{id: hPBBlock, payload: data, kind: kind}
	}
	waves := func(tx *g.Transaction) *g.SignedTransaction {
		tx.ChainId, tx.SenderPublicKey, tx.Fee, tx.Timestamp, tx.Version = int32(vScheme), h.rb(32), &g.Amount{Amount: 1}, 1, 2
		return &g.SignedTransaction{Transaction: &g.SignedTransaction_WavesTransaction{WavesTransaction: tx}, Proofs: [][]byte{h.rb(64)}}
	}
	n := 12
	if !h.big {
		n = 9
	}
	switch r.IntN(n) {
	case 0, 1: // Counts of the binary encoding.
		f := h.block(false)
		for f.id != hBlock || proto.BlockVersion(f.payload[0]) < proto.NgBlockVersion {
			f = h.block(false)
		}
		cnt := []uint32{0x7fffffff, 0xffffffff, 0x80000000, 1 << 30, 1 << 28, 0xfffffff0}[r.IntN(6)]
		l := binary.BigEndian.Uint32(f.payload[117:])
		switch r.IntN(4) {
		case 0:
			binary.BigEndian.PutUint32(f.payload[117:], cnt)
		case 1:
			binary.BigEndian.PutUint32(f.payload[121+l:], cnt)
		default:
			binary.BigEndian.PutUint32(f.payload[121:], cnt)
		}
		f.kind = "count-bomb"
		return f
	case 2:
		f := h.block(false)
		for f.id != hBlock || proto.BlockVersion(f.payload[0]) >= proto.NgBlockVersion {
			f = h.block(false)
		}
		f.payload[121] = 255
		f.kind = "count-bomb"
		return f
	case 3:
		return pbTx("empty-tx", &g.SignedTransaction{})
	case 4:
		return pbTx("expression-tx", waves(&g.Transaction{Data: &g.Transaction_InvokeExpression{InvokeExpression: &g.InvokeExpressionTransactionData{Expression: h.rb(10)}}}))
	case 5:
		return pbTx("no-data-tx", waves(&g.Transaction{}))
	case 6: // Counts of the lists.
		cnt := []uint32{0x7fffffff, 0xffffffff, 0x80000000, 1 << 28}[r.IntN(4)]
		p := binary.BigEndian.AppendUint32(nil, cnt)
		return hframe{id: byte(h.pick(hPeers, hSignatures, hBlockIDs)), payload: append(p, h.rb(r.IntN(100))...), kind: "list-bomb"}
	case 7: // Odd sizes.
		return hframe{id: byte(h.pick(hInv, hBlock, hPBBlock, hBlockIDs, hSignatures, hPeers, hScore)), payload: h.rb(1 + r.IntN(300)), kind: "random"}
	case 8:
		return pbTx("nested-ok", waves(&g.Transaction{Data: &g.Transaction_InvokeScript{InvokeScript: &g.InvokeScriptTransactionData{
			DApp: &g.Recipient{Recipient: &g.Recipient_Alias{Alias: "alias"}}, FunctionCall: nestedCall(2000, r.IntN(2) == 0)}}}))
	case 9:
		return pbTx("nested-deep", waves(&g.Transaction{Data: &g.Transaction_InvokeScript{InvokeScript: &g.InvokeScriptTransactionData{
			DApp: &g.Recipient{Recipient: &g.Recipient_Alias{Alias: "alias"}}, FunctionCall: nestedCall(300_000, false)}}}))
	case 10:
		return hframe{id: hScore, payload: append([]byte{1}, make([]byte, 24<<20)...), kind: "huge-score"}
	default:
		return hframe{id: hBlockIDs, payload: h.ids(10_000), kind: "many-ids"}
	}
}

func nestedCall(n int, good bool) []byte {
	b := []byte{1, 9, 1}
	b = binary.BigEndian.AppendUint32(b, 4)
	b = append(b, "call"...)
	b = binary.BigEndian.AppendUint32(b, 1)
	for range n {
		b = append(b, 11, 0, 0, 0, 1)
	}
	if good {
		return append(b, 6)
	}
	return append(b, 99)
}

// broken makes a message that certainly does not parse.
func (h *hostile) broken() hframe {
	r := h.r
	f := hframe{kind: "broken", broken: true}
	switch r.IntN(6) {
	case 0:
		f.id, f.payload = hBlock, h.rb(1+r.IntN(120))
	case 1:
		f = h.block(true)
		f.kind, f.broken = "broken", true
		f.payload = append(f.payload[:len(f.payload)-2-r.IntN(60)], 0x0f)
	case 2:
		n := 1 + r.IntN(300)
		for n == 32*3+64 || n == 32+64*3 {
			n++
		}
		f.id, f.payload = hInv, h.rb(n)
	case 3:
		f.id, f.payload = byte(h.pick(hPeers, hSignatures, hBlockIDs)), append([]byte{0, 0, 1, 0}, h.rb(r.IntN(30))...)
	case 4:
		f.id, f.payload = byte(h.pick(0, 3, 19, 38, 63, 99, 101, 128, 255)), h.rb(r.IntN(50))
	case 5:
		f.id, f.payload = hScore, append(h.rb(1), make([]byte, 2000+r.IntN(2000))...)
		f.payload[0] |= 1
	}
	return f
}

// edge makes a block whose lengths and size are at the limits of each other.
func (h *hostile) edge() hframe {
	r := h.r
	const txs = 117 // position of the length of the transactions
	f := h.block(false)
	for f.id != hBlock {
		f = h.block(false)
	}
	p := append([]byte(nil), f.payload...)
	rest := len(p) - txs - 4
	n := h.pick(0, 0, 1, 3, 4, 5, rest, rest-1, rest+1, rest-3, rest-4, rest-96, rest-100, math.MaxInt32)
	binary.BigEndian.PutUint32(p[txs:], uint32(n))
	if r.IntN(3) > 0 { // And ends at a limit too.
		e := txs + 4 + h.pick(0, 0, 1, 2, 3, 4, 5, 8, 96, 100, max(n, 0), max(n, 0)+3, max(n, 0)+4, max(n, 0)+5)
		p = p[:max(txs, min(len(p), e))]
		if k := txs + 4 + n; n > 0 && k+4 == len(p) { // Count of features without features.
			binary.BigEndian.PutUint32(p[k:], []uint32{0, 1, 0x7fffffff, 0xffffffff}[r.IntN(4)])
		}
	}
	return hframe{id: hBlock, payload: p, kind: "edge-block"}
}

// next makes any hostile message.
func (h *hostile) next() hframe {
	switch x := h.r.IntN(100); {
	case x < 12:
		return h.good()
	case x < 50:
		return h.mutate(h.good())
	case x < 65:
		return h.protoFuzz()
	case x < 75:
		return h.mutate(h.protoFuzz())
	case x < 85:
		return h.broken()
	case x < 89:
		return h.edge()
	default:
		return h.bomb()
	}
}

func hugeScore(n uint) *big.Int { return new(big.Int).Lsh(big.NewInt(1), n) }
