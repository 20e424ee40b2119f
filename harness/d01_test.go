package main_test

import (
	"context"
	"errors"
	"fmt"
	"io"
	"math"
	"math/big"
	"net"
	"net/netip"
	"os"
	"slices"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"testing/synctest"
	"time"

	"github.com/wavesplatform/gowaves/pkg/crypto"
	"github.com/wavesplatform/gowaves/pkg/p2p/peer"
	"github.com/wavesplatform/gowaves/pkg/proto"

	"github.com/alexeykiselev/waves-fork-detector/loading"
	"github.com/alexeykiselev/waves-fork-detector/peers"
)

// handed is one item the distributor passed to the loader.
type handed struct {
	peer  netip.Addr
	ids   []proto.BlockID
	block *proto.Block
	may   bool // it is not specified whether this one is passed
}

func (h handed) String() string {
	if h.block != nil {
		return fmt.Sprintf("block %s from %s", h.block.BlockID().ShortString(), h.peer)
	}
	return fmt.Sprintf("%d IDs from %s", len(h.ids), h.peer)
}

func (h handed) same(o handed) bool {
	if h.peer != o.peer || (h.block == nil) != (o.block == nil) {
		return false
	}
	if h.block != nil {
		a, b := h.block, o.block
		return a.BlockID() == b.BlockID() && a.Parent == b.Parent && a.Timestamp == b.Timestamp && a.BaseTarget == b.BaseTarget &&
			a.GeneratorPublicKey == b.GeneratorPublicKey
	}
	if len(h.ids) != len(o.ids) {
		return false
	}
	for i := range h.ids {
		if h.ids[i] != o.ids[i] {
			return false
		}
	}
	return true
}

type dworld struct {
	c     *vc
	d     *detector
	rw    *regWorld
	cw    *chainWorld
	sess  []*fakePeer // several of one address are possible
	log   chan handed
	t0    time.Time
	pings int
	held  []*proto.Block // made but not delivered yet
	crowd bool           // many peers, long lists
	stall atomic.Int64   // the loader is busy for so long with the next item
	busy  time.Duration  // the same for settle
}

func newDworld(c *vc) *dworld {
	r := c.rng
	crowd := r.IntN(12) == 0
	w := &dworld{c: c, d: newDetector(c), log: make(chan handed, 4096)}
	w.rw = &regWorld{c: c, odd: []float64{0, 0.1, 0.4}[r.IntN(3)]}
	w.crowd = crowd
	n := 3 + r.IntN(6)
	if crowd {
		n = 60 + r.IntN(vScale(150, 400))
	}
	for i := range n {
		w.rw.addrs = append(w.rw.addrs, netip.AddrFrom4([4]byte{11, 0, byte(i), byte(1 + r.IntN(250))}))
	}
	w.rw.vers = []proto.Version{vVer15}
	if r.IntN(2) == 0 {
		w.rw.vers = append(w.rw.vers, proto.NewVersion(1, 4, 0), proto.NewVersion(1, 2, 0))
	}
	decl := netip.Addr{}
	if r.IntN(2) == 0 {
		decl = w.rw.addrs[0]
		w.rw.declared = vTCPAddr(decl, 6868)
	}
	w.d.vers, w.d.declared = w.rw.vers, w.rw.declared
	w.d.start(false, false)
	w.t0 = time.Now()
	w.rw.r, w.rw.m = w.d.reg, newRegModel(vScheme, decl, w.rw.vers)
	w.cw = &chainWorld{c: c, l: w.d.link, gen: vGenesis(), ts: 1_700_000_000_000, prof: chainProfile{peers: w.rw.addrs, idMode: 2, wildTimes: r.IntN(3) == 0}}
	w.cw.m = newChainModel(w.cw.gen)
	slow := r.IntN(3) == 0
	go func() { // Stands for the loader.
		ids, blocks := w.d.dist.IDsCh(), w.d.dist.BlockCh()
		for ids != nil || blocks != nil {
			select {
			case p, ok := <-ids:
				if !ok {
					ids = nil
					continue
				}
				w.log <- handed{peer: p.Peer, ids: p.IDs}
			case p, ok := <-blocks:
				if !ok {
					blocks = nil
					continue
				}
				w.log <- handed{peer: p.Peer, block: p.Block}
			}
			if slow {
				time.Sleep(3 * time.Millisecond)
			}
			time.Sleep(time.Duration(w.stall.Swap(0)))
		}
	}()
	var _ = loading.IDsPackage{}
	return w
}

// wire passes the message through its network representation.
func (w *dworld) wire(m proto.Message) proto.Message {
	b, err := m.MarshalBinary()
	w.c.must(err)
	r, err := proto.UnmarshalMessage(b)
	w.c.must(err)
	return r
}

func (w *dworld) live() *fakePeer {
	if len(w.sess) == 0 {
		return nil
	}
	return w.sess[w.c.rng.IntN(len(w.sess))]
}

func (w *dworld) randIDs(n int) []proto.BlockID {
	ids := make([]proto.BlockID, 0, n)
	for range n {
		if w.c.rng.IntN(2) == 0 {
			ids = append(ids, w.cw.m.order[w.c.rng.IntN(len(w.cw.m.order))].id)
		} else {
			ids = append(ids, w.cw.newID())
		}
	}
	return ids
}

// newBlock makes a block that can be sent in one of the encodings.
func (w *dworld) newBlock(parent proto.BlockID) *proto.Block {
	r := w.c.rng
	digest := r.IntN(2) == 0 || !parent.IsSignature()
	b := vRealBlock(w.c, parent, w.cw.timestamp(), []uint64{0, 1, 50, 100, 1 << 40, math.MaxInt64}[r.IntN(6)], digest)
	if r.IntN(3) == 0 {
		txs := proto.Transactions{}
		for range 1 + r.IntN(4) {
			txs = append(txs, vTransfer(w.c))
		}
		b.Transactions, b.TransactionCount = txs, len(txs)
	}
	if !digest {
		b.Version = proto.BlockVersion(1 + r.IntN(4))
		if b.Version >= proto.NgBlockVersion && r.IntN(2) == 0 {
			b.Features = []int16{1, 2, int16(r.IntN(100))}
			b.FeaturesCount = len(b.Features)
		}
		if b.Version >= proto.NgBlockVersion {
			b.TransactionBlockLength = uint32(b.Transactions.BinarySize() + 4)
		} else {
			b.TransactionBlockLength = uint32(b.Transactions.BinarySize() + 1)
		}
	}
	if b.Version >= proto.RewardBlockVersion {
		b.RewardVote = []int64{-1, 0, 600_000_000, -2, math.MaxInt64, math.MinInt64}[r.IntN(6)]
	}
	if b.Version == proto.ProtobufBlockVersion && r.IntN(4) == 0 {
		b.Features = []int16{int16(r.IntN(100)), 15}
		b.FeaturesCount = 2
	}
	w.c.must(b.GenerateBlockID(vScheme))
	return b
}

// effect is what one message must do.
type effect struct {
	fp    *fakePeer
	msg   proto.Message
	what  string
	hands []handed
	reply []netip.AddrPort // nil: none
	kind  string
}

func (w *dworld) friendly() []netip.AddrPort {
	l := []netip.AddrPort{}
	for pa, mp := range w.rw.m.recs {
		if mp.state == peers.PeerConnected {
			l = append(l, netip.AddrPortFrom(pa, mp.port))
		}
	}
	return l
}

// make generates a message of a live session and applies its effect to the models.
func (w *dworld) make() *effect {
	r := w.c.rng
	fp := w.live()
	if fp == nil {
		return nil
	}
	a := fp.addr.Addr()
	e := &effect{fp: fp}
	block := func(b *proto.Block) {
		e.msg = w.wire(vBlockMessage(w.c, b))
		old := false
		if b.Version < proto.ProtobufBlockVersion && r.IntN(5) == 0 { // Older blocks can be sent in the newer encoding.
			bs, err := b.MarshalToProtobuf(vScheme)
			w.c.must(err)
			e.msg, old = w.wire(&proto.PBBlockMessage{PBBlockBytes: bs}), true
		}
		res := w.cw.m.put(b, a)
		e.kind = "block-" + res
		if old {
			e.kind = "oldpb-" + e.kind
		}
		if b.Version >= proto.ProtobufBlockVersion {
			e.kind = "pb" + e.kind
		}
		e.what = fmt.Sprintf("%s %s on %s", e.kind, b.BlockID().ShortString(), w.cw.name(b.Parent))
		e.hands = append(e.hands, handed{peer: a, block: b})
		w.cw.known = append(w.cw.known, b)
	}
	switch x := r.IntN(100); {
	case x < 22: // a good block
		block(w.newBlock(w.cw.pickParent(a).id))
	case x < 28: // a block the parent of which comes later
		p := w.newBlock(w.cw.pickParent(a).id)
		w.held = append(w.held, p)
		block(w.newBlock(p.BlockID()))
	case x < 33: // that parent, or a repeated block
		if len(w.held) > 0 && r.IntN(2) == 0 {
			b := w.held[len(w.held)-1]
			w.held = w.held[:len(w.held)-1]
			block(b)
		} else if len(w.cw.known) > 0 {
			block(w.cw.known[r.IntN(len(w.cw.known))])
		} else {
			block(w.newBlock(w.cw.newID()))
		}
	case x < 38: // out of range, a refused block changes nothing
		b := w.newBlock(w.cw.m.order[r.IntN(len(w.cw.m.order))].id)
		if b.Version >= proto.ProtobufBlockVersion {
			b.Timestamp = vBadTS + r.Uint64N(1<<40)
		} else if r.IntN(2) == 0 {
			b.Timestamp = []uint64{vBadTS, math.MaxInt64, math.MaxUint64}[r.IntN(3)]
		} else {
			b.BaseTarget = []uint64{1 << 63, math.MaxUint64}[r.IntN(2)]
		}
		w.c.must(b.GenerateBlockID(vScheme))
		e.msg = w.wire(vBlockMessage(w.c, b))
		e.kind, e.what = "block-invalid", fmt.Sprintf("out-of-range block v%d", b.Version)
		e.hands = append(e.hands, handed{peer: a, block: b, may: true})
		w.cw.refused = append(w.cw.refused, b.BlockID())
	case x < 44: // malformed bytes
		e.kind, e.what = "malformed", "malformed block"
		m := vBlockMessage(w.c, w.newBlock(w.cw.pickParent(a).id))
		switch v := m.(type) {
		case *proto.BlockMessage:
			v.BlockBytes = v.BlockBytes[:r.IntN(120)]
		case *proto.PBBlockMessage:
			v.PBBlockBytes = append(v.PBBlockBytes[:len(v.PBBlockBytes)-2-r.IntN(60)], 0x0f)
		}
		e.msg = m
		if r.IntN(3) == 0 {
			e.what = "malformed micro-block announcement"
			e.msg = &proto.MicroBlockInvMessage{Body: make([]byte, r.IntN(100))}
		}
	case x < 56:
		ref := w.cw.pickParent(a)
		inv := w.cw.newInv(ref.id)
		if r.IntN(6) == 0 {
			inv.Reference = w.cw.newID()
		}
		for inv.TotalBlockID.IsSignature() != inv.Reference.IsSignature() { // The format has no mixed IDs.
			inv.TotalBlockID = w.cw.newID()
		}
		if len(w.cw.invs) > 0 && r.IntN(4) == 0 {
			inv = w.cw.invs[r.IntN(len(w.cw.invs))]
		}
		body, err := inv.MarshalBinary()
		w.c.must(err)
		e.msg = w.wire(&proto.MicroBlockInvMessage{Body: body})
		res := "genesis" // There are no micro-blocks of it.
		if inv.Reference != w.cw.m.genesis().id {
			res = w.cw.m.putMicro(inv, a)
		}
		e.kind, e.what = "micro-"+res, fmt.Sprintf("micro-block %s on %s: %s", w.cw.name(inv.TotalBlockID), w.cw.name(inv.Reference), res)
		if res == "noref" || res == "genesis" {
			w.cw.refused = append(w.cw.refused, inv.TotalBlockID)
		} else {
			w.cw.invs = append(w.cw.invs, inv)
		}
	case x < 68:
		b := make([]byte, []int{1, 2, 3, 7, 8, 9, 10, 12, 16, 17, 32, 33, 40, 100, 255, 256, 257, 512, 1023, 1024}[r.IntN(20)])
		for i := range b {
			b[i] = byte(r.Uint32())
		}
		switch r.IntN(8) {
		case 0, 1:
			b[0] = 0
		case 2, 3:
			b[0] |= 0x80
		case 4:
			b[0] = 0xff
		}
		e.msg = w.wire(&proto.ScoreMessage{Score: b})
		e.kind, e.what = "score", fmt.Sprintf("score %x", b)
		if mp := w.rw.m.recs[a]; mp != nil {
			mp.score = new(big.Int).SetBytes(b)
		}
	case x < 76:
		n := []int{1, 2, 5, 100, 101, 300}[r.IntN(6)]
		if r.IntN(10) == 0 {
			n = 1000 + r.IntN(4000)
		}
		ids := w.randIDs(n)
		e.hands = append(e.hands, handed{peer: a, ids: ids})
		e.kind, e.what = "ids", fmt.Sprintf("%d IDs", n)
		if r.IntN(3) == 0 {
			sigs := make([]crypto.Signature, n)
			for i := range ids {
				if !ids[i].IsSignature() {
					ids[i] = proto.NewBlockIDFromSignature(crypto.Signature{byte(i), byte(r.Uint32())})
				}
				sigs[i] = ids[i].Signature()
			}
			e.kind, e.what = "signatures", fmt.Sprintf("%d signatures", n)
			e.msg = w.wire(&proto.SignaturesMessage{Signatures: sigs})
		} else {
			e.msg = w.wire(&proto.BlockIdsMessage{Blocks: ids})
		}
	case x < 84:
		e.msg = w.wire(&proto.GetPeersMessage{})
		e.kind, e.what = "get-peers", "peers request"
		e.reply = w.friendly()
	case x < 92:
		as := []*net.TCPAddr{}
		infos := []proto.PeerInfo{}
		ann := w.rw.announcement()
		if w.crowd && r.IntN(3) == 0 {
			for range []int{50, 101, 300, 1001, 2500}[r.IntN(5)] {
				ann = append(ann, &net.TCPAddr{IP: net.IPv4(78, byte(r.IntN(4)), byte(r.IntN(256)), byte(r.IntN(256))), Port: 1 + r.IntN(65535)})
			}
		}
		for _, t := range ann {
			if ip4 := t.IP.To4(); ip4 != nil {
				as = append(as, t)
				infos = append(infos, proto.PeerInfo{Addr: ip4, Port: uint16(t.Port)})
			}
		}
		e.msg = &proto.PeersMessage{Peers: infos}
		if len(infos) <= 1000 { // More are read, but not written by the library.
			e.msg = w.wire(e.msg)
		}
		n := w.rw.m.appendAddrs(as)
		e.kind, e.what = "peers", fmt.Sprintf("%d addresses, %d new", len(as), n)
	default:
		e.kind = "other"
		e.msg = []proto.Message{
			&proto.GetBlockMessage{BlockID: w.cw.m.order[0].id}, &proto.GetBlockIdsMessage{Blocks: w.randIDs(2)}, &proto.TransactionMessage{Transaction: []byte{1, 2, 3}},
			&proto.GetSignaturesMessage{Signatures: []crypto.Signature{{1}}}, &proto.MicroBlockRequestMessage{TotalBlockSig: []byte{1}}, &proto.PBMicroBlockMessage{},
			&proto.PBTransactionMessage{Transaction: []byte{1}}, &proto.CheckPointMessage{}, &proto.MicroBlockMessage{Body: []byte{1, 2}},
			&proto.GetBlockSnapshotMessage{BlockID: w.cw.m.order[0].id}, &proto.BlockSnapshotMessage{Bytes: []byte{1}}, &proto.MicroBlockSnapshotMessage{Bytes: []byte{1}}, nil,
		}[r.IntN(13)]
		e.what = fmt.Sprintf("%T", e.msg)
	}
	w.c.count("msg_"+e.kind, 1)
	return e
}

// deliver sends the messages at once and checks the sum of their effects.
func (w *dworld) deliver(es []*effect) {
	c := w.c
	var exp []handed
	replies := map[*fakePeer][][]netip.AddrPort{}
	for _, e := range es {
		c.op("%s: %s", e.fp.addr.Addr(), e.what)
		exp = append(exp, e.hands...)
		if e.reply != nil {
			replies[e.fp] = append(replies[e.fp], e.reply)
		}
		w.d.message(e.fp, e.msg)
	}
	w.settle()
	w.checkHanded(exp)
	for _, fp := range w.sess {
		a := fp.addr.Addr()
		got := fp.takeSent()
		exp := replies[fp]
		c.check(len(got) == len(exp), "replies", "%d peers requests of %s got %d messages in answer", len(exp), a, len(got))
		for i, m := range got {
			pm, ok := m.(*proto.PeersMessage)
			c.check(ok, "reply-type", "%s got %T in answer to its peers request", a, m)
			ss := []string{}
			for _, pi := range pm.Peers {
				ip, _ := netip.AddrFromSlice(pi.Addr)
				ss = append(ss, netip.AddrPortFrom(ip.Unmap(), pi.Port).String())
			}
			es := []string{}
			for _, ap := range exp[i] {
				es = append(es, ap.String())
			}
			sort.Strings(ss)
			sort.Strings(es)
			c.check(strings.Join(ss, " ") == strings.Join(es, " "), "reply", "answer to the peers request of %s lists %v, expected %v", a, ss, es)
		}
	}
	w.checkState()
}

func (w *dworld) settle() {
	if w.busy > 0 {
		time.Sleep(w.busy + 500*time.Millisecond)
		w.busy = 0
	}
	synctest.Wait()
	for range 400 { // The slow consumer.
		if len(w.d.parent.MessageCh) == 0 && len(w.d.parent.InfoCh) == 0 {
			break
		}
		time.Sleep(5 * time.Millisecond)
		synctest.Wait()
	}
	w.c.check(len(w.d.parent.MessageCh) == 0 && len(w.d.parent.InfoCh) == 0, "stuck",
		"%d messages and %d events are not handled", len(w.d.parent.MessageCh), len(w.d.parent.InfoCh))
	time.Sleep(5 * time.Millisecond)
	synctest.Wait()
}

func (w *dworld) checkHanded(exp []handed) {
	c := w.c
	var got []handed
	for len(w.log) > 0 {
		got = append(got, <-w.log)
	}
	i := 0
	for _, e := range exp {
		if i < len(got) && got[i].same(e) {
			i++
			continue
		}
		if e.may {
			continue
		}
		what := "nothing"
		if i < len(got) {
			what = got[i].String()
		}
		c.fail("handed", "%s was to be handed to the loader, but it got %s at this place; all expected: %v, all handed: %v", e, what, exp, got)
	}
	if i < len(got) {
		c.fail("handed-extra", "the loader was handed %s that no message of that peer contains at this place", got[i])
	}
	c.count("handed", len(got))
}

func (w *dworld) checkState() {
	w.rw.checkAll()
	w.cw.checkBlocks(false)
	w.cw.checkLeashes()
	for _, a := range w.rw.addrs {
		w.cw.checkLeash(a)
	}
}

// fail ends a session, for whatever reason.
func (w *dworld) fail(fp *fakePeer, n int) {
	c, a := w.c, fp.addr.Addr()
	err := []error{errors.New("connection reset"), io.EOF, io.ErrUnexpectedEOF, net.ErrClosed, context.Canceled, context.DeadlineExceeded, os.ErrDeadlineExceeded, syscall.ECONNRESET,
		fmt.Errorf("reading: %w", io.EOF), &net.OpError{Op: "read", Net: "tcp", Err: syscall.EPIPE}}[c.rng.IntN(10)]
	c.op("%s fails with %v, one session of %d", a, err, n)
	c.count("failures", 1)
	w.d.parent.InfoCh <- peer.InfoMessage{Peer: fp, Value: &peer.InternalErr{Err: err}}
	w.settle()
	c.check(fp.closed(), "fail-not-closed", "the failed session of %s is not closed", a)
	w.rw.m.unregister(a, fp)
	w.sess = slices.DeleteFunc(w.sess, func(s *fakePeer) bool { return s == fp })
	w.checkState()
}

// connect or disconnect somebody.
func (w *dworld) churn() {
	c, r := w.c, w.c.rng
	a := w.rw.addr()
	var own []*fakePeer
	for _, fp := range w.sess {
		if fp.addr.Addr() == a {
			own = append(own, fp)
		}
	}
	if n := len(own); n > 0 && r.IntN(4) > 0 {
		w.fail(own[r.IntN(n)], n)
		return
	}
	ver, ok := w.rw.doSuggest(a)
	if !ok {
		if r.IntN(2) == 0 {
			return
		}
		ver = w.rw.m.recs[a].ver
	}
	fp := newFakePeer(a, w.rw.handshake(a, ver))
	res, old := w.rw.m.register(a, fp, fp.hs)
	c.op("%s connects app=%q v%s: %s", a, fp.hs.AppName, fp.hs.Version, res)
	c.count("connect_"+res, 1)
	w.d.connect(fp)
	w.settle()
	c.check(fp.closed() == (res != "ok"), "connect", "session of %s (%s) closed: %v", a, res, fp.closed())
	c.check(len(fp.takeSent()) == 0, "greeting", "a message is sent at connection")
	if res == "ok" {
		w.sess = append(w.sess, fp)
		c.max("max_sessions_of_one", len(own)+1)
	}
	for _, o := range old {
		c.check(o.closed(), "connect", "older session of the hostile peer %s is not closed", a)
		w.sess = slices.DeleteFunc(w.sess, func(s *fakePeer) bool { return s == o })
	}
	w.checkState()
}

// pass lets time go by and counts the requests for peers.
func (w *dworld) pass(dt time.Duration) {
	c := w.c
	for _, fp := range w.sess {
		fp.takeSent()
	}
	time.Sleep(dt)
	if d := time.Since(w.t0) % time.Minute; d < 100*time.Millisecond || d > 59900*time.Millisecond {
		time.Sleep(200 * time.Millisecond)
	}
	synctest.Wait()
	n := int(time.Since(w.t0) / time.Minute)
	got := map[netip.Addr]int{}
	for _, fp := range w.sess {
		s := fp.takeSent()
		for _, m := range s {
			_, ok := m.(*proto.GetPeersMessage)
			c.check(ok, "ping-type", "%s is sent %T without any reason", fp.addr, m)
		}
		got[fp.addr.Addr()] += len(s)
		c.count("pings", len(s))
	}
	for a, k := range got {
		c.check(k == n-w.pings, "ping", "%s got %d peers requests in %s (minutes %d to %d)", a, k, dt, w.pings, n)
	}
	w.pings = n
}

func messagesCase(c *vc) {
	w := newDworld(c)
	r := c.rng
	steps := vScale(90, 400)
	if w.crowd {
		steps = 12
		for _, a := range w.rw.addrs {
			if r.IntN(5) == 0 || w.rw.m.recs[a] != nil {
				continue
			}
			ver, ok := w.rw.doSuggest(a)
			if !ok {
				continue
			}
			fp := newFakePeer(a, w.rw.handshake(a, ver))
			res, _ := w.rw.m.register(a, fp, fp.hs)
			w.d.connect(fp)
			if res == "ok" {
				w.sess = append(w.sess, fp)
			}
		}
		w.settle()
		w.checkState()
		c.op("%d of %d peers are connected", len(w.sess), len(w.rw.addrs))
		c.max("max_sessions", len(w.sess))
		if fp := w.live(); fp != nil {
			e := &effect{fp: fp, msg: w.wire(&proto.GetPeersMessage{}), kind: "get-peers", what: "peers request", reply: w.friendly()}
			w.pass(0)
			w.deliver([]*effect{e})
		}
	}
	for range steps {
		switch x := r.IntN(20); {
		case len(w.sess) == 0 && x < 5: // Nobody is connected for a while.
			w.pass([]time.Duration{20 * time.Second, 61 * time.Second, 3 * time.Minute}[r.IntN(3)])
			c.count("lonely", 1)
		case x == 10 && r.IntN(3) == 0 && len(w.sess) < 5: // Everybody goes.
			for len(w.sess) > 0 {
				w.fail(w.sess[r.IntN(len(w.sess))], len(w.sess))
			}
		case x < 3 || len(w.sess) == 0:
			w.churn()
		case x < 5:
			w.pass([]time.Duration{time.Millisecond, 20 * time.Second, 61 * time.Second, 3 * time.Minute, 11 * time.Minute}[r.IntN(5)])
		case x < 6: // Events and messages of no meaning.
			if fp := w.live(); fp != nil {
				w.d.parent.InfoCh <- peer.InfoMessage{Peer: fp, Value: nil}
				w.d.message(fp, nil)
				w.settle()
				w.checkHanded(nil)
				w.checkState()
			}
		default:
			var es []*effect
			n := 1
			if r.IntN(3) == 0 {
				n = 2 + r.IntN(30)
			}
			for range n {
				if e := w.make(); e != nil {
					es = append(es, e)
				}
			}
			w.pass(0)
			if len(es) > 1 && r.IntN(4) == 0 { // No request for peers is due until the loader goes on.
				d := []time.Duration{25 * time.Millisecond, 300 * time.Millisecond, 2500 * time.Millisecond, 9 * time.Second}[r.IntN(4)]
				if left := time.Minute - time.Since(w.t0)%time.Minute; left < d+5*time.Second {
					w.pass(left + time.Second)
				}
				w.stall.Store(int64(d))
				w.busy = d
				c.op("the loader is busy for %s", d)
				c.count("stalls", 1)
			}
			w.deliver(es)
			w.stall.Store(0)
			kinds := []any{len(w.cw.m.order), len(w.sess)}
			for _, e := range es {
				kinds = append(kinds, e.kind)
			}
			c.eval(vHash(kinds...))
		}
	}
	w.cw.checkBlocks(true)
	c.sampleTrace(20)
	w.d.shutdown(nil)
	w.d.start(false, false)
	w.rw.r, w.cw.l = w.d.reg, w.d.link
	w.rw.m.restart()
	w.checkState()
	w.cw.checkBlocks(true)
	w.d.shutdown(nil)
	time.Sleep(2 * time.Minute)
}

// ---- over real sessions ----------------------------------------------------------------------

// tworld is the network layer and the distributor over real TCP, with a recorder in place of the loader.
type tworld struct {
	c    *vc
	d    *detector
	n    byte
	nh   int
	cw   *chainWorld
	ses  []*tsess
	mu   sync.Mutex
	got  []handed
	seen map[netip.Addr]int // what the recorder has of each session
	ip   uint16
}

type tsess struct {
	a     netip.Addr
	p     *tcpPeer
	sent  []handed // whatever was sent to be handed, with the repetitions
	tip   proto.BlockID
	score uint64
}

func (w *tworld) from() netip.Addr {
	w.nh++
	return netip.AddrFrom4([4]byte{127, w.n, byte(1 + w.nh/250), byte(1 + w.nh%250)})
}

// open makes a session, in either direction.
func (w *tworld) open(outbound bool) {
	c := w.c
	s := &tsess{a: w.from()}
	hs := vHandshake(s.a, 0, vVer15, "n-"+s.a.String())
	if !outbound {
		cn, err := vDialFrom(s.a, w.d.bind.String(), 5*time.Second)
		c.noErr(err, "listen", "connecting to the detector")
		s.p, err = vShake(cn, hs, true, 15*time.Second)
		c.noErr(err, "handshake", "handshake of %s", s.a)
	} else {
		l, err := net.Listen("tcp", s.a.String()+":0")
		c.must(err)
		defer func() { _ = l.Close() }()
		go func() { _ = w.d.cm.Connect(w.d.ctx, vTCPAddr(s.a, l.Addr().(*net.TCPAddr).Port)) }()
		c.must(l.(*net.TCPListener).SetDeadline(time.Now().Add(15 * time.Second)))
		cn, err := l.Accept()
		c.noErr(err, "outbound", "waiting for the detector to connect to %s", s.a)
		s.p, err = vShake(cn, hs, false, 15*time.Second)
		c.noErr(err, "handshake", "handshake of %s", s.a)
	}
	go s.p.run()
	c.check(vEventually(20*time.Second, func() bool {
		cs, err := w.d.reg.Connections()
		c.noErr(err, "query-error", "Connections")
		for _, p := range cs {
			if p.AddressPort.Addr() == s.a {
				return true
			}
		}
		return false
	}), "connect", "%s is not connected 20 s after its handshake", s.a)
	gen := vGenesis()
	s.tip = gen.BlockID()
	w.ses = append(w.ses, s)
}

// handedOK compares all the recorder got with what was sent. The network layer may drop messages when it's
// overloaded, otherwise everything is handed once, in order, and for its sender.
func (w *tworld) handedOK() {
	w.mu.Lock()
	got := w.got
	w.got = nil
	w.mu.Unlock()
	for _, g := range got {
		var s *tsess
		for _, x := range w.ses {
			if x.a == g.peer {
				s = x
			}
		}
		w.c.check(s != nil, "wire-handed", "%s, that no session sent, is handed to the loader", g)
		i := w.seen[s.a]
		for i < len(s.sent) && !s.sent[i].same(g) {
			i++
		}
		w.c.check(i < len(s.sent), "wire-handed", "%s was handed to the loader, but it was not sent at this place; sent: %v", g, s.sent[w.seen[s.a]:])
		w.seen[s.a] = i + 1
		w.c.count("wire_handed", 1)
	}
}

// last tells if the last sent item of the session has been handed.
func (w *tworld) last(s *tsess) func() bool {
	return func() bool {
		w.handedOK()
		return w.seen[s.a] == len(s.sent)
	}
}

// exchange sends the message until its effect is seen.
func (w *tworld) exchange(s *tsess, kind string, m proto.Message, hand *handed, done func() bool) {
	c := w.c
	c.op("%s: %s", s.a, kind)
	end := time.Now().Add(40 * time.Second)
	for i := 0; ; i++ {
		if hand != nil {
			s.sent = append(s.sent, *hand)
		}
		c.noErr(s.p.send(m), "wire-send", "sending %s to the detector over a good session", kind)
		if vEventually(4*time.Second, done) {
			break
		}
		c.check(time.Now().Before(end), "wire-"+kind, "%s sent by %s %d times during 40 s had no effect", kind, s.a, i+1)
	}
	w.handedOK()
	c.count("wire_"+kind, 1)
	c.eval(vHash(kind, len(w.ses), len(s.sent)))
}

func (w *tworld) block(s *tsess, kind string) {
	c := w.c
	par := s.tip
	b := vRealBlock(c, par, w.cw.timestamp(), 100, kind == "pb-block" || !par.IsSignature())
	if kind == "large-block" {
		tx := vTransfer(c)
		b.TransactionCount = 1 + (500_000+c.rng.IntN(2_500_000))/tx.BinarySize()
		b.Transactions = slices.Repeat(proto.Transactions{tx}, b.TransactionCount)
		if b.Version < proto.ProtobufBlockVersion {
			b.Version = proto.NgBlockVersion
			b.TransactionBlockLength = uint32(b.Transactions.BinarySize() + 4)
		}
		c.must(b.GenerateBlockID(vScheme))
		c.max("max_block_bytes", b.Transactions.BinarySize())
	}
	if b.Version >= proto.ProtobufBlockVersion {
		kind = "pb-" + strings.TrimPrefix(kind, "pb-")
	}
	h := handed{peer: s.a, block: b}
	last := w.last(s)
	w.exchange(s, kind, vBlockMessage(c, b), &h, func() bool {
		id, err := w.d.link.Leash(s.a)
		return err == nil && id == b.BlockID() && last()
	})
	s.tip = b.BlockID()
}

// size picks the length of a list, a long one now and then.
func (w *tworld) size(short int) int {
	r := w.c.rng
	if r.IntN(6) == 0 {
		n := []int{1000, 1024, 1 + r.IntN(2000), 1 + r.IntN(20000)}[r.IntN(4)]
		w.c.max("max_list", n)
		return n
	}
	return 1 + r.IntN(short)
}

func (w *tworld) step(s *tsess) {
	c, r := w.c, w.c.rng
	switch x := r.IntN(10); x {
	case 9:
		w.block(s, "large-block")
	case 0:
		s.score += 1 + r.Uint64N(1<<40)
		v := new(big.Int).SetUint64(s.score)
		w.exchange(s, "score", &proto.ScoreMessage{Score: v.Bytes()}, nil, func() bool {
			p, err := w.d.reg.Peer(s.a)
			return err == nil && p.Score != nil && p.Score.Cmp(v) == 0
		})
	case 1:
		w.block(s, "block")
	case 2:
		w.block(s, "pb-block")
	case 3:
		if gen := vGenesis(); s.tip == gen.BlockID() {
			w.block(s, "block")
		}
		inv := w.cw.newInv(s.tip)
		for inv.TotalBlockID.IsSignature() != inv.Reference.IsSignature() {
			inv.TotalBlockID = w.cw.newID()
		}
		body, err := inv.MarshalBinary()
		c.must(err)
		w.exchange(s, "micro-block", &proto.MicroBlockInvMessage{Body: body}, nil, func() bool {
			id, lErr := w.d.link.Leash(s.a)
			return lErr == nil && id == inv.TotalBlockID
		})
		s.tip = inv.TotalBlockID
	case 4:
		n := w.size(120)
		sigs, ids := make([]crypto.Signature, n), make([]proto.BlockID, n)
		for i := range sigs {
			for j := range 8 {
				sigs[i][j] = byte(r.Uint32())
			}
			ids[i] = proto.NewBlockIDFromSignature(sigs[i])
		}
		w.exchange(s, "signatures", &proto.SignaturesMessage{Signatures: sigs}, &handed{peer: s.a, ids: ids}, w.last(s))
	case 5:
		n := w.size(120)
		ids := make([]proto.BlockID, n)
		for i := range ids {
			ids[i] = w.cw.newID()
		}
		w.exchange(s, "block-ids", &proto.BlockIdsMessage{Blocks: ids}, &handed{peer: s.a, ids: ids}, w.last(s))
	case 6:
		before := len(s.p.messages())
		exp := map[string]bool{}
		for _, x := range w.ses {
			exp[x.a.String()] = true
		}
		w.exchange(s, "get-peers", &proto.GetPeersMessage{}, nil, func() bool {
			for _, m := range s.p.messages()[before:] {
				pm, ok := m.(*proto.PeersMessage)
				if !ok {
					_, gp := m.(*proto.GetPeersMessage)
					c.check(gp, "wire-reply-type", "%s got %T in answer to its peers request", s.a, m)
					continue
				}
				ss := map[string]bool{}
				for _, pi := range pm.Peers {
					ip, _ := netip.AddrFromSlice(pi.Addr)
					ss[ip.Unmap().String()] = true
				}
				c.check(len(ss) == len(exp) && len(ss) == len(pm.Peers), "wire-reply", "answer to the peers request of %s lists %v, connected are %v", s.a, ss, exp)
				for a := range exp {
					c.check(ss[a], "wire-reply", "answer to the peers request of %s lists %v, connected are %v", s.a, ss, exp)
				}
				return true
			}
			return false
		})
	case 7:
		var pm proto.PeersMessage
		var as []netip.Addr
		for range min(1000, w.size(40)) { // That is all the message can hold.
			w.ip++
			a := netip.AddrFrom4([4]byte{240, w.n, byte(w.ip >> 8), byte(w.ip)}) // Nothing is sent there.
			as = append(as, a)
			pm.Peers = append(pm.Peers, proto.PeerInfo{Addr: net.IP(a.AsSlice()), Port: 1})
		}
		w.exchange(s, "peers", &pm, nil, func() bool {
			for _, a := range as {
				if p, err := w.d.reg.Peer(a); err != nil || p.AddressPort.Port() != 1 {
					return false
				}
			}
			return true
		})
	default: // Of no interest to the program; the session goes on.
		ms := []proto.Message{
			&proto.GetBlockMessage{BlockID: s.tip}, &proto.GetBlockIdsMessage{Blocks: []proto.BlockID{w.cw.newID(), w.cw.newID()}}, &proto.TransactionMessage{Transaction: []byte{1, 2, 3}},
			&proto.GetSignaturesMessage{Signatures: []crypto.Signature{{1}}}, &proto.PBTransactionMessage{Transaction: []byte{1}}, &proto.MicroBlockMessage{Body: make([]byte, 1+r.IntN(200))},
			&proto.GetBlockSnapshotMessage{BlockID: w.cw.newID()}, &proto.BlockSnapshotMessage{Bytes: make([]byte, 1+r.IntN(2000))}, &proto.MicroBlockSnapshotMessage{Bytes: []byte{1}},
			&proto.PBMicroBlockMessage{MicroBlockBytes: make([]byte, 1+r.IntN(300))}, &proto.MicroBlockRequestMessage{TotalBlockSig: make([]byte, 64)},
		}
		m := ms[r.IntN(len(ms))]
		c.op("%s: %T", s.a, m)
		if _, err := m.MarshalBinary(); err != nil {
			return
		}
		c.noErr(s.p.send(m), "wire-send", "sending %T to the detector over a good session", m)
		c.count("wire_other", 1)
	}
}

// wireMessages sends all kinds of messages over real sessions of both directions.
func wireMessages(c *vc) {
	r := c.rng
	w := &tworld{c: c, d: newDetector(c), n: byte(10 + vNetSeq.Add(1)%200), seen: map[netip.Addr]int{}}
	self := netip.AddrFrom4([4]byte{127, w.n, 255, 254})
	w.d.bind = vTCPAddr(self, vFreePort(self.String()))
	if r.IntN(4) != 0 {
		w.d.declared = w.d.bind
	}
	w.d.start(true, false)
	w.cw = &chainWorld{c: c, l: w.d.link, gen: vGenesis(), ts: 1_700_000_000_000, prof: chainProfile{idMode: 2}}
	go func() { // Stands for the loader.
		ids, blocks := w.d.dist.IDsCh(), w.d.dist.BlockCh()
		for ids != nil || blocks != nil {
			var h handed
			select {
			case p, ok := <-ids:
				if !ok {
					ids = nil
					continue
				}
				h = handed{peer: p.Peer, ids: p.IDs}
			case p, ok := <-blocks:
				if !ok {
					blocks = nil
					continue
				}
				h = handed{peer: p.Peer, block: p.Block}
			}
			w.mu.Lock()
			w.got = append(w.got, h)
			w.mu.Unlock()
		}
	}()
	for range 1 + r.IntN(3) {
		w.open(w.d.declared.Empty() || r.IntN(2) == 0) // Without a declared address there are no inbound sessions.
	}
	for range vScale(120, 600) {
		w.step(w.ses[r.IntN(len(w.ses))])
	}
	for _, s := range w.ses {
		w.block(s, "block")
		_ = s.p.conn.Close()
	}
	w.handedOK()
	c.sampleTrace(20)
	w.d.shutdown(nil)
}

func TestD01(t *testing.T) {
	r := vStart(t, "D01", "A case is a history of sessions and network messages given to the real distributor (with a recorder in place of the loader), in virtual time. "+
		"Every message, alone or in a burst, is compared with reference models of the block tree, leashes, address book and sessions, with the answers sent to every peer and with what "+
		"the loader is handed, in order; or messages of all kinds are sent over real TCP sessions, made in either direction, and each must have its effect. One evaluation is one burst and its complete comparison; distinct by kinds of messages, number of blocks and of sessions.")
	r.run(vCases(vScale(8, 64), "wire", wireMessages), 8)
	r.runSync(vCases(vScale(192, 3000), "messages", messagesCase), 0)
	r.finish()
}
