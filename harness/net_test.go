package main_test

// The detector assembled as in main, once over fake sessions and once over real TCP,
// and a scriptable network peer.

import (
	"bufio"
	"bytes"
	"context"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/netip"
	"sync"
	"sync/atomic"
	"time"

	"github.com/wavesplatform/gowaves/pkg/crypto"
	"github.com/wavesplatform/gowaves/pkg/p2p/peer"
	"github.com/wavesplatform/gowaves/pkg/proto"

	fd "github.com/alexeykiselev/waves-fork-detector"
	"github.com/alexeykiselev/waves-fork-detector/api"
	"github.com/alexeykiselev/waves-fork-detector/chains"
	"github.com/alexeykiselev/waves-fork-detector/loading"
	"github.com/alexeykiselev/waves-fork-detector/peers"
)

var vVer15 = proto.NewVersion(1, 5, 0)

// detector is the program without its command line.
// vService is what every component of the detector can do.
type vService interface {
	Run(ctx context.Context)
	Shutdown()
}

type detector struct {
	c        *vc
	dir      string
	declared proto.TCPAddr
	bind     proto.TCPAddr
	vers     []proto.Version
	apiBind  string // empty: no API

	reg    *peers.Registry
	link   *chains.Linkage
	parent peer.Parent
	cm     *fd.ConnectionManager
	lis    vService
	rsp    vService
	dist   interface {
		vService
		IDsCh() <-chan loading.IDsPackage
		BlockCh() <-chan loading.BlockPackage
	}
	ldr    *loading.Loader
	nonce  uint32
	api    *api.API
	cancel context.CancelFunc
	ctx    context.Context
}

func newDetector(c *vc) *detector {
	return &detector{c: c, dir: c.dir(), vers: []proto.Version{vVer15}, nonce: 77}
}

// start brings everything up; network components only if asked for.
func (d *detector) start(network, loader bool) {
	var err error
	d.reg, err = peers.NewRegistry(vScheme, d.declared, append([]proto.Version(nil), d.vers...), d.dir)
	d.c.noErr(err, "open", "opening the peer registry")
	d.link, err = chains.NewLinkage(d.dir, vScheme, vGenesis())
	d.c.noErr(err, "open", "opening the block storage")
	d.ctx, d.cancel = context.WithCancel(context.Background())
	if d.apiBind != "" {
		d.api, err = api.NewAPI(d.reg, d.link, d.apiBind)
		d.c.noErr(err, "api", "creating the API")
		d.api.Run(d.ctx)
		d.c.check(vEventually(30*time.Second, func() bool {
			cn, dErr := net.Dial("tcp", d.apiBind)
			if dErr == nil {
				_ = cn.Close()
			}
			return dErr == nil
		}), "api", "the API doesn't listen on %s", d.apiBind)
	}
	d.parent = peer.NewParent(true)
	if network {
		d.cm = fd.NewConnectionManager(vScheme, "monitor", d.nonce, d.declared, d.reg, d.parent)
		d.lis = fd.NewListener(d.bind, d.declared, d.cm)
		d.lis.Run(d.ctx)
		d.rsp = fd.NewRespawn(d.reg, d.cm)
		d.rsp.Run(d.ctx)
	}
	d.dist = fd.NewDistributor(vScheme, d.link, d.reg, d.parent)
	d.dist.Run(d.ctx)
	if loader {
		d.ldr = loading.NewLoader(d.reg, d.link, d.dist.IDsCh(), d.dist.BlockCh())
		d.ldr.Run(d.ctx)
	}
}

// shutdown stops the components in the order of main; each step is named for the reports.
func (d *detector) shutdown(step func(string)) {
	if step == nil {
		step = func(string) {}
	}
	d.cancel()
	if d.api != nil {
		step("api")
		d.api.Shutdown()
	}
	if d.lis != nil {
		step("listener")
		d.lis.Shutdown()
		step("respawn")
		d.rsp.Shutdown()
	}
	if d.ldr != nil {
		step("loader")
		d.ldr.Shutdown()
	}
	step("distributor")
	d.dist.Shutdown()
	step("storage")
	d.link.Close()
	d.c.noErr(d.reg.Close(), "close", "closing the registry")
	step("done")
}

// connect passes a fake session to the distributor, as the network layer does.
func (d *detector) connect(fp *fakePeer) {
	d.parent.InfoCh <- peer.InfoMessage{Peer: fp, Value: &peer.Connected{Peer: fp}}
}

func (d *detector) disconnect(fp *fakePeer) {
	d.parent.InfoCh <- peer.InfoMessage{Peer: fp, Value: &peer.InternalErr{Err: errors.New("connection reset")}}
}

func (d *detector) message(fp peer.Peer, m proto.Message) {
	d.parent.MessageCh <- peer.ProtoMessage{ID: fp, Message: m}
}

func vHandshake(a netip.Addr, port int, ver proto.Version, name string) proto.Handshake {
	hs := proto.Handshake{AppName: "waves" + string(vScheme), Version: ver, NodeName: name, NodeNonce: vHash(a.String()), Timestamp: 1_700_000_000_000}
	if port > 0 {
		hs.DeclaredAddr = proto.HandshakeTCPAddr(proto.NewTCPAddr(net.IP(a.AsSlice()).To16(), port))
	}
	return hs
}

// newSession makes the fake session that the network layer would report after the version offer.
func (d *detector) newSession(a netip.Addr, port int) *fakePeer {
	ver, err := d.reg.SuggestVersion(a)
	d.c.noErr(err, "suggest", "offering a version to %s", a)
	return newFakePeer(a, vHandshake(a, port, ver, "n-"+a.String()))
}

// ---------------------------------------------------------------------------------------------

// tcpPeer is a network peer over a real connection.
type tcpPeer struct {
	conn   net.Conn
	hs     proto.Handshake // received
	mu     sync.Mutex
	got    []proto.Message
	done   chan struct{} // closed at the end of the stream
	onMsg  func(p *tcpPeer, m proto.Message)
	paused chan struct{} // if not nil, reading waits for it
	wmu    sync.Mutex
}

func vDialFrom(from netip.Addr, to string, timeout time.Duration) (net.Conn, error) {
	dl := net.Dialer{Timeout: timeout}
	if from.IsValid() {
		dl.LocalAddr = &net.TCPAddr{IP: net.IP(from.AsSlice())}
	}
	var err error
	var cn net.Conn
	for range 20 {
		if cn, err = dl.Dial("tcp", to); err == nil {
			return cn, nil
		}
		time.Sleep(50 * time.Millisecond)
	}
	return nil, err
}

// vShake exchanges handshakes over the connection; the initiator speaks first.
func vShake(cn net.Conn, hs proto.Handshake, initiator bool, timeout time.Duration) (*tcpPeer, error) {
	p := &tcpPeer{conn: cn, done: make(chan struct{})}
	_ = cn.SetDeadline(time.Now().Add(timeout))
	if initiator {
		if _, err := hs.WriteTo(cn); err != nil {
			return nil, err
		}
	}
	if _, err := p.hs.ReadFrom(cn); err != nil {
		return nil, err
	}
	if !initiator {
		if _, err := hs.WriteTo(cn); err != nil {
			return nil, err
		}
	}
	_ = cn.SetDeadline(time.Time{})
	return p, nil
}

func (p *tcpPeer) run() {
	defer close(p.done)
	br := bufio.NewReader(p.conn)
	for {
		if p.paused != nil {
			<-p.paused
		}
		var h proto.Header
		if _, err := h.ReadFrom(br); err != nil {
			return
		}
		buf := make([]byte, int(h.HeaderLength())+int(h.PayloadLength))
		w := &sliceWriter{buf: buf[:0]}
		if _, err := h.WriteTo(w); err != nil {
			return
		}
		if _, err := io.ReadFull(br, buf[len(w.buf):]); err != nil {
			return
		}
		m, err := proto.UnmarshalMessage(buf)
		if err != nil {
			continue
		}
		p.mu.Lock()
		p.got = append(p.got, m)
		p.mu.Unlock()
		if p.onMsg != nil {
			p.onMsg(p, m)
		}
	}
}

type sliceWriter struct{ buf []byte }

func (w *sliceWriter) Write(b []byte) (int, error) { w.buf = append(w.buf, b...); return len(b), nil }

func (p *tcpPeer) messages() []proto.Message {
	p.mu.Lock()
	defer p.mu.Unlock()
	return append([]proto.Message(nil), p.got...)
}

func (p *tcpPeer) raw(b []byte) error {
	p.wmu.Lock()
	defer p.wmu.Unlock()
	_ = p.conn.SetWriteDeadline(time.Now().Add(20 * time.Second))
	_, err := p.conn.Write(b)
	return err
}

func (p *tcpPeer) send(m proto.Message) error {
	b, err := m.MarshalBinary()
	if err != nil {
		return err
	}
	return p.raw(b)
}

func (p *tcpPeer) closed(within time.Duration) bool {
	select {
	case <-p.done:
		return true
	case <-time.After(within):
		return false
	}
}

// vFrame frames a payload of any content as the network protocol does.
func vFrame(id byte, payload []byte) []byte {
	hl := 17
	if len(payload) == 0 {
		hl = 13
	}
	b := make([]byte, hl, hl+len(payload))
	binary.BigEndian.PutUint32(b[0:], uint32(hl-4+len(payload)))
	binary.BigEndian.PutUint32(b[4:], 0x12345678)
	b[8] = id
	binary.BigEndian.PutUint32(b[9:], uint32(len(payload)))
	if len(payload) > 0 {
		d := crypto.MustFastHash(payload)
		copy(b[13:17], d[:4])
	}
	return append(b, payload...)
}

var (
	vPortsMu sync.Mutex
	vPorts   = map[string]bool{}
)

// vFreePort returns a TCP port nobody listens on now, each one only once.
func vFreePort(host string) int {
	for {
		l, err := net.Listen("tcp", host+":0")
		if err != nil {
			panic(err)
		}
		port := l.Addr().(*net.TCPAddr).Port
		_ = l.Close()
		vPortsMu.Lock()
		key := fmt.Sprintf("%s:%d", host, port)
		used := vPorts[key]
		vPorts[key] = true
		vPortsMu.Unlock()
		if !used {
			return port
		}
	}
}

func vTCPAddr(a netip.Addr, port int) proto.TCPAddr {
	return proto.NewTCPAddr(net.IP(a.AsSlice()).To16(), port)
}

// vNetSeq numbers the loopback networks of the cases.
var vNetSeq atomic.Int32

// eventually waits for the condition.
func vEventually(limit time.Duration, f func() bool) bool {
	end := time.Now().Add(limit)
	for {
		if f() {
			return true
		}
		if time.Now().After(end) {
			return false
		}
		time.Sleep(10 * time.Millisecond)
	}
}

// vGet asks the API; the answer is decoded into v if it is not nil.
func vGet(base, path string, timeout time.Duration, v any) (int, []byte, error) {
	cl := http.Client{Timeout: timeout, Transport: &http.Transport{DisableKeepAlives: true}}
	resp, err := cl.Get("http://" + base + path)
	if err != nil {
		return 0, nil, err
	}
	defer func() { _ = resp.Body.Close() }()
	b, err := io.ReadAll(resp.Body)
	if err != nil {
		return resp.StatusCode, b, err
	}
	if v != nil {
		dec := json.NewDecoder(bytes.NewReader(b))
		dec.UseNumber() // Scores are of any size.
		if err := dec.Decode(v); err != nil {
			return resp.StatusCode, b, fmt.Errorf("%w: %.300s", err, b)
		}
	}
	return resp.StatusCode, b, nil
}

// vLinearChain makes n blocks on top of the parent; digests gives protobuf blocks.
func vLinearChain(c *vc, parent proto.BlockID, n int, digests bool, ts uint64) []*proto.Block {
	r := make([]*proto.Block, 0, n)
	for i := range n {
		b := vRealBlock(c, parent, ts+uint64(i)*60_000, 100+c.rng.Uint64N(50), digests)
		r = append(r, b)
		parent = b.BlockID()
	}
	return r
}

// vRealBlock makes a block that survives serialization: its ID is its hash or signature.
func vRealBlock(c *vc, parent proto.BlockID, ts, bt uint64, digest bool) *proto.Block {
	b := &proto.Block{BlockHeader: proto.BlockHeader{Timestamp: ts, Parent: parent,
		GeneratorPublicKey: vGenPKs[c.rng.IntN(len(vGenPKs))], RewardVote: -1, ConsensusBlockLength: 40}}
	b.BaseTarget = bt
	b.GenSignature = make([]byte, 32)
	for i := range b.GenSignature {
		b.GenSignature[i] = byte(c.rng.Uint32())
	}
	for i := range b.BlockSignature {
		b.BlockSignature[i] = byte(c.rng.Uint32())
	}
	b.Features = []int16{}
	if digest {
		b.Version = proto.ProtobufBlockVersion
		b.TransactionsRoot = make([]byte, 32)
		c.must(b.GenerateBlockID(vScheme))
		return b
	}
	b.Version = proto.RewardBlockVersion
	b.TransactionBlockLength = 4
	c.must(b.GenerateBlockID(vScheme))
	return b
}

// vBlockMessage serializes the block in the encoding of its version.
func vBlockMessage(c *vc, b *proto.Block) proto.Message {
	if b.Version >= proto.ProtobufBlockVersion {
		bs, err := b.MarshalToProtobuf(vScheme)
		c.must(err)
		return &proto.PBBlockMessage{PBBlockBytes: bs}
	}
	bs, err := b.MarshalBinary(vScheme)
	c.must(err)
	return &proto.BlockMessage{BlockBytes: bs}
}

func vTransfer(c *vc) proto.Transaction {
	sk, pk, err := crypto.GenerateKeyPair([]byte{byte(c.rng.Uint32()), 1, 2, 3})
	c.must(err)
	a, err := proto.NewAddressFromPublicKey(vScheme, pk)
	c.must(err)
	tx := proto.NewUnsignedTransferWithProofs(2, pk, proto.NewOptionalAssetWaves(), proto.NewOptionalAssetWaves(), 1_700_000_000_000, 1+c.rng.Uint64N(1000),
		100000, proto.NewRecipientFromAddress(a), []byte("attachment"))
	c.must(tx.Sign(vScheme, sk))
	return tx
}

func vProtoMessage(fp peer.Peer, m proto.Message) peer.ProtoMessage {
	return peer.ProtoMessage{ID: fp, Message: m}
}
