package main_test

import (
	"net"
	"net/netip"
	"testing"

	"github.com/wavesplatform/gowaves/pkg/proto"

	"github.com/alexeykiselev/waves-fork-detector/peers"
)

// hostileOracle watches the addresses that became hostile, by the history alone.
func (w *regWorld) checkHostile(hostile map[netip.Addr]bool) {
	c := w.c
	for a, p := range w.m.recs {
		if p.state == peers.PeerHostile {
			hostile[a] = true
		}
	}
	fr, err := w.r.FriendlyPeers()
	c.noErr(err, "query-error", "FriendlyPeers")
	cs, err := w.r.Connections()
	c.noErr(err, "query-error", "Connections")
	for _, p := range fr {
		c.check(!hostile[p.AddressPort.Addr()], "hostile-friendly", "hostile peer %s is listed as friendly", p.AddressPort)
	}
	for _, p := range cs {
		c.check(!hostile[p.AddressPort.Addr()], "hostile-connected", "hostile peer %s is listed as connected", p.AddressPort)
	}
	for a := range hostile {
		p, pErr := w.r.Peer(a)
		c.noErr(pErr, "query-error", "Peer %s", a)
		c.check(p.State == peers.PeerHostile, "hostile-forgotten", "hostile peer %s is %s now", a, p.State)
	}
	for _, a := range w.addrs {
		if p, pErr := w.r.Peer(a); pErr == nil && !hostile[a] {
			c.check(p.State != peers.PeerHostile, "falsely-hostile", "peer %s is hostile without a reason", a)
		}
	}
}

func hostileCase(c *vc) {
	w := newRegWorld(c, 2+c.rng.IntN(10))
	hostile := map[netip.Addr]bool{}
	w.odd = []float64{0.05, 0.3, 0.8}[c.rng.IntN(3)]
	for range vScale(120, 500) {
		var op string
		switch c.rng.IntN(12) {
		case 0, 1: // Exactly at the borders of the rules.
			op = "border"
			a := w.addr()
			if w.m.conns[a] != nil && c.rng.IntN(4) > 0 {
				break
			}
			if v, ok := w.doSuggest(a); ok {
				hs := w.handshake(a, v)
				hs.AppName, hs.NodeName, hs.DeclaredAddr = w.app("wavesW"), "n", proto.HandshakeTCPAddr{}
				d := c.rng.IntN(5) - 2
				if m := int64(v.Minor()) + int64(d); m >= 0 && m < 1<<32 {
					hs.Version = proto.NewVersion(v.Major(), uint32(m), uint32(c.rng.IntN(3)))
				}
				if c.rng.IntN(4) == 0 {
					hs.AppName = w.app([]string{"wavesT", "wavesX", "W", "", "Wx", "wavesw"}[c.rng.IntN(6)])
				}
				w.doRegister(a, hs)
			}
		case 2:
			op = "mark"
			a := w.addr()
			if w.m.recs[a] != nil && c.rng.IntN(3) == 0 {
				err := w.r.MarkAsHostile(&net.IPAddr{IP: net.IP(a.AsSlice())})
				c.op("mark %s as hostile -> %v", a, err)
				c.noErr(err, "mark", "marking %s as hostile", a)
				for _, o := range w.m.markHostile(a) {
					c.check(o.closed(), "hostile-not-closed", "connection of %s marked as hostile is not closed", a)
				}
				w.m.recs[a].port = 0
			}
		default:
			op = w.step()
		}
		w.checkHostile(hostile)
		c.eval(w.m.fingerprint(op))
	}
	w.reopen()
	w.checkHostile(hostile)
	w.checkAll()
	c.count("hostile_peers", len(hostile))
	c.sampleTrace(15)
	w.close()
}

func TestR01(t *testing.T) {
	r := vStart(t, "R01", "random histories (some of them over months of virtual time) of offers, registrations with handshakes at and beyond the borders of the rules, disconnects, announcements, hand-outs, scores and restarts over up to 12 addresses; after every step "+
		"the set of hostile peers is compared with a model and no hostile peer may be offered, handed out, listed as friendly or connected or change its state; an evaluation is one step, distinct ones differ in model state")
	r.run(vCases(vScale(200, 3000), "hostile", hostileCase), 0)
	r.runSync(vCases(vScale(60, 600), "later", vLater(hostileCase)), 0)
	r.finish()
}
