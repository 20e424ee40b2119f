package main_test

import (
	"fmt"
	"sync"
	"testing"
	"testing/synctest"
	"time"
)

func (w *aworld) lagging() int {
	cs, err := w.d.reg.Connections()
	w.c.noErr(err, "query", "connections")
	n := 0
	for i := range cs {
		s, err := w.d.link.LeashScore(cs[i].ID())
		w.c.noErr(err, "query", "leash score")
		if cs[i].Score != nil && cs[i].Score.Cmp(s) > 0 {
			n++
		}
	}
	return n
}

func (w *aworld) reached(x *actor) bool {
	id, err := w.d.link.Leash(x.a)
	w.c.noErr(err, "query", "leash")
	return id == x.tip.id()
}

// watch lets time pass until the condition holds and demands requests while somebody lags.
func (w *aworld) watch(limit time.Duration, until func() bool) bool {
	c := w.c
	end := time.Now().Add(limit)
	var lagSince time.Time
	gap := 75 * time.Second
	if w.flap {
		gap = 160 * time.Second // Requests to sessions just closed are not seen.
	}
	for !until() {
		if time.Now().After(end) {
			return false
		}
		time.Sleep(5 * time.Second)
		synctest.Wait()
		n := w.lagging()
		if n == 0 {
			lagSince = time.Time{}
			continue
		}
		if lagSince.IsZero() {
			lagSince = time.Now()
		}
		w.mu.Lock()
		last := w.lastReq
		w.mu.Unlock()
		if last.Before(lagSince) {
			last = lagSince
		}
		c.check(time.Since(last) <= gap, "stuck", "%d connected peers lag, but for %s nobody is asked for history", n, time.Since(last))
		w.mu.Lock()
		c.eval(vHash(n, w.reqs, int(time.Since(last)/time.Second)))
		w.mu.Unlock()
	}
	return true
}

func progressCase(c *vc) {
	w := newAworld(c)
	r := c.rng
	var honest []*actor
	only := r.IntN(3) == 0
	for range 1 + r.IntN(3) {
		k := bhHonest
		if r.IntN(4) == 0 {
			k = bhSlow
		}
		honest = append(honest, w.addActor(k))
	}
	if !only {
		for range 1 + r.IntN(4) {
			w.addActor(2 + r.IntN(bhKinds-2))
		}
	}
	w.mu.Lock()
	for _, x := range r.Perm(len(w.acts)) {
		w.flap = w.flap || w.acts[x].kind == bhFlap
	}
	w.mu.Unlock()
	w.mu.Lock()
	order := r.Perm(len(w.acts))
	w.mu.Unlock()
	for _, x := range order {
		w.connect(w.acts[x])
	}
	start := time.Now()
	stop := make(chan struct{})
	var wg sync.WaitGroup
	for _, x := range w.acts {
		if x.kind != bhFlap {
			continue
		}
		wg.Add(1)
		go func() { // Comes and goes.
			defer wg.Done()
			for {
				d := time.Duration(1+w.rand(40)) * time.Second
				select {
				case <-stop:
					return
				case <-time.After(d):
				}
				w.d.disconnect(x.fp)
				select {
				case <-stop:
					return
				case <-time.After(d / 4):
				}
				w.connect(x)
			}
		}()
	}
	// The honest ones get where they are.
	limit := 200 * 70 * time.Second
	if only {
		limit = 2 * time.Minute
		for _, x := range honest {
			rounds := time.Duration(x.tip.height/99 + 3)
			per := 2*(x.base+time.Second) + 6*time.Second
			if x.kind == bhSlow {
				// All answers may come too late to make the batch; then the received part counts.
				rounds, per = 4*rounds+20, 70*time.Second
			}
			limit += rounds * per
		}
	}
	all := func() bool {
		for _, x := range honest {
			if !w.reached(x) {
				return false
			}
		}
		return true
	}
	if !w.watch(limit, all) {
		msg := ""
		for _, x := range honest {
			id, _ := w.d.link.Leash(x.a)
			h := 1
			if u := w.u.byID[id]; u != nil {
				h = u.height
			}
			msg += fmt.Sprintf("%s (%s): leash at height %d of %d, asked %d times; ", x.a, bhNames[x.kind], h, x.tip.height, w.asked[x.a])
		}
		c.fail("starved", "after %s a peer that answers correctly is not leashed to its tip: %s", time.Since(start), msg)
	}
	c.op("honest peers reached their tips after %s and %d requests", time.Since(start), w.reqs)
	c.max("max_seconds_to_tip", int(time.Since(start)/time.Second))
	// Trouble for a while, then everybody behaves and the blocks have moved on.
	w.watch(time.Duration(w.rand(vScale(40, 200)))*time.Minute, func() bool { return false })
	if w.rand(2) == 0 {
		close(stop)
		wg.Wait()
		w.mu.Lock()
		for _, x := range w.acts {
			x.kind, x.bad = bhHonest, nil
			for range r.IntN(30) { // A short reorganization and new blocks.
				if x.tip.p == nil || r.IntN(3) > 0 {
					break
				}
				x.tip = x.tip.p
			}
			for i := range r.IntN(20) {
				x.tip = w.u.add(x.tip, vRealBlock(c, x.tip.id(), 1_710_000_000_000+uint64(i), 10, !x.tip.id().IsSignature()))
			}
		}
		w.flap = false
		w.mu.Unlock()
		for _, x := range w.acts {
			if x.fp.closed() {
				w.connect(x)
			} else {
				w.score(x)
			}
		}
		// A leash of a greater score, left by the former behaviour or moved by its late answers, is not lagging.
		settled := func(x *actor) bool {
			if w.reached(x) {
				return true
			}
			ls, err := w.d.link.LeashScore(x.a)
			c.noErr(err, "query", "leash score")
			return ls.Cmp(x.tip.score) >= 0
		}
		behind := 0
		for _, x := range w.acts {
			if !settled(x) {
				behind++
			}
		}
		all = func() bool {
			for _, x := range w.acts {
				if !settled(x) {
					return false
				}
			}
			return true
		}
		at := time.Now()
		if !w.watch(200*70*time.Second, all) {
			for _, x := range w.acts {
				if !settled(x) {
					id, _ := w.d.link.Leash(x.a)
					h, anc := 1, false
					if u := w.u.byID[id]; u != nil {
						h = u.height
						for _, b := range x.tip.chain() {
							anc = anc || b == u
						}
					}
					p, err := w.d.reg.Peer(x.a)
					sc, err2 := w.d.link.LeashScore(x.a)
					c.fail("no-recovery", "%s after all peers behave %s is not leashed to its tip of height %d and score %s, its leash is at height %d (on its branch: %v) with score %s; registry: %v %v %v; asked: %v",
						time.Since(at), x.a, x.tip.height, x.tip.score, h, anc, sc, p.Score, err, err2, w.asked)
				}
			}
		}
		for _, x := range w.acts {
			if w.reached(x) {
				c.count("recovered_to_tip", 1)
			}
		}
		c.count("recovered", behind)
		c.op("%d peers recovered after %s", behind, time.Since(at))
	} else {
		close(stop)
		wg.Wait()
	}
	c.sampleTrace(20)
	time.Sleep(time.Duration(r.IntN(60000)) * time.Millisecond)
	at, stage := time.Now(), ""
	done := make(chan struct{})
	go func() {
		w.d.shutdown(func(s string) { stage = s })
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(time.Minute):
		c.fail("shutdown", "shutdown takes more than a minute at %s", stage)
	}
	c.check(time.Since(at) < 5*time.Second, "shutdown-slow", "shutdown took %s", time.Since(at))
	time.Sleep(3 * time.Minute)
}

func TestL01(t *testing.T) {
	r := vStart(t, "L01", "A case is the real distributor and loader in virtual time among honest, slow, silent, late, lossy, lying, flapping, chattering and flooding peers. "+
		"While a connected peer lags some peer must be asked for history at least every 75 s (160 s if sessions flap), every honest peer must reach its tip within a bound, "+
		"after the trouble all peers must recover, and shutdown at any moment must be prompt. One evaluation is one look at the progress (every 5 s); distinct by lagging peers, requests and idle time.")
	r.runSync(vCases(vScale(600, 6000), "progress", progressCase), 0)
	r.finish()
}
