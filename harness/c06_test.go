package main_test

import (
	"bufio"
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
	"net/netip"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/wavesplatform/gowaves/pkg/proto"

	"github.com/alexeykiselev/waves-fork-detector/chains"
)

// chainOp is one concrete delivery; a script of them is regenerated from the seed in every process.
type chainOp struct {
	kind   byte // b(lock) m(icro) l(eash) r(eopen)
	block  *proto.Block
	inv    *proto.MicroBlockInv
	target proto.BlockID
	addr   netip.Addr
}

func (o *chainOp) id() proto.BlockID {
	switch o.kind {
	case 'b':
		return o.block.BlockID()
	case 'm':
		return o.inv.TotalBlockID
	}
	return o.target
}

func (o *chainOp) apply(l *chains.Linkage) error {
	switch o.kind {
	case 'b':
		return o.block2(l)
	case 'm':
		if err := l.PutMicroBlock(o.inv, o.addr); !errors.Is(err, chains.ErrRefNotFound) {
			return err
		}
	case 'l':
		return l.MoveLeash(o.target, o.addr)
	}
	return nil
}

func (o *chainOp) block2(l *chains.Linkage) error {
	if err := l.PutBlock(o.block, o.addr); !errors.Is(err, chains.ErrParentNotFound) {
		return err
	}
	return nil
}

func (o *chainOp) model(m *chainModel) {
	switch o.kind {
	case 'b':
		m.put(o.block, o.addr)
	case 'm':
		m.putMicro(o.inv, o.addr)
	case 'l':
		m.leash[o.addr] = m.blocks[o.target]
	}
}

// chainScript makes n operations by random choice over a growing model.
func chainScript(rng *rand.Rand, n int, reopen float64) []chainOp {
	c := &vc{rng: rng}
	prof := vProfile(c, rng.IntN(7))
	prof.peers = vPeers(1 + rng.IntN(6))
	w := &chainWorld{c: c, m: newChainModel(vGenesis()), prof: prof, ts: 1_700_000_000_000}
	var ops []chainOp
	add := func(o chainOp) {
		ops = append(ops, o)
		o.model(w.m)
	}
	for len(ops) < n {
		a := w.peer()
		x := rng.Float64()
		switch {
		case x < reopen:
			ops = append(ops, chainOp{kind: 'r'})
		case x < reopen+0.08:
			add(chainOp{kind: 'l', target: w.m.order[rng.IntN(len(w.m.order))].id, addr: a})
		case x < reopen+0.13:
			add(chainOp{kind: 'b', block: w.newBlock(w.newID()), addr: a})
		case x < reopen+0.2 && len(ops) > 0:
			o := ops[rng.IntN(len(ops))]
			if o.kind == 'b' || o.kind == 'm' {
				o.addr = a
				add(o)
			}
		case x < reopen+0.35:
			if ref := w.pickParent(a); ref.p != nil {
				add(chainOp{kind: 'm', inv: w.newInv(ref.id), addr: a})
			}
		default:
			add(chainOp{kind: 'b', block: w.newBlock(w.pickParent(a).id), addr: a})
		}
	}
	return ops
}

func modelAt(ops []chainOp, i int) *chainModel {
	m := newChainModel(vGenesis())
	for k := range i {
		ops[k].model(m)
	}
	return m
}

func headNums(c *vc, l *chains.Linkage) map[proto.BlockID]uint64 {
	hs, err := l.Heads()
	c.noErr(err, "query-error", "Heads")
	r := map[proto.BlockID]uint64{}
	for _, h := range hs {
		r[h.BlockID] = h.ID
	}
	return r
}

// crashRef is what an uninterrupted run of the script shows.
type crashRef struct {
	ops   []chainOp
	heads []map[proto.BlockID]uint64 // after i operations
	all   map[proto.BlockID]bool
}

// verify decides which admissible state the recovered storage is in, after the first `acked` operations
// are known to be complete and operation `acked` may have been under way. It returns the number of operations in effect.
func (cr *crashRef) verify(c *vc, dir string, acked int, exact bool, what string) (int, *chainWorld) {
	l, err := chains.NewLinkage(dir, vScheme, vGenesis())
	c.noErr(err, "recover-open", "%s: opening after the crash", what)
	w := &chainWorld{c: c, dir: dir, gen: vGenesis(), l: l, prof: vProfile(c, c.rng.IntN(7)), ts: 1_800_000_000_000}
	w.m = modelAt(cr.ops, acked)
	n := acked
	heads := cr.heads[acked]
	state := "complete"
	if !exact && acked < len(cr.ops) && cr.ops[acked].kind != 'r' {
		o := &cr.ops[acked]
		next := modelAt(cr.ops, acked+1)
		_, before := w.m.blocks[o.id()]
		_, after := next.blocks[o.id()]
		has, hErr := l.HasBlock(o.id())
		c.noErr(hErr, "query-error", "HasBlock")
		lsh, lErr := l.Leash(o.addr)
		c.noErr(lErr, "query-error", "Leash")
		hasLsh, hlErr := l.HasLeash(o.addr)
		c.noErr(hlErr, "query-error", "HasLeash")
		moved := after && hasLsh && lsh == o.id() // Without a leash the genesis block is answered.
		switch {
		case !before && after && has:
			heads = cr.heads[acked+1]
			if moved {
				n, state = acked+1, "next"
				w.m = next
			} else { // The block is in, its leash is not yet.
				state = "block-without-leash"
				old, had := w.m.leash[o.addr]
				w.m = next
				if had {
					w.m.leash[o.addr] = w.m.blocks[old.id]
				} else {
					delete(w.m.leash, o.addr)
				}
			}
		case before && moved:
			n, state = acked+1, "next"
			w.m = next
		}
	}
	c.op("%s: state after %d operations (%s)", what, n, state)
	c.count("recovered_"+state, 1)
	for _, b := range w.m.order {
		w.checkBlock(b)
	}
	for id := range cr.all {
		w.checkAbsent(id)
	}
	w.checkLeashes()
	got := headNums(c, l)
	c.check(len(got) == len(heads), "recover-heads", "%s: %d heads after recovery, expected %d", what, len(got), len(heads))
	for id, num := range heads {
		g, ok := got[id]
		c.check(ok && g == num, "recover-heads", "%s: head %d on %s reads as %d (present %v)", what, num, w.name(id), g, ok)
	}
	return n, w
}

func (cr *crashRef) carryOn(c *vc, w *chainWorld, n int) {
	tr := newHeadTracker()
	tr.check(w)
	w.prof.reopen, w.prof.bad, w.prof.jump = 0.02, 0, 1
	w.after = func(string) { tr.check(w) }
	for range n {
		w.step()
	}
	w.checkBlocks(true)
	w.checkLeashes()
	forks, err := w.l.Forks(nil)
	c.noErr(err, "query-error", "Forks")
	vCheckForks(c, w.m, forks, nil)
}

func newCrashRef(c *vc, ops []chainOp) *crashRef {
	cr := &crashRef{ops: ops, all: map[proto.BlockID]bool{}}
	for i := range ops {
		if k := ops[i].kind; k == 'b' || k == 'm' {
			cr.all[ops[i].id()] = true
		}
	}
	return cr
}

func crashTruncate(c *vc) {
	ops := chainScript(c.rng, 8+c.rng.IntN(40), 0.04)
	cr := newCrashRef(c, ops)
	dir := c.dir()
	open := func() *chains.Linkage {
		l, err := chains.NewLinkage(dir, vScheme, vGenesis())
		c.noErr(err, "open", "opening")
		return l
	}
	l := open()
	type point struct {
		n    int // operations complete
		size int64
	}
	var pts []point
	journal, size := journalOf(c, dir)
	pts = append(pts, point{0, size})
	cr.heads = append(cr.heads, headNums(c, l))
	cut := func(off int64, p point, exact bool) { // Recover from the journal cut at off.
		img := c.dir()
		copyDir(c, dir, img)
		rel, _ := filepath.Rel(dir, journal)
		c.must(os.Truncate(filepath.Join(img, rel), off))
		c.op("journal cut at %d of epoch with %d complete operations (next boundary exact=%v)", off, p.n, exact)
		_, w := cr.verify(c, img, p.n, exact, fmt.Sprintf("journal cut at %d", off))
		if c.rng.IntN(4) == 0 {
			cr.carryOn(c, w, 4+c.rng.IntN(12))
		}
		w.close()
		_ = os.RemoveAll(img)
		c.eval(vHash(c.name, journal, off))
		c.count("crash_points", 1)
	}
	epoch := func() { // Cut the journal everywhere in this epoch.
		for i, p := range pts {
			cut(p.size, p, true)
			if i+1 < len(pts) {
				d := pts[i+1].size - p.size
				if d == 0 {
					continue
				}
				offs := map[int64]bool{1: true, d - 1: true, d / 2: true}
				for range vScale(4, 60) {
					offs[c.rng.Int64N(d)] = true
				}
				for o := range offs {
					if o > 0 && o < d {
						cut(p.size+o, p, false)
					}
				}
			}
		}
		if pts[0].n == 0 { // Inside the creation of the database: as if it had never been used.
			for range 3 {
				cut(c.rng.Int64N(pts[0].size), pts[0], true)
			}
		}
	}
	for i := range ops {
		o := &ops[i]
		if o.kind == 'r' {
			cr.heads = append(cr.heads, cr.heads[i])
			epoch()
			l.Close()
			l = open()
			journal, size = journalOf(c, dir)
			pts = append(pts[:0], point{i + 1, size})
			continue
		}
		err := o.apply(l)
		c.noErr(err, "apply", "operation %d", i)
		cr.heads = append(cr.heads, headNums(c, l))
		j, s := journalOf(c, dir)
		if j != journal {
			epoch()
			journal = j
			pts = pts[:0]
		}
		pts = append(pts, point{i + 1, s})
	}
	epoch()
	l.Close()
	c.sampleTrace(10)
}

const childEnv = "VERIF_C06_CHILD"

func killScript(name string, seed uint64) []chainOp {
	h := vHash(seed, name, "script")
	rng := rand.New(rand.NewPCG(h, h+1))
	return chainScript(rng, 250+rng.IntN(350), 0.02)
}

// TestC06Child applies the script from operation `from` on and reports each completed operation; it is killed by the parent.
func TestC06Child(t *testing.T) {
	arg := os.Getenv(childEnv)
	if arg == "" {
		t.Skip()
	}
	f := strings.SplitN(arg, "|", 4)
	from, _ := strconv.Atoi(f[1])
	seed, _ := strconv.ParseUint(f[2], 10, 64)
	ops := killScript(f[0], seed)
	l, err := chains.NewLinkage(f[3], vScheme, vGenesis())
	if err != nil {
		fmt.Printf("FAIL %v\n", err)
		return
	}
	os.Stdout.WriteString(fmt.Sprintf("ACK %d\n", from))
	for i := from; i < len(ops); i++ {
		if ops[i].kind == 'r' {
			l.Close()
			if l, err = chains.NewLinkage(f[3], vScheme, vGenesis()); err != nil {
				fmt.Printf("FAIL %v\n", err)
				return
			}
		} else if err := ops[i].apply(l); err != nil {
			fmt.Printf("FAIL %v\n", err)
			return
		}
		os.Stdout.WriteString(fmt.Sprintf("ACK %d\n", i+1))
	}
	time.Sleep(time.Minute)
}

func crashKill(c *vc) {
	ops := killScript(c.name, c.seed)
	cr := newCrashRef(c, ops)
	// The uninterrupted run.
	{
		d := c.dir()
		l, err := chains.NewLinkage(d, vScheme, vGenesis())
		c.noErr(err, "open", "opening")
		cr.heads = append(cr.heads, headNums(c, l))
		for i := range ops {
			c.noErr(ops[i].apply(l), "apply", "operation %d", i)
			cr.heads = append(cr.heads, headNums(c, l))
		}
		l.Close()
	}
	dir := c.dir()
	{ // The database exists before the first crash.
		l, err := chains.NewLinkage(dir, vScheme, vGenesis())
		c.noErr(err, "open", "opening")
		l.Close()
	}
	at := 0
	for kill := 0; kill < 12 && at < len(ops); kill++ {
		cmd := exec.Command(os.Args[0], "-test.run", "^TestC06Child$")
		cmd.Env = append(os.Environ(), fmt.Sprintf("%s=%s|%d|%d|%s", childEnv, c.name, at, c.seed, dir), "VERIF_OUT=")
		out, err := cmd.StdoutPipe()
		c.must(err)
		c.must(cmd.Start())
		rd := bufio.NewReader(out)
		target := at + c.rng.IntN(60)
		delay := time.Duration(c.rng.IntN(400)) * time.Microsecond
		acked, killed, opened := at, false, false
		fail := ""
		for {
			line, rErr := rd.ReadString('\n')
			if strings.HasPrefix(line, "FAIL") {
				fail = line
			}
			if n, ok := strings.CutPrefix(line, "ACK "); ok && rErr == nil {
				acked, _ = strconv.Atoi(strings.TrimSpace(n))
				opened = true
				if !killed && (acked >= target || acked == len(ops)) {
					killed = true
					if delay > 50*time.Microsecond {
						time.Sleep(delay)
					}
					_ = cmd.Process.Kill()
				}
			}
			if rErr != nil {
				if rErr != io.EOF {
					c.must(rErr)
				}
				break
			}
		}
		wErr := cmd.Wait()
		c.check(fail == "", "child", "operation failed in the killed process: %s", fail)
		if !killed {
			c.fail("child", "the process ended by itself after %d operations (opened %v): %v", acked, opened, wErr)
		}
		c.op("killed after %d acknowledged operations (started at %d)", acked, at)
		n, w := cr.verify(c, dir, acked, false, fmt.Sprintf("kill %d", kill))
		w.close()
		at = n
		c.count("kills", 1)
		c.eval(vHash(c.name, kill, acked))
	}
	// The last kill may have left operation `at` half done: the same state is expected again.
	_, w := cr.verify(c, dir, at, false, "final")
	cr.carryOn(c, w, 15)
	w.close()
	c.sampleTrace(20)
}

func TestC06(t *testing.T) {
	r := vStart(t, "C06", "random histories; (1) the journal of the block database is cut at every operation boundary, at the first, middle and last byte of every operation's records and at random offsets, and the storage is opened again; "+
		"(2) a separate process applying a history is killed with SIGKILL at random instants, restarted where it was and killed again, up to 12 times; after each recovery blocks, leashes, heads with numbers are compared with the state after the completed operations "+
		"(inside an interrupted one the leash alone may lag), and random operations continue; an evaluation is one crash point, non-trivial ones are distinct (history, cut or acknowledged operation)")
	cs := vCases(vScale(56, 400), "cut", crashTruncate)
	cs = append(cs, vCases(vScale(16, 120), "kill", crashKill)...)
	r.run(cs, 0)
	r.finish()
}
