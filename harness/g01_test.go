package main_test

import (
	"fmt"
	"net"
	"net/netip"
	"os"
	"path/filepath"
	"slices"
	"strconv"
	"strings"
	"syscall"
	"testing"
	"time"

	"github.com/wavesplatform/gowaves/pkg/proto"
	"github.com/wavesplatform/gowaves/pkg/settings"
)

var vSeeds = map[string][]string{
	"mainnet":  {"34.253.153.4", "168.119.116.189", "135.181.87.72", "162.55.39.115", "168.119.155.201"},
	"testnet":  {"159.69.126.149", "94.130.105.239", "159.69.126.153", "94.130.172.201", "35.157.247.122"},
	"stagenet": {"88.99.185.128", "49.12.15.166", "95.216.205.3", "88.198.179.16", "52.58.254.101"},
}

var vSchemes = map[string]byte{"mainnet": 'W', "testnet": 'T', "stagenet": 'S'}

// cmdline is a command line and what it must mean.
type cmdline struct {
	c     *vc
	host  string
	wd    string // working folder
	dir   string // of the database
	args  []string
	bad   string // why it must be refused
	bt    string
	book  []netip.AddrPort // listed peers
	api   string
	net   string
	decl  string // "" for none
	name  string
	vers  []proto.Version // highest first
	level string
}

func (k *cmdline) opt(name, value string) {
	dash := "-"
	if k.c.rng.IntN(3) == 0 {
		dash = "--"
	}
	if k.c.rng.IntN(3) == 0 || strings.HasPrefix(value, "-") {
		k.args = append(k.args, dash+name+"="+value)
	} else {
		k.args = append(k.args, dash+name, value)
	}
}

func (k *cmdline) pick(ss ...string) string { return ss[k.c.rng.IntN(len(ss))] }

var vBadAddrs = []string{"", "localhost:8080", ":8080", "127.0.0.1", "127.0.0.1:", "127.0.0.1:65536", "127.0.0.1:-1", "127.0.0.1:http", "127.0.0:80", "127.0.0.1.1:80",
	"127.0.0.1:80:80", "127.0.0.256:80", "[127.0.0.1]:80", "::1:80", "[::1]", "a.b.c.d:80", "127.0.0.1:80x", "127.0.0.1 :80", "127.0.0.1: 80", "999", "://", "http://127.0.0.1:80",
	"127.0.0.1:99999999999999999999", "01.2.3.4:80"}

// make chooses the options; which of them is invalid, if any, is given.
func makeCmdline(c *vc, invalid string) *cmdline {
	r := c.rng
	k := &cmdline{c: c, host: vOwnHost(), wd: c.dir(), bt: "mainnet", name: "forkdetector", vers: []proto.Version{vVer15}}
	var todo []func()
	// Folder.
	todo = append(todo, func() {
		name := k.pick("db", "d b", "ёлка", "-db", "a.b", "db,x", "%s", " db", "db ", "d=b")
		k.dir = filepath.Join(k.wd, name)
		c.must(os.Mkdir(k.dir, 0o755))
		if invalid != "db" {
			v := k.pick(k.dir, "./"+name, k.dir+"/", k.dir+"/../"+name, name+"//.", k.wd+"//"+name)
			if r.IntN(6) == 0 { // A link to a folder is a folder.
				c.must(os.Symlink(k.dir, k.wd+"/lnk"))
				v = k.pick("lnk", k.wd+"/lnk", "lnk/")
			}
			k.opt("db", v)
			return
		}
		k.bad = "folder"
		f := filepath.Join(k.wd, "file")
		c.must(os.WriteFile(f, []byte("x"), 0o644))
		switch r.IntN(6) {
		case 0: // No option.
		case 1:
			k.opt("db", "")
		case 2:
			k.opt("db", k.pick(k.wd+"/none", "none", "none/db", k.dir+"/none"))
		case 3:
			k.opt("db", k.pick(f, "file"))
		case 4:
			k.opt("db", k.pick(f+"/db", "file/"))
		case 5:
			c.must(os.Symlink("nowhere", k.wd+"/dangling"))
			k.opt("db", k.pick("dangling", k.wd+"/"+strings.Repeat("x", 300)))
		}
	})
	// Network.
	if invalid == "blockchain-type" {
		k.bad = "network"
		todo = append(todo, func() {
			k.opt("blockchain-type", k.pick("", "custom", "main", "mainnet ", " mainnet", "mainnet,testnet", "W", "devnet", "T", "mаinnet", "\xff"))
		})
	} else if r.IntN(4) > 0 {
		k.bt = k.pick("mainnet", "testnet", "stagenet")
		todo = append(todo, func() { k.opt("blockchain-type", k.bt) })
	}
	// Peers.
	if invalid == "peers" {
		k.bad = "peers"
		todo = append(todo, func() {
			b := k.pick(vBadAddrs[1:]...)
			switch r.IntN(3) {
			case 0:
				b += ",1.2.3.4:5"
			case 1:
				b = "1.2.3.4:5," + b
			case 2:
				b = k.pick(b, "1.2.3.4:5;1.2.3.5:6", "1.2.3.4:5 1.2.3.5:6", "1.2.3.4/8:5")
			}
			k.opt("peers", b)
		})
	} else if r.IntN(3) > 0 {
		todo = append(todo, func() {
			var ss []string
			n := r.IntN(8)
			if r.IntN(6) == 0 {
				n = 9 + r.IntN(60)
			}
			for range n {
				ap := netip.AddrPortFrom(netip.AddrFrom4([4]byte{byte(1 + r.IntN(120)), byte(r.IntN(256)), byte(r.IntN(256)), byte(r.IntN(256))}), uint16(1+r.IntN(65535)))
				if ap.Addr().IsLoopback() {
					continue
				}
				if r.IntN(4) == 0 {
					ap = netip.AddrPortFrom(ap.Addr(), 6868)
				}
				if r.IntN(6) == 0 && len(k.book) > 0 { // Listed twice: the first counts.
					ap = netip.AddrPortFrom(k.book[0].Addr(), ap.Port())
				}
				if r.IntN(12) == 0 { // Known, but not to be called.
					ap = netip.AddrPortFrom(ap.Addr(), 0)
				}
				if r.IntN(8) == 0 {
					ap = netip.AddrPortFrom(vAddr(vSeeds[k.bt][0]), 1234)
				}
				k.book = append(k.book, ap)
				ss = append(ss, k.pick("", " ", "\t")+ap.String()+k.pick("", " ", "\n"))
				if r.IntN(5) == 0 {
					ss = append(ss, k.pick("", " "))
				}
			}
			k.opt("peers", strings.Join(ss, ","))
		})
	}
	// Addresses.
	addr := func() string { return fmt.Sprintf("%s:%d", k.host, vFreePort(k.host)) }
	k.api, k.net = addr(), addr()
	if invalid == "api" {
		k.bad = "API address"
		todo = append(todo, func() { k.opt("api", k.pick(vBadAddrs...)) })
	} else {
		todo = append(todo, func() { k.opt("api", k.api) })
	}
	if invalid == "net" {
		k.bad = "network address"
		todo = append(todo, func() {
			k.opt("net", k.pick(append([]string{"[::1]:6868", "[::]:6868", "[2001:db8::1]:1"}, vBadAddrs...)...))
		})
	} else {
		todo = append(todo, func() {
			v := k.net
			if r.IntN(4) == 0 {
				v = "[::ffff:" + strings.Replace(v, ":", "]:", 1)
			}
			k.opt("net", v)
		})
	}
	if invalid == "" || r.IntN(2) == 0 {
		todo = append(todo, func() {
			switch r.IntN(6) {
			case 0: // None.
			case 1:
				k.opt("declared-address", k.pick(append([]string{"[::1]:6868", "[2001:db8::7]:6868"}, vBadAddrs...)...))
			case 2:
				k.decl = "77.8.9.10:" + strconv.Itoa(1+r.IntN(65535))
				k.opt("declared-address", "[::ffff:"+strings.Replace(k.decl, ":", "]:", 1))
			default:
				k.decl = netip.AddrFrom4([4]byte{byte(1 + r.IntN(120)), byte(r.IntN(256)), byte(r.IntN(256)), byte(1 + r.IntN(255))}).String() + ":" + k.pick("0", "1", "6868", "65535")
				if r.IntN(4) == 0 && len(k.book) > 0 { // One of the listed peers is the detector itself.
					k.decl = k.book[len(k.book)-1].String()
				}
				k.opt("declared-address", k.decl)
			}
		})
	}
	// Name.
	if invalid == "name" {
		k.bad = "name"
		todo = append(todo, func() {
			k.opt("name", k.pick("", strings.Repeat("n", 256), strings.Repeat("ё", 128), strings.Repeat("x", 5000)))
		})
	} else if r.IntN(3) > 0 {
		todo = append(todo, func() {
			k.name = k.pick("n", "My node", "ёжик", strings.Repeat("n", 255), strings.Repeat("ё", 127), "-name", "%d%s", "a\tb\nc", "\xff\xfe", "'\"", " ")
			k.opt("name", k.name)
		})
	}
	// Versions.
	if invalid == "versions" {
		k.bad = "versions"
		todo = append(todo, func() {
			k.opt("versions", k.pick("", ",", "1.5,", ",1.5", "1.x", "x", "v1.5", "1.5;1.4", "1.5 1.4", "-1.5", "1.-5", "1.2.3.4", "1..5", "1.4294967296", "4294967296.1", "1.5,1.4,z", "1,5.x", "1.5e1", "0x1.5"))
		})
	} else if r.IntN(3) > 0 {
		todo = append(todo, func() {
			k.vers = nil
			var ss []string
			for _, m := range r.Perm(8)[:1+r.IntN(4)] {
				v := proto.NewVersion(1, uint32(m), 0)
				if r.IntN(5) == 0 {
					v = proto.NewVersion(2, uint32(m), 0)
				}
				k.vers = append(k.vers, v)
				s := fmt.Sprintf("%d.%d", v.Major(), v.Minor())
				if r.IntN(3) == 0 {
					s += k.pick(".0", ".17", ".4294967295")
				}
				ss = append(ss, s)
				if r.IntN(5) == 0 { // Listed twice, possibly with another patch number.
					ss = append(ss, fmt.Sprintf("%d.%d", v.Major(), v.Minor())+k.pick("", ".0", ".3"))
				}
			}
			slices.SortFunc(k.vers, func(a, b proto.Version) int { return b.Cmp(a) })
			k.opt("versions", strings.Join(ss, ","))
		})
	}
	// Logging.
	if invalid == "log-level" {
		k.bad = "logging level"
		todo = append(todo, func() { k.opt("log-level", k.pick("LOUD", "5", "all", "-1", "info debug")) })
	} else if r.IntN(2) == 0 {
		k.level = k.pick("DEBUG", "INFO", "WARN", "ERROR", "debug", "error")
		todo = append(todo, func() { k.opt("log-level", k.level) })
	}
	if invalid == "flag" {
		k.bad = "unknown option"
		todo = append(todo, func() { k.args = append(k.args, k.pick("-dbx", "--peer=1", "-x", "---db", "-=1")) })
	}
	// The folder and the listed peers first: others depend on them. Then any order.
	for _, i := range r.Perm(len(todo)) {
		todo[i]()
	}
	return k
}

// expBook is the address book after the first start.
func (k *cmdline) expBook() map[netip.Addr]uint16 {
	var own netip.Addr
	if k.decl != "" {
		own = netip.MustParseAddrPort(k.decl).Addr()
	}
	m := map[netip.Addr]uint16{}
	add := func(ap netip.AddrPort) {
		if _, ok := m[ap.Addr()]; !ok && ap.Addr() != own {
			m[ap.Addr()] = ap.Port()
		}
	}
	for _, s := range vSeeds[k.bt] {
		add(netip.AddrPortFrom(vAddr(s), 6868))
	}
	for _, ap := range k.book {
		add(ap)
	}
	return m
}

func (k *cmdline) checkBook(what string) {
	c := k.c
	var ps []jPeerAddr
	st, _, err := vGet(k.api, "/api/peers/all", 20*time.Second, &ps)
	c.check(err == nil && st == 200, "api", "%q: %s: %d %v", k.args, what, st, err)
	want := k.expBook()
	for _, p := range ps {
		ap, err := netip.ParseAddrPort(p.Address)
		c.noErr(err, "address", "%q", p.Address)
		if ap.Addr().IsLoopback() { // Ours.
			continue
		}
		port, ok := want[ap.Addr()]
		c.check(ok && port == ap.Port(), "seeds", "%q: %s: address book contains %s, expected %v", k.args, what, ap, k.expBook())
		delete(want, ap.Addr())
	}
	c.check(len(want) == 0, "seeds", "%q: %s: address book misses %v", k.args, what, want)
}

// checkNetwork looks at the program as a network peer.
func (k *cmdline) checkNetwork() {
	c := k.c
	if k.decl == "" {
		cn, err := net.DialTimeout("tcp", k.net, 2*time.Second)
		if err == nil {
			_ = cn.Close()
			c.fail("listens", "%q: there is no declared address, but it listens on %s", k.args, k.net)
		}
		return
	}
	from := func(i int) netip.Addr { return netip.AddrFrom4([4]byte{127, 99, byte(c.rng.IntN(256)), byte(1 + i)}) }
	for i := range min(len(k.vers)+1, 4) {
		a := from(i)
		// Sessions that come to nothing lead on to the next version.
		for range i {
			cn, err := vDialFrom(a, k.net, 10*time.Second)
			c.check(err == nil, "listens", "%q: no connection to %s: %v", k.args, k.net, err)
			_ = cn.(*net.TCPConn).CloseWrite()
			_ = cn.SetReadDeadline(time.Now().Add(10 * time.Second))
			buf := make([]byte, 1)
			n, err := cn.Read(buf)
			c.check(n == 0 && err != nil && !os.IsTimeout(err), "refusal", "%q: a session without handshake is not closed: %d %v", k.args, n, err)
			_ = cn.Close()
		}
		want := k.vers[i%len(k.vers)]
		cn, err := vDialFrom(a, k.net, 10*time.Second)
		c.check(err == nil, "listens", "%q: no connection to %s: %v", k.args, k.net, err)
		hs := vHandshake(a, 0, want, "peer")
		hs.AppName = "waves" + string(vSchemes[k.bt])
		p, err := vShake(cn, hs, true, 20*time.Second)
		c.check(err == nil, "handshake", "%q: no handshake: %v", k.args, err)
		c.check(p.hs.AppName == hs.AppName, "network", "%q: handshake of network %q", k.args, p.hs.AppName)
		c.check(p.hs.NodeName == k.name, "name", "%q: handshake with name %q, expected %q", k.args, p.hs.NodeName, k.name)
		c.check(p.hs.Version == want, "versions", "%q: offer %d is version %s, expected %s", k.args, i, p.hs.Version, want)
		d := netip.MustParseAddrPort(k.decl)
		da := proto.TCPAddr(p.hs.DeclaredAddr)
		ip, _ := netip.AddrFromSlice(da.IP)
		c.check(ip.Unmap() == d.Addr() && da.Port == int(d.Port()), "declared", "%q: handshake with declared address %s", k.args, da)
		_ = cn.Close()
		c.count("offers_checked", 1)
	}
}

func (k *cmdline) start() *vProc { return vExec(k.c, k.wd, k.args...) }

func validCase(c *vc) {
	k := makeCmdline(c, "")
	p := k.start()
	defer p.kill()
	c.op("%q", k.args)
	if !p.started(k.api, 60*time.Second) {
		p.healthy()
		c.fail("refused", "%q is valid but the program ends with %d: %s", k.args, p.rc, p.tail(2000))
	}
	k.checkBook("first start")
	k.checkNetwork()
	es, err := os.ReadDir(k.dir)
	c.must(err)
	c.check(len(es) > 0, "folder", "%q: nothing is stored in %s", k.args, k.dir)
	t := p.text()
	switch strings.ToUpper(k.level) {
	case "", "INFO", "DEBUG":
		c.check(strings.Contains(t, "INFO"), "log-level", "%q: no INFO lines in the log: %.300q", k.args, t)
	}
	if strings.ToUpper(k.level) != "DEBUG" {
		c.check(!strings.Contains(t, "DEBUG"), "log-level", "%q: DEBUG lines in the log: %.300q", k.args, t)
	}
	if l := strings.ToUpper(k.level); l == "WARN" || l == "ERROR" {
		c.check(!strings.Contains(t, "INFO"), "log-level", "%q: INFO lines in the log: %.300q", k.args, t)
	}
	p.stop(syscall.SIGTERM, 30*time.Second)
	if c.rng.IntN(4) == 0 { // Once more with the same folder.
		p = k.start()
		defer p.kill()
		c.check(p.started(k.api, 60*time.Second), "restart", "%q: the second start ends with %d: %s", k.args, p.rc, p.tail(2000))
		k.checkBook("second start")
		p.stop(syscall.SIGINT, 30*time.Second)
		c.count("second_starts", 1)
	}
	c.count("started", 1)
	c.sampleTrace(2)
	c.eval(vHash(k.args))
}

var vInvalid = []string{"db", "blockchain-type", "peers", "api", "net", "name", "versions", "log-level", "flag"}

func invalidCase(c *vc) {
	n := 0
	fmt.Sscanf(c.name, "refused-%d", &n)
	k := makeCmdline(c, vInvalid[n%len(vInvalid)])
	p := k.start()
	defer p.kill()
	c.op("invalid %s: %q", k.bad, k.args)
	if !p.exited(5 * time.Second) {
		var st int
		if st, _, _ = vGet(k.api, "/api/status", 5*time.Second, nil); st != 200 && p.exited(20*time.Second) {
			st = -1
		}
		if st != -1 {
			c.fail("accepted", "%q has an invalid %s but the program starts: %s", k.args, k.bad, p.tail(1000))
		}
	}
	p.healthy()
	c.check(p.rc != 0, "exit-status", "%q has an invalid %s but ends with status 0: %s", k.args, k.bad, p.tail(1000))
	c.check(strings.TrimSpace(p.err.String()) != "", "no-message", "%q has an invalid %s and ends with %d without a message", k.args, k.bad, p.rc)
	c.count("refused_"+vInvalid[n%len(vInvalid)], 1)
	c.eval(vHash(k.args))
}

// foreignCase starts the program with a folder that holds the data of another network or is in use: it can't go on with
// it. The data stay as they are and go on working for those they belong to.
func foreignCase(c *vc) {
	host, dir := vOwnHost(), c.dir()
	bts := []string{"mainnet", "testnet", "stagenet"}
	c.rng.Shuffle(3, func(i, j int) { bts[i], bts[j] = bts[j], bts[i] })
	start := func(bt string) (*vProc, string) {
		api, nt := fmt.Sprintf("%s:%d", host, vFreePort(host)), fmt.Sprintf("%s:%d", host, vFreePort(host))
		return vExec(c, dir, "-db", dir, "-blockchain-type", bt, "-api", api, "-net", nt), api
	}
	refused := func(what, bt string) {
		p, api := start(bt)
		defer p.kill()
		if !p.exited(5*time.Second) && p.started(api, 5*time.Second) {
			c.fail("accepted", "%s: the program starts for %s: %s", what, bt, p.tail(1000))
		}
		c.check(p.exited(20*time.Second), "accepted", "%s: the program goes on for %s: %s", what, bt, p.tail(1000))
		p.healthy()
		c.check(p.rc != 0, "exit-status", "%s: the program ends with status 0 for %s: %s", what, bt, p.tail(1000))
		c.check(strings.TrimSpace(p.err.String()) != "", "no-message", "%s: the program ends with %d without a message", what, p.rc)
		c.count("refused_folder", 1)
	}
	first, api := start(bts[0])
	defer first.kill()
	c.check(first.started(api, 60*time.Second), "refused", "the program ends with %d: %s", first.rc, first.tail(2000))
	refused("the folder is in use", bts[c.rng.IntN(2)])
	st, _, err := vGet(api, "/api/status", 20*time.Second, nil)
	c.check(err == nil && st == 200 && first.running(), "disturbed", "the program does not answer after another one was started with its folder: %d %v: %s", st, err, first.tail(1000))
	first.stop(syscall.SIGTERM, 30*time.Second)
	refused("the folder holds data of "+bts[0], bts[1])
	again, api := start(bts[0])
	defer again.kill()
	c.check(again.started(api, 60*time.Second), "refused", "the program for %s ends with %d after one for %s: %s", bts[0], again.rc, bts[1], again.tail(2000))
	again.stop(syscall.SIGTERM, 30*time.Second)
	c.eval(vHash(strings.Join(bts, " ")))
}

// anyAddrCase listens on all addresses.
func anyAddrCase(c *vc) {
	k := &cmdline{c: c, host: vOwnHost(), wd: c.dir(), bt: "testnet", name: "forkdetector", vers: []proto.Version{vVer15}, decl: "5.6.7.8:9"}
	k.dir = k.wd
	a, n := vFreePort("0.0.0.0"), vFreePort("0.0.0.0")
	k.api, k.net = fmt.Sprintf("%s:%d", k.host, a), fmt.Sprintf("%s:%d", k.host, n)
	any := "0.0.0.0"
	if c.name == "any-address-1" {
		any = "[::ffff:0.0.0.0]"
	}
	k.args = []string{"-db", ".", "-blockchain-type", "testnet", "-declared-address", k.decl, "-net", fmt.Sprintf("%s:%d", any, n), "-api", fmt.Sprintf("0.0.0.0:%d", a)}
	p := k.start()
	defer p.kill()
	c.check(p.started(k.api, 60*time.Second), "refused", "%q ends with %d: %s", k.args, p.rc, p.tail(2000))
	k.checkBook("all addresses")
	k.checkNetwork()
	p.stop(syscall.SIGTERM, 30*time.Second)
	c.eval(vHash(k.args))
}

// genesisCase lets the program ask for history: it must know the genesis block of its network.
func genesisCase(c *vc) {
	bt := strings.TrimPrefix(c.name, "genesis-")
	host, dir := vOwnHost(), c.dir()
	api, nt := fmt.Sprintf("%s:%d", host, vFreePort(host)), fmt.Sprintf("%s:%d", host, vFreePort(host))
	p := vExec(c, dir, "-db", dir, "-blockchain-type", bt, "-api", api, "-net", nt, "-declared-address", "77.1.1.1:1")
	defer p.kill()
	c.check(p.started(api, 60*time.Second), "refused", "the program ends with %d: %s", p.rc, p.tail(2000))
	want := map[string]proto.BlockID{"mainnet": settings.MainNetSettings.Genesis.BlockID(), "testnet": settings.TestNetSettings.Genesis.BlockID(),
		"stagenet": settings.StageNetSettings.Genesis.BlockID()}[bt]
	a := vAddr("127.99.1.1")
	cn, err := vDialFrom(a, nt, 10*time.Second)
	c.noErr(err, "listens", "connecting")
	defer func() { _ = cn.Close() }()
	hs := vHandshake(a, 0, vVer15, "peer")
	hs.AppName = "waves" + string(vSchemes[bt])
	got := make(chan proto.BlockID, 16)
	tp, err := vShake(cn, hs, true, 20*time.Second)
	c.noErr(err, "handshake", "shaking hands")
	tp.onMsg = func(_ *tcpPeer, m proto.Message) {
		if ids, _, ok := vHistoryIDs(m); ok && len(ids) > 0 {
			select {
			case got <- ids[len(ids)-1]:
			default:
			}
		}
	}
	go tp.run()
	c.must(tp.send(&proto.ScoreMessage{Score: []byte{1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}}))
	select {
	case id := <-got:
		c.check(id == want, "genesis", "%s asks for history from block %s, the genesis block is %s", bt, id, want)
	case <-time.After(60 * time.Second):
		c.fail("genesis", "%s asks for no history within a minute: %s", bt, p.tail(2000))
	}
	c.check(p.running(), "refused", "the program ended: %s", p.tail(2000))
	p.stop(syscall.SIGTERM, 30*time.Second)
	c.eval(vHash(bt))
}

func vHistoryIDs(m proto.Message) ([]proto.BlockID, bool, bool) {
	switch v := m.(type) {
	case *proto.GetBlockIdsMessage:
		return v.Blocks, false, true
	}
	return nil, false, false
}

func TestG01(t *testing.T) {
	r := vStart(t, "G01", "the real program is started with random command lines whose meaning is known by construction: valid ones must start and show the folder, seed peers, addresses, name, versions in turn, network and genesis block that were given, over its API and to network peers; "+
		"ones with one invalid option must end with an error message and without a panic. One evaluation is one command line; distinct by its text.")
	cases := []vCase{{"genesis-mainnet", genesisCase}, {"genesis-testnet", genesisCase}, {"genesis-stagenet", genesisCase}}
	cases = append(cases, vCases(vScale(6, 60), "folder", foreignCase)...)
	cases = append(cases, vCases(vScale(160, 1500), "valid", validCase)...)
	cases = append(cases, vCases(vScale(270, 2700), "refused", invalidCase)...)
	r.run(cases, 0)
	r.run([]vCase{{"defaults", func(c *vc) { // Nothing but the folder.
		for _, a := range []string{"127.0.0.1:8080", "127.0.0.1:6868"} {
			l, err := net.Listen("tcp", a)
			if err != nil {
				return
			}
			_ = l.Close()
		}
		k := &cmdline{c: c, wd: c.dir(), bt: "mainnet", name: "forkdetector", vers: []proto.Version{vVer15}, api: "127.0.0.1:8080", net: "127.0.0.1:6868", decl: "5.6.7.8:9"}
		k.dir = k.wd
		k.args = []string{"-db", ".", "-declared-address", k.decl}
		p := k.start()
		defer p.kill()
		c.check(p.started(k.api, 60*time.Second), "refused", "%q ends with %d: %s", k.args, p.rc, p.tail(2000))
		k.checkBook("defaults")
		k.checkNetwork()
		p.stop(syscall.SIGTERM, 30*time.Second)
		c.eval(vHash(k.args))
	}}}, 1)
	r.run([]vCase{{"any-address-0", anyAddrCase}, {"any-address-1", anyAddrCase}}, 1)
	r.finish()
}
