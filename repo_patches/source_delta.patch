From c3a77f25926a7352fc9c10bbe20e6062a2a895f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:43 +0000
Subject: [PATCH 01/31] fix: don't panic looking for the common ancestor of
 branches forked near genesis

---
 chains/storage.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/chains/storage.go b/chains/storage.go
index 50e3895..f669198 100644
--- a/chains/storage.go
+++ b/chains/storage.go
@@ -354,6 +354,9 @@ func (s *storage) lca(id1, id2 proto.BlockID) (proto.BlockID, error) {
 	// Finding the link closest to the genesis block which is not the common ancestor of farthest and other i.e.
 	// a link x such that x is not the common ancestor of farthest and other but x.Parents[0] is.
 	for i := len(farthest.Parents) - 1; i >= 0; i-- {
+		if i >= len(farthest.Parents) || i >= len(other.Parents) {
+			continue // The jump is too long for the links we moved to, try the shorter one.
+		}
 		if farthest.Parents[i] != other.Parents[i] {
 			farthest, err = s.getLink(sn, farthest.Parents[i])
 			if err != nil {
-- 
2.43.0


From e75b08f905dbc4ab003abd4c762bdb1059531b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:43 +0000
Subject: [PATCH 02/31] fix: return no forks instead of panic if there are no
 leashes

---
 chains/linkage.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/chains/linkage.go b/chains/linkage.go
index 102f90a..182ea1f 100644
--- a/chains/linkage.go
+++ b/chains/linkage.go
@@ -522,6 +522,9 @@ func (l *Linkage) forks(peers LookupPeers) ([]Fork, error) {
 		}
 		r = append(r, frk)
 	}
+	if len(r) == 0 {
+		return r, nil // There are no leashes to build forks from.
+	}
 	sort.Sort(byScoreAndPeersDesc(r))
 
 	longest := r[0]
-- 
2.43.0


From efebac63b5fc1e65a66aba4406ceb265137daffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:43 +0000
Subject: [PATCH 03/31] fix: don't allocate memory for the requested number of
 ancestors in advance

---
 chains/storage.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/chains/storage.go b/chains/storage.go
index f669198..1118b62 100644
--- a/chains/storage.go
+++ b/chains/storage.go
@@ -244,7 +244,7 @@ func (s *storage) getAncestors(id proto.BlockID, count int) ([]proto.BlockID, er
 	if err != nil {
 		return nil, fmt.Errorf("failed to get ancestors: %w", err)
 	}
-	r := make([]proto.BlockID, 0, count)
+	r := make([]proto.BlockID, 0) // The count is not trusted, don't allocate in advance.
 	i := 0
 	for i < count {
 		l, glErr := s.getLink(sn, n)
@@ -276,7 +276,7 @@ func (s *storage) getBlocks(id proto.BlockID, count int) ([]Block, error) {
 	if err != nil {
 		return nil, fmt.Errorf("failed to get blocks: %w", err)
 	}
-	r := make([]Block, 0, count)
+	r := make([]Block, 0) // The count is not trusted, don't allocate in advance.
 	i := 0
 	for i < count {
 		b, gbErr := s.getBlock(sn, n)
-- 
2.43.0


From 9deafab3054f2bc578957efccf4bc30fdaa3159f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:43 +0000
Subject: [PATCH 04/31] fix: refuse blocks with base target or timestamp out of
 range instead of panic

---
 chains/linkage.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/chains/linkage.go b/chains/linkage.go
index 182ea1f..c136560 100644
--- a/chains/linkage.go
+++ b/chains/linkage.go
@@ -18,11 +18,15 @@ import (
 
 const (
 	longForkThreshold = 5
+
+	// maxTimestamp is the start of the last day of year 9999, the time after it can't be marshaled to JSON.
+	maxTimestamp uint64 = 253402214400000
 )
 
 var (
 	ErrParentNotFound = fmt.Errorf("parent not found")
 	ErrRefNotFound    = fmt.Errorf("reference block not found")
+	ErrInvalidBlock   = fmt.Errorf("invalid block")
 )
 
 type Leasher interface {
@@ -90,6 +94,9 @@ func (l *Linkage) PutBlock(block *proto.Block, addr netip.Addr) error {
 	if !hasParent {
 		return ErrParentNotFound
 	}
+	if valErr := validateHeader(block); valErr != nil {
+		return valErr
+	}
 	if insErr := l.st.putProtoBlock(block); insErr != nil {
 		return insErr
 	}
@@ -99,6 +106,17 @@ func (l *Linkage) PutBlock(block *proto.Block, addr netip.Addr) error {
 	return nil
 }
 
+// validateHeader checks that values of the block's header can be stored and presented.
+func validateHeader(block *proto.Block) error {
+	if block.BaseTarget > math.MaxInt64 {
+		return fmt.Errorf("%w: base target %d is too big", ErrInvalidBlock, block.BaseTarget)
+	}
+	if block.Timestamp > maxTimestamp {
+		return fmt.Errorf("%w: timestamp %d is too big", ErrInvalidBlock, block.Timestamp)
+	}
+	return nil
+}
+
 func (l *Linkage) PutMicroBlock(inv *proto.MicroBlockInv, addr netip.Addr) error {
 	l.mu.Lock()
 	defer l.mu.Unlock()
-- 
2.43.0


From edd16851db8442cc1bd2e6bab12a141d6787f653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:27 +0000
Subject: [PATCH 05/31] fix: return no active forks if there are no connections
 to consider

---
 api/api.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/api/api.go b/api/api.go
index c6f42c5..048c760 100644
--- a/api/api.go
+++ b/api/api.go
@@ -308,10 +308,13 @@ func (a *API) activeForks(w http.ResponseWriter, r *http.Request) {
 		}
 		ps[conn.ID()] = struct{}{}
 	}
-	forks, err := a.linkage.Forks(ps)
-	if err != nil {
-		http.Error(w, fmt.Sprintf("Failed to complete request: %v", err), http.StatusInternalServerError)
-		return
+	forks := make([]chains.Fork, 0)
+	if len(ps) > 0 { // Empty set of peers means no filtering for the function below.
+		forks, err = a.linkage.Forks(ps)
+		if err != nil {
+			http.Error(w, fmt.Sprintf("Failed to complete request: %v", err), http.StatusInternalServerError)
+			return
+		}
 	}
 	err = json.NewEncoder(w).Encode(forks)
 	if err != nil {
-- 
2.43.0


From 883058380a38ee995e41c31fd2688dc1c7ec7129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:28 +0000
Subject: [PATCH 06/31] fix: refuse registration of peers already known as
 hostile

---
 peers/registry.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/peers/registry.go b/peers/registry.go
index e7f0b39..e5d244c 100644
--- a/peers/registry.go
+++ b/peers/registry.go
@@ -82,12 +82,12 @@ func (r *Registry) RegisterPeer(addr netip.Addr, np peer.Peer, handshake proto.H
 			_ = np.Close()
 			return fmt.Errorf("failed to register peer: %w", err)
 		}
-		if p.State == PeerHostile {
-			_ = np.Close()
-			return fmt.Errorf("peer '%s' already registered as hostile", addr.String())
-		}
 		p = Peer{}
 	}
+	if p.State == PeerHostile {
+		_ = np.Close()
+		return fmt.Errorf("peer '%s' already registered as hostile", addr.String())
+	}
 
 	if np.Handshake().Version.CmpMinor(p.Version) >= 2 {
 		p.State = PeerHostile
-- 
2.43.0


From 7619d06149af8a4438dbc1e686c053362c896640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:29 +0000
Subject: [PATCH 07/31] fix: close connections of refused peers and list only
 registered ones

---
 peers/registry.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/peers/registry.go b/peers/registry.go
index e5d244c..c22fd36 100644
--- a/peers/registry.go
+++ b/peers/registry.go
@@ -72,6 +72,7 @@ func (r *Registry) RegisterPeer(addr netip.Addr, np peer.Peer, handshake proto.H
 		return fmt.Errorf("failed to register peer: not an IPv4 address: '%s'", addr.String())
 	}
 	if addr.Compare(r.declared) == 0 {
+		_ = np.Close()
 		return errors.New("failed to register peer: connection to itself")
 	}
 
@@ -116,9 +117,12 @@ func (r *Registry) RegisterPeer(addr netip.Addr, np peer.Peer, handshake proto.H
 	p.NextAttempt = time.Now().Round(time.Second)
 	p.p = np
 
+	if putErr := r.storage.putPeer(p); putErr != nil {
+		_ = np.Close()
+		return fmt.Errorf("failed to register peer: %w", putErr)
+	}
 	r.connections[addr] = np
-
-	return r.storage.putPeer(p)
+	return nil
 }
 
 func (r *Registry) UpdatePeerScore(addr netip.Addr, score *big.Int) error {
@@ -138,6 +142,7 @@ func checkPort(addr netip.Addr, np peer.Peer, handshake proto.Handshake) (uint16
 	if !handshake.DeclaredAddr.Empty() {
 		ha, pErr := netip.ParseAddrPort(handshake.DeclaredAddr.String())
 		if pErr != nil {
+			_ = np.Close()
 			return 0, fmt.Errorf("failed to register peer: invalid declared address: %w", pErr)
 		}
 		port = ha.Port()
-- 
2.43.0


From 7a0a5edb9c647c817dabbdd4715e61a48db9b64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:30 +0000
Subject: [PATCH 08/31] fix: don't panic on handshake with empty application
 name

---
 peers/registry.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peers/registry.go b/peers/registry.go
index c22fd36..5b6b4bc 100644
--- a/peers/registry.go
+++ b/peers/registry.go
@@ -97,7 +97,7 @@ func (r *Registry) RegisterPeer(addr netip.Addr, np peer.Peer, handshake proto.H
 		_ = np.Close()
 		return r.storage.putPeer(p)
 	}
-	if np.Handshake().AppName[len(np.Handshake().AppName)-1] != r.scheme {
+	if app := np.Handshake().AppName; len(app) == 0 || app[len(app)-1] != r.scheme {
 		p.State = PeerHostile
 		p.Version = np.Handshake().Version
 		p.Name = fmt.Sprintf("%s(%s)", np.Handshake().NodeName, np.Handshake().AppName)
-- 
2.43.0


From a6fc68d8924087e63af91a9fa1cd3f5ac82e1b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:30 +0000
Subject: [PATCH 09/31] fix: record hostile peers with names that are not valid
 UTF-8 strings

---
 peers/registry.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/peers/registry.go b/peers/registry.go
index 5b6b4bc..29c13cc 100644
--- a/peers/registry.go
+++ b/peers/registry.go
@@ -7,6 +7,7 @@ import (
 	"net"
 	"net/netip"
 	"sort"
+	"strings"
 	"sync"
 	"time"
 
@@ -93,14 +94,14 @@ func (r *Registry) RegisterPeer(addr netip.Addr, np peer.Peer, handshake proto.H
 	if np.Handshake().Version.CmpMinor(p.Version) >= 2 {
 		p.State = PeerHostile
 		p.Version = np.Handshake().Version
-		p.Name = fmt.Sprintf("%s(%s)", np.Handshake().NodeName, np.Handshake().AppName)
+		p.Name = hostileName(np.Handshake())
 		_ = np.Close()
 		return r.storage.putPeer(p)
 	}
 	if app := np.Handshake().AppName; len(app) == 0 || app[len(app)-1] != r.scheme {
 		p.State = PeerHostile
 		p.Version = np.Handshake().Version
-		p.Name = fmt.Sprintf("%s(%s)", np.Handshake().NodeName, np.Handshake().AppName)
+		p.Name = hostileName(np.Handshake())
 		_ = np.Close()
 		return r.storage.putPeer(p)
 	}
@@ -137,6 +138,11 @@ func (r *Registry) UpdatePeerScore(addr netip.Addr, score *big.Int) error {
 	return r.storage.putPeer(p)
 }
 
+// hostileName makes the name of a hostile peer, names that are not valid UTF-8 strings can't be stored as is.
+func hostileName(handshake proto.Handshake) string {
+	return strings.ToValidUTF8(fmt.Sprintf("%s(%s)", handshake.NodeName, handshake.AppName), "?")
+}
+
 func checkPort(addr netip.Addr, np peer.Peer, handshake proto.Handshake) (uint16, error) {
 	port := uint16(0)
 	if !handshake.DeclaredAddr.Empty() {
-- 
2.43.0


From 0d49f7ed777959db4ab1bcb397a3a36caf21df1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:31 +0000
Subject: [PATCH 10/31] fix: don't block Distributor on channels to Loader on
 shutdown

---
 distributor.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/distributor.go b/distributor.go
index 2807b88..0758bdc 100644
--- a/distributor.go
+++ b/distributor.go
@@ -210,7 +210,10 @@ func (d *Distributor) handleBlock(block *proto.Block, addr proto.TCPAddr) error
 		return fmt.Errorf("failed to append block: %w", err)
 	}
 	zap.S().Debugf("[DTR] Block '%s' from '%s' was appended", block.BlockID().String(), ap.Addr().String())
-	d.blockCh <- loading.BlockPackage{Peer: ap.Addr(), Block: block}
+	select {
+	case d.blockCh <- loading.BlockPackage{Peer: ap.Addr(), Block: block}:
+	case <-d.ctx.Done(): // Nobody reads the channel on shutdown.
+	}
 	return nil
 }
 
@@ -263,7 +266,7 @@ func (d *Distributor) handleSignaturesMessage(peer peer.Peer, signatures []crypt
 		ids[i] = proto.NewBlockIDFromSignature(s)
 	}
 	zap.S().Debugf("[DTR] Signatures received from '%s'", ap.Addr().String())
-	d.idsCh <- loading.IDsPackage{Peer: ap.Addr(), IDs: ids}
+	d.sendIDs(loading.IDsPackage{Peer: ap.Addr(), IDs: ids})
 }
 
 func (d *Distributor) handleBlockIDsMessage(peer peer.Peer, ids []proto.BlockID) {
@@ -278,7 +281,14 @@ func (d *Distributor) handleBlockIDsMessage(peer peer.Peer, ids []proto.BlockID)
 	}
 	zap.S().Debugf("[DTR] Block IDs [%s..%s] received from %s",
 		ids[0].ShortString(), ids[len(ids)-1].ShortString(), ap.Addr().String())
-	d.idsCh <- loading.IDsPackage{Peer: ap.Addr(), IDs: ids}
+	d.sendIDs(loading.IDsPackage{Peer: ap.Addr(), IDs: ids})
+}
+
+func (d *Distributor) sendIDs(p loading.IDsPackage) {
+	select {
+	case d.idsCh <- p:
+	case <-d.ctx.Done(): // Nobody reads the channel on shutdown.
+	}
 }
 
 func (d *Distributor) handleMicroBlockInvMessage(peer peer.Peer, msg *proto.MicroBlockInvMessage) {
-- 
2.43.0


From 3c1456eb9c2729937dd014719f216559adf86aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:31 +0000
Subject: [PATCH 11/31] fix: report the actual error of block appending

---
 distributor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distributor.go b/distributor.go
index 0758bdc..b86e2f9 100644
--- a/distributor.go
+++ b/distributor.go
@@ -207,7 +207,7 @@ func (d *Distributor) handleBlock(block *proto.Block, addr proto.TCPAddr) error
 		return fmt.Errorf("failed to parse peer remote address: %w", err)
 	}
 	if putErr := d.linkage.PutBlock(block, ap.Addr()); putErr != nil && !errors.Is(putErr, chains.ErrParentNotFound) {
-		return fmt.Errorf("failed to append block: %w", err)
+		return fmt.Errorf("failed to append block: %w", putErr)
 	}
 	zap.S().Debugf("[DTR] Block '%s' from '%s' was appended", block.BlockID().String(), ap.Addr().String())
 	select {
-- 
2.43.0


From 471e6f35dba75d32a21fa5eeba5fb0132ec229cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:32 +0000
Subject: [PATCH 12/31] fix: report loading failure even if received blocks
 can't be applied

---
 loading/peer_loader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/loading/peer_loader.go b/loading/peer_loader.go
index febfa25..5a7d825 100644
--- a/loading/peer_loader.go
+++ b/loading/peer_loader.go
@@ -237,6 +237,7 @@ func (pl *peerLoader) appendBlock(_ context.Context, args ...any) error {
 }
 
 func (pl *peerLoader) handleFailure(_ context.Context, _ ...any) error {
+	defer pl.r.Fail() // Report the failure even if the queue can't be applied, otherwise loading never continues.
 	// Partially apply the queue. Check queue for received blocks and move leash to the last received block.
 	for _, it := range pl.queue.q {
 		if it.received != nil && it.received.BlockID() == it.requested {
@@ -247,7 +248,6 @@ func (pl *peerLoader) handleFailure(_ context.Context, _ ...any) error {
 			break // Stop on first not received block.
 		}
 	}
-	pl.r.Fail()
 	return nil
 }
 
-- 
2.43.0


From 36fa55f06ca4be2aefbff852aa46e0f16d214036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:33 +0000
Subject: [PATCH 13/31] fix: don't apply blocks of the previous request again
 on timeout

---
 loading/peer_loader.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/loading/peer_loader.go b/loading/peer_loader.go
index 5a7d825..2800f80 100644
--- a/loading/peer_loader.go
+++ b/loading/peer_loader.go
@@ -158,6 +158,7 @@ func (pl *peerLoader) requestIDs(_ context.Context, _ ...any) error {
 	if err != nil {
 		return fmt.Errorf("failed to request IDs from '%s': %w", pl.peer.ID(), err)
 	}
+	pl.queue = queue{} // Forget blocks of the previous request, they must not be applied again.
 	pl.peer.RequestBlockIDs(lastIDs)
 	pl.timestamp = time.Now()
 	return nil
@@ -172,6 +173,7 @@ func (pl *peerLoader) requestIDsFromLCA(_ context.Context, _ ...any) error {
 	if err != nil {
 		return fmt.Errorf("failed to request IDs from '%s': %w", pl.peer.ID(), err)
 	}
+	pl.queue = queue{} // Forget blocks of the previous request, they must not be applied again.
 	pl.peer.RequestBlockIDs(lastIDs)
 	pl.timestamp = time.Now()
 	return nil
-- 
2.43.0


From 8db39b7705c7a6254fd161d2ade8ad64dbe5d21c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:33 +0000
Subject: [PATCH 14/31] fix: don't panic on shutdown of Listener that failed to
 start

---
 listener.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/listener.go b/listener.go
index 377ff37..11c5f60 100644
--- a/listener.go
+++ b/listener.go
@@ -18,7 +18,6 @@ type Listener struct {
 	declared proto.TCPAddr
 
 	cm *ConnectionManager
-	nl net.Listener
 }
 
 func NewListener(bind, declared proto.TCPAddr, cm *ConnectionManager) Service {
@@ -49,10 +48,6 @@ func (l *Listener) Run(ctx context.Context) {
 }
 
 func (l *Listener) Shutdown() {
-	if err := l.nl.Close(); err != nil {
-		zap.S().Errorf("Failed to close listener on %s: %v", l.bind, err)
-		return
-	}
 	if err := l.wait(); err != nil {
 		zap.S().Warnf("Failed to shutdown Listener: %v", err)
 	}
@@ -66,14 +61,19 @@ func (l *Listener) run() error {
 	if err != nil {
 		return err
 	}
-	l.nl = nl
+	stop := context.AfterFunc(l.ctx, func() { // Unblocks Accept on shutdown.
+		if clErr := nl.Close(); clErr != nil {
+			zap.S().Errorf("Failed to close listener on %s: %v", l.bind, clErr)
+		}
+	})
+	defer stop()
 
 	for {
 		select {
 		case <-l.ctx.Done():
 			return nil
 		default:
-			conn, acErr := l.nl.Accept()
+			conn, acErr := nl.Accept()
 			if acErr != nil {
 				zap.S().Errorf("Failed to accept connection: %v", acErr)
 				continue
-- 
2.43.0


From 8f564ed5aeb7bcf9d17dd2a952077aca59f0c117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:33 +0000
Subject: [PATCH 15/31] fix: don't panic on IPv6 addresses in command line

---
 parameters.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/parameters.go b/parameters.go
index 0bb480c..b86d02b 100644
--- a/parameters.go
+++ b/parameters.go
@@ -79,6 +79,10 @@ func newParameters() (*parameters, error) {
 	if err != nil {
 		return nil, fmt.Errorf("invalid parameters: %w", err)
 	}
+	nb := parseAddress(na)
+	if nb.IP == nil {
+		return nil, fmt.Errorf("invalid parameters: not an IPv4 address to bind the network server: %s", na)
+	}
 	nm, err := checkName(*flagName)
 	if err != nil {
 		return nil, fmt.Errorf("invalid parameters: %w", err)
@@ -90,7 +94,7 @@ func newParameters() (*parameters, error) {
 		genesis:         bs.Genesis,
 		seedPeers:       sps,
 		apiBind:         aa,
-		netBind:         parseAddress(na),
+		netBind:         nb,
 		declaredAddress: parseAddress(*flagDeclaredAddress),
 		name:            nm,
 		nonce:           rand2.Uint32(), //nolint:gosec // No need for crypto random here.
@@ -215,6 +219,9 @@ func parseAddress(addr string) proto.TCPAddr {
 	if err != nil {
 		return proto.TCPAddr{}
 	}
+	if !ap.Addr().Is4() && !ap.Addr().Is4In6() {
+		return proto.TCPAddr{}
+	}
 	ip4 := ap.Addr().As4()
 	ip := net.IPv4(ip4[0], ip4[1], ip4[2], ip4[3])
 	return proto.NewTCPAddr(ip, int(ap.Port()))
-- 
2.43.0


From b32140f991dcf2e4ea9bc8a775e73abd2641e4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:34 +0000
Subject: [PATCH 16/31] fix: close incoming connections of refused peers

---
 connection_manager.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/connection_manager.go b/connection_manager.go
index fdca406..ff2ee19 100644
--- a/connection_manager.go
+++ b/connection_manager.go
@@ -72,10 +72,12 @@ func (h *ConnectionManager) Accept(ctx context.Context, conn net.Conn) error {
 
 	ap, err := netip.ParseAddrPort(conn.RemoteAddr().String())
 	if err != nil {
+		_ = conn.Close()
 		return fmt.Errorf("failed to handle incoming connection: %w", err)
 	}
 	ver, err := h.vp.SuggestVersion(ap.Addr())
 	if err != nil {
+		_ = conn.Close()
 		return err
 	}
 	params := incoming.PeerParams{
-- 
2.43.0


From 38e9f164453942fdacc66d686dc489dfff6e7db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:35 +0000
Subject: [PATCH 17/31] fix: don't acquire read lock recursively while logging
 statistics

---
 chains/linkage.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chains/linkage.go b/chains/linkage.go
index c136560..826e7e7 100644
--- a/chains/linkage.go
+++ b/chains/linkage.go
@@ -257,7 +257,7 @@ func (l *Linkage) LogInitialStats() {
 	}
 	zap.S().Infof("Heads count in storage: %d", len(heads))
 	for _, head := range heads {
-		b, blErr := l.Block(head.BlockID)
+		b, blErr := l.block(head.BlockID)
 		if blErr != nil {
 			zap.S().Errorf("Failed to get block: %v", blErr)
 			return
-- 
2.43.0


From 6afed47b9a88a066ebd0418454eb1903db59fadc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:36 +0000
Subject: [PATCH 18/31] fix: report the error of reading of malformed peer
 record

---
 peers/storage.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peers/storage.go b/peers/storage.go
index b653beb..71c8ad2 100644
--- a/peers/storage.go
+++ b/peers/storage.go
@@ -78,7 +78,7 @@ func (s *storage) peer(addr netip.Addr) (Peer, error) {
 	}
 	val := new(value)
 	if umErr := cbor.Unmarshal(v, val); umErr != nil {
-		return Peer{}, err
+		return Peer{}, umErr
 	}
 	ver, err := proto.NewVersionFromString(val.Version)
 	if err != nil {
-- 
2.43.0


From 5ca591aa0c6abfd78f0734d31a2b165c3cbd9d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:36 +0000
Subject: [PATCH 19/31] fix: continue respawning connections after a failure to
 get addresses

---
 respawn.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/respawn.go b/respawn.go
index 0a9aaef..256de36 100644
--- a/respawn.go
+++ b/respawn.go
@@ -65,7 +65,6 @@ func (r *Respawn) handleEvents() error {
 
 			if err != nil {
 				zap.S().Warnf("Failed to take available addresses: %v", err)
-				continue
 			}
 			r.establishConnections(addresses)
 			r.timer.Reset(respawnInterval)
-- 
2.43.0


From ea685b75c176fd2a701f23d0a4e0c274d52a969d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:52 +0000
Subject: [PATCH 20/31] fix: don't block forever on sending to a closed peer

---
 distributor.go    | 12 ++++++------
 peers/peer.go     | 33 +++++++++++++++++++++++++++++----
 peers/registry.go |  2 +-
 3 files changed, 36 insertions(+), 11 deletions(-)

diff --git a/distributor.go b/distributor.go
index b86e2f9..64ab383 100644
--- a/distributor.go
+++ b/distributor.go
@@ -234,25 +234,25 @@ func (d *Distributor) handlePeersMessage(pm *proto.PeersMessage) {
 	}
 }
 
-func (d *Distributor) handleGetPeersMessage(peer peer.Peer) {
-	zap.S().Debugf("[DTR] Get peers from %s", peer.RemoteAddr().String())
+func (d *Distributor) handleGetPeersMessage(p peer.Peer) {
+	zap.S().Debugf("[DTR] Get peers from %s", p.RemoteAddr().String())
 	friendlyPeers, err := d.registry.FriendlyPeers()
 	if err != nil {
 		zap.S().Warnf("Failed to get peers: %v", err)
 		return
 	}
 	infos := make([]proto.PeerInfo, 0, len(friendlyPeers))
-	for _, p := range friendlyPeers {
+	for _, fp := range friendlyPeers {
 		pi := proto.PeerInfo{
-			Addr: p.TCPAddr().IP,
-			Port: p.AddressPort.Port(),
+			Addr: fp.TCPAddr().IP,
+			Port: fp.AddressPort.Port(),
 		}
 		infos = append(infos, pi)
 	}
 	peersMessage := &proto.PeersMessage{
 		Peers: infos,
 	}
-	peer.SendMessage(peersMessage)
+	peers.Send(p, peersMessage)
 }
 
 func (d *Distributor) handleSignaturesMessage(peer peer.Peer, signatures []crypto.Signature) {
diff --git a/peers/peer.go b/peers/peer.go
index 20b5763..4c59376 100644
--- a/peers/peer.go
+++ b/peers/peer.go
@@ -14,6 +14,31 @@ import (
 	"github.com/wavesplatform/gowaves/pkg/proto"
 )
 
+// sendTimeout limits the time of passing a message to a peer.
+const sendTimeout = time.Second
+
+// Send passes the message to the peer. Messages to closed peers are dropped, because nobody reads the peer's queue after
+// closing and SendMessage blocks forever as soon as the queue is full. The connection can be closed while the message
+// is being passed, so the waiting time is limited too.
+func Send(p peer.Peer, msg proto.Message) {
+	if c := p.Connection(); c != nil && c.SendClosed() {
+		zap.S().Debugf("Message %T to closed peer '%s' dropped", msg, p.ID())
+		return
+	}
+	done := make(chan struct{})
+	go func() {
+		defer close(done)
+		p.SendMessage(msg)
+	}()
+	t := time.NewTimer(sendTimeout)
+	defer t.Stop()
+	select {
+	case <-done:
+	case <-t.C:
+		zap.S().Warnf("Failed to pass message %T to peer '%s' in time", msg, p.ID())
+	}
+}
+
 type HistoryRequester interface {
 	ID() netip.Addr
 	RequestBlockIDs(ids []proto.BlockID)
@@ -55,7 +80,7 @@ func (p *Peer) TCPAddr() *net.TCPAddr {
 func (p *Peer) Send(msg proto.Message) {
 	if p.p != nil {
 		zap.S().Debugf("Sending message to %s", p.AddressPort.String())
-		p.p.SendMessage(msg)
+		Send(p.p, msg)
 	}
 }
 
@@ -68,14 +93,14 @@ func (p *Peer) RequestBlockIDs(ids []proto.BlockID) {
 		}
 		zap.S().Debugf("[%s] Requesting signatures for signatures range [%s...%s]",
 			p.p.ID().String(), sigs[0].ShortString(), sigs[len(sigs)-1].ShortString())
-		p.p.SendMessage(&proto.GetSignaturesMessage{Signatures: sigs})
+		Send(p.p, &proto.GetSignaturesMessage{Signatures: sigs})
 	} else {
 		zap.S().Debugf("[%s] Requesting blocks IDs for IDs range [%s...%s]",
 			p.p.ID().String(), ids[0].ShortString(), ids[len(ids)-1].ShortString())
-		p.p.SendMessage(&proto.GetBlockIdsMessage{Blocks: ids})
+		Send(p.p, &proto.GetBlockIdsMessage{Blocks: ids})
 	}
 }
 
 func (p *Peer) RequestBlock(id proto.BlockID) {
-	p.p.SendMessage(&proto.GetBlockMessage{BlockID: id})
+	Send(p.p, &proto.GetBlockMessage{BlockID: id})
 }
diff --git a/peers/registry.go b/peers/registry.go
index 29c13cc..e362fae 100644
--- a/peers/registry.go
+++ b/peers/registry.go
@@ -369,7 +369,7 @@ func (r *Registry) Broadcast(msg proto.Message) {
 	r.mu.Lock()
 	defer r.mu.Unlock()
 	for _, p := range r.connections {
-		p.SendMessage(msg)
+		Send(p, msg)
 	}
 }
 
-- 
2.43.0


From aefd7b67c008bfa2713773b0d227cfd3d91d6cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:16 +0000
Subject: [PATCH 21/31] fix: parse only headers of received blocks

---
 distributor.go | 65 +++++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 59 insertions(+), 6 deletions(-)

diff --git a/distributor.go b/distributor.go
index 64ab383..5171208 100644
--- a/distributor.go
+++ b/distributor.go
@@ -2,6 +2,7 @@ package main
 
 import (
 	"context"
+	"encoding/binary"
 	"errors"
 	"fmt"
 	"math/big"
@@ -14,6 +15,7 @@ import (
 	"go.uber.org/zap"
 	"golang.org/x/sync/errgroup"
 
+	g "github.com/wavesplatform/gowaves/pkg/grpc/generated/waves"
 	"github.com/wavesplatform/gowaves/pkg/p2p/peer"
 	"github.com/wavesplatform/gowaves/pkg/proto"
 
@@ -177,26 +179,26 @@ func (d *Distributor) handleScoreMessage(peer peer.Peer, score []byte) {
 }
 
 func (d *Distributor) handleBlockMessage(peer peer.Peer, bm *proto.BlockMessage) {
-	b := &proto.Block{}
-	if err := b.UnmarshalBinary(bm.BlockBytes, d.scheme); err != nil {
+	b, err := unmarshalBlock(bm.BlockBytes, d.scheme)
+	if err != nil {
 		zap.S().Warnf("Failed to unmarshal block from peer '%s': %v", peer.RemoteAddr().String(), err)
 		return
 	}
 	zap.S().Infof("Block '%s' received from peer '%s'", b.BlockID().String(), peer.RemoteAddr().String())
-	if err := d.handleBlock(b, peer.RemoteAddr()); err != nil {
+	if err = d.handleBlock(b, peer.RemoteAddr()); err != nil {
 		zap.S().Warnf("Failed to handle block from peer '%s': %v", peer.RemoteAddr().String(), err)
 	}
 }
 
 func (d *Distributor) handleProtoBlockMessage(peer peer.Peer, bm *proto.PBBlockMessage) {
-	b := &proto.Block{}
-	if err := b.UnmarshalFromProtobuf(bm.PBBlockBytes); err != nil {
+	b, err := unmarshalProtoBlock(bm.PBBlockBytes)
+	if err != nil {
 		zap.S().Warnf("Failed to unmarshal protobuf block from peer '%s': %v",
 			peer.RemoteAddr().String(), err)
 		return
 	}
 	zap.S().Infof("Block '%s' received from peer '%s'", b.BlockID().String(), peer.RemoteAddr().String())
-	if err := d.handleBlock(b, peer.RemoteAddr()); err != nil {
+	if err = d.handleBlock(b, peer.RemoteAddr()); err != nil {
 		zap.S().Warnf("Failed to handle block from peer '%s': %v", peer.RemoteAddr().String(), err)
 	}
 }
@@ -309,3 +311,54 @@ func (d *Distributor) handleMicroBlockInvMessage(peer peer.Peer, msg *proto.Micr
 	}
 	zap.S().Infof("Micro-block '%s' received from peer '%s'", inv.TotalBlockID.String(), ap.Addr().String())
 }
+
+// unmarshalBlock reads a block from its binary representation. Only the header is parsed: transactions of the block are
+// not used, but parsing of malicious ones may take all the memory or an unlimited time.
+func unmarshalBlock(data []byte, scheme proto.Scheme) (*proto.Block, error) {
+	const (
+		txsLengthPos = 117 // Position of the transactions block length.
+		txsPos       = txsLengthPos + 4
+		featureSize  = 2
+	)
+	if len(data) < txsPos {
+		return nil, errors.New("invalid data size")
+	}
+	countSize := 1 // Size of the transactions counter at the beginning of the transactions block.
+	if proto.BlockVersion(data[0]) >= proto.NgBlockVersion {
+		countSize = 4
+	}
+	txsLength := int(binary.BigEndian.Uint32(data[txsLengthPos:]))
+	if txsLength < countSize || txsLength > len(data)-txsPos {
+		return nil, errors.New("invalid transactions block length")
+	}
+	tail := data[txsPos+txsLength:]
+	if proto.BlockVersion(data[0]) >= proto.NgBlockVersion {
+		if len(tail) < 4 || int(binary.BigEndian.Uint32(tail)) > (len(tail)-4)/featureSize {
+			return nil, errors.New("invalid features count")
+		}
+	}
+	header := make([]byte, 0, txsPos+countSize+len(tail))
+	header = append(header, data[:txsPos+countSize]...)
+	header = append(header, tail...)
+	b := &proto.Block{}
+	if err := b.UnmarshalHeaderFromBinary(header, scheme); err != nil {
+		return nil, err
+	}
+	return b, nil
+}
+
+// unmarshalProtoBlock reads a block from its protobuf representation. As in unmarshalBlock transactions are skipped,
+// moreover the conversion panics on transactions of unknown types.
+func unmarshalProtoBlock(data []byte) (*proto.Block, error) {
+	pb := &g.Block{}
+	if err := pb.UnmarshalVT(data); err != nil {
+		return nil, err
+	}
+	pb.Transactions = nil
+	var c proto.ProtobufConverter
+	b, err := c.Block(pb)
+	if err != nil {
+		return nil, err
+	}
+	return &b, nil
+}
-- 
2.43.0


From c3879afa173418a83b68417b0f422b2035d436b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:47 +0000
Subject: [PATCH 22/31] fix: refuse scores of unreasonable size

---
 distributor.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/distributor.go b/distributor.go
index 5171208..71e926e 100644
--- a/distributor.go
+++ b/distributor.go
@@ -24,7 +24,10 @@ import (
 	"github.com/alexeykiselev/waves-fork-detector/peers"
 )
 
-const pingInterval = 1 * time.Minute
+const (
+	pingInterval = 1 * time.Minute
+	maxScoreSize = 1024 // Size of a real score is about 10 bytes, conversion of huge scores to strings takes minutes.
+)
 
 type Distributor struct {
 	ctx  context.Context
@@ -169,6 +172,10 @@ func (d *Distributor) handleScoreMessage(peer peer.Peer, score []byte) {
 		zap.S().Debugf("[DTR] Failed to parse peer address: %v", err)
 		return
 	}
+	if len(score) > maxScoreSize {
+		zap.S().Debugf("[DTR] Invalid score of size %d received from %s", len(score), ap.Addr().String())
+		return
+	}
 	s := big.NewInt(0).SetBytes(score)
 	zap.S().Debugf("[DTR] New score %s recevied from %s", s.String(), ap.Addr().String())
 	err = d.registry.UpdatePeerScore(ap.Addr(), s)
-- 
2.43.0


From c3ca9fe1ef7ec8d6cc71c448b50d86e2238cb6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:36 +0000
Subject: [PATCH 23/31] fix: skip empty micro-block announcements

---
 connection_manager.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/connection_manager.go b/connection_manager.go
index ff2ee19..7a407cc 100644
--- a/connection_manager.go
+++ b/connection_manager.go
@@ -117,6 +117,9 @@ func (h *ConnectionManager) Connect(ctx context.Context, addr proto.TCPAddr) err
 }
 
 func (h *ConnectionManager) skipFunc(header proto.Header) bool {
+	if header.ContentID == proto.ContentIDInvMicroblock && header.PayloadLength == 0 {
+		return true // Unmarshalling of the message without payload panics.
+	}
 	if r, ok := h.discarded[header.ContentID]; ok {
 		return r
 	}
-- 
2.43.0


From 20dd2219ebb97b52f9e6e85f22772049189581b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:53 +0000
Subject: [PATCH 24/31] fix: don't panic on timeout if received blocks can't be
 applied

---
 loading/loader.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/loading/loader.go b/loading/loader.go
index a78a79c..74284cc 100644
--- a/loading/loader.go
+++ b/loading/loader.go
@@ -250,8 +250,9 @@ func (l *Loader) tick() {
 	if l.pl == nil {
 		return
 	}
+	peer := l.pl.peer.ID() // The peer loader can be reset while processing the tick.
 	if err := l.pl.processTick(time.Now()); err != nil {
-		zap.S().Warnf("Failed to process tick on peer '%s': %v", l.pl.peer.ID(), err)
+		zap.S().Warnf("Failed to process tick on peer '%s': %v", peer, err)
 	}
 }
 
-- 
2.43.0


From 7009c7cc76bc3b833b839b9195ca82e7dfc5027f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:48 +0000
Subject: [PATCH 25/31] fix: don't load forever from a peer whose leash doesn't
 advance

---
 loading/loader.go | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/loading/loader.go b/loading/loader.go
index 74284cc..c9f219e 100644
--- a/loading/loader.go
+++ b/loading/loader.go
@@ -83,9 +83,9 @@ type Loader struct {
 	idsCh   <-chan IDsPackage
 	blockCh <-chan BlockPackage
 
-	pl       *peerLoader
-	prevDiff *big.Int
-	fc       failureCounter
+	pl        *peerLoader
+	prevScore *big.Int // Score of the leash after the previous iteration.
+	fc        failureCounter
 
 	registry *peers.Registry
 	linkage  *chains.Linkage
@@ -138,9 +138,9 @@ func (l *Loader) OK() {
 			zap.S().Warnf("Failed to get peers score: %v", err)
 			return
 		}
-		if diff, lagging := l.isLagging(p.Score, score); lagging {
+		if l.isLagging(p.Score, score) {
 			zap.S().Debugf("[LDR] Peer '%s' is still lagging, continue loading", l.pl.peer.ID())
-			l.prevDiff = diff
+			l.prevScore = score
 			l.continueSync()
 		} else {
 			zap.S().Debugf("[LDR] Peer '%s' is not lagging anymore, resetting loading peer", l.pl.peer.ID())
@@ -153,7 +153,7 @@ func (l *Loader) Fail() {
 	if l.pl != nil && l.pl.sm.MustState() == stateDone {
 		zap.S().Debugf("[LDR] Peer '%s' failed to load history", l.pl.peer.ID())
 		l.fc.inc(l.pl.peer.ID())
-		l.pl = nil
+		l.resetLoadingPeer()
 	}
 }
 
@@ -283,16 +283,13 @@ func (l *Loader) handleBlock(p BlockPackage) {
 	}
 }
 
-func (l *Loader) isLagging(peerScore, leashScore *big.Int) (*big.Int, bool) {
-	// Determine if difference between peer's score and leash score is changed since last iteration.
-	diff := big.NewInt(0).Sub(peerScore, leashScore)
-	if l.prevDiff == nil {
-		return diff, peerScore.Cmp(leashScore) > 0
-	}
-	return diff, peerScore.Cmp(leashScore) > 0 && l.prevDiff.Cmp(diff) != 0
+// isLagging determines if the leash is still behind the peer and has advanced since the last iteration. Otherwise,
+// a peer that moves its leash back and forth or changes its score would be loaded forever.
+func (l *Loader) isLagging(peerScore, leashScore *big.Int) bool {
+	return peerScore.Cmp(leashScore) > 0 && (l.prevScore == nil || l.prevScore.Cmp(leashScore) < 0)
 }
 
 func (l *Loader) resetLoadingPeer() {
 	l.pl = nil
-	l.prevDiff = nil
+	l.prevScore = nil
 }
-- 
2.43.0


From 0724829c4bb4c4d109b8f26f489228347c1ac723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:38 +0000
Subject: [PATCH 26/31] fix: find the fork of a peer by an address with zone

---
 chains/linkage.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/chains/linkage.go b/chains/linkage.go
index 826e7e7..e484d10 100644
--- a/chains/linkage.go
+++ b/chains/linkage.go
@@ -358,6 +358,7 @@ func (l *Linkage) Fork(peer netip.Addr) (Fork, error) {
 	l.mu.RLock()
 	defer l.mu.RUnlock()
 
+	peer = peer.WithZone("") // Leashes are stored without zones.
 	leashes, err := l.st.leashes()
 	if err != nil {
 		return Fork{}, fmt.Errorf("failed to get fork of '%s': %w", peer.String(), err)
-- 
2.43.0


From 91bd614ecb875650e7425bd4a81be63cb4a0669e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:19 +0000
Subject: [PATCH 27/31] fix: list leashes of all addresses, the range excluded
 the greatest IPv6 address

---
 chains/storage.go | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/chains/storage.go b/chains/storage.go
index 1118b62..ff1e868 100644
--- a/chains/storage.go
+++ b/chains/storage.go
@@ -419,13 +419,7 @@ func (s *storage) leashes() ([]Leash, error) {
 	}
 	defer sn.Release()
 	r := make([]Leash, 0)
-	rng := &util.Range{
-		Start: addrKeyBytes(netip.AddrFrom4([...]byte{0x00, 0x00, 0x00, 0x00})),
-		Limit: addrKeyBytes(netip.AddrFrom16([...]byte{
-			0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff,
-		})),
-	}
-	it := sn.NewIterator(rng, nil)
+	it := sn.NewIterator(util.BytesPrefix([]byte{leashPrefix}), nil)
 	defer it.Release()
 	for it.First(); it.Valid(); it.Next() {
 		addr := addrKeyFromBytes(it.Key())
-- 
2.43.0


From bcbea0bf6df698d11ed7a4b91bd761f4fa8b237f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:17 +0000
Subject: [PATCH 28/31] fix: keep a peer connected while it has other sessions

The end of one of several sessions with the same address (e.g. inbound and outbound), or the failure of an outbound
attempt meanwhile, removed the peer from the list of connections although another session was alive. A peer found
hostile by a later session stayed in the list.
---
 distributor.go    |  2 +-
 peers/registry.go | 35 +++++++++++++++++++++++++++--------
 respawn.go        |  2 +-
 3 files changed, 29 insertions(+), 10 deletions(-)

diff --git a/distributor.go b/distributor.go
index 71e926e..91c6bb3 100644
--- a/distributor.go
+++ b/distributor.go
@@ -140,7 +140,7 @@ func (d *Distributor) handleInternalError(peer peer.Peer, ie *peer.InternalErr)
 	if clErr := peer.Close(); clErr != nil {
 		zap.S().Warnf("Failed to close peer '%s' connection: %v", ap.Addr().String(), clErr)
 	}
-	if urErr := d.registry.UnregisterPeer(ap.Addr()); urErr != nil {
+	if urErr := d.registry.UnregisterPeer(ap.Addr(), peer); urErr != nil {
 		zap.S().Warnf("Failed to unregister peer '%s': %v", ap.Addr().String(), urErr)
 	}
 }
diff --git a/peers/registry.go b/peers/registry.go
index e362fae..5efedbd 100644
--- a/peers/registry.go
+++ b/peers/registry.go
@@ -6,6 +6,7 @@ import (
 	"math/big"
 	"net"
 	"net/netip"
+	"slices"
 	"sort"
 	"strings"
 	"sync"
@@ -29,7 +30,7 @@ type Registry struct {
 	storage  *storage
 
 	mu          sync.Mutex
-	connections map[netip.Addr]peer.Peer
+	connections map[netip.Addr][]peer.Peer // There can be several sessions (inbound and outbound) with the same address.
 	pending     map[netip.Addr]struct{}
 }
 
@@ -52,7 +53,7 @@ func NewRegistry(
 		declared:    ap.Addr(),
 		versions:    newVersions(versions),
 		storage:     s,
-		connections: make(map[netip.Addr]peer.Peer),
+		connections: make(map[netip.Addr][]peer.Peer),
 		pending:     make(map[netip.Addr]struct{}),
 	}, nil
 }
@@ -96,6 +97,7 @@ func (r *Registry) RegisterPeer(addr netip.Addr, np peer.Peer, handshake proto.H
 		p.Version = np.Handshake().Version
 		p.Name = hostileName(np.Handshake())
 		_ = np.Close()
+		r.closeSessions(addr)
 		return r.storage.putPeer(p)
 	}
 	if app := np.Handshake().AppName; len(app) == 0 || app[len(app)-1] != r.scheme {
@@ -103,6 +105,7 @@ func (r *Registry) RegisterPeer(addr netip.Addr, np peer.Peer, handshake proto.H
 		p.Version = np.Handshake().Version
 		p.Name = hostileName(np.Handshake())
 		_ = np.Close()
+		r.closeSessions(addr)
 		return r.storage.putPeer(p)
 	}
 
@@ -122,10 +125,18 @@ func (r *Registry) RegisterPeer(addr netip.Addr, np peer.Peer, handshake proto.H
 		_ = np.Close()
 		return fmt.Errorf("failed to register peer: %w", putErr)
 	}
-	r.connections[addr] = np
+	r.connections[addr] = append(r.connections[addr], np)
 	return nil
 }
 
+// closeSessions closes all sessions with the address.
+func (r *Registry) closeSessions(addr netip.Addr) {
+	for _, np := range r.connections[addr] {
+		_ = np.Close()
+	}
+	delete(r.connections, addr)
+}
+
 func (r *Registry) UpdatePeerScore(addr netip.Addr, score *big.Int) error {
 	r.mu.Lock()
 	defer r.mu.Unlock()
@@ -168,7 +179,9 @@ func checkPort(addr netip.Addr, np peer.Peer, handshake proto.Handshake) (uint16
 	return port, nil
 }
 
-func (r *Registry) UnregisterPeer(addr netip.Addr) error {
+// UnregisterPeer removes the session np of the peer, nil stands for a session that was not established. The peer stays
+// connected if it has other sessions.
+func (r *Registry) UnregisterPeer(addr netip.Addr, np peer.Peer) error {
 	r.mu.Lock()
 	defer r.mu.Unlock()
 
@@ -181,6 +194,11 @@ func (r *Registry) UnregisterPeer(addr netip.Addr) error {
 	}
 
 	delete(r.pending, addr)
+	sessions := slices.DeleteFunc(r.connections[addr], func(s peer.Peer) bool { return s == np })
+	if len(sessions) > 0 {
+		r.connections[addr] = sessions
+		return nil
+	}
 	delete(r.connections, addr)
 
 	p.NextAttempt = time.Now().Add(delay).Round(time.Second)
@@ -199,6 +217,7 @@ func (r *Registry) MarkAsHostile(addr net.Addr) error {
 	}
 
 	delete(r.pending, a)
+	r.closeSessions(a)
 
 	p, err := r.storage.peer(a)
 	if err != nil {
@@ -219,12 +238,12 @@ func (r *Registry) Connections() ([]Peer, error) {
 
 	connections := make([]Peer, len(r.connections))
 	i := 0
-	for a, p := range r.connections {
+	for a, sessions := range r.connections {
 		sp, err := r.storage.peer(a)
 		if err != nil {
 			return nil, fmt.Errorf("failed to get active connetcions: %w", err)
 		}
-		sp.p = p
+		sp.p = sessions[len(sessions)-1]
 		connections[i] = sp
 		i++
 	}
@@ -368,8 +387,8 @@ func (r *Registry) TakeAvailableAddresses() ([]netip.AddrPort, error) {
 func (r *Registry) Broadcast(msg proto.Message) {
 	r.mu.Lock()
 	defer r.mu.Unlock()
-	for _, p := range r.connections {
-		Send(p, msg)
+	for _, sessions := range r.connections {
+		Send(sessions[len(sessions)-1], msg)
 	}
 }
 
diff --git a/respawn.go b/respawn.go
index 256de36..d12dd0d 100644
--- a/respawn.go
+++ b/respawn.go
@@ -78,7 +78,7 @@ func (r *Respawn) establishConnections(addresses []netip.AddrPort) {
 			addr := proto.NewTCPAddrFromString(ap.String())
 			if cErr := r.cm.Connect(r.ctx, addr); cErr != nil {
 				zap.S().Debugf("[RSP] Failed to establish outbound connection: %v", cErr)
-				if urErr := r.reg.UnregisterPeer(ap.Addr()); urErr != nil {
+				if urErr := r.reg.UnregisterPeer(ap.Addr(), nil); urErr != nil {
 					zap.S().Warnf("Failed to unregister peer on connection failure: %v", urErr)
 					return
 				}
-- 
2.43.0


From 5cf9cef2fba364060c4e3c55833a1cab9e3aa987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:59 +0000
Subject: [PATCH 29/31] fix: repeated versions do not stop the walk over
 versions

---
 peers/registry.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peers/registry.go b/peers/registry.go
index 5efedbd..38a026f 100644
--- a/peers/registry.go
+++ b/peers/registry.go
@@ -400,7 +400,7 @@ func newVersions(vs []proto.Version) versions {
 	for i, v := range sorted {
 		sorted[i] = proto.NewVersion(v.Major(), v.Minor(), 0)
 	}
-	return versions(sorted)
+	return versions(slices.Compact(sorted)) // A repeated version would stop the walk over versions.
 }
 
 func (vs versions) bestVersion() proto.Version {
-- 
2.43.0


From c94946a8db93b6832edd0a6fb937d955439b8820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:28 +0000
Subject: [PATCH 30/31] fix: refuse the database of another blockchain

---
 chains/linkage.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/chains/linkage.go b/chains/linkage.go
index e484d10..4332f6e 100644
--- a/chains/linkage.go
+++ b/chains/linkage.go
@@ -58,6 +58,15 @@ func NewLinkage(path string, scheme proto.Scheme, genesis proto.Block) (*Linkage
 	if iniErr := st.initialize(genesis); iniErr != nil {
 		return nil, fmt.Errorf("failed to initialize Linkage: %w", iniErr)
 	}
+	ok, err := st.hasBlock(genesis.BlockID())
+	if err != nil {
+		return nil, fmt.Errorf("failed to initialize Linkage: %w", err)
+	}
+	if !ok { // Nothing can be attached to the history of another blockchain.
+		_ = st.close()
+		return nil, fmt.Errorf("failed to initialize Linkage: genesis block '%s' is not in the storage",
+			genesis.BlockID().String())
+	}
 	return &Linkage{
 		scheme:  scheme,
 		genesis: genesis.BlockID(),
-- 
2.43.0


From 968c4142a8e0cb3693743e56b2bc2fd219ff85e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:57 +0000
Subject: [PATCH 31/31] fix: report storage read errors met while iterating
 over leashes, heads and peers

---
 chains/storage.go | 6 ++++++
 peers/storage.go  | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/chains/storage.go b/chains/storage.go
index ff1e868..e206226 100644
--- a/chains/storage.go
+++ b/chains/storage.go
@@ -429,6 +429,9 @@ func (s *storage) leashes() ([]Leash, error) {
 		}
 		r = append(r, Leash{Addr: addr, BlockID: id})
 	}
+	if itErr := it.Error(); itErr != nil { // Iteration stops silently on a read error.
+		return nil, fmt.Errorf("failed to get leashes: %w", itErr)
+	}
 	return r, nil
 }
 
@@ -675,5 +678,8 @@ func (s *storage) getHeads(sn *leveldb.Snapshot) ([]uint64, []uint64, error) {
 		headNums = append(headNums, num)
 		blockNums = append(blockNums, binary.BigEndian.Uint64(it.Value()))
 	}
+	if err := it.Error(); err != nil { // Iteration stops silently on a read error.
+		return nil, nil, fmt.Errorf("failed to iterate over heads: %w", err)
+	}
 	return headNums, blockNums, nil
 }
diff --git a/peers/storage.go b/peers/storage.go
index 71c8ad2..eb79f46 100644
--- a/peers/storage.go
+++ b/peers/storage.go
@@ -152,6 +152,9 @@ func (s *storage) peers() ([]Peer, error) {
 		}
 		r = append(r, p)
 	}
+	if itErr := it.Error(); itErr != nil { // Iteration stops silently on a read error.
+		return nil, fmt.Errorf("failed to collect peers: %w", itErr)
+	}
 	return r, nil
 }
 
-- 
2.43.0

