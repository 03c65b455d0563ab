From ddc54dac47cc2fc61b8c90ab51c74d7508ba81ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:48 +0000
Subject: [PATCH 01/18] fix: draw every signing nonce from the system's random
 stream, not from a constant seed

---
 cmd/client/ClientLauncher.go    | 9 +++------
 cmd/coordinator/Coordinator.go  | 4 ++--
 cmd/server/AnonServerHandler.go | 3 +--
 3 files changed, 6 insertions(+), 10 deletions(-)

diff --git a/cmd/client/ClientLauncher.go b/cmd/client/ClientLauncher.go
index 35e1023..335a2e4 100644
--- a/cmd/client/ClientLauncher.go
+++ b/cmd/client/ClientLauncher.go
@@ -76,8 +76,7 @@ func postBridge(bridgeAddr string) {
 	// sign bridge address and nym
 	byteMsg := bridge.MessageOfPostBridge(params)
 	byteMsg = append([]byte(bridgeAddr), byteNym...)
-	rand := dissentClient.Suite.Cipher([]byte("example"))
-	sig := util.ElGamalSign(dissentClient.Suite, rand, byteMsg, dissentClient.PrivateKey, dissentClient.G)
+	sig := util.ElGamalSign(dissentClient.Suite, random.Stream, byteMsg, dissentClient.PrivateKey, dissentClient.G)
 	params["signature"] = sig
 
 	event := &proto.Event{EventType:proto.POST_BRIDGE, Params:params}
@@ -136,8 +135,7 @@ func requestBridges(ind int) {
 
 	// sign message
 	byteMsg := bridge.MessageOfRequestBridges(params)
-	rand := dissentClient.Suite.Cipher([]byte("example"))
-	sig := util.ElGamalSign(dissentClient.Suite, rand, byteMsg, dissentClient.PrivateKey, dissentClient.G)
+	sig := util.ElGamalSign(dissentClient.Suite, random.Stream, byteMsg, dissentClient.PrivateKey, dissentClient.G)
 	params["signature"] = sig
 
 	// send to coordinator
@@ -224,8 +222,7 @@ func sendVote(msgID, feedback int) {
 	}
 	msg := bridge.MessageOfVote(params)
 	// sign this message
-	rand := dissentClient.Suite.Cipher([]byte("example"))
-	sig := util.ElGamalSign(dissentClient.Suite, rand, msg, dissentClient.PrivateKey, dissentClient.G)
+	sig := util.ElGamalSign(dissentClient.Suite, random.Stream, msg, dissentClient.PrivateKey, dissentClient.G)
 
 	// send to coordinator
 	params["signature"] = sig
diff --git a/cmd/coordinator/Coordinator.go b/cmd/coordinator/Coordinator.go
index aea060a..d89db6f 100644
--- a/cmd/coordinator/Coordinator.go
+++ b/cmd/coordinator/Coordinator.go
@@ -10,6 +10,7 @@ import (
 	"zRep/util"
 
 	"github.com/dedis/crypto/abstract"
+	"github.com/dedis/crypto/random"
 )
 
 type ClientTuple struct {
@@ -131,8 +132,7 @@ func (c *Coordinator) GetServerIndex(serverAddr *net.TCPAddr) int {
 }
 
 func (c *Coordinator) SignMessage(msg []byte) []byte {
-	rand := c.Suite.Cipher([]byte("example"))
-	sig := util.ElGamalSign(c.Suite, rand, msg, c.PrivateKey, c.Suite.Point())
+	sig := util.ElGamalSign(c.Suite, random.Stream, msg, c.PrivateKey, c.Suite.Point())
 	return sig
 }
 
diff --git a/cmd/server/AnonServerHandler.go b/cmd/server/AnonServerHandler.go
index 5411241..9ce8d6b 100644
--- a/cmd/server/AnonServerHandler.go
+++ b/cmd/server/AnonServerHandler.go
@@ -385,8 +385,7 @@ func handleSignAssignments(params map[string]interface{}, senderAddr *net.TCPAdd
 	sigs := [][]byte{}
 	for _,assignment := range assignments {
 		byteAssignment := bridge.EncodeAssignment(&assignment)
-		rand := anonServer.Suite.Cipher([]byte("example"))
-		sig := util.ElGamalSign(anonServer.Suite, rand, byteAssignment, anonServer.PrivateKey, anonServer.Suite.Point())
+		sig := util.ElGamalSign(anonServer.Suite, random.Stream, byteAssignment, anonServer.PrivateKey, anonServer.Suite.Point())
 		sigs = append(sigs, sig)
 	}
 
-- 
2.43.0


From 74e196d091cd66c59613d9c3327094e4f03850a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:49 +0000
Subject: [PATCH 02/18] fix: sign and verify with the standard base under which
 the coordinator's and servers' keys were made, not with an unset point

---
 cmd/client/ClientHandler.go           | 2 +-
 cmd/coordinator/Coordinator.go        | 2 +-
 cmd/coordinator/CoordinatorHandler.go | 4 ++--
 cmd/server/AnonServerHandler.go       | 2 +-
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/cmd/client/ClientHandler.go b/cmd/client/ClientHandler.go
index 80fb69c..deef8e6 100644
--- a/cmd/client/ClientHandler.go
+++ b/cmd/client/ClientHandler.go
@@ -247,7 +247,7 @@ func handleGotSignatures(params map[string]interface{}, dissentClient *DissentCl
 	// verify signature
 	byteSig := params["signature"].([]byte)
 	msg := bridge.MessageOfGotSignatures(params)
-	err := util.ElGamalVerify(dissentClient.Suite, msg, dissentClient.ControllerPublicKey, byteSig, dissentClient.Suite.Point())
+	err := util.ElGamalVerify(dissentClient.Suite, msg, dissentClient.ControllerPublicKey, byteSig, nil)
 	if err != nil {
 		fmt.Println("[note]** Fails to verify the signatures")
 		return
diff --git a/cmd/coordinator/Coordinator.go b/cmd/coordinator/Coordinator.go
index d89db6f..eb68874 100644
--- a/cmd/coordinator/Coordinator.go
+++ b/cmd/coordinator/Coordinator.go
@@ -132,7 +132,7 @@ func (c *Coordinator) GetServerIndex(serverAddr *net.TCPAddr) int {
 }
 
 func (c *Coordinator) SignMessage(msg []byte) []byte {
-	sig := util.ElGamalSign(c.Suite, random.Stream, msg, c.PrivateKey, c.Suite.Point())
+	sig := util.ElGamalSign(c.Suite, random.Stream, msg, c.PrivateKey, nil)
 	return sig
 }
 
diff --git a/cmd/coordinator/CoordinatorHandler.go b/cmd/coordinator/CoordinatorHandler.go
index 417577c..384f8a7 100644
--- a/cmd/coordinator/CoordinatorHandler.go
+++ b/cmd/coordinator/CoordinatorHandler.go
@@ -523,14 +523,14 @@ func handleVote(params map[string]interface{}, senderAddr *net.TCPAddr) {
 	for i := 0; i < numServers; i++ {
 		signature := signatures[i]
 		serverPublicKey := anonCoordinator.GetServerPublicKey(i)
-		err = util.ElGamalVerify(anonCoordinator.Suite, byteAssignment, serverPublicKey, signature, anonCoordinator.Suite.Point())
+		err = util.ElGamalVerify(anonCoordinator.Suite, byteAssignment, serverPublicKey, signature, nil)
 		if err != nil {
 			fmt.Println("[note] Fails to verify server's signature")
 			return
 		}
 	}
 	// verify coordinator's own signature
-	err = util.ElGamalVerify(anonCoordinator.Suite, byteAssignment, anonCoordinator.PublicKey, signatures[numServers], anonCoordinator.Suite.Point())
+	err = util.ElGamalVerify(anonCoordinator.Suite, byteAssignment, anonCoordinator.PublicKey, signatures[numServers], nil)
 	if err != nil {
 		fmt.Println("[note] Fails to verify coordinator's signature")
 		return
diff --git a/cmd/server/AnonServerHandler.go b/cmd/server/AnonServerHandler.go
index 9ce8d6b..cb49568 100644
--- a/cmd/server/AnonServerHandler.go
+++ b/cmd/server/AnonServerHandler.go
@@ -385,7 +385,7 @@ func handleSignAssignments(params map[string]interface{}, senderAddr *net.TCPAdd
 	sigs := [][]byte{}
 	for _,assignment := range assignments {
 		byteAssignment := bridge.EncodeAssignment(&assignment)
-		sig := util.ElGamalSign(anonServer.Suite, random.Stream, byteAssignment, anonServer.PrivateKey, anonServer.Suite.Point())
+		sig := util.ElGamalSign(anonServer.Suite, random.Stream, byteAssignment, anonServer.PrivateKey, nil)
 		sigs = append(sigs, sig)
 	}
 
-- 
2.43.0


From 7c680f9a438554758f27b3d75a118cc970fd2df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:49 +0000
Subject: [PATCH 03/18] fix: cover the sign of the feedback in the signed vote
 message

---
 cmd/bridge/bridge.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/bridge/bridge.go b/cmd/bridge/bridge.go
index 7cb0553..6d9b584 100644
--- a/cmd/bridge/bridge.go
+++ b/cmd/bridge/bridge.go
@@ -119,7 +119,7 @@ func MessageOfVote(params map[string]interface{}) (msg []byte) {
 	msg = append(msg, params["assignment"].([]byte)...)
 	msg = append(msg, params["signatures"].([]byte)...)
 	feedback := params["feedback"].(int)
-	byteFeedback := big.NewInt(int64(feedback)).Bytes()
+	byteFeedback := util.IntToByte(feedback)
 	msg = append(msg, byteFeedback...)
 	return
 }
-- 
2.43.0


From aa4e450f3b9a6f00fcb15c87b7d7914f386e2ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:50 +0000
Subject: [PATCH 04/18] fix: reject ring signatures that do not have exactly
 one response and challenge per member

---
 primitive/lrs/LinkableRingSignature.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/primitive/lrs/LinkableRingSignature.go b/primitive/lrs/LinkableRingSignature.go
index 86397b6..e4df39a 100644
--- a/primitive/lrs/LinkableRingSignature.go
+++ b/primitive/lrs/LinkableRingSignature.go
@@ -189,6 +189,10 @@ func (base *LRSBase) Verify(m []byte, n int, pi int, sig *Signature, y []abstrac
 }
 
 func (base *LRSBase) VerifyHelper(m []byte, n int, pi int, sig *Signature, y []*big.Int) bool {
+	// exactly one (si, ci) per member: an extra ci would not be bound by any zi
+	if len(y) != n || len(sig.S) != n || len(sig.C) != n {
+		return false
+	}
 	L := computeL(y)
 	h := base.computeh(m, L)
 
-- 
2.43.0


From 5638abace1846cf384e023941414614426ecfc0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:51 +0000
Subject: [PATCH 05/18] fix: bind the commitment to the random mask into the
 non-negativity proof's challenge

---
 primitive/fujiokam/FujiOkamCommitment.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/primitive/fujiokam/FujiOkamCommitment.go b/primitive/fujiokam/FujiOkamCommitment.go
index 6e3a3cb..4d81061 100644
--- a/primitive/fujiokam/FujiOkamCommitment.go
+++ b/primitive/fujiokam/FujiOkamCommitment.go
@@ -458,9 +458,10 @@ func (base *FujiOkamBase) ProveNonnegHelper(x *big.Int, commitx *Point, rc *big.
 	tp.Exp(base.G6, ti)
 	// commitrx = g^rx * h^rrx (mod n)
 	commitrx, rrx := base.Commit(rx)
-	// e = hash(commitx, C, Cr)
+	// e = hash(commitx, commitrx, C, Cr)
 	h := sha256.New()
 	h.Write(commitx.V.Bytes())
+	h.Write(commitrx.V.Bytes())
 	h.Write(C.V.Bytes())
 	h.Write(Cr.V.Bytes())
 	eBuf := h.Sum(nil)
@@ -496,9 +497,10 @@ func (base *FujiOkamBase) VerifyNonneg(commitx *Point, arg *ARGnonneg) bool {
 }
 
 func (base *FujiOkamBase) VerifyNonnegHelper(commitx, commitrx, C, Cr *Point, R, x_, a_, b_, d_, r_ *big.Int) bool {
-	// e := hash(commitx, C, Cr)
+	// e := hash(commitx, commitrx, C, Cr)
 	h := sha256.New()
 	h.Write(commitx.V.Bytes())
+	h.Write(commitrx.V.Bytes())
 	h.Write(C.V.Bytes())
 	h.Write(Cr.V.Bytes())
 	eBuf := h.Sum(nil)
-- 
2.43.0


From 3fc8badf6362b0e8bc5a5c31505d32ff924c0661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:05 +0000
Subject: [PATCH 06/18] fix: reject received group elements that fail to decode

---
 cmd/client/ClientHandler.go           |  3 +--
 cmd/coordinator/CoordinatorHandler.go | 10 +++-------
 cmd/server/AnonServerHandler.go       |  6 ++----
 util/Util.go                          |  4 +---
 4 files changed, 7 insertions(+), 16 deletions(-)

diff --git a/cmd/client/ClientHandler.go b/cmd/client/ClientHandler.go
index deef8e6..599d370 100644
--- a/cmd/client/ClientHandler.go
+++ b/cmd/client/ClientHandler.go
@@ -178,9 +178,8 @@ func handleVoteReply(params map[string]interface{}) {
 // set one-time pseudonym and g, and print out info
 func handleAnnouncementFinalize(params map[string]interface{}, dissentClient *DissentClient) {
 	// set One-time pseudonym and g
-	g := dissentClient.Suite.Point()
 	// deserialize g and calculate nym
-	g.UnmarshalBinary(params["g"].([]byte))
+	g := util.DecodePoint(dissentClient.Suite, params["g"].([]byte))
 	nym := dissentClient.Suite.Point().Mul(g, dissentClient.PrivateKey)
 
 	// update PComm
diff --git a/cmd/coordinator/CoordinatorHandler.go b/cmd/coordinator/CoordinatorHandler.go
index 384f8a7..9d2b921 100644
--- a/cmd/coordinator/CoordinatorHandler.go
+++ b/cmd/coordinator/CoordinatorHandler.go
@@ -130,8 +130,7 @@ func handleAnnouncement(params map[string]interface{}) {
 func handleServerRegister(params map[string]interface{}, addr *net.TCPAddr) {
 	fmt.Println("[debug] Receive the registration info from server " + addr.String());
 	// fetch server's public key
-	publicKey := anonCoordinator.Suite.Point()
-	publicKey.UnmarshalBinary(params["public_key"].([]byte))
+	publicKey := util.DecodePoint(anonCoordinator.Suite, params["public_key"].([]byte))
 
 	lastServer := anonCoordinator.GetLastServerAddr()
 
@@ -180,8 +179,7 @@ func handleUpdatePedersenH(params map[string]interface{}) {
 // send the register request to server to do encryption
 func handleClientRegisterControllerSide(params map[string]interface{}, addr *net.TCPAddr) {
 	// get client's public key
-	publicKey := anonCoordinator.Suite.Point()
-	publicKey.UnmarshalBinary(params["public_key"].([]byte))
+	publicKey := util.DecodePoint(anonCoordinator.Suite, params["public_key"].([]byte))
 	anonCoordinator.AddClient(publicKey, addr)
 
 	// compute Pedersen commitment
@@ -212,9 +210,7 @@ func handleClientRegisterControllerSide(params map[string]interface{}, addr *net
 // handle client register successful event
 func handleClientRegisterServerSide(params map[string]interface{}) {
 	// get public key from params (it's one-time nym actually)
-	var nym = anonCoordinator.Suite.Point()
-	byteNym := params["public_key"].([]byte)
-	nym.UnmarshalBinary(byteNym)
+	nym := util.DecodePoint(anonCoordinator.Suite, params["public_key"].([]byte))
 
 	// get PComm
 	var PComm = anonCoordinator.Suite.Point()
diff --git a/cmd/server/AnonServerHandler.go b/cmd/server/AnonServerHandler.go
index cb49568..de7fecb 100644
--- a/cmd/server/AnonServerHandler.go
+++ b/cmd/server/AnonServerHandler.go
@@ -64,8 +64,7 @@ func verifyNeffShuffle(params map[string]interface{}) {
 		ybarList := util.ProtobufDecodePointList(params["ybar"].([]byte))
 		prevKeyList := util.ProtobufDecodePointList(params["prev_keys"].([]byte))
 		prevValList := util.ProtobufDecodePointList(params["prev_vals"].([]byte))
-		prePublicKey := anonServer.Suite.Point()
-		prePublicKey.UnmarshalBinary(params["public_key"].([]byte))
+		prePublicKey := util.DecodePoint(anonServer.Suite, params["public_key"].([]byte))
 
 		// verify the shuffle
 		verifier := shuffle.Verifier(anonServer.Suite, nil, prePublicKey, prevKeyList,
@@ -254,8 +253,7 @@ func handleAnnouncement(params map[string]interface{}) {
 	if val, ok := params["g"]; ok {
 		// contains g
 		byteG := val.([]byte)
-		g = anonServer.Suite.Point()
-		g.UnmarshalBinary(byteG)
+		g = util.DecodePoint(anonServer.Suite, byteG)
 		g = anonServer.Suite.Point().Mul(g, anonServer.Roundkey)
 		// verify the previous shuffle
 		verifyNeffShuffle(params)
diff --git a/util/Util.go b/util/Util.go
index b57f098..920078f 100644
--- a/util/Util.go
+++ b/util/Util.go
@@ -334,9 +334,7 @@ func PointToBigInt(p abstract.Point) *big.Int {
 
 // transform *big.Int to abstract.Point (implemented by nist.residuePoint)
 func BigIntToPoint(suite abstract.Suite, i *big.Int) abstract.Point {
-	p := suite.Point()
-	p.UnmarshalBinary(i.Bytes())
-	return p
+	return DecodePoint(suite, i.Bytes())
 }
 
 func FindCommUsingKeyList(keyList, valList []abstract.Point, EList []abstract.Secret, nym abstract.Point) (abstract.Point, abstract.Secret) {
-- 
2.43.0


From 13306f95f3eb2f5b99df52429bc4b759b0b7f61c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:54 +0000
Subject: [PATCH 07/18] fix: release an assignment only after every server has
 validly signed that very assignment, once each

---
 cmd/coordinator/Coordinator.go        | 16 +++++++++++++---
 cmd/coordinator/CoordinatorHandler.go | 20 ++++++++++++++++----
 2 files changed, 29 insertions(+), 7 deletions(-)

diff --git a/cmd/coordinator/Coordinator.go b/cmd/coordinator/Coordinator.go
index eb68874..5a94380 100644
--- a/cmd/coordinator/Coordinator.go
+++ b/cmd/coordinator/Coordinator.go
@@ -1,6 +1,7 @@
 package coordinator
 
 import (
+	"bytes"
 	"math/big"
 	"net"
 	"zRep/primitive/fujiokam"
@@ -24,6 +25,8 @@ type BridgeInfo struct {
 }
 
 type AssignmentSignatures struct {
+	// the encoded assignment being signed
+	Assignment []byte
 	Signatures [][]byte
 	Count int
 }
@@ -143,10 +146,10 @@ func (c *Coordinator) AddMsgLog(log abstract.Point) int{
 }
 
 // create an empty entry to store all servers' signatures for a bridge
-func (c *Coordinator) InitAssignmentSignatures(brdgAddr string) {
+func (c *Coordinator) InitAssignmentSignatures(brdgAddr string, byteAssignment []byte) {
 	nServers := len(c.ServerList)
 	assignmentSigs := make([][]byte, nServers+1)
-	entry := AssignmentSignatures{Signatures: assignmentSigs, Count: 0}
+	entry := AssignmentSignatures{Assignment: byteAssignment, Signatures: assignmentSigs, Count: 0}
 	anonCoordinator.AssignmentSignaturesLog[brdgAddr] = entry
 }
 
@@ -155,10 +158,17 @@ func (c *Coordinator) AddAssignmentSignature(brdgAddr string, serverIndex int, s
 	oldEntry := c.AssignmentSignaturesLog[brdgAddr]
 	assignmentSigs := oldEntry.Signatures
 	assignmentSigs[serverIndex] = sig
-	newEntry := AssignmentSignatures{Signatures: assignmentSigs, Count: oldEntry.Count + 1}
+	newEntry := AssignmentSignatures{Assignment: oldEntry.Assignment, Signatures: assignmentSigs, Count: oldEntry.Count + 1}
 	c.AssignmentSignaturesLog[brdgAddr] = newEntry
 }
 
+// whether this very assignment still misses this server's signature
+func (c *Coordinator) MissesAssignmentSignature(brdgAddr string, byteAssignment []byte, serverIndex int) bool {
+	entry, ok := c.AssignmentSignaturesLog[brdgAddr]
+	return ok && bytes.Equal(entry.Assignment, byteAssignment) &&
+		serverIndex < len(entry.Signatures) && entry.Signatures[serverIndex] == nil
+}
+
 func (c *Coordinator) FinishCollectingAssignmentSignatures(brdgAddr string) bool {
 	nServers := len(c.ServerList)
 	return c.AssignmentSignaturesLog[brdgAddr].Count == nServers + 1
diff --git a/cmd/coordinator/CoordinatorHandler.go b/cmd/coordinator/CoordinatorHandler.go
index 9d2b921..1070eb4 100644
--- a/cmd/coordinator/CoordinatorHandler.go
+++ b/cmd/coordinator/CoordinatorHandler.go
@@ -334,7 +334,7 @@ func handleRequestBridges(params map[string]interface{}, senderAddr *net.TCPAddr
 	nServers := len(anonCoordinator.ServerList)
 	for i,assignment := range assignments {
 		brdgAddr := assignment.Addr
-		anonCoordinator.InitAssignmentSignatures(brdgAddr)
+		anonCoordinator.InitAssignmentSignatures(brdgAddr, bridge.EncodeAssignment(&assignment))
 		// append coordinator's own signature to the end
 		anonCoordinator.AddAssignmentSignature(brdgAddr, nServers, sigs[i])
 	}
@@ -371,12 +371,23 @@ func handleGotSignatures(params map[string]interface{}, senderAddr *net.TCPAddr)
 
 	assignments := bridge.DecodeAssignmentList(params["assignments"].([]byte))
 	sigs := util.Decode2DByteArray(params["signatures"].([]byte))
-	nymR := assignments[0].NymR
-	requesterIP := anonCoordinator.RequesterAddrs[nymR.String()]
+	if len(sigs) != len(assignments) {
+		return
+	}
 
 	for i,assignment := range assignments {
 		sig := sigs[i]
 		brdgAddr := assignment.Addr
+		// accept one valid signature per server, and only for the assignment it was asked to sign
+		byteAssignment := bridge.EncodeAssignment(&assignment)
+		if !anonCoordinator.MissesAssignmentSignature(brdgAddr, byteAssignment, serverIndex) {
+			continue
+		}
+		err := util.ElGamalVerify(anonCoordinator.Suite, byteAssignment, anonCoordinator.GetServerPublicKey(serverIndex), sig, nil)
+		if err != nil {
+			fmt.Println("[note] Fails to verify server's signature")
+			continue
+		}
 		// update each assignment's log entry by inserting the signature and increase count
 		anonCoordinator.AddAssignmentSignature(brdgAddr, serverIndex, sig)
 
@@ -391,7 +402,7 @@ func handleGotSignatures(params map[string]interface{}, senderAddr *net.TCPAddr)
 			
 			// send the signatures to the requester client
 			pm := map[string]interface{}{
-				"assignment": bridge.EncodeAssignment(&assignment),
+				"assignment": byteAssignment,
 				"signatures": util.Encode2DByteArray(anonCoordinator.GetAssignmentSignatures(brdgAddr)),
 			}
 			// sign signatures
@@ -399,6 +410,7 @@ func handleGotSignatures(params map[string]interface{}, senderAddr *net.TCPAddr)
 			byteSig := anonCoordinator.SignMessage(msg)
 			pm["signature"] = byteSig
 			// send
+			requesterIP := anonCoordinator.RequesterAddrs[assignment.NymR.String()]
 			event := &proto.Event{EventType:proto.GOT_SIGNS, Params:pm}
 			util.SendEvent(anonCoordinator.LocalAddr, requesterIP, event)
 		}
-- 
2.43.0


From c195cdfed89d21b81b8b5be71cbddbee60761e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:55 +0000
Subject: [PATCH 08/18] fix: record only +1/-1 votes, from the client the
 bridge is assigned to, once per assignment

---
 cmd/coordinator/Coordinator.go         |  2 ++
 cmd/coordinator/CoordinatorHandler.go  | 21 ++++++++++++++++++++-
 cmd/coordinator/CoordinatorLauncher.go |  1 +
 3 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/cmd/coordinator/Coordinator.go b/cmd/coordinator/Coordinator.go
index 5a94380..c24652f 100644
--- a/cmd/coordinator/Coordinator.go
+++ b/cmd/coordinator/Coordinator.go
@@ -70,6 +70,8 @@ type Coordinator struct {
 	// record each vote signature's y0
 	RequesterAddrs map[string]*net.TCPAddr
 	VoteRecords []*big.Int
+	// assignments that have been voted for in this round
+	VotedAssignments map[string]bool
 
 	Bridges map[string]BridgeInfo
 
diff --git a/cmd/coordinator/CoordinatorHandler.go b/cmd/coordinator/CoordinatorHandler.go
index 1070eb4..c10f227 100644
--- a/cmd/coordinator/CoordinatorHandler.go
+++ b/cmd/coordinator/CoordinatorHandler.go
@@ -96,6 +96,7 @@ func handleAnnouncement(params map[string]interface{}) {
 	anonCoordinator.EndingCommMap = make(map[string]abstract.Point)
 	anonCoordinator.EndingKeyMap = make(map[string]abstract.Point)
 	anonCoordinator.ReputationDiffMap = make(map[string]int)
+	anonCoordinator.VotedAssignments = make(map[string]bool)
 	anonCoordinator.AllClientsPublicKeys = keyList
 
 	for i := 0; i < len(keyList); i++ {
@@ -528,6 +529,15 @@ func handleVote(params map[string]interface{}, senderAddr *net.TCPAddr) {
 	byteAssignment := params["assignment"].([]byte)
 	assignment := bridge.DecodeAssignment(byteAssignment)
 	numServers := len(anonCoordinator.ServerList)
+	if len(signatures) != numServers + 1 {
+		fmt.Println("[note] Wrong number of signatures")
+		return
+	}
+	// only the client to whom the bridge is assigned can vote for it
+	if !nym.Equal(assignment.NymR) {
+		fmt.Println("[note] The bridge is assigned to another client")
+		return
+	}
 	for i := 0; i < numServers; i++ {
 		signature := signatures[i]
 		serverPublicKey := anonCoordinator.GetServerPublicKey(i)
@@ -545,9 +555,18 @@ func handleVote(params map[string]interface{}, senderAddr *net.TCPAddr) {
 	}
 	fmt.Println("[debug] All servers' signatures check passed")
 
-	// record feedback
+	// record feedback, which can be only 1 or -1, at most once for each assignment
 	targetNym := assignment.Nym
 	feedback := params["feedback"].(int)
+	if feedback != 1 && feedback != -1 {
+		fmt.Println("[note] Invalid feedback")
+		return
+	}
+	if anonCoordinator.VotedAssignments[string(byteAssignment)] {
+		fmt.Println("[note] Duplicate vote")
+		return
+	}
+	anonCoordinator.VotedAssignments[string(byteAssignment)] = true
 	anonCoordinator.ReputationDiffMap[targetNym.String()] += feedback
 }
 
diff --git a/cmd/coordinator/CoordinatorLauncher.go b/cmd/coordinator/CoordinatorLauncher.go
index ef4da89..31b91f5 100644
--- a/cmd/coordinator/CoordinatorLauncher.go
+++ b/cmd/coordinator/CoordinatorLauncher.go
@@ -71,6 +71,7 @@ func initCoordinator() {
 		EndingCommMap: make(map[string]abstract.Point),
 		EndingKeyMap: make(map[string]abstract.Point),
 		ReputationDiffMap: make(map[string]int),
+		VotedAssignments: make(map[string]bool),
 		PedersenBase: pedersenBase,
 		FujiOkamBase: fujiokamBase,
 		AllGnHonestyProofSecret: prfSecret,
-- 
2.43.0


From 3bd2e9712e5f7a3ad2679e868c6ae62aed227030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:07 +0000
Subject: [PATCH 09/18] fix: accept bridges and requests only from pseudonyms
 of the current round

---
 cmd/coordinator/CoordinatorHandler.go | 12 +++++++++++-
 cmd/server/AnonServerHandler.go       |  4 ++--
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/cmd/coordinator/CoordinatorHandler.go b/cmd/coordinator/CoordinatorHandler.go
index c10f227..b552236 100644
--- a/cmd/coordinator/CoordinatorHandler.go
+++ b/cmd/coordinator/CoordinatorHandler.go
@@ -272,6 +272,12 @@ func handlePostBridge(params map[string]interface{}, senderAddr *net.TCPAddr) {
 
 	fmt.Println("[debug] Receiving post from " + senderAddr.String() + ": " + bridgeAddr)
 
+	// the provider must be a client of this round
+	if util.FindIndexWithinKeyList(anonCoordinator.AllClientsPublicKeys, nym) < 0 {
+		fmt.Println("[note] Can not find nym within keyList")
+		return
+	}
+
 	// verify the signature
 	byteMsg := bridge.MessageOfPostBridge(params)
 	err = util.ElGamalVerify(anonCoordinator.Suite, byteMsg, nym, byteSig, anonCoordinator.G)
@@ -295,7 +301,11 @@ func handleRequestBridges(params map[string]interface{}, senderAddr *net.TCPAddr
 	byteNymR := params["nym"].([]byte)
 	err := nymR.UnmarshalBinary(byteNymR)
 	util.CheckErr(err)
-	PCommr := anonCoordinator.EndingCommMap[nymR.String()]
+	PCommr, ok := anonCoordinator.EndingCommMap[nymR.String()]
+	if !ok {
+		fmt.Println("[note] Can not find nym within reputation map")
+		return
+	}
 
 	fmt.Println("[debug] Receiving reqeust from " + senderAddr.String() + ": " + strconv.Itoa(ind))
 
diff --git a/cmd/server/AnonServerHandler.go b/cmd/server/AnonServerHandler.go
index de7fecb..5672f2e 100644
--- a/cmd/server/AnonServerHandler.go
+++ b/cmd/server/AnonServerHandler.go
@@ -365,10 +365,10 @@ func handleSignAssignments(params map[string]interface{}, senderAddr *net.TCPAdd
 	byteNymR := params["nym"].([]byte)
 	err := nymR.UnmarshalBinary(byteNymR)
 	util.CheckErr(err)
-	PCommr := anonServer.EndingCommMap[nymR.String()]
+	PCommr, ok := anonServer.EndingCommMap[nymR.String()]
 
 	// verify the proof
-	if !bridge.VerifyInd(params, PCommr, anonServer.Suite, anonServer.PedersenBase, anonServer.FujiOkamBase) {
+	if !ok || !bridge.VerifyInd(params, PCommr, anonServer.Suite, anonServer.PedersenBase, anonServer.FujiOkamBase) {
 		fmt.Print("[note]** Fails to verify the proof...")
 		pm := map[string]interface{}{
 			"success": false,
-- 
2.43.0


From 6d064000487314660d3757cfedfafa0b8c03a344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:24 +0000
Subject: [PATCH 10/18] fix: take posts, requests, signatures and votes only
 while a round is open

---
 cmd/coordinator/CoordinatorHandler.go  | 16 ++++++++++++++++
 cmd/coordinator/CoordinatorLauncher.go |  2 ++
 cmd/coordinator/CoordinatorStatus.go   |  2 ++
 3 files changed, 20 insertions(+)

diff --git a/cmd/coordinator/CoordinatorHandler.go b/cmd/coordinator/CoordinatorHandler.go
index b552236..90f3d65 100644
--- a/cmd/coordinator/CoordinatorHandler.go
+++ b/cmd/coordinator/CoordinatorHandler.go
@@ -262,6 +262,10 @@ func handleGnHonestyChallenge(params map[string]interface{}, senderAddr *net.TCP
 }
 // verify the posting message and record the bridge
 func handlePostBridge(params map[string]interface{}, senderAddr *net.TCPAddr) {
+	if anonCoordinator.Status != MESSAGE {
+		fmt.Println("[note] No round is open")
+		return
+	}
 	// get info from the request
 	bridgeAddr := params["bridge_addr"].(string)
 	byteSig := params["signature"].([]byte)
@@ -294,6 +298,10 @@ func handlePostBridge(params map[string]interface{}, senderAddr *net.TCPAddr) {
 
 // allocate bridges and ask all servers' signatures
 func handleRequestBridges(params map[string]interface{}, senderAddr *net.TCPAddr) {
+	if anonCoordinator.Status != MESSAGE {
+		fmt.Println("[note] No round is open")
+		return
+	}
 	// get info from the request
 	ind := params["ind"].(int)
 	byteSig := params["signature"].([]byte)
@@ -369,6 +377,10 @@ func handleRequestBridges(params map[string]interface{}, senderAddr *net.TCPAddr
 }
 
 func handleGotSignatures(params map[string]interface{}, senderAddr *net.TCPAddr) {
+	if anonCoordinator.Status != MESSAGE {
+		fmt.Println("[note] No round is open")
+		return
+	}
 	isSuccess := params["success"].(bool)
 	if !isSuccess {
 		return
@@ -512,6 +524,10 @@ func handleGotSignatures(params map[string]interface{}, senderAddr *net.TCPAddr)
 // }
 
 func handleVote(params map[string]interface{}, senderAddr *net.TCPAddr) {
+	if anonCoordinator.Status != MESSAGE {
+		fmt.Println("[note] No round is open")
+		return
+	}
 	// fetch nym
 	nym := anonCoordinator.Suite.Point()
 	err := nym.UnmarshalBinary(params["nym"].([]byte))
diff --git a/cmd/coordinator/CoordinatorLauncher.go b/cmd/coordinator/CoordinatorLauncher.go
index 31b91f5..8fe18e8 100644
--- a/cmd/coordinator/CoordinatorLauncher.go
+++ b/cmd/coordinator/CoordinatorLauncher.go
@@ -148,6 +148,8 @@ func roundEnd() {
 		anonCoordinator.Status = READY_FOR_NEW_ROUND
 		return
 	}
+	// from now on nothing can change this round's result
+	anonCoordinator.Status = CLOSING
 	// add new clients into reputation map
 	for _,cdata := range anonCoordinator.NewClientsBuffer {
 		anonCoordinator.AddIntoEndingMap(cdata.Nym, cdata.PComm)
diff --git a/cmd/coordinator/CoordinatorStatus.go b/cmd/coordinator/CoordinatorStatus.go
index a8b34ab..437eff9 100644
--- a/cmd/coordinator/CoordinatorStatus.go
+++ b/cmd/coordinator/CoordinatorStatus.go
@@ -8,3 +8,5 @@ const ANNOUNCE = 2;
 const MESSAGE = 3;
 const VOTE = 4;
 const SERVER_CONFIGURATION = 5;
+// the round's table has been sent back through the servers
+const CLOSING = 6;
-- 
2.43.0


From 670625e0511669af291fd4618125cdffc74891a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:57 +0000
Subject: [PATCH 11/18] fix: reject an indicator above the reputation whose
 difference wraps around the group order

---
 cmd/bridge/bridge.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cmd/bridge/bridge.go b/cmd/bridge/bridge.go
index 6d9b584..1d8e2dc 100644
--- a/cmd/bridge/bridge.go
+++ b/cmd/bridge/bridge.go
@@ -74,6 +74,12 @@ func VerifyInd(params map[string]interface{}, PCommr abstract.Point, suite abstr
 
 	// POComm for d
 	ARGequal := util.DecodeARGequal(params["arg_equal"].([]byte))
+	// d must be far below the order of Pedersen's group, otherwise
+	// reputation - ind may have wrapped around
+	if ARGequal.S1.Sign() < 0 || ARGequal.S1.BitLen() > suite.Secret().MarshalSize() * 8 {
+		fmt.Println("[note]** Range check failed")
+		return false
+	}
 	if res := pedersen_fujiokam.VerifyEqual(pedersenBase, fujiokamBase, PCommd, FOCommd, ARGequal); res != true {
 		fmt.Println("[note]** Equality check failed")
 		return false
-- 
2.43.0


From 87ddcafefa3d8ea8d028e88a5605dadf42aabe39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:57 +0000
Subject: [PATCH 12/18] fix: prove the honesty of g1~g6 with fresh secrets for
 every client and answer each proof's challenge once

---
 cmd/coordinator/Coordinator.go         | 10 ++++++++--
 cmd/coordinator/CoordinatorHandler.go  | 13 +++++++++++--
 cmd/coordinator/CoordinatorLauncher.go |  4 +---
 3 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/cmd/coordinator/Coordinator.go b/cmd/coordinator/Coordinator.go
index c24652f..f213af3 100644
--- a/cmd/coordinator/Coordinator.go
+++ b/cmd/coordinator/Coordinator.go
@@ -36,6 +36,12 @@ type ServerInfo struct {
 	PublicKey abstract.Point
 }
 
+// one client's run of the honesty proof for g1~g6
+type GnHonestyProof struct {
+	Secret []*big.Int
+	Public []*big.Int
+}
+
 type Coordinator struct {
 	// local address
 	LocalAddr *net.TCPAddr
@@ -85,8 +91,8 @@ type Coordinator struct {
 	FujiOkamBase *fujiokam.FujiOkamBase
 	LRSBase *lrs.LRSBase
 
-	AllGnHonestyProofSecret []*big.Int
-	AllGnHonestyProofPublic []*big.Int
+	// honesty proofs waiting for a challenge, by client address
+	GnHonestyProofs map[string]GnHonestyProof
 }
 
 // get last server in topology
diff --git a/cmd/coordinator/CoordinatorHandler.go b/cmd/coordinator/CoordinatorHandler.go
index 90f3d65..492156f 100644
--- a/cmd/coordinator/CoordinatorHandler.go
+++ b/cmd/coordinator/CoordinatorHandler.go
@@ -228,6 +228,9 @@ func handleClientRegisterServerSide(params map[string]interface{}) {
 	util.CheckErr(err)
 	bytePublicKey, _ := anonCoordinator.PublicKey.MarshalBinary()
 	fujiokamBase := anonCoordinator.FujiOkamBase
+	// the secrets of an honesty proof must not be used for two challenges
+	prfSecret, prfPublic := fujiokamBase.GenerateAllGnHonestyProof()
+	anonCoordinator.GnHonestyProofs[addr.String()] = GnHonestyProof{Secret: prfSecret, Public: prfPublic}
 	pm := map[string]interface{}{
 		"n": fujiokamBase.N.Bytes(),
 		"g1": fujiokamBase.G1.ToBinary(),
@@ -237,7 +240,7 @@ func handleClientRegisterServerSide(params map[string]interface{}) {
 		"g5": fujiokamBase.G5.ToBinary(),
 		"g6": fujiokamBase.G6.ToBinary(),
 		"h1": fujiokamBase.H1.ToBinary(),
-		"honesty_prf": util.ProtobufEncodeBigIntList(anonCoordinator.AllGnHonestyProofPublic),
+		"honesty_prf": util.ProtobufEncodeBigIntList(prfPublic),
 		// "h": byteHT,
 		"public_key": bytePublicKey,
 	}
@@ -252,7 +255,13 @@ func handleGnHonestyChallenge(params map[string]interface{}, senderAddr *net.TCP
 	challenge := util.ProtobufDecodeBoolList(params["honesty_chal"].([]byte))
 	fmt.Println("[debug] Received challenge, start answering...")
 	base := anonCoordinator.FujiOkamBase
-	answer := base.AnswerAllGnHonesty(challenge, anonCoordinator.AllGnHonestyProofSecret, anonCoordinator.AllGnHonestyProofPublic)
+	prf, ok := anonCoordinator.GnHonestyProofs[senderAddr.String()]
+	if !ok {
+		fmt.Println("[note] No honesty proof is waiting for this challenge")
+		return
+	}
+	delete(anonCoordinator.GnHonestyProofs, senderAddr.String())
+	answer := base.AnswerAllGnHonesty(challenge, prf.Secret, prf.Public)
 
 	pm := map[string]interface{}{
 		"honesty_ans": util.ProtobufEncodeBigIntList(answer),
diff --git a/cmd/coordinator/CoordinatorLauncher.go b/cmd/coordinator/CoordinatorLauncher.go
index 8fe18e8..155dddd 100644
--- a/cmd/coordinator/CoordinatorLauncher.go
+++ b/cmd/coordinator/CoordinatorLauncher.go
@@ -51,7 +51,6 @@ func initCoordinator() {
 	A := suite.Point().Mul(nil, a)
 	pedersenBase := pedersen.CreateMinimalBaseFromSuite(suite)
 	fujiokamBase := fujiokam.CreateBaseFromSuite(suite)
-	prfSecret, prfPublic := fujiokamBase.GenerateAllGnHonestyProof()
 
 	anonCoordinator = &Coordinator{
 		LocalAddr: CoordinatorAddr,
@@ -74,8 +73,7 @@ func initCoordinator() {
 		VotedAssignments: make(map[string]bool),
 		PedersenBase: pedersenBase,
 		FujiOkamBase: fujiokamBase,
-		AllGnHonestyProofSecret: prfSecret,
-		AllGnHonestyProofPublic: prfPublic,
+		GnHonestyProofs: make(map[string]GnHonestyProof),
 	}
 }
 
-- 
2.43.0


From 80ba8cee4a34467da3681123a102a8675882f823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:03 +0000
Subject: [PATCH 13/18] fix: serialize the listener with the life cycle or
 command line of coordinator, server and client

---
 cmd/client/ClientHandler.go            |  2 ++
 cmd/client/ClientLauncher.go           |  4 +++-
 cmd/client/DissentClient.go            | 10 ++++++++++
 cmd/coordinator/Coordinator.go         | 10 ++++++++++
 cmd/coordinator/CoordinatorHandler.go  |  6 +++++-
 cmd/coordinator/CoordinatorLauncher.go | 12 ++++++++++--
 cmd/server/AnonServer.go               |  3 +++
 cmd/server/AnonServerHandler.go        |  6 +++++-
 cmd/server/ServerLauncher.go           |  5 ++++-
 9 files changed, 52 insertions(+), 6 deletions(-)

diff --git a/cmd/client/ClientHandler.go b/cmd/client/ClientHandler.go
index 599d370..6371d5b 100644
--- a/cmd/client/ClientHandler.go
+++ b/cmd/client/ClientHandler.go
@@ -12,6 +12,8 @@ import (
 )
 
 func Handle(buf []byte, dissentClient *DissentClient) {
+	dissentClient.Mutex.Lock()
+	defer dissentClient.Mutex.Unlock()
 	// decode the whole message
 	event, _ := util.DecodeEvent(buf)
 	switch event.EventType {
diff --git a/cmd/client/ClientLauncher.go b/cmd/client/ClientLauncher.go
index 335a2e4..c8ddb63 100644
--- a/cmd/client/ClientLauncher.go
+++ b/cmd/client/ClientLauncher.go
@@ -307,7 +307,7 @@ func Launch() {
 	register()
 
 	// wait until register successful
-	for ; dissentClient.Status != MESSAGE ; {
+	for ; dissentClient.GetStatus() != MESSAGE ; {
 		time.Sleep(500 * time.Millisecond)
 	}
 
@@ -318,6 +318,7 @@ func Launch() {
 		data, _, _ := reader.ReadLine()
 		command := string(data)
 		commands := strings.Split(command, " ")
+		dissentClient.Mutex.Lock()
 		switch commands[0] {
 		// case "msg":
 		// 	ind,_ := strconv.Atoi(commands[1])
@@ -339,6 +340,7 @@ func Launch() {
 		case "exit":
 			break Loop
 		}
+		dissentClient.Mutex.Unlock()
 	}
 	listener.Close()
 	fmt.Println("[debug] Exit system...");
diff --git a/cmd/client/DissentClient.go b/cmd/client/DissentClient.go
index 113dce1..b414f80 100644
--- a/cmd/client/DissentClient.go
+++ b/cmd/client/DissentClient.go
@@ -3,6 +3,7 @@ package client
 import (
 	"math/big"
 	"net"
+	"sync"
 	"zRep/cmd/bridge"
 	"zRep/primitive/fujiokam"
 	"zRep/primitive/pedersen"
@@ -18,6 +19,9 @@ type AssignmentInfo struct {
 }
 
 type DissentClient struct {
+	// guards everything below that changes after initialization:
+	// the listener and the command line run concurrently
+	Mutex sync.Mutex
 	// client-side config
 	CoordinatorAddr *net.TCPAddr
 	LocalAddr *net.TCPAddr
@@ -43,6 +47,12 @@ type DissentClient struct {
 	AllGnHonestyChallenge []bool
 }
 
+func (dissentClient *DissentClient) GetStatus() int {
+	dissentClient.Mutex.Lock()
+	defer dissentClient.Mutex.Unlock()
+	return dissentClient.Status
+}
+
 func (dissentClient *DissentClient) ClearBuffer() {
 	dissentClient.Assignments = nil
 }
diff --git a/cmd/coordinator/Coordinator.go b/cmd/coordinator/Coordinator.go
index f213af3..e85d8c2 100644
--- a/cmd/coordinator/Coordinator.go
+++ b/cmd/coordinator/Coordinator.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"math/big"
 	"net"
+	"sync"
 	"zRep/primitive/fujiokam"
 	"zRep/primitive/lrs"
 	"zRep/primitive/pedersen"
@@ -43,6 +44,9 @@ type GnHonestyProof struct {
 }
 
 type Coordinator struct {
+	// guards everything below that changes after initialization:
+	// the listener and the life cycle run concurrently
+	Mutex sync.Mutex
 	// local address
 	LocalAddr *net.TCPAddr
 	// network topology for server cluster
@@ -95,6 +99,12 @@ type Coordinator struct {
 	GnHonestyProofs map[string]GnHonestyProof
 }
 
+func (c *Coordinator) GetStatus() int {
+	c.Mutex.Lock()
+	defer c.Mutex.Unlock()
+	return c.Status
+}
+
 // get last server in topology
 func (c *Coordinator) GetLastServerAddr() *net.TCPAddr {
 	if len(c.ServerList) == 0 {
diff --git a/cmd/coordinator/CoordinatorHandler.go b/cmd/coordinator/CoordinatorHandler.go
index 492156f..35c2277 100644
--- a/cmd/coordinator/CoordinatorHandler.go
+++ b/cmd/coordinator/CoordinatorHandler.go
@@ -23,8 +23,12 @@ var anonCoordinator *Coordinator
 // Handle Use tmpCoordinator to handle data sent from addr.
 // The data is stored at buf
 func Handle(buf []byte, tmpCoordinator *Coordinator) {
+	tmpCoordinator.Mutex.Lock()
+	defer tmpCoordinator.Mutex.Unlock()
 	// decode the whole message
-	anonCoordinator = tmpCoordinator
+	if anonCoordinator != tmpCoordinator {
+		anonCoordinator = tmpCoordinator
+	}
 	event, addr := util.DecodeEvent(buf)
 
 	switch event.EventType {
diff --git a/cmd/coordinator/CoordinatorLauncher.go b/cmd/coordinator/CoordinatorLauncher.go
index 155dddd..90dc927 100644
--- a/cmd/coordinator/CoordinatorLauncher.go
+++ b/cmd/coordinator/CoordinatorLauncher.go
@@ -242,6 +242,7 @@ func Launch() {
 	fmt.Println("** Note: Type ok to finish the server configuration. **")
 	// wait keypress to start life cycle
 	waitKeypress("Press ENTER to start:\n")
+	anonCoordinator.Mutex.Lock()
 	fmt.Println("[debug] Servers in the current network:")
 	for _,info := range anonCoordinator.ServerList {
 		fmt.Println("[debug] *", info.Addr)
@@ -249,14 +250,16 @@ func Launch() {
 	fmt.Println("[debug] Configuring parameters of commitments.")
 	configCommParams()
 	anonCoordinator.Status = READY_FOR_NEW_ROUND
+	anonCoordinator.Mutex.Unlock()
 	for {
 		// wait for the status changed to READY_FOR_NEW_ROUND
 		for {
-			if anonCoordinator.Status == READY_FOR_NEW_ROUND {
+			if anonCoordinator.GetStatus() == READY_FOR_NEW_ROUND {
 				break
 			}
 			time.Sleep(10 * time.Millisecond)
 		}
+		anonCoordinator.Mutex.Lock()
 		// add fake clients in the first round
 		if isFirstRound {
 			addFakeClients(10)
@@ -273,8 +276,9 @@ func Launch() {
 		anonCoordinator.Status = ANNOUNCE
 		fmt.Println("[coordinator] Announcement phase started...")
 		announce()
+		anonCoordinator.Mutex.Unlock()
 		for {
-			if anonCoordinator.Status == MESSAGE {
+			if anonCoordinator.GetStatus() == MESSAGE {
 				break
 			}
 			time.Sleep(1000 * time.Millisecond)
@@ -283,10 +287,14 @@ func Launch() {
 		fmt.Println("[coordinator] Posting phase started...")
 		waitKeypress("Press ENTER to end posting:\n")
 		// voting phase
+		anonCoordinator.Mutex.Lock()
 		vote()
+		anonCoordinator.Mutex.Unlock()
 		fmt.Println("[coordinator] Voting phase started...")
 		waitKeypress("Press ENTER to finish voting:\n")
 		// ending phase
+		anonCoordinator.Mutex.Lock()
 		roundEnd()
+		anonCoordinator.Mutex.Unlock()
 	}
 }
diff --git a/cmd/server/AnonServer.go b/cmd/server/AnonServer.go
index e3f82be..f966673 100644
--- a/cmd/server/AnonServer.go
+++ b/cmd/server/AnonServer.go
@@ -2,6 +2,7 @@ package server
 
 import (
 	"net"
+	"sync"
 	"zRep/primitive/pedersen"
 	"zRep/primitive/fujiokam"
 
@@ -10,6 +11,8 @@ import (
 
 
 type AnonServer struct {
+	// guards everything below that changes after initialization
+	Mutex sync.Mutex
 	// local address
 	LocalAddr *net.TCPAddr
 	// client-side config
diff --git a/cmd/server/AnonServerHandler.go b/cmd/server/AnonServerHandler.go
index 5672f2e..61401c5 100644
--- a/cmd/server/AnonServerHandler.go
+++ b/cmd/server/AnonServerHandler.go
@@ -24,7 +24,11 @@ func Handle(buf []byte, tmpServer *AnonServer) {
 	byteArr := make([]util.ByteArray, 2)
 	gob.Register(byteArr)
 
-	anonServer = tmpServer
+	tmpServer.Mutex.Lock()
+	defer tmpServer.Mutex.Unlock()
+	if anonServer != tmpServer {
+		anonServer = tmpServer
+	}
 	event, addr := util.DecodeEvent(buf)
 	switch event.EventType {
 	case proto.SERVER_REGISTER_REPLY:
diff --git a/cmd/server/ServerLauncher.go b/cmd/server/ServerLauncher.go
index 83ce05c..0807a90 100644
--- a/cmd/server/ServerLauncher.go
+++ b/cmd/server/ServerLauncher.go
@@ -111,7 +111,10 @@ func Launch() {
 
 	// wait until register successful
 	for {
-		if anonServer.IsConnected {
+		anonServer.Mutex.Lock()
+		connected := anonServer.IsConnected
+		anonServer.Mutex.Unlock()
+		if connected {
 			break
 		}
 		time.Sleep(1000 * time.Millisecond)
-- 
2.43.0


From d5b82fb45c5684299ce38a3ded8b02ef57183b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:04 +0000
Subject: [PATCH 14/18] fix: drop malformed or unverifiable messages and skip
 unreachable peers instead of exiting

---
 cmd/coordinator/CoordinatorHandler.go  |  3 +--
 cmd/coordinator/CoordinatorLauncher.go | 19 +++++++++++++++----
 cmd/server/ServerLauncher.go           | 19 +++++++++++++++----
 util/Util.go                           | 26 ++++++++++++++++----------
 4 files changed, 47 insertions(+), 20 deletions(-)

diff --git a/cmd/coordinator/CoordinatorHandler.go b/cmd/coordinator/CoordinatorHandler.go
index 35c2277..595f030 100644
--- a/cmd/coordinator/CoordinatorHandler.go
+++ b/cmd/coordinator/CoordinatorHandler.go
@@ -176,8 +176,7 @@ func handleServerRegister(params map[string]interface{}, addr *net.TCPAddr) {
 }
 
 func handleUpdatePedersenH(params map[string]interface{}) {
-	err := anonCoordinator.PedersenBase.HT.UnmarshalBinary(params["h"].([]byte))
-	util.CheckErr(err)
+	anonCoordinator.PedersenBase.HT = util.DecodePoint(anonCoordinator.Suite, params["h"].([]byte))
 }
 
 // Handler for REGISTER event
diff --git a/cmd/coordinator/CoordinatorLauncher.go b/cmd/coordinator/CoordinatorLauncher.go
index 90dc927..bee356e 100644
--- a/cmd/coordinator/CoordinatorLauncher.go
+++ b/cmd/coordinator/CoordinatorLauncher.go
@@ -30,15 +30,26 @@ func startServerListener(listener *net.TCPListener) {
 	fmt.Println("[debug] Coordinator server listener started...");
 	buf := new(bytes.Buffer)
 	for {
-		buf.Reset()
 		conn, err := listener.AcceptTCP()
 		util.CheckErr(err)
-		_, err = io.Copy(buf, conn)
-		util.CheckErr(err)
-		Handle(buf.Bytes(), anonCoordinator)
+		receive(conn, buf)
 	}
 }
 
+// handle the message of one connection, a bad one must not bring the coordinator down
+func receive(conn *net.TCPConn, buf *bytes.Buffer) {
+	defer func() {
+		if r := recover(); r != nil {
+			fmt.Println("[note] Dropped a bad message:", r)
+		}
+	}()
+	defer conn.Close()
+	buf.Reset()
+	_, err := io.Copy(buf, conn)
+	util.CheckErr(err)
+	Handle(buf.Bytes(), anonCoordinator)
+}
+
 /**
   * initialize coordinator
   */
diff --git a/cmd/server/ServerLauncher.go b/cmd/server/ServerLauncher.go
index 0807a90..594fdad 100644
--- a/cmd/server/ServerLauncher.go
+++ b/cmd/server/ServerLauncher.go
@@ -42,15 +42,26 @@ func startAnonServerListener(listener *net.TCPListener) {
 	fmt.Println("[debug] AnonServer Listener started...");
 	buf := new(bytes.Buffer)
 	for {
-		buf.Reset()
 		conn, err := listener.AcceptTCP()
 		util.CheckErr(err)
-		_, err = io.Copy(buf, conn)
-		util.CheckErr(err)
-		Handle(buf.Bytes(), anonServer)
+		receive(conn, buf)
 	}
 }
 
+// handle the message of one connection, a bad one must not bring the server down
+func receive(conn *net.TCPConn, buf *bytes.Buffer) {
+	defer func() {
+		if r := recover(); r != nil {
+			fmt.Println("[note] Dropped a bad message:", r)
+		}
+	}()
+	defer conn.Close()
+	buf.Reset()
+	_, err := io.Copy(buf, conn)
+	util.CheckErr(err)
+	Handle(buf.Bytes(), anonServer)
+}
+
 /**
  * initialize anon server
  * set ip, port and encryption parameters
diff --git a/util/Util.go b/util/Util.go
index 920078f..b39f406 100644
--- a/util/Util.go
+++ b/util/Util.go
@@ -5,7 +5,7 @@ import (
 	"crypto/cipher"
 	"encoding/binary"
 	"errors"
-	"log"
+	"fmt"
 
 	"github.com/dedis/crypto/abstract"
 
@@ -63,10 +63,16 @@ func SendEvent(laddr, raddr *net.TCPAddr, event *proto.Event) {
 	content := Encode(event)
 	// fmt.Fprintln(os.Stderr, "send size=", len(content))
 	conn, err := net.DialTCP("tcp", nil, raddr)
-	CheckErr(err)
+	if err != nil {
+		// a peer that has left must not stop the others
+		fmt.Println("[note] Can not reach peer:", err)
+		return
+	}
+	defer conn.Close()
 	_, err = conn.Write(content)
-	CheckErr(err)
-	conn.Close()
+	if err != nil {
+		fmt.Println("[note] Can not send to peer:", err)
+	}
 }
 
 func DecodeEvent(content []byte) (*proto.Event, *net.TCPAddr) {
@@ -148,7 +154,7 @@ func ProtobufDecodeBigIntList(data []byte) []*big.Int {
 	decoder := gob.NewDecoder(buf)
 	err := decoder.Decode(&arg)
 	if err != nil {
-		log.Fatal(err)
+		panic(err)
 	}
 	return arg
 }
@@ -173,7 +179,7 @@ func DecodeARGnonneg(data []byte) *fujiokam.ARGnonneg {
 	decoder := gob.NewDecoder(buf)
 	err := decoder.Decode(arg)
 	if err != nil {
-		log.Fatal(err)
+		panic(err)
 	}
 	return arg
 }
@@ -198,7 +204,7 @@ func DecodeARGequal(data []byte) *pedersen_fujiokam.ARGequal {
 	decoder := gob.NewDecoder(buf)
 	err := decoder.Decode(arg)
 	if err != nil {
-		log.Fatal(err)
+		panic(err)
 	}
 	return arg
 }
@@ -249,7 +255,7 @@ func DecodeIntArray(data []byte) []int {
 	decoder := gob.NewDecoder(buf)
 	err := decoder.Decode(&arr)
 	if err != nil {
-		log.Fatal(err)
+		panic(err)
 	}
 	return arr
 }
@@ -272,7 +278,7 @@ func ProtobufDecodePointList(bytes []byte) []abstract.Point {
 
 	var msg PointList
 	if err := protobuf.DecodeWithConstructors(bytes, &msg, cons); err != nil {
-		log.Fatal(err)
+		panic(err)
 	}
 	return msg.Points
 }
@@ -295,7 +301,7 @@ func ProtobufDecodeSecretList(bytes []byte) []abstract.Secret {
 
 	var msg SecretList
 	if err := protobuf.DecodeWithConstructors(bytes, &msg, cons); err != nil {
-		log.Fatal(err)
+		panic(err)
 	}
 	return msg.Secrets
 }
-- 
2.43.0


From c0b1d2b4376f7af37770f05cca767c30d4e5cbc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:12 +0000
Subject: [PATCH 15/18] fix: forget a finished round's pending assignment
 signatures

A server's late signature completed an assignment of the previous round and
marked a bridge posted again in the new round as used.
---
 cmd/coordinator/CoordinatorLauncher.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/coordinator/CoordinatorLauncher.go b/cmd/coordinator/CoordinatorLauncher.go
index bee356e..024d2de 100644
--- a/cmd/coordinator/CoordinatorLauncher.go
+++ b/cmd/coordinator/CoordinatorLauncher.go
@@ -203,8 +203,9 @@ func roundEnd() {
 		util.SendEvent(anonCoordinator.LocalAddr, addr, event)
 	}
 
-	// clear bridges
+	// clear bridges, and the signatures that did not arrive in time for them
 	anonCoordinator.ClearBridges()
+	anonCoordinator.AssignmentSignaturesLog = make(map[string]AssignmentSignatures)
 }
 
 /**
-- 
2.43.0


From 002b8792014af6d2f5619680011a2c1072bea720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:14 +0000
Subject: [PATCH 16/18] fix: do not record a bridge twice

Posting an assigned bridge again made it available for another assignment,
and posting another client's bridge took it over.
---
 cmd/coordinator/CoordinatorHandler.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cmd/coordinator/CoordinatorHandler.go b/cmd/coordinator/CoordinatorHandler.go
index 595f030..1d39793 100644
--- a/cmd/coordinator/CoordinatorHandler.go
+++ b/cmd/coordinator/CoordinatorHandler.go
@@ -303,7 +303,11 @@ func handlePostBridge(params map[string]interface{}, senderAddr *net.TCPAddr) {
 	}
 
 	// record the bridge
-	// Note: we assume the client does not provide duplicated bridges
+	// a bridge that is known already keeps its provider, and is assigned only once
+	if _, ok := anonCoordinator.Bridges[bridgeAddr]; ok {
+		fmt.Println("[note] Duplicate bridge " + bridgeAddr)
+		return
+	}
 	anonCoordinator.AddBridge(bridgeAddr, nym)
 	fmt.Println("[debug] Finished adding bridge " + bridgeAddr)
 }
-- 
2.43.0


From 139cdee405371fd792055005d9b8b0b3b24e4c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:33 +0000
Subject: [PATCH 17/18] fix: tie the simple shuffle of a pair shuffle proof to
 the shuffled pairs

The verifier checked a simple shuffle of arbitrary elements: it never
compared them with A*B^lambda and C*D^lambda, so a prover could have a
table of other keys accepted as a shuffle.
---
 util/shuffle/pair.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/util/shuffle/pair.go b/util/shuffle/pair.go
index e2355bf..f8850ce 100644
--- a/util/shuffle/pair.go
+++ b/util/shuffle/pair.go
@@ -281,6 +281,11 @@ func (ps *PairShuffle) Verify(
 	P := grp.Point() // scratch
 	Q := grp.Point() // scratch
 	for i := 0; i < k; i++ {
+		// the simple k-shuffle has to be about R = A*B^lambda and S = C*D^lambda
+		if !P.Add(p1.A[i], Q.Mul(B[i], v4.Zlambda)).Equal(ps.pv6.p0.X[i]) ||
+			!P.Add(p1.C[i], Q.Mul(p3.D[i], v4.Zlambda)).Equal(ps.pv6.p0.Y[i]) {
+			return errors.New("invalid PairShuffleProof")
+		}
 		Phi1 = Phi1.Add(Phi1, P.Mul(Xbar[i], p5.Zsigma[i])) // (31)
 		Phi1 = Phi1.Sub(Phi1, P.Mul(X[i], v2.Zrho[i]))
 		Phi2 = Phi2.Add(Phi2, P.Mul(Ybar[i], p5.Zsigma[i])) // (32)
-- 
2.43.0


From 0348212db3fb2e35c8ab156ed307b2c066efa3eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:53 +0000
Subject: [PATCH 18/18] fix: accept released assignments only once the
 coordinator's key was received, not under an unset key

---
 cmd/client/ClientHandler.go  | 7 +++++--
 cmd/client/ClientLauncher.go | 2 +-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/cmd/client/ClientHandler.go b/cmd/client/ClientHandler.go
index 6371d5b..e6d40f9 100644
--- a/cmd/client/ClientHandler.go
+++ b/cmd/client/ClientHandler.go
@@ -75,8 +75,7 @@ func handleRegisterConfirmation(params map[string]interface{}, dissentClient *Di
 	dissentClient.AllGnHonestyProofPublic = util.ProtobufDecodeBigIntList(params["honesty_prf"].([]byte))
 
 	// Controller's public key
-	err := dissentClient.ControllerPublicKey.UnmarshalBinary(params["public_key"].([]byte))
-	util.CheckErr(err)
+	dissentClient.ControllerPublicKey = util.DecodePoint(dissentClient.Suite, params["public_key"].([]byte))
 
 	// Pedersen
 	// var HT = dissentClient.Suite.Point()
@@ -245,6 +244,10 @@ func handleAnnouncementFinalize(params map[string]interface{}, dissentClient *Di
 // }
 
 func handleGotSignatures(params map[string]interface{}, dissentClient *DissentClient) {
+	if dissentClient.ControllerPublicKey == nil {
+		fmt.Println("[note]** No key to verify the signatures with")
+		return
+	}
 	// verify signature
 	byteSig := params["signature"].([]byte)
 	msg := bridge.MessageOfGotSignatures(params)
diff --git a/cmd/client/ClientLauncher.go b/cmd/client/ClientLauncher.go
index c8ddb63..7b6a112 100644
--- a/cmd/client/ClientLauncher.go
+++ b/cmd/client/ClientLauncher.go
@@ -278,7 +278,7 @@ func initClient() {
 		Suite: suite,
 		PrivateKey: a,
 		PublicKey: A,
-		ControllerPublicKey: suite.Point(),
+		ControllerPublicKey: nil,
 		OnetimePseudoNym: suite.Point(),
 		G: nil,
 		Reputation: bridge.StartingCredit,
-- 
2.43.0

