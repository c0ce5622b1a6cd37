From edcef844951371379ba31385abf77e7efb97bc58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:24:37 +0000
Subject: [PATCH 01/15] fix: report truncated key packages and group infos

The decoders returned the nil error of the previous step when the
signature (or the confirmation tag and signer) was cut short, so a
truncated structure was accepted with missing fields.
---
 group.go       | 2 +-
 key_package.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/group.go b/group.go
index d91fb76..4f7cb39 100644
--- a/group.go
+++ b/group.go
@@ -913,7 +913,7 @@ func (info *groupInfo) unmarshal(s *cryptobyte.String) error {
 	info.extensions = exts
 
 	if !readOpaqueVec(s, &info.confirmationTag) || !s.ReadUint32((*uint32)(&info.signer)) || !readOpaqueVec(s, &info.signature) {
-		return err
+		return io.ErrUnexpectedEOF
 	}
 
 	return nil
diff --git a/key_package.go b/key_package.go
index 389dba9..ad62959 100644
--- a/key_package.go
+++ b/key_package.go
@@ -72,7 +72,7 @@ func (pkg *KeyPackage) unmarshal(s *cryptobyte.String) error {
 	pkg.extensions = exts
 
 	if !readOpaqueVec(s, &pkg.signature) {
-		return err
+		return io.ErrUnexpectedEOF
 	}
 
 	return nil
-- 
2.43.0


From 37bd34bf973631abbff6b78b9c8de003be5a0633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:24:40 +0000
Subject: [PATCH 02/15] fix: verify the confirmation tag of commits

Section 12.4.2 requires the confirmation tag to be checked before the
new epoch is entered. Without it a member whose state diverged accepts
the commit silently.
---
 group.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/group.go b/group.go
index 4f7cb39..8030204 100644
--- a/group.go
+++ b/group.go
@@ -541,6 +541,14 @@ func (group *Group) processCommit(authContent *authenticatedContent, pskIDs []pr
 		return fmt.Errorf("failed to extract epoch secret: %v", err)
 	}
 
+	confirmationKey, err := cs.deriveSecret(newEpochSecret, secretLabelConfirm)
+	if err != nil {
+		return fmt.Errorf("failed to derive confirmation key: %v", err)
+	}
+	if !authContent.auth.verifyConfirmationTag(cs, confirmationKey, newGroupCtx.confirmedTranscriptHash) {
+		return fmt.Errorf("mls: failed to verify confirmation tag")
+	}
+
 	newInitSecret, err := cs.deriveSecret(newEpochSecret, secretLabelInit)
 	if err != nil {
 		return fmt.Errorf("failed to erive init secret: %v", err)
-- 
2.43.0


From b2b3905509512a474810e2db77f23c3036b24681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:24:43 +0000
Subject: [PATCH 03/15] fix: don't modify shared parent nodes when adding a
 leaf

Copies of a ratchet tree share their nodes. Adding a leaf to a copy
also changed the unmerged leaves of the original, so a rejected commit
or CreateWelcome corrupted the group.
---
 tree.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/tree.go b/tree.go
index a0eefbe..95b7c6c 100644
--- a/tree.go
+++ b/tree.go
@@ -1042,9 +1042,15 @@ func (tree *ratchetTree) add(leafNode *leafNode) {
 		if !ok {
 			break
 		}
-		node := tree.get(p)
-		if node != nil {
-			node.parentNode.unmergedLeaves = append(node.parentNode.unmergedLeaves, li)
+		if n := tree.get(p); n != nil {
+			// The node may be shared with other copies of the tree
+			parent := *n.parentNode
+			parent.unmergedLeaves = append([]leafIndex(nil), parent.unmergedLeaves...)
+			parent.unmergedLeaves = append(parent.unmergedLeaves, li)
+			tree.set(p, &node{
+				nodeType:   nodeTypeParent,
+				parentNode: &parent,
+			})
 		}
 	}
 
-- 
2.43.0


From 19140d55a4e3f9b852fa3f6d1b3f101e33036f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:24:47 +0000
Subject: [PATCH 04/15] fix: check leaf indices taken from messages

The sender of a message and the target of a remove proposal were used
to index the ratchet tree and the secret tree without checking that
they lie inside, so a message could crash the receiver.
---
 group.go | 22 ++++++++++++++--------
 tree.go  |  6 ++++++
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/group.go b/group.go
index 8030204..590b96c 100644
--- a/group.go
+++ b/group.go
@@ -302,7 +302,6 @@ func (group *Group) verifyPublicMessage(pubMsg *publicMessage) (*authenticatedCo
 		return nil, fmt.Errorf("mls: unsupported sender type: %v", pubMsg.content.sender.senderType)
 	}
 	senderLeafIndex := pubMsg.content.sender.leafIndex
-	// TODO: check tree length
 	senderNode := group.tree.getLeaf(senderLeafIndex)
 	if senderNode == nil {
 		return nil, fmt.Errorf("mls: blank leaf node for sender")
@@ -343,6 +342,11 @@ func (group *Group) processPrivateMessage(privMsg *privateMessage) ([]byte, erro
 		return nil, fmt.Errorf("failed to decrypt sender data: %v", err)
 	}
 
+	signerNode := group.tree.getLeaf(senderData.leafIndex)
+	if signerNode == nil {
+		return nil, fmt.Errorf("mls: signer node is blank")
+	}
+
 	encryptionSecret, err := cs.deriveSecret(group.epochSecret, secretLabelEncryption)
 	if err != nil {
 		return nil, fmt.Errorf("failed to derive encryption secret: %v", err)
@@ -373,11 +377,6 @@ func (group *Group) processPrivateMessage(privMsg *privateMessage) ([]byte, erro
 		return nil, fmt.Errorf("failed to decrypt private message content: %v", err)
 	}
 
-	signerNode := group.tree.getLeaf(senderData.leafIndex)
-	if signerNode == nil {
-		return nil, fmt.Errorf("mls: signer node is blank")
-	}
-
 	authContent := privMsg.authenticatedContent(senderData, privContent)
 	if !authContent.verifySignature(signerNode.signatureKey, &group.groupContext) {
 		return nil, fmt.Errorf("failed to verify private message content signature: %v", err)
@@ -434,10 +433,15 @@ func (group *Group) processCommit(authContent *authenticatedContent, pskIDs []pr
 	}
 
 	for _, prop := range proposals {
-		if prop.proposalType == proposalTypeAdd {
+		switch prop.proposalType {
+		case proposalTypeAdd:
 			if err := prop.add.keyPackage.verify(&group.groupContext); err != nil {
 				return fmt.Errorf("failed to verify add proposal: %v", err)
 			}
+		case proposalTypeRemove:
+			if group.tree.getLeaf(prop.remove.removed) == nil {
+				return fmt.Errorf("mls: remove proposal references a blank leaf node")
+			}
 		}
 	}
 
@@ -467,8 +471,10 @@ func (group *Group) processCommit(authContent *authenticatedContent, pskIDs []pr
 			return fmt.Errorf("mls: commit path leaf node source must be commit")
 		}
 
-		// TODO: check tree length
 		senderNode := newTree.getLeaf(senderLeafIndex)
+		if senderNode == nil {
+			return fmt.Errorf("mls: blank leaf node for sender")
+		}
 
 		// The same signature key can be re-used, but the encryption key
 		// must change
diff --git a/tree.go b/tree.go
index 95b7c6c..c7a2c3a 100644
--- a/tree.go
+++ b/tree.go
@@ -679,7 +679,13 @@ func (tree ratchetTree) set(i nodeIndex, node *node) {
 	tree[int(i)] = node
 }
 
+// getLeaf returns the leaf node at the provided index.
+//
+// nil is returned for blank leaves and for indices outside of the tree.
 func (tree ratchetTree) getLeaf(li leafIndex) *leafNode {
+	if li >= leafIndex(tree.numLeaves()) {
+		return nil
+	}
 	node := tree.get(li.nodeIndex())
 	if node == nil {
 		return nil
-- 
2.43.0


From 4b29a7518472a695d72b75381d4463d909498366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:24:51 +0000
Subject: [PATCH 05/15] fix: reject malformed ratchet trees

A tree with a leaf in place of a parent node (or the other way around),
an unmerged leaf outside of the tree, or no nodes at all made the
functions working on it panic. Trailing blank nodes are forbidden by
section 12.4.3.3.
---
 tree.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/tree.go b/tree.go
index c7a2c3a..c9955bd 100644
--- a/tree.go
+++ b/tree.go
@@ -638,12 +638,33 @@ func (tree *ratchetTree) unmarshal(s *cryptobyte.String) error {
 		return err
 	}
 
+	if len(*tree) == 0 || (*tree)[len(*tree)-1] == nil {
+		return fmt.Errorf("mls: ratchet tree ends with a blank node")
+	}
+
 	// The raw tree doesn't include blank nodes at the end, fill it until next
 	// power of 2
 	for !isPowerOf2(uint32(len(*tree) + 1)) {
 		*tree = append(*tree, nil)
 	}
 
+	for i, n := range *tree {
+		if n == nil {
+			continue
+		}
+		if (n.nodeType == nodeTypeLeaf) != nodeIndex(i).isLeaf() {
+			return fmt.Errorf("mls: invalid node type %d at index %d in ratchet tree", n.nodeType, i)
+		}
+		if n.nodeType != nodeTypeParent {
+			continue
+		}
+		for _, li := range n.parentNode.unmergedLeaves {
+			if li >= leafIndex(tree.numLeaves()) {
+				return fmt.Errorf("mls: invalid unmerged leaf %d in ratchet tree", li)
+			}
+		}
+	}
+
 	return nil
 }
 
-- 
2.43.0


From 2305d79c75f9cb38dcc8170c2a08d8f046241e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:24:55 +0000
Subject: [PATCH 06/15] fix: don't allocate more than the input holds

A few bytes declaring an opaque vector of 1 GiB caused an allocation of
that size before the length was compared with the input.
---
 mls.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mls.go b/mls.go
index adfc8c8..a699d06 100644
--- a/mls.go
+++ b/mls.go
@@ -57,6 +57,10 @@ func readOpaqueVec(s *cryptobyte.String, out *[]byte) bool {
 		return false
 	}
 
+	if uint64(n) > uint64(len(*s)) {
+		return false
+	}
+
 	b := make([]byte, n)
 	if !s.CopyBytes(b) {
 		return false
-- 
2.43.0


From 58c9f8e0923b117d21c06eac2122e85d99b9f2e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:24:59 +0000
Subject: [PATCH 07/15] fix: return errors for unknown cipher suites

A welcome, group info or key package with an unknown cipher suite made
the library panic, as did path secrets in groups whose hash length
differs from the seed size of the KEM.
---
 ciphersuite.go | 11 +++++++++++
 group.go       | 14 +++++++++++---
 key_package.go |  8 ++++++++
 3 files changed, 30 insertions(+), 3 deletions(-)

diff --git a/ciphersuite.go b/ciphersuite.go
index c2edb39..43568a2 100644
--- a/ciphersuite.go
+++ b/ciphersuite.go
@@ -71,6 +71,14 @@ func (cs CipherSuite) Supported() bool {
 	return true
 }
 
+// checkKnown returns an error for cipher suites without a description.
+func (cs CipherSuite) checkKnown() error {
+	if _, ok := cipherSuiteDescriptions[cs]; !ok {
+		return fmt.Errorf("mls: unknown cipher suite %d", cs)
+	}
+	return nil
+}
+
 func (cs CipherSuite) hash() crypto.Hash {
 	desc, ok := cipherSuiteDescriptions[cs]
 	if !ok {
@@ -278,6 +286,9 @@ func (cs CipherSuite) generateEncryptionKeyPair() (hpkePublicKey, hpkePrivateKey
 
 func (cs CipherSuite) deriveEncryptionKeyPair(seed []byte) (hpkePublicKey, hpkePrivateKey, error) {
 	kem, _, _ := cs.hpke().Params()
+	if len(seed) != kem.Scheme().SeedSize() {
+		return nil, nil, fmt.Errorf("mls: invalid seed size for key pair derivation")
+	}
 	pub, priv := kem.Scheme().DeriveKeyPair(seed)
 
 	rawPub, err := pub.MarshalBinary()
diff --git a/group.go b/group.go
index 590b96c..5bbcb21 100644
--- a/group.go
+++ b/group.go
@@ -35,6 +35,9 @@ type Group struct {
 // CreateGroup creates a new group with a single member.
 func CreateGroup(groupID GroupID, keyPairPkg *KeyPairPackage) (*Group, error) {
 	cs := keyPairPkg.Public.cipherSuite
+	if err := cs.checkKnown(); err != nil {
+		return nil, err
+	}
 
 	tree := make(ratchetTree, 1)
 	tree.add(&keyPairPkg.Public.leafNode)
@@ -99,6 +102,10 @@ func CreateGroup(groupID GroupID, keyPairPkg *KeyPairPackage) (*Group, error) {
 
 // GroupFromWelcome creates a new group from a welcome message.
 func GroupFromWelcome(welcome *Welcome, keyPairPkg *KeyPairPackage) (*Group, error) {
+	if err := welcome.cipherSuite.checkKnown(); err != nil {
+		return nil, err
+	}
+
 	keyPkgRef, err := keyPairPkg.Public.GenerateRef()
 	if err != nil {
 		return nil, fmt.Errorf("failed to generate key package ref: %v", err)
@@ -141,6 +148,10 @@ func groupFromSecrets(welcome *Welcome, keyPairPkg *KeyPairPackage, groupSecrets
 		return nil, fmt.Errorf("failed to decrypt group info: %v", err)
 	}
 
+	if groupInfo.groupContext.cipherSuite != welcome.cipherSuite {
+		return nil, fmt.Errorf("mls: group info cipher suite doesn't match key package")
+	}
+
 	rawTree := options.rawTree
 	if rawTree == nil {
 		rawTree = findExtensionData(groupInfo.extensions, extensionTypeRatchetTree)
@@ -163,9 +174,6 @@ func groupFromSecrets(welcome *Welcome, keyPairPkg *KeyPairPackage, groupSecrets
 	if !groupInfo.verifyConfirmationTag(groupSecrets.joinerSecret, pskSecret) {
 		return nil, fmt.Errorf("mls: failed to verify confirmation tag")
 	}
-	if groupInfo.groupContext.cipherSuite != welcome.cipherSuite {
-		return nil, fmt.Errorf("mls: group info cipher suite doesn't match key package")
-	}
 
 	if err := tree.verifyIntegrity(&groupInfo.groupContext, options.now); err != nil {
 		return nil, fmt.Errorf("failed to verify ratchet tree integrity: %v", err)
diff --git a/key_package.go b/key_package.go
index ad62959..1851def 100644
--- a/key_package.go
+++ b/key_package.go
@@ -141,6 +141,10 @@ func (pkg *KeyPackage) verify(ctx *groupContext) error {
 
 // GenerateRef generates this key package's reference.
 func (pkg *KeyPackage) GenerateRef() (KeyPackageRef, error) {
+	if err := pkg.cipherSuite.checkKnown(); err != nil {
+		return nil, err
+	}
+
 	var b cryptobyte.Builder
 	pkg.marshal(&b)
 	raw, err := b.Bytes()
@@ -181,6 +185,10 @@ type KeyPairPackage struct {
 func GenerateKeyPairPackage(cs CipherSuite, credential *Credential) (*KeyPairPackage, error) {
 	// TODO: add options to configure the new key package
 
+	if err := cs.checkKnown(); err != nil {
+		return nil, err
+	}
+
 	initPub, initPriv, err := cs.generateEncryptionKeyPair()
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 963e124c0940097f52423c0fb044f8cce1a8ceee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:25:02 +0000
Subject: [PATCH 08/15] fix: verify key packages before inviting their owners

The other members verify the key package of each add proposal and
reject the whole commit if one is invalid.
---
 group.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/group.go b/group.go
index 5bbcb21..718d57c 100644
--- a/group.go
+++ b/group.go
@@ -625,6 +625,9 @@ func (group *Group) CreateWelcome(keyPkgs []KeyPackage) (*Welcome, []byte, error
 	proposals := make([]proposal, len(keyPkgs))
 	proposalOrRefs := make([]proposalOrRef, len(keyPkgs))
 	for i, keyPkg := range keyPkgs {
+		if err := keyPkg.verify(&group.groupContext); err != nil {
+			return nil, nil, fmt.Errorf("failed to verify key package: %v", err)
+		}
 		proposals[i] = proposal{
 			proposalType: proposalTypeAdd,
 			add:          &add{keyPackage: keyPkg},
-- 
2.43.0


From f4bfdce14261755ccbedbf4546f3bbfb9eeaa68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:25:06 +0000
Subject: [PATCH 09/15] fix: derive all path secrets when joining

The path secret of the second ancestor and up was derived from the
first one instead of from its predecessor because the variable was
shadowed, so welcomes with a path secret were rejected in larger
groups. Blank ancestors are not part of the path.
---
 group.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/group.go b/group.go
index 718d57c..93ce075 100644
--- a/group.go
+++ b/group.go
@@ -228,6 +228,9 @@ func groupFromSecrets(welcome *Welcome, keyPairPkg *KeyPairPackage, groupSecrets
 }
 
 func processPathSecret(cs CipherSuite, tree ratchetTree, privTree []hpkePrivateKey, pathSecret []byte, nodeIndex nodeIndex) error {
+	if tree.get(nodeIndex) == nil {
+		return fmt.Errorf("mls: path secret provided for blank node %v", nodeIndex)
+	}
 	nodePriv, err := nodePrivFromPathSecret(cs, pathSecret, tree.get(nodeIndex).encryptionKey())
 	if err != nil {
 		return fmt.Errorf("failed to derive node %v private key from path secret: %v", nodeIndex, err)
@@ -241,7 +244,11 @@ func processPathSecret(cs CipherSuite, tree ratchetTree, privTree []hpkePrivateK
 			break
 		}
 
-		pathSecret, err := cs.deriveSecret(pathSecret, []byte("path"))
+		if tree.get(nodeIndex) == nil {
+			continue // not in the filtered direct path of the signer
+		}
+
+		pathSecret, err = cs.deriveSecret(pathSecret, []byte("path"))
 		if err != nil {
 			return fmt.Errorf("failed to derive path secret: %v", err)
 		}
-- 
2.43.0


From e085924cb82d359414de67ee31d374355a2620f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:20:56 +0000
Subject: [PATCH 10/15] fix: reject malformed ECDSA public keys instead of
 panicking

elliptic.Unmarshal returns nil coordinates for a malformed key, which
makes ecdsa.VerifyASN1 panic. A key package or leaf node received from
a peer could crash the process this way.
---
 ciphersuite.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ciphersuite.go b/ciphersuite.go
index 43568a2..378070d 100644
--- a/ciphersuite.go
+++ b/ciphersuite.go
@@ -376,6 +376,9 @@ func (scheme ecdsaSignatureScheme) Sign(signKey, message []byte) ([]byte, error)
 
 func (scheme ecdsaSignatureScheme) Verify(publicKey, message, sig []byte) bool {
 	x, y := elliptic.Unmarshal(scheme.curve, publicKey)
+	if x == nil {
+		return false
+	}
 	pub := &ecdsa.PublicKey{Curve: scheme.curve, X: x, Y: y}
 	return ecdsa.VerifyASN1(pub, scheme.hashSum(message), sig)
 }
-- 
2.43.0


From b6db255dcbf25f9a2cf68c702f7d3bd31e5df471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:56:57 +0000
Subject: [PATCH 11/15] fix: count each supported credential type once per
 member

A leaf whose capabilities list the same credential type twice was counted
as two members, so a type some member does not support could be taken as
supported by the whole group.
---
 tree.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tree.go b/tree.go
index c9955bd..44963d0 100644
--- a/tree.go
+++ b/tree.go
@@ -747,7 +747,12 @@ func (tree ratchetTree) supportedCreds() map[credentialType]struct{} {
 		}
 
 		numMembers++
+		counted := make(map[credentialType]struct{})
 		for _, ct := range node.capabilities.credentials {
+			if _, dup := counted[ct]; dup {
+				continue
+			}
+			counted[ct] = struct{}{}
 			supportedCredsCount[ct]++
 		}
 	}
-- 
2.43.0


From 926374f03712d41f5431379b5e0010a77b5c87bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:10:46 +0000
Subject: [PATCH 12/15] fix: require the rest of a resolution to be unmerged
 leaves when verifying parent hashes

---
 tree.go | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/tree.go b/tree.go
index 44963d0..a8b79db 100644
--- a/tree.go
+++ b/tree.go
@@ -991,8 +991,8 @@ func (tree ratchetTree) verifyParentHashes(cs CipherSuite) bool {
 			return false
 		}
 
-		isLeftDescendant := tree.findParentHash(tree.resolve(l), leftParentHash)
-		isRightDescendant := tree.findParentHash(tree.resolve(r), rightParentHash)
+		isLeftDescendant := tree.findParentHash(tree.resolve(l), leftParentHash, exclude)
+		isRightDescendant := tree.findParentHash(tree.resolve(r), rightParentHash, exclude)
 		if isLeftDescendant == isRightDescendant {
 			return false
 		}
@@ -1000,8 +1000,16 @@ func (tree ratchetTree) verifyParentHashes(cs CipherSuite) bool {
 	return true
 }
 
-func (tree ratchetTree) findParentHash(nodeIndices []nodeIndex, parentHash []byte) bool {
+// findParentHash reports whether the specified resolution consists of a single
+// node with the specified parent hash and of unmerged leaves of its parent.
+func (tree ratchetTree) findParentHash(nodeIndices []nodeIndex, parentHash []byte, unmergedLeaves map[leafIndex]struct{}) bool {
+	found := false
 	for _, x := range nodeIndices {
+		if li, ok := x.leafIndex(); ok {
+			if _, unmerged := unmergedLeaves[li]; unmerged {
+				continue
+			}
+		}
 		node := tree.get(x)
 		if node == nil {
 			continue
@@ -1013,11 +1021,12 @@ func (tree ratchetTree) findParentHash(nodeIndices []nodeIndex, parentHash []byt
 		case nodeTypeParent:
 			h = node.parentNode.parentHash
 		}
-		if bytes.Equal(h, parentHash) {
-			return true
+		if found || !bytes.Equal(h, parentHash) {
+			return false
 		}
+		found = true
 	}
-	return false
+	return found
 }
 
 func (tree ratchetTree) numLeaves() numLeaves {
-- 
2.43.0


From c03bb403bd629cac23c82b351c5a5ab396f4955c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:10:50 +0000
Subject: [PATCH 13/15] fix: reject trees with blank unmerged leaves

---
 tree.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tree.go b/tree.go
index a8b79db..7142888 100644
--- a/tree.go
+++ b/tree.go
@@ -834,6 +834,10 @@ func (tree ratchetTree) verifyIntegrity(ctx *groupContext, now func() time.Time)
 		}
 		p := nodeIndex(i)
 		for _, unmergedLeaf := range node.parentNode.unmergedLeaves {
+			if tree.getLeaf(unmergedLeaf) == nil {
+				return fmt.Errorf("mls: unmerged leaf %v of the parent node at index %v is blank", unmergedLeaf, p)
+			}
+
 			x := unmergedLeaf.nodeIndex()
 			for {
 				var ok bool
-- 
2.43.0


From c049518b2d41c4574ba8d80b3215eb3cbe2e4e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:19:40 +0000
Subject: [PATCH 14/15] fix: start new groups with an empty confirmed
 transcript hash

RFC 9420 section 11 says the confirmed transcript hash of a new group is the
zero-length string. CreateGroup used a string of zero bytes, so the initial
confirmation tag and interim transcript hash were computed from the wrong
input.
---
 group.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/group.go b/group.go
index 93ce075..e166a65 100644
--- a/group.go
+++ b/group.go
@@ -50,7 +50,8 @@ func CreateGroup(groupID GroupID, keyPairPkg *KeyPairPackage) (*Group, error) {
 		return nil, fmt.Errorf("failed to compute root tree hash: %v", err)
 	}
 
-	confirmedTranscriptHash := make([]byte, cs.hash().Size())
+	// The initial confirmed transcript hash is the zero-length string
+	confirmedTranscriptHash := []byte{}
 
 	_, kdf, _ := cs.hpke().Params()
 	epochSecret := make([]byte, kdf.ExtractSize())
-- 
2.43.0


From e223e3c9b3eaab9c4f2fa75ee6f35f0bfb562fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:29:23 +0000
Subject: [PATCH 15/15] fix: return an error for short secrets instead of
 panicking

KDF.Expand panics if the secret is shorter than the output of Extract.
Path secrets are received in welcome and commit messages, so another
member could crash the process by sending a short one.
---
 ciphersuite.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ciphersuite.go b/ciphersuite.go
index 378070d..d37d319 100644
--- a/ciphersuite.go
+++ b/ciphersuite.go
@@ -185,6 +185,9 @@ func (cs CipherSuite) expandWithLabel(secret, label, context []byte, length uint
 	}
 
 	_, kdf, _ := cs.hpke().Params()
+	if len(secret) < kdf.ExtractSize() {
+		return nil, fmt.Errorf("mls: secret too short for key derivation")
+	}
 	return kdf.Expand(secret, kdfLabel, uint(length)), nil
 }
 
-- 
2.43.0

