package main

// The wire layout of RFC 9420, written out per structure. This table is the
// oracle for C01-C03 (and, for the signed structures, C18).

type item struct {
	k     string // u8 u16 u32 u64 enum opaque fixed struct vec opt switch
	path  string // where the value lives, relative to the structure
	typ   string
	extra string // path of the extra codec argument
	n     int
	sub   []item
	cases map[int64][]item
}

func iu(w int, path string) item {
	return item{k: map[int]string{8: "u8", 16: "u16", 32: "u32", 64: "u64"}[w], path: path}
}
func ien(typ, path string) item          { return item{k: "enum", typ: typ, path: path} }
func iop(path string) item               { return item{k: "opaque", path: path} }
func ifix(n int, path string) item       { return item{k: "fixed", n: n, path: path} }
func ist(typ, path string) item          { return item{k: "struct", typ: typ, path: path} }
func istx(typ, path, x string) item      { return item{k: "struct", typ: typ, path: path, extra: x} }
func ivec(path string, sub ...item) item { return item{k: "vec", path: path, sub: sub} }
func iopt(path string, sub ...item) item { return item{k: "opt", path: path, sub: sub} }
func isw(path string, cases map[int64][]item) item {
	return item{k: "switch", path: path, cases: cases}
}

type enumSpec struct {
	width int
	vals  []int64
}

var enumSpecs = map[string]enumSpec{
	"contentType":        {8, []int64{1, 2, 3}},
	"senderType":         {8, []int64{1, 2, 3, 4}},
	"wireFormat":         {16, []int64{1, 2, 3, 4, 5}},
	"leafNodeSource":     {8, []int64{1, 2, 3}},
	"nodeType":           {8, []int64{1, 2}},
	"proposalType":       {16, []int64{1, 2, 3, 4, 5, 6, 7}},
	"proposalOrRefType":  {8, []int64{1, 2}},
	"pskType":            {8, []int64{1, 2}},
	"resumptionPSKUsage": {8, []int64{1, 2, 3}},
}

var extVec = []item{iu(16, "extensionType"), iop("extensionData")}

func version(path string) []item { return []item{iu(16, path), isw(path, map[int64][]item{1: {}})} }

var leafBase = []item{
	iop("encryptionKey"), iop("signatureKey"), ist("Credential", "credential"), ist("capabilities", "capabilities"),
	ien("leafNodeSource", "leafNodeSource"),
	isw("leafNodeSource", map[int64][]item{
		1: {ist("lifetime", "lifetime")},
		2: {},
		3: {iop("parentHash")},
	}),
	ivec("extensions", extVec...),
}

func under(prefix string, items []item) []item {
	var out []item
	for _, it := range items {
		it.path = prefix + "." + it.path
		if it.cases != nil {
			m := map[int64][]item{}
			for v, l := range it.cases {
				m[v] = under(prefix, l)
			}
			it.cases = m
		}
		out = append(out, it)
	}
	return out
}

var byContent = func(path string) item {
	return isw(path, map[int64][]item{
		1: {iop("applicationData")},
		2: {ist("proposal", "proposal")},
		3: {ist("commit", "commit")},
	})
}

func cat(l ...[]item) []item {
	var out []item
	for _, x := range l {
		out = append(out, x...)
	}
	return out
}

var groupInfoBase = []item{ist("groupContext", "groupContext"), ivec("extensions", extVec...), iop("confirmationTag"), iu(32, "signer")}

var keyPackageBase = cat(version("version"), []item{iu(16, "cipherSuite"), iop("initKey"), ist("leafNode", "leafNode"), ivec("extensions", extVec...)})

var layouts = map[string][]item{
	"KeyPackage": cat(keyPackageBase, []item{iop("signature")}),
	"groupContext": cat(version("version"), []item{iu(16, "cipherSuite"), iop("groupID"), iu(64, "epoch"), iop("treeHash"),
		iop("confirmedTranscriptHash"), ivec("extensions", extVec...)}),
	"groupInfo":             cat(groupInfoBase, []item{iop("signature")}),
	"groupSecrets":          {iop("joinerSecret"), iopt("pathSecret", iop("pathSecret")), ivec("psks", ist("preSharedKeyID", ""))},
	"Welcome":               {iu(16, "cipherSuite"), ivec("secrets", ist("encryptedGroupSecrets", "")), iop("encryptedGroupInfo")},
	"encryptedGroupSecrets": {iop("newMember"), ist("hpkeCiphertext", "encryptedGroupSecrets")},
	"commit":                {ivec("proposals", ist("proposalOrRef", "")), iopt("path", ist("updatePath", "path"))},
	"proposal": {ien("proposalType", "proposalType"), isw("proposalType", map[int64][]item{
		1: {ist("add", "add")},
		2: {ist("update", "update")},
		3: {ist("remove", "remove")},
		4: {ist("preSharedKey", "preSharedKey")},
		5: {ist("reInit", "reInit")},
		6: {ist("externalInit", "externalInit")},
		7: {ist("groupContextExtensions", "groupContextExtensions")},
	})},
	"add":                    {ist("KeyPackage", "keyPackage")},
	"update":                 {ist("leafNode", "leafNode")},
	"remove":                 {iu(32, "removed")},
	"preSharedKey":           {ist("preSharedKeyID", "psk")},
	"reInit":                 cat([]item{iop("groupID")}, []item{iu(16, "version"), iu(16, "cipherSuite"), ivec("extensions", extVec...)}),
	"externalInit":           {iop("kemOutput")},
	"groupContextExtensions": {ivec("extensions", extVec...)},
	"proposalOrRef": {ien("proposalOrRefType", "typ"), isw("typ", map[int64][]item{
		1: {ist("proposal", "proposal")},
		2: {iop("reference")},
	})},
	"sender": {ien("senderType", "senderType"), isw("senderType", map[int64][]item{
		1: {iu(32, "leafIndex")},
		2: {iu(32, "senderIndex")},
		3: {},
		4: {},
	})},
	"framedContent": {iop("groupID"), iu(64, "epoch"), ist("sender", "sender"), iop("authenticatedData"),
		ien("contentType", "contentType"), byContent("contentType")},
	"framedContentAuthData": {iop("signature"), isw("$ct", map[int64][]item{1: {}, 2: {}, 3: {iop("confirmationTag")}})},
	"publicMessage": {ist("framedContent", "content"), istx("framedContentAuthData", "auth", "content.contentType"),
		isw("content.sender.senderType", map[int64][]item{1: {iop("membershipTag")}, 2: {}, 3: {}, 4: {}})},
	"privateMessage": {iop("groupID"), iu(64, "epoch"), ien("contentType", "contentType"), iop("authenticatedData"),
		iop("encryptedSenderData"), iop("ciphertext")},
	"privateMessageContent": {byContent("$ct"), istx("framedContentAuthData", "auth", "$ct")},
	"senderData":            {iu(32, "leafIndex"), iu(32, "generation"), ifix(4, "reuseGuard")},
	"mlsMessage": cat(version("version"), []item{ien("wireFormat", "wireFormat"), isw("wireFormat", map[int64][]item{
		1: {ist("publicMessage", "publicMessage")},
		2: {ist("privateMessage", "privateMessage")},
		3: {ist("Welcome", "welcome")},
		4: {ist("groupInfo", "groupInfo")},
		5: {ist("KeyPackage", "keyPackage")},
	})}),
	"authenticatedContent": {ien("wireFormat", "wireFormat"), ist("framedContent", "content"),
		istx("framedContentAuthData", "auth", "content.contentType")},
	"leafNode": cat(leafBase, []item{iop("signature")}),
	"capabilities": {ivec("versions", iu(16, "")), ivec("cipherSuites", iu(16, "")), ivec("extensions", iu(16, "")),
		ivec("proposals", iu(16, "")), ivec("credentials", iu(16, ""))},
	"lifetime": {iu(64, "notBefore"), iu(64, "notAfter")},
	"Credential": {iu(16, "credentialType"), isw("credentialType", map[int64][]item{
		1: {iop("identity")},
		2: {ivec("certificates", iop(""))},
	})},
	"hpkeCiphertext": {iop("kemOutput"), iop("ciphertext")},
	"parentNode":     {iop("encryptionKey"), iop("parentHash"), ivec("unmergedLeaves", iu(32, ""))},
	"node": {ien("nodeType", "nodeType"), isw("nodeType", map[int64][]item{
		1: {ist("leafNode", "leafNode")},
		2: {ist("parentNode", "parentNode")},
	})},
	"ratchetTree":    {ivec("", iopt("", ist("node", "")))},
	"updatePath":     {ist("leafNode", "leafNode"), ivec("nodes", ist("updatePathNode", ""))},
	"updatePathNode": {iop("encryptionKey"), ivec("encryptedPathSecret", ist("hpkeCiphertext", ""))},
	"preSharedKeyID": {ien("pskType", "pskType"), isw("pskType", map[int64][]item{
		1: {iop("pskID")},
		2: {ien("resumptionPSKUsage", "usage"), iop("pskGroupID"), iu(64, "pskEpoch")},
	}), iop("pskNonce")},
}

// structures that are only ever written (signed, MACed or hashed)
var writerLayouts = map[string][]item{
	"framedContentTBS": {iu(16, "version"), ien("wireFormat", "wireFormat"), ist("framedContent", "content"),
		isw("content.sender.senderType", map[int64][]item{
			1: {ist("groupContext", "context")}, 2: {}, 3: {}, 4: {ist("groupContext", "context")}})},
	"groupInfoTBS": groupInfoBase,
	"leafNodeTBS": cat(under("leafNode", leafBase), []item{isw("leafNode.leafNodeSource", map[int64][]item{
		1: {}, 2: {iop("groupID"), iu(32, "leafIndex")}, 3: {iop("groupID"), iu(32, "leafIndex")}})}),
	"senderDataAAD":                {iop("groupID"), iu(64, "epoch"), ien("contentType", "contentType")},
	"privateContentAAD":            {iop("groupID"), iu(64, "epoch"), ien("contentType", "contentType"), iop("authenticatedData")},
	"confirmedTranscriptHashInput": {ien("wireFormat", "wireFormat"), ist("framedContent", "content"), iop("signature")},
	"pskLabel":                     {ist("preSharedKeyID", "id"), iu(16, "index"), iu(16, "count")},
}
