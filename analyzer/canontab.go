package main

var canonShapes = map[string]string{
	"CipherSuite":                  "uint16 String,Supported,checkKnown,decryptWithLabel,deriveEncryptionKeyPair,deriveSecret,encryptWithLabel,expandWithLabel,generateEncryptionKeyPair,hash,hpke,refHash,signMAC,signWithLabel,signatureScheme,verifyMAC,verifyWithLabel",
	"Credential":                   "struct{credentialType,identity,certificates} marshal,unmarshal",
	"Group":                        "struct{tree,groupContext,interimTranscriptHash,pskSecret,epochSecret,initSecret,myLeafIndex,privTree,signaturePriv,pendingProposals} CreateApplicationMessage,CreateWelcome,UnmarshalAndProcessMessage,encryptPrivateMessage,processCommit,processPrivateMessage,processProposal,processPublicMessage,signPublicMessageMembershipTag,verifyPublicMessage",
	"GroupID":                      "[]byte Equal",
	"KeyPackage":                   "struct{version,cipherSuite,initKey,leafNode,extensions,signature} Bytes,GenerateRef,marshal,marshalTBS,sign,unmarshal,verify,verifySignature",
	"KeyPackageRef":                "[]byte Equal",
	"KeyPairPackage":               "struct{Public,Private} ",
	"PrivateKeyPackage":            "struct{InitKey,EncryptionKey,SignatureKey} ",
	"Welcome":                      "struct{cipherSuite,secrets,encryptedGroupInfo} Bytes,NewMembers,decryptGroupInfo,decryptGroupSecrets,findSecret,marshal,unmarshal",
	"add":                          "struct{keyPackage} marshal,unmarshal",
	"authenticatedContent":         "struct{wireFormat,content,auth} confirmedTranscriptHashInput,framedContentTBS,generateProposalRef,marshal,unmarshal,verifySignature",
	"authenticatedContentTBM":      "struct{contentTBS,auth} marshal",
	"capabilities":                 "struct{versions,cipherSuites,extensions,proposals,credentials} marshal,unmarshal",
	"cipherSuiteDescription":       "struct{hash,hpke,sig} ",
	"commit":                       "struct{proposals,path} marshal,unmarshal",
	"confirmedTranscriptHashInput": "struct{wireFormat,content,signature} hash,marshal",
	"contentType":                  "uint8 marshal,unmarshal",
	"credentialType":               "uint16 ",
	"ecdsaSignatureScheme":         "struct{curve,hash} GenerateKeyPair,Sign,Verify,hashSum",
	"ed25519SignatureScheme":       "struct{} GenerateKeyPair,Sign,Verify",
	"ed448SignatureScheme":         "struct{} GenerateKeyPair,Sign,Verify",
	"encryptedGroupSecrets":        "struct{newMember,encryptedGroupSecrets} marshal,unmarshal",
	"extension":                    "struct{extensionType,extensionData} ",
	"extensionType":                "uint16 ",
	"externalInit":                 "struct{kemOutput} marshal,unmarshal",
	"framedContent":                "struct{groupID,epoch,sender,authenticatedData,contentType,applicationData,proposal,commit} marshal,unmarshal",
	"framedContentAuthData":        "struct{signature,confirmationTag} marshal,unmarshal,verifyConfirmationTag,verifySignature",
	"framedContentTBS":             "struct{version,wireFormat,content,context} marshal",
	"groupContext":                 "struct{version,cipherSuite,groupID,epoch,treeHash,confirmedTranscriptHash,extensions} extractEpochSecret,extractJoinerSecret,marshal,signConfirmationTag,unmarshal",
	"groupContextExtensions":       "struct{extensions} marshal,unmarshal",
	"groupFromSecretsOptions":      "struct{rawTree,psks,now} ",
	"groupInfo":                    "struct{groupContext,extensions,confirmationTag,signer,signature} encrypt,marshal,sign,unmarshal,verifyConfirmationTag,verifySignature",
	"groupInfoTBS":                 "struct{groupContext,extensions,confirmationTag,signer,signature} marshal",
	"groupSecrets":                 "struct{joinerSecret,pathSecret,psks} encrypt,marshal,unmarshal,verifySingleReinitOrBranchPSK",
	"hpkeCiphertext":               "struct{kemOutput,ciphertext} marshal,unmarshal",
	"hpkePrivateKey":               "[]byte ",
	"hpkePublicKey":                "[]byte ",
	"leafIndex":                    "uint32 nodeIndex",
	"leafNode":                     "struct{encryptionKey,signatureKey,credential,capabilities,leafNodeSource,lifetime,parentHash,extensions,signature} marshal,marshalBase,sign,unmarshal,verify,verifySignature",
	"leafNodeSource":               "uint8 marshal,unmarshal",
	"leafNodeTBS":                  "struct{leafNode,groupID,leafIndex} marshal",
	"leafNodeVerifyOptions":        "struct{cipherSuite,groupID,leafIndex,supportedCreds,signatureKeys,encryptionKeys,now} ",
	"lifetime":                     "struct{notBefore,notAfter} marshal,notAfterTime,notBeforeTime,unmarshal,verify",
	"marshaler":                    "interface{marshal(*golang.org/x/crypto/cryptobyte.Builder)} ",
	"mlsMessage":                   "struct{version,wireFormat,publicMessage,privateMessage,welcome,groupInfo,keyPackage} marshal,unmarshal",
	"node":                         "struct{nodeType,leafNode,parentNode} encryptionKey,marshal,unmarshal",
	"nodeIndex":                    "uint32 children,isLeaf,leafIndex,left,level,right",
	"nodeType":                     "uint8 marshal,unmarshal",
	"numLeaves":                    "uint32 copath,directPath,parent,root,sibling,width",
	"parentNode":                   "struct{encryptionKey,parentHash,unmergedLeaves} computeParentHash,marshal,unmarshal",
	"pendingProposal":              "struct{ref,proposal,sender} ",
	"preSharedKey":                 "struct{psk} marshal,unmarshal",
	"preSharedKeyID":               "struct{pskType,pskID,usage,pskGroupID,pskEpoch,pskNonce} marshal,unmarshal",
	"privateContentAAD":            "struct{groupID,epoch,contentType,authenticatedData} marshal",
	"privateMessage":               "struct{groupID,epoch,contentType,authenticatedData,encryptedSenderData,ciphertext} authenticatedContent,decryptContent,decryptSenderData,marshal,unmarshal",
	"privateMessageContent":        "struct{applicationData,proposal,commit,auth} authenticatedContent,marshal,unmarshal",
	"proposal":                     "struct{proposalType,add,update,remove,preSharedKey,reInit,externalInit,groupContextExtensions} marshal,unmarshal",
	"proposalOrRef":                "struct{typ,proposal,reference} marshal,unmarshal",
	"proposalOrRefType":            "uint8 marshal,unmarshal",
	"proposalRef":                  "[]byte Equal",
	"proposalType":                 "uint16 marshal,unmarshal",
	"protocolVersion":              "uint16 ",
	"pskLabel":                     "struct{id,index,count} marshal",
	"pskType":                      "uint8 marshal,unmarshal",
	"publicMessage":                "struct{content,auth,membershipTag} authenticatedContent,authenticatedContentTBM,marshal,signMembershipTag,unmarshal,verifyMembershipTag",
	"ratchetLabel":                 "[]byte ",
	"ratchetSecret":                "struct{secret,generation} deriveKey,deriveNext,deriveNonce",
	"ratchetTree":                  "[]*node add,apply,computeRootTreeHash,computeTreeHash,copy,decryptPathSecrets,filteredDirectPath,findLeaf,findParentHash,get,getLeaf,keys,marshal,mergeUpdatePath,numLeaves,remove,resolve,set,supportedCreds,unmarshal,update,verifyIntegrity,verifyParentHashes",
	"reInit":                       "struct{groupID,version,cipherSuite,extensions} marshal,unmarshal",
	"remove":                       "struct{removed} marshal,unmarshal",
	"resumptionPSKUsage":           "uint8 marshal,unmarshal",
	"secretTree":                   "[][]byte deriveChildren,deriveRatchetRoot,get,set",
	"sender":                       "struct{senderType,leafIndex,senderIndex} marshal,unmarshal",
	"senderData":                   "struct{leafIndex,generation,reuseGuard} marshal,unmarshal",
	"senderDataAAD":                "struct{groupID,epoch,contentType} marshal",
	"senderType":                   "uint8 marshal,unmarshal",
	"signaturePrivateKey":          "[]byte ",
	"signaturePublicKey":           "[]byte ",
	"signatureScheme":              "interface{GenerateKeyPair() (publicKey []byte, privateKey []byte, err error); Sign(signKey []byte, message []byte) ([]byte, error); Verify(publicKey []byte, message []byte, sig []byte) bool} ",
	"unmarshaler":                  "interface{unmarshal(*golang.org/x/crypto/cryptobyte.String) error} ",
	"update":                       "struct{leafNode} marshal,unmarshal",
	"updatePath":                   "struct{leafNode,nodes} marshal,unmarshal",
	"updatePathNode":               "struct{encryptionKey,encryptedPathSecret} marshal,unmarshal",
	"wireFormat":                   "uint16 marshal,unmarshal",
}

var canonStructs = map[string][]canonField{
	"Credential":                   {{"credentialType", "credentialType"}, {"identity", "[]byte"}, {"certificates", "[][]byte"}},
	"Group":                        {{"tree", "ratchetTree"}, {"groupContext", "groupContext"}, {"interimTranscriptHash", "[]byte"}, {"pskSecret", "[]byte"}, {"epochSecret", "[]byte"}, {"initSecret", "[]byte"}, {"myLeafIndex", "leafIndex"}, {"privTree", "[]hpkePrivateKey"}, {"signaturePriv", "signaturePrivateKey"}, {"pendingProposals", "[]pendingProposal"}},
	"KeyPackage":                   {{"version", "protocolVersion"}, {"cipherSuite", "CipherSuite"}, {"initKey", "hpkePublicKey"}, {"leafNode", "leafNode"}, {"extensions", "[]extension"}, {"signature", "[]byte"}},
	"KeyPairPackage":               {{"Public", "KeyPackage"}, {"Private", "PrivateKeyPackage"}},
	"PrivateKeyPackage":            {{"InitKey", "[]byte"}, {"EncryptionKey", "[]byte"}, {"SignatureKey", "[]byte"}},
	"Welcome":                      {{"cipherSuite", "CipherSuite"}, {"secrets", "[]encryptedGroupSecrets"}, {"encryptedGroupInfo", "[]byte"}},
	"add":                          {{"keyPackage", "KeyPackage"}},
	"authenticatedContent":         {{"wireFormat", "wireFormat"}, {"content", "framedContent"}, {"auth", "framedContentAuthData"}},
	"authenticatedContentTBM":      {{"contentTBS", "framedContentTBS"}, {"auth", "framedContentAuthData"}},
	"capabilities":                 {{"versions", "[]protocolVersion"}, {"cipherSuites", "[]CipherSuite"}, {"extensions", "[]extensionType"}, {"proposals", "[]proposalType"}, {"credentials", "[]credentialType"}},
	"cipherSuiteDescription":       {{"hash", "crypto.Hash"}, {"hpke", "github.com/cloudflare/circl/hpke.Suite"}, {"sig", "signatureScheme"}},
	"commit":                       {{"proposals", "[]proposalOrRef"}, {"path", "*updatePath"}},
	"confirmedTranscriptHashInput": {{"wireFormat", "wireFormat"}, {"content", "framedContent"}, {"signature", "[]byte"}},
	"ecdsaSignatureScheme":         {{"curve", "crypto/elliptic.Curve"}, {"hash", "crypto.Hash"}},
	"encryptedGroupSecrets":        {{"newMember", "KeyPackageRef"}, {"encryptedGroupSecrets", "hpkeCiphertext"}},
	"extension":                    {{"extensionType", "extensionType"}, {"extensionData", "[]byte"}},
	"externalInit":                 {{"kemOutput", "[]byte"}},
	"framedContent":                {{"groupID", "GroupID"}, {"epoch", "uint64"}, {"sender", "sender"}, {"authenticatedData", "[]byte"}, {"contentType", "contentType"}, {"applicationData", "[]byte"}, {"proposal", "*proposal"}, {"commit", "*commit"}},
	"framedContentAuthData":        {{"signature", "[]byte"}, {"confirmationTag", "[]byte"}},
	"framedContentTBS":             {{"version", "protocolVersion"}, {"wireFormat", "wireFormat"}, {"content", "framedContent"}, {"context", "*groupContext"}},
	"groupContext":                 {{"version", "protocolVersion"}, {"cipherSuite", "CipherSuite"}, {"groupID", "GroupID"}, {"epoch", "uint64"}, {"treeHash", "[]byte"}, {"confirmedTranscriptHash", "[]byte"}, {"extensions", "[]extension"}},
	"groupContextExtensions":       {{"extensions", "[]extension"}},
	"groupFromSecretsOptions":      {{"rawTree", "[]byte"}, {"psks", "[][]byte"}, {"now", "func() time.Time"}},
	"groupInfo":                    {{"groupContext", "groupContext"}, {"extensions", "[]extension"}, {"confirmationTag", "[]byte"}, {"signer", "leafIndex"}, {"signature", "[]byte"}},
	"groupInfoTBS":                 {{"groupContext", "groupContext"}, {"extensions", "[]extension"}, {"confirmationTag", "[]byte"}, {"signer", "leafIndex"}, {"signature", "[]byte"}},
	"groupSecrets":                 {{"joinerSecret", "[]byte"}, {"pathSecret", "[]byte"}, {"psks", "[]preSharedKeyID"}},
	"hpkeCiphertext":               {{"kemOutput", "[]byte"}, {"ciphertext", "[]byte"}},
	"leafNode":                     {{"encryptionKey", "hpkePublicKey"}, {"signatureKey", "signaturePublicKey"}, {"credential", "Credential"}, {"capabilities", "capabilities"}, {"leafNodeSource", "leafNodeSource"}, {"lifetime", "*lifetime"}, {"parentHash", "[]byte"}, {"extensions", "[]extension"}, {"signature", "[]byte"}},
	"leafNodeTBS":                  {{"leafNode", "*leafNode"}, {"groupID", "GroupID"}, {"leafIndex", "leafIndex"}},
	"leafNodeVerifyOptions":        {{"cipherSuite", "CipherSuite"}, {"groupID", "GroupID"}, {"leafIndex", "leafIndex"}, {"supportedCreds", "map[credentialType]struct{}"}, {"signatureKeys", "map[string]struct{}"}, {"encryptionKeys", "map[string]struct{}"}, {"now", "func() time.Time"}},
	"lifetime":                     {{"notBefore", "uint64"}, {"notAfter", "uint64"}},
	"mlsMessage":                   {{"version", "protocolVersion"}, {"wireFormat", "wireFormat"}, {"publicMessage", "*publicMessage"}, {"privateMessage", "*privateMessage"}, {"welcome", "*Welcome"}, {"groupInfo", "*groupInfo"}, {"keyPackage", "*KeyPackage"}},
	"node":                         {{"nodeType", "nodeType"}, {"leafNode", "*leafNode"}, {"parentNode", "*parentNode"}},
	"parentNode":                   {{"encryptionKey", "hpkePublicKey"}, {"parentHash", "[]byte"}, {"unmergedLeaves", "[]leafIndex"}},
	"pendingProposal":              {{"ref", "proposalRef"}, {"proposal", "*proposal"}, {"sender", "leafIndex"}},
	"preSharedKey":                 {{"psk", "preSharedKeyID"}},
	"preSharedKeyID":               {{"pskType", "pskType"}, {"pskID", "[]byte"}, {"usage", "resumptionPSKUsage"}, {"pskGroupID", "GroupID"}, {"pskEpoch", "uint64"}, {"pskNonce", "[]byte"}},
	"privateContentAAD":            {{"groupID", "GroupID"}, {"epoch", "uint64"}, {"contentType", "contentType"}, {"authenticatedData", "[]byte"}},
	"privateMessage":               {{"groupID", "GroupID"}, {"epoch", "uint64"}, {"contentType", "contentType"}, {"authenticatedData", "[]byte"}, {"encryptedSenderData", "[]byte"}, {"ciphertext", "[]byte"}},
	"privateMessageContent":        {{"applicationData", "[]byte"}, {"proposal", "*proposal"}, {"commit", "*commit"}, {"auth", "framedContentAuthData"}},
	"proposal":                     {{"proposalType", "proposalType"}, {"add", "*add"}, {"update", "*update"}, {"remove", "*remove"}, {"preSharedKey", "*preSharedKey"}, {"reInit", "*reInit"}, {"externalInit", "*externalInit"}, {"groupContextExtensions", "*groupContextExtensions"}},
	"proposalOrRef":                {{"typ", "proposalOrRefType"}, {"proposal", "*proposal"}, {"reference", "proposalRef"}},
	"pskLabel":                     {{"id", "preSharedKeyID"}, {"index", "uint16"}, {"count", "uint16"}},
	"publicMessage":                {{"content", "framedContent"}, {"auth", "framedContentAuthData"}, {"membershipTag", "[]byte"}},
	"ratchetSecret":                {{"secret", "[]byte"}, {"generation", "uint32"}},
	"reInit":                       {{"groupID", "GroupID"}, {"version", "protocolVersion"}, {"cipherSuite", "CipherSuite"}, {"extensions", "[]extension"}},
	"remove":                       {{"removed", "leafIndex"}},
	"sender":                       {{"senderType", "senderType"}, {"leafIndex", "leafIndex"}, {"senderIndex", "uint32"}},
	"senderData":                   {{"leafIndex", "leafIndex"}, {"generation", "uint32"}, {"reuseGuard", "[4]byte"}},
	"senderDataAAD":                {{"groupID", "GroupID"}, {"epoch", "uint64"}, {"contentType", "contentType"}},
	"update":                       {{"leafNode", "leafNode"}},
	"updatePath":                   {{"leafNode", "leafNode"}, {"nodes", "[]updatePathNode"}},
	"updatePathNode":               {{"encryptionKey", "hpkePublicKey"}, {"encryptedPathSecret", "[]hpkeCiphertext"}},
}
