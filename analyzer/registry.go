package main

const flow = "interprocedural path-sensitive dataflow analysis (SSA provenance terms)"

func init() {
	checks["C01"] = checkDef{run: checkC01,
		technique: flow + ": decoder outcomes",
		rule:      "Every decoder and every function that starts a decoding is run abstractly over all its paths. On each path that reports success: no read and no nested decoding failed on that path, no partly decoded value is kept, every stream the function itself opened is consumed to the end (or shown to be zero padding), and the reads made are all those the RFC 9420 layout defines.",
		note:      "Trusts the models of cryptobyte and the RFC layout table in rfc.go.",
		min:       map[string]int{"obligations": 100, "decoding_functions": 3, "layout_items": 100}}
	checks["C02"] = checkDef{run: checkC02,
		technique: flow + " against a layout table",
		rule:      "The sequence of reads (with the place each value is stored) and of writes (with the place each value comes from) is extracted on every path of every decoder and encoder and matched against a table of the RFC 9420 layouts: order, width, repetition, optional values and variants; decoding may not depend on any other condition.",
		note:      "Trusts the RFC layout table in rfc.go and the models of cryptobyte; length prefixes are decided by C04.",
		min:       map[string]int{"obligations": 60, "layout_items": 250}}
	checks["C03"] = checkDef{run: checkC03,
		technique: flow + ": accepted value sets of discriminants",
		rule:      "For every enumerated field, version and presence byte, the set of values for which some decoder path succeeds is computed from the branch conditions on that path and compared with the set RFC 9420 defines, in both directions.",
		note:      "Values are tried at all constants the code mentions and their neighbours, which is exact for comparisons, switches and constant tables.",
		min:       map[string]int{"obligations": 30, "values_tried": 100}}
}

func init() {
	checks["C07"] = checkDef{run: checkC07,
		technique: flow + ": facts at effect points",
		rule:      "All paths of message processing are followed down to every point where a received unencrypted message can take effect (call of commit processing, any write to group memory, returned plaintext). At each such point the path conditions must include: equal group identifier and epoch, member sender, present leaf, successful verification of the signature over version, wire format, whole content and current context under that leaf's key, and a comparison of the message's tag with the MAC over signed content and authentication data under the membership key; and the data used must be the verified data.",
		note:      "Signature and KDF primitives are opaque here (C18, C11); distinct pointer terms are assumed not to alias.",
		min:       map[string]int{"obligations": 12, "effects": 1, "successful_paths": 1}}
	checks["C08"] = checkDef{run: checkC08,
		technique: flow + ": facts at effect points",
		rule:      "As C07 for encrypted messages: at each effect point the data used must be fields of a content decoded from an AEAD opening of the message's ciphertext whose key, nonce and associated data terms are the RFC 9420 derivations for the leaf, generation and guard in the sender data (itself opened with its RFC keys), padding compared with zero byte by byte, leaf present, and the signature verified over the reconstructed content.",
		note:      "AEAD, KDF and signature primitives are opaque here; the secret tree is decided by C11.",
		min:       map[string]int{"obligations": 20, "effects": 1, "successful_paths": 1}}
}

func init() {
	checks["C05"] = checkDef{run: checkC05,
		technique: flow + ": ownership of written memory",
		rule:      "For every exported function, every decoder and every function treated as a primitive, each memory write reachable on any path (stores, appends into spare capacity, copies, writing library calls) is traced to the memory it belongs to: written memory must have been allocated during the call, be the receiver of a mutating group operation, or be an output of decoding. Every value a decoder stores is followed through its type: no part may be an alias of the input stream.",
		note:      "Which library calls write or alias their arguments comes from the tables in call.go and models.go.",
		min:       map[string]int{"obligations": 150, "functions_examined": 50}}
	checks["C06"] = checkDef{run: checkC06,
		technique: flow + ": ownership of written memory, per outcome",
		rule:      "Every path of every operation on an existing group is followed to its return. The difference between memory reachable from the group before and after must be empty on each path that returns an error and on every path of a read-only operation; the tree operations used on the way are checked to write only the tree they are given and nodes they created.",
		note:      "Distinct pointer terms are assumed not to alias; a tree copy shares node values, whose writes are tracked by owner.",
		min:       map[string]int{"obligations": 40, "operations": 1}}
	checks["C25"] = checkDef{run: checkC25,
		technique: flow + ": ownership of written memory",
		rule:      "No function other than package initialisation writes memory whose owner may be a package-level variable (directly, through slices, maps or pointers obtained from one, or by a library call that writes an argument), and no exported function returns such memory.",
		note:      "Which library calls write their arguments comes from the tables in call.go.",
		min:       map[string]int{"obligations": 300, "roots": 40}}
	checks["C09"] = checkDef{run: checkC09,
		technique: flow + ": facts at effect points",
		rule:      "All paths of commit processing are followed. At every write to group memory and at every successful return the path conditions must establish each required validation: resolution without error, all list rules for every proposal (loops are matched as complete iterations with the facts of each iteration), every added key package verified against this group, every removed leaf present, path present unless shown not required, the confirmation tag compared with the MAC computed by the RFC key schedule of the new epoch, and for a path the leaf source, leaf verification with the right options, path key checks and the merge result. Proposal resolution and path merging are matched against their own rules.",
		note:      "Leaf node and key package verification are decided by C14 and C15, tree operations by C27, primitives by C11 and C18.",
		min:       map[string]int{"obligations": 60, "group_writes": 1, "successful_paths": 1, "merges": 1, "resolutions": 1}}
	checks["C16"] = checkDef{run: checkC16,
		technique: flow + ": facts at effect points",
		rule:      "At every group write and successful return of commit processing, each proposal list rule is established for every position of the list: each loop that contributes is shown to visit all elements and each of its iteration outcomes to establish the rule (or to have been excluded by a flag or error), including set and map idioms for uniqueness; the list examined is the one resolved from the commit, and a missing path is accepted only if the proposals are shown not to require one.",
		note:      "Uniqueness by map is recognised for insert-and-test idioms over one key expression.",
		min:       map[string]int{"obligations": 30, "group_writes": 1, "successful_paths": 1}}
	checks["C10"] = checkDef{run: checkC10,
		technique: flow + ": state at successful returns",
		rule:      "On every successful path of commit processing the final value of every field of the group is compared with the term RFC 9420 prescribes for the new epoch (context, transcript hashes, epoch, init and PSK secret, tree, private keys, empty pending list; own identity unchanged). On every successful path of receiving, a proposal yields exactly one appended entry with the hash of its authenticated content, its content and sender; application data changes nothing; no other operation writes group memory.",
		note:      "Hash, KDF and tree primitives are opaque here (C11, C13, C27).",
		min:       map[string]int{"obligations": 30, "commit_paths": 1, "receiving_paths": 1}}
	checks["C17"] = checkDef{run: checkC17,
		technique: flow + ": provenance of stored keys",
		rule:      "The private key list at every successful return of commit processing, joining and creation is decomposed into its stores: previous keys at their own positions, the own leaf key, and keys derived from path secrets. For each of the latter the path conditions include the comparison of the derived public key with the public key of that very node of the new tree; positions are the meeting point and then each present (filtered) ancestor up to the root, each with the path secret derived from the one below; the first is decrypted with key and ciphertext at the same position of the resolution of the right copath child.",
		note:      "Tree resolution and index arithmetic are decided by C26 and C27.",
		min:       map[string]int{"obligations": 20, "commit_paths": 2, "join_paths": 2}}
}

func init() {
	checks["C14"] = checkDef{run: checkC14,
		technique: flow + ": facts at successful returns",
		rule:      "On every successful path of leaf validation the path conditions must establish: verification of the signature under the leaf's own key and the given suite over bytes that match the RFC 9420 layout of LeafNodeTBS field by field (group and position from the options for update and commit leaves), credential type found in the supported set, lifetime absent, clock disabled or lifetime in order, bounded and containing the clock's time, every extension found in the leaf's capabilities, and both keys absent from the sets in use. The sets themselves are checked to be built from every leaf of the tree.",
		note:      "Signature primitive opaque (C18).",
		min:       map[string]int{"obligations": 15, "leaf_paths": 1, "layout_items": 10}}
}

func init() {
	checks["C15"] = checkDef{run: checkC15,
		technique: flow + ": facts at successful returns and provenance of results",
		rule:      "On every successful path of key package validation the conditions must establish equal version and suite, leaf source, verification under the leaf's key over bytes matching KeyPackageTBS, and different init and encryption keys. The package returned by generation is decomposed, for each of the seven suites: init, encryption and signature keys must be the two halves of three separate key generations of the registered algorithm from the system generator, and both signatures must be made with the generated key over bytes matching the final contents. The reference must be the hash with its label over the complete encoding, and signing and verifying must use the registered algorithm over the labelled content.",
		note:      "Trusts the key generation of the standard library and circl.",
		min:       map[string]int{"obligations": 20, "package_paths": 1, "generated_packages": 1, "reference_paths": 1, "signature_paths": 2}}
}

func init() {
	checks["C12"] = checkDef{run: checkC12,
		technique: flow + ": facts at successful returns",
		rule:      "All paths of joining from a welcome are followed. On every successful path the conditions must establish: secrets decrypted from the entry whose reference equals that of the own key package, with the init key and the encrypted group info as context; group info opened with the welcome key and nonce derived from joiner and PSK secret and completely decoded; its cipher suite equal to the welcome's; its signature verified over all its fields under the key of the present signer leaf of the tree; the confirmation tag equal to the MAC by the RFC key schedule; all tree integrity conditions (as C13) against the signed context; the leaf at the own index equal byte for byte to the own leaf; private keys derived from the path secret compared with the tree's public keys; and at most one reinitialisation or branch PSK.",
		note:      "Tree arithmetic is decided by C26, key derivation primitives by C11.",
		min:       map[string]int{"obligations": 25, "join_paths": 1, "welcome_paths": 1, "psk_paths": 1, "trees_validated": 1}}
	checks["C13"] = checkDef{run: checkC13,
		technique: flow + ": facts at successful returns, quantified over complete loops",
		rule:      "On every successful path of joining the conditions must establish, for the tree of the new group: root hash equal to the signed one, parent hashes verified, a complete loop over all leaves verifying each with the right options and tables of all keys before it, a complete loop over all nodes comparing each parent's key with all leaf keys and the parents' before it, and for every unmerged leaf that it is present, below its parent and listed by all present nodes on the way. Parent hash verification, tree hash and resolution are matched against their definitions for every path: parent hash over key, parent hash and the sibling's original tree hash, compared along the resolution, matching exactly one side; tree hash over all fields of the node and both child hashes.",
		note:      "Tree arithmetic (children, parent, root) is decided by C26. Recursion is handled by assuming the result for the children (induction on the tree).",
		min:       map[string]int{"obligations": 10, "trees_validated": 1, "parent_paths": 3, "tree_hash_paths": 2, "resolution_paths": 2}}
}

func init() {
	checks["C19"] = checkDef{run: checkC19,
		technique: flow + ": provenance of sent ciphertexts",
		rule:      "The bytes returned on every successful path of sending application data and of inviting members are decomposed: header fields are the group's identifier, epoch and the content type; the ciphertext is one AEAD sealing whose key, nonce and associated data terms are the RFC 9420 derivations for the own leaf, the content type and the generation and guard found in the (sealed) sender data, with the guard a whole four-byte buffer drawn from the system generator on this very call with its error checked and XORed byte by byte into the nonce; the signed bytes are those a receiver rebuilds. The same terms are required of every effect of a received encrypted message, so both sides agree.",
		note:      "AEAD, KDF and signature primitives are opaque here; the secret tree is decided by C11. Generations are not required to increase: the property only relies on the guard.",
		min:       map[string]int{"obligations": 40, "messages": 2, "receptions": 2, "guards": 1}}
}

func init() {
	checks["C28"] = checkDef{run: checkC28,
		technique: flow + ": provenance of the welcome",
		rule:      "On every successful path of inviting members the returned welcome is decomposed: its list is filled by a completed loop over the key packages, setting exactly its own element each time to the reference of that package and the HPKE encryption, to that package's init key and with the encrypted group info as context, of the joiner secret; the group info is one AEAD sealing under the welcome key of an epoch whose context, tree (every package's leaf added once to the current tree), transcript (over the very commit returned), init, commit and PSK secrets are those of that commit, with matching tag, signature by the sender over the RFC layout and the tree included; every package is shown to have verified against the group.",
		note:      "Tree addition is decided by C27; HPKE, KDF and AEAD primitives by C11 and C29.",
		min:       map[string]int{"obligations": 20, "invitations": 1, "messages": 1}}
}

func init() {
	checks["C29"] = checkDef{run: checkC29,
		technique: flow + " per cipher suite; facts before use",
		rule:      "With the suite fixed to each registered value in turn, the package's table is folded into the program and every primitive (hash, KEM/KDF/AEAD suite, signing, verifying, key generation, labelled HPKE, labelled KDF, reference hash) must reduce to the registered algorithm. On all paths from exported functions, every call that would fail abruptly for a suite without description must have a suite shown to be in the table, equal to one, or belonging to an existing group; new groups have such a suite. Functions analysed separately are examined under the precondition their callers establish.",
		note:      "The algorithm registry is the table in prim.go, transcribed from RFC 9420 section 17.1. The algorithms themselves are trusted.",
		min:       map[string]int{"obligations": 60, "suite_functions": 7, "uses": 20, "roots_examined": 4}}
}

func init() {
	checks["C21"] = checkDef{run: checkC21,
		technique: flow + "; provenance of generators",
		rule:      "Every call that leaves the package and draws randomness (rand.Read, reads from a reader, key generation, encapsulation, randomised signing) is found; each generator passed resolves to crypto/rand.Reader through variables, parameters and package variables, and math/rand is not used. On every successful path a drawn value is used only when the draw's error is known to be nil, and never as a partially filled buffer. Generated key packages, the initial epoch secret (KDF size), reuse guards (4 bytes) and HPKE setups are those draws, made in the operation itself.",
		note:      "The system generator and the key generation inside crypto/ecdsa, ed25519, ed448 and circl are trusted.",
		min:       map[string]int{"obligations": 30, "random_sites": 4, "draws": 4, "initial_secrets": 1, "messages": 1, "guards": 1}}
}

func init() {
	checks["C20"] = checkDef{run: checkC20,
		technique: "information-flow analysis on the provenance of values (" + flow + ")",
		rule:      "Sources are private keys, key-derivation output, decrypted path and group secrets, drawn random values, fields that hold secrets and the data given to CreateApplicationMessage. Encryption, signing, MACs, public-key computation, lengths and comparisons reveal nothing; everything else passes secrets on. On every path from the exported functions, and through functions analysed separately with the secrecy their callers pass in, no secret reaches a formatted text, an error, a panic value, a package variable, a field not meant for secrets, or a result other than such fields.",
		note:      "Explicit flows only; the trusted primitives are those of crypto and circl.",
		min:       map[string]int{"obligations": 60, "texts": 30, "outputs": 8, "roots_examined": 8}}
}

func init() {
	checks["C22"] = checkDef{run: checkC22,
		technique: "information-flow analysis of comparison operands (" + flow + ")",
		rule:      "The tag verification methods (membership tag, confirmation tag of commits and group infos) succeed only on paths where hmac.Equal or subtle.ConstantTimeCompare found the whole received tag equal to the whole recomputed MAC. On all paths from the exported functions, no other comparison function or operator is applied to MAC output, private keys, derived secrets, decrypted secrets or drawn random values, and constant-time comparisons are never applied to parts of values.",
		note:      "What the MAC covers is decided by C18, when it must be checked by C07, C09 and C12. Timing of the trusted primitives is out of scope.",
		min:       map[string]int{"obligations": 8, "tag_checks": 3, "constant_time": 2, "comparisons": 2}}
}

func init() {
	checks["C11"] = checkDef{run: checkC11,
		technique: flow + "; derivation terms matched against the RFC 9420 key schedule",
		rule:      "Every derivation function reduces, on all successful paths, to the term RFC 9420 prescribes (parent secret, label, context, length): ExpandWithLabel, DeriveSecret, joiner, epoch, welcome, exporter, PSK chain (loop rule), secret tree (induction over the recursion), ratchet steps, keys and nonces, sender data, node key pairs. The secrets of created, joined, committed and announced epochs and of sent and received messages are these terms. Every call of the labelled KDF on any path from an exported function must be a row of the derivation table with its only admissible parent.",
		note:      "KDF, AEAD and KEM are trusted; their selection is decided by C29.",
		min:       map[string]int{"obligations": 60, "derivation_paths": 12, "derivations": 20, "epochs": 3}}
}

func init() {
	checks["C18"] = checkDef{run: checkC18,
		technique: flow + "; signed and verified byte terms matched against RFC 9420 layouts",
		rule:      "The byte term handed to every signing and verifying operation is, on all successful paths, the complete RFC 9420 to-be-signed encoding of the structure with its label, and both sides use the same one; the membership tag covers the whole FramedContentTBS and authentication data, confirmation tags and transcript hashes exactly the prescribed inputs. Every labelled operation reachable anywhere uses a constant label of the table with the structure belonging to it; signature primitives are only used through the labelled operations; encoders of all nested structures write every field.",
		note:      "When a signature or tag has to be verified is decided by C07-C09, C12 and C14.",
		min:       map[string]int{"obligations": 60, "label_uses": 10, "verifications": 4, "signings": 2, "tags": 2, "encoders": 8, "signature_users": 4}}
}

func init() {
	checks["C27"] = checkDef{run: checkC27,
		technique: flow + "; loop summaries of tree mutations matched against the RFC 9420 tree operations",
		rule:      "The final content of the tree, as a term over the initial one, is exactly what RFC 9420 defines: add stores the leaf at the first position whose predecessors are all found present, or after doubling the tree, and the loop over its ancestors appends it to the unmerged leaves of each present one and changes nothing else; update and remove blank every node on the loop up to the root; remove then cuts the tree to the size of the smallest full tree holding the last present leaf; merging a path blanks all ancestors and fills the filtered ones. Commits apply updates, removals and additions in this order, one loop over all proposals each.",
		note:      "parent and sibling are decided by C26, parent hashes and validity of the merged path by C09 and C13.",
		min:       map[string]int{"obligations": 10, "tree_changes": 3, "applied": 2, "merges": 1}}
}

func init() {
	checks["C26"] = checkDef{run: checkC26,
		technique: "bit-precise abstract interpretation of the type-checked SSA form: each bit of each value is a Boolean function of the input bits in algebraic normal form, over a finite partition of all indices and sizes",
		rule:      "The inputs are partitioned by tree depth and level of the nodes (and, for common ancestors, by the level on which the nodes meet); the remaining index bits stay arbitrary. In each part the abstract result, a vector of canonical Boolean functions, must be identical to that of the layout of RFC 9420 appendix C: node j of level l has index j*2^(l+1)+2^l-1, its parent is node j/2 of level l+1, its children nodes 2j and 2j+1 of level l-1, its sibling node j xor 1.",
		note:      "All 2^32-1 nodes and all 32 tree sizes are covered; sizes that are not a power of two do not occur, as trees are extended and cut to full ones (C27).",
		min:       map[string]int{"obligations": 2000, "cases": 2000, "arithmetic_functions": 6}}
}

func init() {
	checks["C04"] = checkDef{run: checkC04,
		technique: "bit-precise abstract interpretation of the prefix codec over a partition of all inputs; " + flow + " for lengths at allocations and conversions",
		rule:      "The decoder is interpreted abstractly for every prefix and every number of available bytes with all other bits arbitrary, dividing a part where the code distinguishes bits: in each case it must succeed exactly if enough bytes are there and a shorter encoding could not hold the value, and then yield exactly these bits and consume exactly these bytes. The encoder is interpreted for every position of the highest bit: the bits appended must be those of the shortest encoding, and from bit 30 on an error must be set. In each decoder a slice whose size derives from received data may only be made where the facts of the path bound it by the length of the remaining input; in each encoder a length narrowed to 32 bits may only reach the prefix encoder where the facts bound it.",
		note:      "Memory used by decoded elements larger than their encoding, which is proportional to the input, is not counted.",
		min:       map[string]int{"obligations": 60, "cases": 60, "decoders": 20, "prefix_writers": 1}}
}

func init() {
	checks["C23"] = checkDef{run: checkC23,
		technique: flow + "; symbolic upper bounds of node positions at every access to a tree, with contracts for tree operations inferred by a fixpoint",
		rule:      "At every indexing of a ratchet tree, secret tree or private key list, on every path from receiving, joining, creating, inviting and sending, the facts of the path must bound the position by the size of that very tree: a comparison with the number of leaves or nodes, a node seen there, or a position derived from one inside by tree arithmetic (parent, child, sibling, common ancestor, resolution). A comparison of a 32-bit multiple of a received number does not count, as the multiple may wrap around. Operations given a position are analysed with and without the assumption that it is inside; those that need it pass the obligation to each caller. What is relied upon is established where it arises: senders of processed and kept contents, unmerged leaves of decoded trees, own leaf and number of private keys of new groups.",
		note:      "Tree arithmetic stays inside the tree by C26; that trees are full and never shrink below a present leaf, and removals are distinct, is decided by C27 and C16.",
		min:       map[string]int{"obligations": 60, "tree_accesses": 60}}
}

func init() {
	checks["C24"] = checkDef{run: checkC24,
		technique: flow + "; typestate of tagged structures: facts about the tag at every use of variant data",
		rule:      "In every exported function and every function analysed separately, on every path, each pointer that is followed or passed to a codec must be known to be present: made there, compared with nil, returned without error, or in a field whose tag is known to have the value the field belongs to (table of all tagged structures of RFC 9420). In trees, the kind of a node also follows from its position, and nodes on a filtered path are present after it was filled. What is relied upon is established where it arises: every successful path of a decoder has filled in the data of the tag it read, decoded trees have nodes of the kind of their position, every node put into a tree fits its position and is complete, and kept proposals are present.",
		note:      "Pointers given by the application (parameters) are assumed to be present. Explicit panics are decided by C30.",
		min:       map[string]int{"obligations": 100, "pointer_uses": 200, "decoded_variants": 8, "node_stores": 3}}

	checks["C30"] = checkDef{run: checkC30,
		technique: flow + "; reachability of failure points under the facts of each path",
		rule:      "In every exported function and every function analysed separately, on every path: explicit panics are reached only in states that contradict what decoders establish about tags (C03), the kinds of nodes at tree positions (C24), tree arithmetic (C26) or lists filled in step; every index of a list that is not a tree is known to be natural and below the length, every slice expression has ordered limits within the length; and library functions that fail abruptly on arguments of the wrong size (ed25519, ed448, ecdsa.VerifyASN1, KEM key derivation, KDF.Expand, AEAD, BytesOrPanic) are called with arguments of the required size or origin.",
		note:      "Tree positions are decided by C23, absent data by C24, unknown cipher suites by C29, memory by C04. Not covered: application errors (an empty list of key packages, data too long to be encoded given to functions without an error result, malformed signature private keys of ECDSA), stack or memory exhaustion.",
		min:       map[string]int{"obligations": 150, "panics": 20, "index_expressions": 40, "library_calls": 30}}
}
