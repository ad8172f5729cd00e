#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a program only to keep the text readable)."""
import json, os
P = []
def p(id, title, statement, over, quant, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=quant), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=None)))
MB = "src/merkle_bit.rs"; TU = "src/utils/tree_utils.rs"

p("C01", "What an insert stores is what every later read at that root returns",
  "After a successful insert, reading any key at the returned root gives exactly the value written for it, or the value the previous root had for it if the insert did not touch it. Keys that neither wrote are reported absent. This holds for every set of distinct keys, every order in which they are passed, and every value including the empty one.",
  ["inputs", "histories"], "all key sets, values, argument orders and previous roots",
  "The tests use a few hand-picked and random key sets; wrong splits show only for particular combinations of bit positions at which keys diverge from each other and from existing branches.",
  [MB, TU, "src/hash_tree.rs", "src/utils/tree_ref.rs"],
  [("insert / insert_leaves / create_tree / merge_nodes", MB), ("get: cell traversal", MB), ("generate_tree_ref_queue, split_pairs, check_descendants", TU)],
  [("tree nodes", "branch, leaf and data nodes by location", "src/tree/*.rs")], ["HashTree::insert, get, get_one"])
p("C02", "Inserting never changes what any existing root returns",
  "Every root stays a complete, unchanged snapshot until it is removed: whatever is inserted afterwards, on top of it, beside it or from nothing, all keys read at it give the same answers as before. A new root built on a previous one differs from it exactly in the inserted keys.",
  ["histories", "inputs"], "all histories of inserts over all keys and values, all live roots",
  "The tests look at one or two earlier roots in a few fixed histories; sharing between versions goes wrong only for specific overlaps of key sets.",
  [MB, TU], [("traverse_tree and split_nodes share subtrees of the previous root", MB), ("locations are content hashes", MB)],
  [("previous_root", "the snapshot an insert starts from", MB)], ["HashTree::get, get_one at older roots"])
p("C03", "Removing a root never affects any other root",
  "After remove(root), every other root that was returned by an insert and not yet removed still returns exactly what it did before, for every key, both for reads and for proofs. This includes roots that share some or all of their content with the removed one, and a root that was returned more than once and removed fewer times.",
  ["histories", "inputs"], "all histories of inserts and removals in any order",
  "The tests remove in a handful of histories; a reference count that is one too low is only fatal for particular sharing patterns followed by particular removals.",
  [MB], [("remove: reference counting", MB), ("reference counts taken in insert_leaves, traverse_tree, split_nodes, merge_nodes", MB)],
  [("references", "number of owners of a stored node", "src/tree/tree_node.rs")], ["HashTree::get after remove"])
p("C04", "Removing all roots leaves the store empty; counts are always exact",
  "Each successful insert hands out one reference to its root, and remove gives it back; at every moment the stored reference count of every node equals the number of stored parents and handed-out roots that point to it, no pointer dangles, and no unreferenced node is stored. In particular, once every root has been removed as often as it was returned, the store is empty.",
  ["histories", "inputs"], "all histories of successful inserts and removals",
  "Not tested at all for leaks: no test looks at reference counts, and few look at the store after removals.",
  [MB, "src/tree/tree_node.rs"], [("reference counting in insert_leaves, traverse_tree, split_nodes, merge_nodes and remove", MB)],
  [("references", "number of owners of a stored node", "src/tree/tree_node.rs")], ["nodes in the database obtained with decompose()"])
p("C05", "The root depends only on the content, not on how it was built",
  "Two trees that hold the same keys with the same values have the same root hash, however the content got there: in one batch or many, one key at a time, in any order of keys and operations, through overwritten intermediate values, and with or without other roots in the same store.",
  ["histories", "inputs"], "all pairs of histories leading to the same content",
  "The tests compare roots for a few fixed permutations; a history-dependent shape needs particular divergence bits.",
  [MB, TU], [("create_tree rebuilds from sorted references", MB), ("generate_tree_ref_queue", TU), ("traverse_tree decomposes the path to every inserted key", MB)],
  [("root hash", "returned by insert", MB)], ["return value of insert and insert_one"])
p("C06", "Different content has a different root",
  "If two trees differ in any key or any value, their root hashes differ, provided the hash function in use does not collide. No two distinct nodes of any kind are ever stored under the same location for that reason.",
  ["inputs", "histories"], "all pairs of contents, values of every length including those that imitate node encodings",
  "The tests compare a few roots; ambiguous encodings of node contents show only for crafted keys and values.",
  [MB], [("domain-separated hashing of data, leaf and branch nodes", MB)],
  [("root hash", "returned by insert", MB)], ["return value of insert"])
p("C07", "Every stored key can be proven, absent keys cannot",
  "For every key stored under a root, the generated inclusion proof is accepted for that root, key and stored value. For every key that is not stored under the root, and for an unknown root, generating a proof reports an error.",
  ["inputs", "histories"], "all contents, histories, live roots, stored and absent keys",
  "The tests prove a few keys of a few trees; the side (zero or one) and order of siblings depend on the bits of every level.",
  [MB], [("generate_inclusion_proof / verify_inclusion_proof", MB), ("choose_zero", TU)],
  [("proof", "list of sibling hashes with side flags, leaf to root", MB)], ["generate_inclusion_proof, verify_inclusion_proof"])
p("C08", "No proof is accepted for a pair the root does not contain",
  "Verification accepts a root, key, value and proof only if the tree with that root stores that value under that key, provided the hash function does not collide. This holds for every proof an adversary may write: any length, any hashes, any side flags, including mutilated genuine proofs and proofs for other keys, values or roots.",
  ["inputs"], "all adversarial proofs, keys and values against all genuine roots",
  "A test can only try a few forgeries; soundness is a statement about all byte strings offered as a proof.",
  [MB], [("verify_inclusion_proof", MB)], [("proof", "list of sibling hashes with side flags", MB)], ["verify_inclusion_proof"])
p("C09", "Single-key operations agree with their batch forms",
  "get_one gives the same answer as get for that key, and insert_one gives the same root and leaves the same stored nodes, with the same counts, as insert with a one-element batch, at every root and in every history. insert with a batch stores the same content as inserting its elements one after the other.",
  ["inputs", "histories"], "all keys, roots and histories",
  "The single and batch forms are separate code; the tests exercise each on its own examples.",
  [MB], [("get vs get_one", MB), ("insert vs insert_one", MB)], [], ["get, get_one, insert, insert_one"])
p("C10", "Batches may be passed in any order and queried with any mix of keys",
  "The result of an insert does not depend on the order of the key/value pairs, and every value stays paired with its own key. get answers for exactly the distinct keys asked for, whatever their order, repetition, number, and mixture of stored and absent keys, and asking for no keys gives an empty answer.",
  ["inputs"], "all argument orders, repetitions and mixtures",
  "The tests mostly pass sorted keys and ask for what is stored.",
  [MB, TU], [("sorting and value_map in insert", MB), ("generate_leaf_map and sorting in get", MB), ("check_descendants, split_pairs", TU)], [], ["insert, get"])
p("C11", "A call with bad arguments is rejected and changes nothing",
  "An insert whose keys and values differ in number, are empty, contain a key twice, or that builds on a root that is not stored, returns an error; so does a proof for an unknown root, while reading an unknown root reports every key absent and removing one does nothing. After any such call the stored nodes and their reference counts are exactly what they were.",
  ["inputs", "histories"], "all bad calls at all points of all histories",
  "The tests check that some bad calls return an error, not what is left in the store afterwards.",
  [MB, TU], [("argument checks in insert", MB), ("generate_tree_ref_queue reports duplicate keys", TU)], [], ["insert, insert_one, get, remove, generate_inclusion_proof; nodes in the database"])
p("C12", "The depth limit is applied alike by every operation and never falsifies",
  "get, get_one, proofs and inserts on a previous root apply the same limit: a leaf is reachable for all of them exactly if the number of branches above it does not exceed the configured depth, and otherwise the operation returns an error. No operation answers with a wrong or missing value, or panics, because of the limit, and a limit of at least the number of key bits never makes an operation fail.",
  ["configurations", "inputs"], "all depth limits, contents and keys",
  "The tests use a large limit throughout; off-by-one differences between the operations show only at the exact limit.",
  [MB], [("depth counters in get, traverse_tree, get_one, generate_inclusion_proof", MB)], [("depth", "maximum permitted depth", MB)], ["get, get_one, insert, generate_inclusion_proof"])
p("C13", "A failing storage operation surfaces as an error and damages no root",
  "If any single operation of the storage backend fails during a call, the call returns an error rather than a value, a root or a panic. Every other root that was live before the call still reads exactly as before once the storage works again, and keeps doing so while the remaining roots are removed.",
  ["fault_sequences", "histories"], "every storage operation of every call in every history failing",
  "No test injects a storage fault.",
  [MB, "src/traits.rs"], [("error propagation with ?", MB), ("order of reference count updates and node writes", MB)], [("Database", "pluggable storage", "src/traits.rs")], ["all operations over a Database that fails"])
p("C14", "A corrupt store yields errors or absence, never a panic, hang or forged value",
  "Whatever nodes the storage returns, every operation terminates without panicking. A read never returns a value other than one that the stored nodes hold for the requested key's leaf, and structural impossibilities such as a data node in place of a branch, or a split index beyond the key, are reported as errors.",
  ["inputs", "fault_sequences"], "all stored node contents (kinds, pointers, split indices, keys)",
  "The tests never corrupt a stored node.",
  [MB, TU], [("Corrupt merkle tree checks", MB), ("bounds checks in choose_zero and check_descendants", TU)], [], ["get, get_one, insert, remove, generate_inclusion_proof over arbitrary nodes"])
p("C15", "Every node survives encoding and decoding unchanged in every format",
  "With each of the serialization formats (bincode, json, cbor, yaml, pickle, ron), decoding what was encoded gives back an equal node: same kind, references, count, split index, keys, locations and value, for every content, key length and value length. Distinct nodes have distinct encodings.",
  ["inputs", "configurations"], "all node contents in all formats",
  "The round trip is not tested at all for most formats; number formatting and byte escapes depend on the values.",
  ["src/tree/tree_branch.rs", "src/tree/tree_leaf.rs", "src/tree/tree_data.rs", "src/tree/tree_node.rs", "src/lib.rs"],
  [("Encode and Decode implementations", "src/tree/*.rs"), ("Serialize and Deserialize of Array", "src/lib.rs")], [], ["encode, decode"])
p("C16", "Decoding arbitrary bytes never panics and never invents a node",
  "For every byte string, decoding it as a node, branch, leaf or data node returns either an error or a node, without panicking, looping or excessive allocation. A proper prefix of a bincode-encoded node is rejected, and so is an encoded key or location of the wrong length.",
  ["inputs"], "all byte strings up to the stated length",
  "Tests decode only what they encoded.",
  ["src/tree/tree_branch.rs", "src/tree/tree_leaf.rs", "src/tree/tree_data.rs", "src/tree/tree_node.rs", "src/lib.rs"],
  [("Decode implementations", "src/tree/*.rs"), ("ArrayVisitor", "src/lib.rs")], [], ["decode"])
p("C17", "The bit-level building blocks are correct for every key and position",
  "For every key length and all keys: the bit chosen at a position is that bit of the key, most significant first, and a position beyond the key is an error; a sorted list is partitioned into exactly the keys with that bit clear and set; the first differing bit of the extremes of a key list is found; the logarithm of every non-zero byte is exact; the first differing bit of every two neighbours of a sorted key list is listed, and equal neighbours are an error. The keys found below a branch are exactly those that agree with it on every bit before its split index, they are a contiguous run of the sorted keys, and the reported split is the first bit at which any key differs from the branch.",
  ["inputs"], "all keys, key lengths up to 32 bytes, bit positions and key lists within the bounds",
  "Tests evaluate a few positions of a few keys; the space is all bit patterns at all lengths.",
  [TU, "src/constants.rs"], [("choose_zero, split_pairs, check_descendants, calc_min_split_index, fast_log_2, generate_tree_ref_queue, generate_leaf_map", TU)], [], ["the public functions of utils::tree_utils"])
p("C18", "The RocksDB-backed tree behaves like the in-memory tree, also across crashes",
  "For every history the tree on RocksDB returns the same roots, values, proofs and errors as the in-memory tree, also after closing and reopening it between operations. If the process dies at any point of an operation, after reopening every root that had been returned and not passed to remove still reads completely and correctly.",
  ["histories", "crash_points", "configurations"], "all histories, all points at which the process dies between two writes to the database",
  "The tests run the same examples on RocksDB in one process and never crash or reopen mid-operation.",
  ["src/tree_db/rocksdb.rs", "src/rocks_tree.rs", MB], [("pending write batch, batch_write", "src/tree_db/rocksdb.rs"), ("order of writes", MB)], [("pending_inserts", "queued writes", "src/tree_db/rocksdb.rs")], ["RocksTree operations over a model of the RocksDB interface"])
p("C19", "Every hasher hashes exactly the bytes it was given, at every location size",
  "For every supported hash function and every location size, the location is the function's digest of the bytes passed in: cut off to that size, or followed by zeros where the digest is shorter (functions of variable output give an output of that very size; blake2-rfc knows 1 to 64 bytes). It does not depend on how the bytes were divided among calls, except for fxhash, whose digest is defined by them. Hashing never panics for sizes the function supports, and repeating it gives the same result.",
  ["inputs", "configurations"], "all inputs within the bounds, all chunkings, all location sizes up to 64 bytes",
  "The tests hash through the tree with 32-byte locations only, and never look at the digest.",
  ["src/tree_hasher/*.rs", "src/traits.rs"], [("Hasher implementations", "src/tree_hasher"), ("blanket implementation for Digest", "src/traits.rs")], [], ["Hasher::new, update, finalize"])
p("C20", "The fixed-size array type behaves like the byte array it wraps",
  "With serialization enabled, keys and locations compare, order, hash, index, slice, iterate and convert exactly like the plain byte arrays they stand for, so the same operations give the same roots, values and proofs whether or not a serialization feature is enabled.",
  ["inputs", "configurations"], "all array contents and index ranges within the bounds",
  "The tests use whichever array type the features select, and never compare the two.",
  ["src/lib.rs"], [("Array and its trait implementations", "src/lib.rs")], [], ["Array; HashTree with and without a serialization feature"])
p("C21", "Every stored tree is a well-formed compressed binary trie",
  "Under every root, each branch has exactly two subtrees, both non-empty; all keys below it agree with its stored key on every bit before its split index, those on the zero side have that bit clear and those on the one side have it set; split indices strictly increase downwards; its count is the number of leaves below it. A root with n keys therefore has exactly n - 1 branches and no path longer than the number of key bits.",
  ["histories", "inputs"], "all histories and all live roots",
  "No test inspects the stored nodes; a wrong count or stored key stays invisible until a later insert relies on it.",
  [MB, TU, "src/tree/tree_branch.rs"], [("merge_nodes", MB), ("split_nodes and traverse_tree carry keys and counts over", MB)], [("count, split_index, key", "fields of a branch node", "src/tree/tree_branch.rs")], ["nodes in the database obtained with decompose()"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
open(out, "w").write("".join(json.dumps(x) + "\n" for x in P))
