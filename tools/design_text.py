"""The hand-written part of DESIGN.md; gen_design.py adds the bounds of every harness from table.py."""
HEAD = r"""# How the properties of merkle_bit are decided

The properties are in `properties.jsonl`. All of them are decided by one technique: **bounded symbolic
execution of the compiled real code with an SMT solver deciding every branch and every assertion**. None is
listed as not applicable.

## The machinery

```
/repo (working tree) + harness crate ──rustc --emit=llvm-ir, fat LTO──► one LLVM module  ──► semir (Z3) ──► verdicts
                                      └─cargo build (profile "replay")─► native replay binary ◄── counterexamples, sampled paths
```

* **Harness crates** (`harness/hx`, `harness/hh` for the hash functions, `harness/ha` for the array type) have a
  path dependency on `/repo`, call its public API only, and use the tree through its wrapper `HashTree` (`MerkleBIT` itself
  over databases and value types of the harness), express the properties as assertions over inputs
  obtained with `byte()` (one unconstrained byte), `choose(n)` (a forked choice), `assume`. No hook in `/repo`
  is needed.
* **`engine/` (semir)** is our own symbolic executor for the textual LLVM IR that rustc emits (the packaged
  engine for Rust, Kani, does not get through heap-backed maps and recursive tree code of this size within
  usable bounds; see "Alternatives"). It executes the harness, the crate, its dependencies (serde formats, hash
  functions) and the monomorphised parts of core/alloc/std; the few external functions (allocator,
  memcpy/memcmp, panic entry points, thread-local keys) are modelled in the engine. Memory is byte-precise with
  per-object bounds and liveness checks; a wild access, use after free, double free, an unreachable reached,
  a panic, an abort, stack exhaustion (8 MiB), an allocation above the bound or exceeding the instruction
  bound (non-termination) is reported as a violation of the harness being run, as is a false assertion.
* **Exhaustiveness.** One run executes one path under a model of the symbolic bytes; at every branch whose
  condition is symbolic Z3 is asked whether the other side is feasible under the path condition, and if so that
  path is queued. At every assertion Z3 is asked for any input on this path that makes it false. When the queue
  is empty, the assertion holds for *every* value of the symbolic bytes within the harness's bounds
  (`complete=true` in the evidence). Nothing is sampled. If a time budget ends first, the evidence says
  `exhaustive: false` and the check prints a note; quick entries are all sized to finish (they do, in the
  evidence of the unchanged tree).
* **Regenerated every run.** `tools/check.py` hashes `/repo`'s sources and the harnesses, and recompiles IR and
  native binary whenever they differ from what was built last; the fingerprints of the crate under test are
  deleted first so that cargo cannot take a stale object.
* **Replay.** Every counterexample is run through the native binary before it is reported; only one that fails
  there gives `VIOLATION`. One that does not is an error of the machinery (exit 2). Independently, 24 (thorough:
  80) explored paths per harness are re-run natively and their observations (roots, bytes) compared with what
  the engine computed: `traces_validated_against_impl`.
* **Vacuity.** Harnesses state `covers` (e.g. "removal", "accepted", "died"); a complete harness that never
  reached one of its covers is an error.
* **Second opinion.** In the thorough tier every 997th query is dumped and decided again by cvc5 and the newer
  z3; a disagreement is an error.

### What is replaced, and why that is sound for the properties

* **Hash function of the tree** (all tree-level properties): the crate is compiled with its `seahash` feature
  against a stand-in `seahash` (`harness/stubs/seahash`, `harness/phash`) that hands out a new location for
  every new byte string — an ideal collision-free hash, which is what C06/C08 assume and what makes locations
  concrete. Two byte strings have one location iff the solver proves them equal on that path; equality forks.
  The tree still calls its real `Hasher` implementation. The real hash functions are C19's subject.
* **`HashMap` hashing**: std's SipHash keys are fixed and hashing of symbolic keys is replaced by a constant in
  the engine (equality alone decides), so map iteration order is one order; nothing in the crate's public
  behaviour may depend on it. For the feature `hashbrown` the real hashbrown maps run over a stand-in `ahash` that
  hashes every key alike.
* **RocksDB** (C18): a stand-in with the same interface (`harness/stubs/rocksdb`): rows in memory that outlive
  the handle, batches applied as a whole, `die_after(n)` (writes beyond the n-th are lost), `fail_after(n)`. A
  process that dies does not close its database: what was written without the log and not flushed, and what
  a handle's destructor would still have done, is lost. The stand-in offers the calls around writing, deleting,
  iterating and flushing that a changed backend might use, not the whole of RocksDB's interface.
  The crate's `rocks_tree.rs` and `tree_db/rocksdb.rs` are the real ones.
* **OpenSSL** (C19, feature `sha2`): the C library's SHA-256 by the `sha2` crate's. The crate's use of it is real.
* Allocation never fails (a request above the bound is a violation for C16, where it matters).

### Engine options per harness

`ite=`/`fw=` keep small symbolic-address loads and narrow switches as expressions instead of forking; `tab=1`
rewrites functions of one input byte to a normal form (text formats); `arx=1` keeps words whole and normalises
sums and xors, `sel=1` keeps look-ups in constant tables as one operation (hash functions). They change how a
question is put to the solver, not what is asked; look-ups are translated exactly.

### Alternatives considered

Kani/CBMC: heap-backed maps and recursion over nodes are what its guidance names as weak targets; a MIR-level
translator would have to redo trait dispatch and drop glue which LLVM IR already has resolved.

## Per property
"""
PROPS = {
"C01": "Oracle: a map per root kept by the harness. Histories, batches, single inserts as listed; `get` of all pool keys and `get_one` of each at the newest root must give exactly the map, absent keys absent. Keys and values are symbolic in the stated positions, so all orders and all splits at those bits are covered; `choose` covers which keys, on which root, by which call. Tests sample a few key sets.",
"C02": "As C01 but at *every* root ever returned (none removed), after the last operation.",
"C03": "As C02 with removals among the operations: every root not removed still reads and proves exactly its map. `chain` removes two of five roots in any order; `handed` hands the same root out 300 times.",
"C04": "The harness walks the real store (`decompose`) after every history: for every stored node, reference count = number of stored parents pointing at it + times handed out and not removed; no dangling pointer, no unreferenced node; then all roots are removed in two orders and the store must be empty.",
"C05": "Every live root is compared with the root of the same content built at once in a new store.",
"C06": "The converse: two contents are built independently, and if the roots are equal the contents must be. With the collision-free hash this is exactly injectivity of the crate's encoding of nodes into hash inputs (domain separation, lengths), for values of the stated lengths with all bytes free.",
"C07": "For every live root and pool key: stored → `generate_inclusion_proof` succeeds and `verify_inclusion_proof` accepts it with the stored value; absent → error. Unknown roots → error.",
"C08": "An adversary: the proof is a list of up to 6 items whose hash and side bytes are all free, key and value free, against a genuine root; or a genuine proof mutilated. If verification accepts, the tree must hold that value under that key. Locations the adversary can name are arbitrary bytes, including those of other nodes in the store; with an ideal hash an accepted forgery would have to exploit the structure of the check.",
"C09": "(Values of 38 lengths, a value type with its own encoding, and histories.) Two stores run the same history, one with `insert_one`, one with one-element batches; roots and whole stores (nodes, counts) are compared. A batch is compared with its elements inserted one by one by content.",
"C10": "Every permutation of a batch (a `choose` of the permutation) must give the root of the sorted batch; queries are lists of free keys (repeated, absent, any order): the answer's key set and values must be exactly right.",
"C11": "After a history, every kind of bad call with free parameters; it must return an error (or the stated harmless answer), and a deep copy of the store taken before must equal the store after.",
"C12": "Every operation at every root under limits 0..k compared with the number of branches above the leaf computed by walking the store: within → exact answer, beyond → error for all alike. The deepest possible trees and a limit equal to the key bits; a limit of `usize::MAX`.",
"C13": "The crate's tree over a harness-defined `Database` that fails its k-th operation for every k (a forked choice): the call returns an error, every other live root reads as before after healing, and keeps doing so while all the others are removed. One variant holds writes back until `batch_write` and loses them when that fails.",
"C14": "The store's nodes are arbitrary: kind, every pointer (any of the stored locations or a free one), split index, key, counts free. Every operation must return without panic or endless loop, and a value returned must be one that a stored data node holds which a stored leaf of that key names.",
"C15": "encode → decode → equal, for nodes of all kinds in six formats; the symbolic bytes run through the real serializers and parsers of the formats' crates. Where a format's text makes all-free contents too large, one or two bytes of any part are free at a time (listed).",
"C16": "Arbitrary bytes (all free) of bounded length, and valid encodings damaged, truncated, extended or of another key length, are decoded: a node or an error, no panic, no runaway allocation or loop; for bincode every proper prefix and for all formats every wrong key length is refused.",
"C17": "Each building block against a few-line reference over fully free keys at lengths 1..40.",
"C18": "`RocksTree` (real code over the stand-in database) beside `HashTree` for every history, closed and reopened, decomposed and rebuilt in between; `die_after`/`fail_after` put a crash or failure at every write or access of an operation, then reopen, and all roots returned before must read; then more operations. `refused`/`broken` target what a failed insert leaves in the write queue.",
"C19": "Each of 20 hash configurations (and 8 with a serialization feature): the location must equal the digest computed by calling the function's own crate directly, for every input up to the bound, cut in up to 3 pieces, at sizes 1..65. Both sides compile to the same arithmetic over the same bytes, so the solver's (or the normaliser's) equality is meaningful without inverting any hash; a difference in bytes, order, length or size produces different terms.",
"C20": "`Array<N>` against `[u8; N]` operation by operation, all bytes free; and the crate compiled twice into one program (once with bincode, once without any serialization feature, from a renamed copy of `/repo/src` made at build time) running the same histories, roots, reads, proofs and refusals compared.",
"C21": "Every stored tree is walked after every history: two non-empty subtrees, agreement with the branch key before the split, sides by the split bit, increasing splits, exact counts.",
}
TAIL = r"""
## Genuine defects found and repaired

Each was found by a check (or by reading while writing its harness, then confirmed by the check), reproduced
natively, and repaired by a minimal `fix:` commit; all 2437 tests pass with them. They are listed in
`known_findings.json` as `fixed`; nothing is suppressed and there is no open finding.

| property | commit | what failed |
|---|---|---|
| C04 | f2ad6ab | a data node was counted again on every insert of a leaf already stored, so it was never freed |
| C04 | 0b37b31 | inserting an unchanged value on a previous root referenced the leaf twice |
| C03, C04 | 762d101 | a branch inserted again did not keep its children's references: removing one root could delete nodes of another |
| C15 | d7981a1 | `Array`'s decoding did not match its encoding, so encoded nodes could not be decoded |
| C12 | 364a072 | `get_one` and proofs applied a depth limit one different from `get` |
| C12 | 5c3406c | generating a proof allocated by the depth limit; a large limit aborted the process |
| C14 | 3d26b75 | a stored split index beyond the key made operations panic |
| C11 | e6da3d8 | a rejected insert had already stored and referenced leaves |
| C10, C02, C17 | 4f6100d | `get` reported stored keys absent when asked together with keys differing from a branch only in the last partial byte before its split |
| C16 | c5e25fd | a key given as bytes of another length (pickle) was cut off or padded instead of refused |
| C18 | dc6bd34 | what a failed insert had queued for RocksDB was written back after deletions; the same key and value inserted again could not be read |

## Properties that were corrected (false alarms of ours)

* C13 first demanded that a failed call leaves no trace at all. It may leave counts too high (a leak); what is
  promised to users is that live roots keep reading. Reworded to that.
* C12 first demanded that `insert` refuse to *create* trees deeper than the limit; the crate documents the limit
  for traversal only. Reworded to "inserts on a previous root".
* C14: a stored branch whose child is missing reads as absent, which the code does deliberately; counts of corrupt
  nodes near 2^64 overflow in debug builds only and are bounded below 2^62.
* C18: reads of *removed* roots may differ from the in-memory tree after a refused insert (leaked counts); only
  live roots are compared then.
* C19: first said "padded with zeros" for all; Keccak/SHA-3 squeeze further output and BLAKE2 produces a digest of
  that size. Reworded. FxHash's digest depends on how writes are divided by definition.

## Outside the bounds / known limits

* Sizes beyond those listed: more than 5 symbolic keys at once, histories longer than 4 operations (chains: 6),
  symbolic key bits beyond the stated positions in tree-level harnesses (full freedom for 2–3 keys at 1 and 32
  bytes). Large trees (300 keys) are run with fixed keys and free last operations.
* Single faults only (C13), single crashes (C18). No torn writes within one RocksDB batch (RocksDB promises that).
* pickle cannot represent counts above `i64::MAX` (format crate); C15 bounds numbers below 2^63 there. Deeply
  nested input makes `ron` and `serde-pickle` recurse (dependencies); within the C16 lengths this stays shallow.
* No concurrency: the API takes `&mut self`.
* Hash functions: inputs up to 40 bytes all free, up to 272 bytes with 3 free; collision resistance is not at issue.

## Planted bugs

`seeded/<id>/` holds each with a demonstration; every one was confirmed to build, to pass the 2437 tests, and to
fail its demonstration. "caught by" is what `tools/check.py` (quick) reports for the property it was written for.

| bug | property | needs | caught |
|---|---|---|---|
"""
