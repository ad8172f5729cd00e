"""Which harnesses decide which property, within which bounds."""
from dataclasses import dataclass, field, replace
import json, os
from vlib import HASHES, HASHES_SERDE


@dataclass
class E:
    name: str
    bounds: str
    covers: list = field(default_factory=list)
    tier: str = "quick"
    cfg: str = "seahash"
    opts: str = ""
    time: float = 120
    time_thorough: float = 900


TITLES = {}
_p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
for _l in open(_p):
    _d = json.loads(_l)
    TITLES[_d["id"]] = _d["title"]

PREV, ONE, DEL = "insert on a previous root", "insert_one", "removal"
ANY = "ite=128,fw=256"
BIG = "instrs=3000000000"
TEXT = "ite=256,fw=256,tab=1"
WORDS = "arx=1,sel=1,ite=16500,fw=256"
FORMATS = ("bincode", "json", "cbor", "yaml", "pickle", "ron")


def hashbrown(l, *names):
    """the same with the feature hashbrown: the maps and the in-memory database of that crate"""
    return [replace(e, cfg="hashbrown", bounds="hashbrown: " + e.bounds) for e in l if e.name in names]


def family(c, covers, many=True, extra=""):
    chain = "; then 2 of the roots removed in any order" if DEL in covers and c != "c09" else ""
    """the history harnesses every tree-level property is decided on"""
    l = [
        E(c + "_hist", "every history of up to 3 operations over 2 keys of 2 bytes free in bits 0,7,8,15; values one free byte each" + extra, covers),
        E(c + "_hist_t", "every history of up to 4 operations over 2 keys of 2 bytes free in bits 0,15" + extra, covers, "thorough"),
        E(c + "_pool3", "every history of up to 2 operations over 3 keys of 1 byte free in bits 0,3,4,7; batches of every subset" + extra, covers),
        E(c + "_pool3_t", "every history of up to 3 operations over 3 keys of 1 byte free in bits 0,4,7" + extra, covers, "thorough"),
        E(c + "_full32", "every history of up to 2 operations over 2 keys of 32 bytes, every bit free" + extra, covers),
        E(c + "_full1", "every history of up to 2 operations over 3 keys of 1 byte, every bit free" + extra, covers),
        E(c + "_far", "every history of up to 2 operations over 2 keys of 32 bytes free in bits 0,1,127,128,200,255" + extra, covers),
        E(c + "_wide", "every history of up to 2 operations over 2 keys of 40 bytes free in bits 0,63,255,256,319 (split indices above 255)" + extra, covers),
        E(c + "_batch", "one batch of 4 keys of 1 byte free in bits 0,3,4,7 (every tree shape)" + extra),
        E(c + "_batch5_t", "one batch of 5 keys of 1 byte free in bits 0,1,3,4,7" + extra, [], "thorough"),
        E(c + "_batch2", "a batch of 2 keys, then a batch of 2 others, 1 byte free in bits 0,3,4,7, every interleaving" + extra),
        E(c + "_span", "a batch of 2 keys, then a batch of 2 others, 2 bytes free in bits 5,8,9,15 (splits just across a byte boundary)" + extra),
        E(c + "_span_t", "a batch of 2 keys, then a batch of 3 others, 2 bytes free in bits 3,5,8,9,15" + extra, [], "thorough"),
        E(c + "_over", "any 3 of 4 keys, then any 2 of them, 2 bytes free in bits 0,5,8,9" + extra),
        E(c + "_over_t", "any 3 of 4 keys, then any 3 of them, 2 bytes free in bits 0,5,7,8,9,15" + extra, [], "thorough"),
        E(c + "_batch3_t", "a batch of 3 keys, then a batch of 2 others, 1 byte free in bits 0,3,4,7" + extra, [], "thorough"),
        E(c + "_chain", "a batch of 3 keys, then 2 others one at a time on any root so far; 1-byte keys free in bits 0,1,2" + chain + extra),
        E(c + "_chain3_t", "a batch of 2 keys, then 3 others one at a time on any root so far; 1-byte keys free in bits 0,1,2" + chain + extra, [], "thorough"),
        E(c + "_values", "3 inserts with values of 0..70001 bytes (38 lengths), first two, middle and last two bytes free" + extra),
        E(c + "_large", "two batches of 8 fixed clustered 32-byte keys, then 2 operations with a key free in one of 3 bytes" + extra, ["existing key", "new key"], opts=BIG),
    ]
    l += hashbrown(l, c + "_hist", c + "_batch2", c + "_pool3")
    if many:
        l.append(E(c + "_many", "one batch of 300 fixed keys (80 for proofs), then 2 single inserts of free values" + extra, [], opts=BIG))
    return l


def formats_back():
    """every node comes back unchanged"""
    l = []
    for f in FORMATS:
        def e(name, bounds, tier="quick"):
            l.append(E("c15_" + name, f + ": " + bounds, [], tier, cfg=f, opts=TEXT))
        e("parts2", "nodes, branches, leaves and data with 2-byte keys, any one byte of any part free")
        e("parts32", "the same with 32-byte keys")
        if f != "json":
            e("parts2x2", "the same with 2-byte keys, any two bytes of any one part free")
        e("numbers", "branch counts, split indices and reference counts around every power of 2, 10 and 256, one byte free")
        e("value", "values of 10 lengths up to 257, one byte free")
        e("value2", "values of 2 and 3 free bytes")
        if f in ("bincode", "cbor", "pickle"):
            e("free1", "every part of a node of 1-byte keys free at once, values of up to 3 bytes")
            e("free2", "every part of a node of 2-byte keys free at once, values of up to 2 bytes")
            e("free32", "every part of a node of 32-byte keys free at once, values of up to 33 bytes", "thorough" if f == "cbor" else "quick")
        if f in ("bincode", "pickle"):
            e("distinct2", "any two nodes of 2-byte keys, every part free")
            e("distinct32", "any two nodes of 32-byte keys, every part free")
    return l


def formats_any():
    """whatever is decoded, the outcome is a node or an error"""
    l = []
    for f in FORMATS:
        def e(name, bounds, covers=(), tier="quick"):
            l.append(E("c16_" + name, f + ": " + bounds, list(covers), tier, cfg=f, opts=TEXT))
        if f == "bincode":
            e("any1_40", "every string of up to 40 bytes, 1-byte keys", ["a node", "an error"])
            e("any2_60", "every string of up to 60 bytes, 2-byte keys", ["a node", "an error"])
            e("prefix1", "every proper prefix of every encoded node of 1-byte keys, values of up to 3 bytes")
            e("prefix32", "every proper prefix of every encoded node of 32-byte keys, values of up to 33 bytes")
        else:
            e("any1_2", "every string of up to 2 bytes", ["an error"])
            e("any1_3", "every string of up to 3 bytes", ["an error"], "thorough" if f in ("cbor", "yaml") else "quick")
            e("any1_4_t", "every string of 4 bytes", ["an error"], "thorough")
        for part in ("leaf", "branch", "data"):
            e("damaged_" + part, f"an encoded {part} node with any one byte changed to anything", ["a node", "an error"])
            e("cut_" + part, f"an encoded {part} node cut off anywhere and followed by any one byte", ["an error"])
            if part != "branch":
                e("damaged2_" + part, f"an encoded {part} node with any two adjacent bytes changed to anything", ["an error"], "quick" if f in ("bincode", "ron") else "thorough")
        for k in ("1_2", "2_1", "0_1", "33_32", "31_32"):
            e("length" + k, "branches, leaves and nodes with keys of {} bytes decoded with keys of {} bytes".format(*k.split("_")))
        if f in ("cbor", "pickle"):
            e("bytes2", "keys and locations given as byte strings of 0..3 free bytes where 2 are expected", ["a leaf", "an error"])
            e("bytes8", "keys and locations given as byte strings of 0..9 free bytes where 8 are expected", ["a leaf", "an error"])
    return l


def hashes():
    l = []
    def e(h, name, bounds, tier="quick"):
        l.append(E("c19_" + name, h + ": " + bounds, [], tier, cfg="h_" + h, opts=WORDS))
    for h in ("plain", "serde") + HASHES:
        for n, m in ((1, 4), (8, 18), (32, 9), (33, 9), (64, 9)):
            if h in ("md2", "groestl") and m > 9:
                e(h, f"{n}", f"every input of up to {m} bytes handed over in up to 3 pieces, locations of {n} bytes", "thorough")
            else:
                e(h, f"{n}", f"every input of up to {m} bytes handed over in up to 3 pieces, locations of {n} bytes")
        for n, m in ((4, 9), (9, 9), (20, 9), (40, 4), (65, 9)):
            e(h, f"{n}", f"every input of up to {m} bytes handed over in up to 3 pieces, locations of {n} bytes", "thorough")
        e(h, "long32", "inputs of 24 lengths up to 272 around the block sizes, 3 bytes free, in two pieces cut at 11 places")
        e(h, "long8", "inputs of 15 lengths up to 200, 3 bytes free, in two pieces cut at 11 places; locations of 8 bytes", "thorough")
        e(h, "sizes", "every location size up to 65 (64 for blake2-rfc), 3 free bytes")
        e(h, "free32", "every input of up to 40 bytes handed over in up to 3 pieces, locations of 32 bytes", "thorough")
    for h in HASHES_SERDE:
        for n, m in ((8, 18), (33, 9)):
            e(h + "_serde", f"{n}", f"every input of up to {m} bytes handed over in up to 3 pieces, locations of {n} bytes")
        e(h + "_serde", "sizes", "every location size up to 65 (64 for blake2-rfc), 3 free bytes")
    return l


def rocks():
    def e(name, bounds, covers, tier="quick"):
        return E("c18_" + name, bounds, covers, tier, cfg="rocks")
    P, D, R, O = PREV, "removal", "refused", "reopened"
    return [
        e("twin", "every history of up to 2 operations over 2 keys of 2 bytes (bits 0,7,8,15), closed and opened again or taken apart in between; every read and proof compared with the tree in memory", [P, D, O]),
        e("values", "values of 0..70001 bytes (38 lengths), first two, middle and last two bytes free, read back and proven", []),
        e("values_again", "the same after closing and opening again", []),
        e("twin3", "every history of up to 3 operations over 2 keys of 2 bytes (bits 0,15)", [P, D]),
        e("twin_pool", "every history of up to 2 operations over 3 keys of 1 byte (bits 0,4,7), closed and opened again in between", [P, D, O]),
        e("twin32", "every history of up to 2 operations over 2 keys of 32 bytes (bits 0,127,128,255)", [P, D]),
        e("limit", "histories of up to 3 operations, 1-byte keys (bit 0), depth limit 0", [P, D, R]),
        e("limit1", "histories of up to 2 operations over 3 keys of 1 byte (bits 0,1), depth limit 1", [P, D, R]),
        e("refused", "a tree, an insert the depth limit refuses, removals, reopening, and the same keys inserted again", [R, "removed"]),
        e("broken", "a tree, an insert broken off by a failure of any of 24 operations, removals, reopening, and the same keys inserted again", [R, "removed"]),
        e("crash", "a history of up to 1 operation over 2 keys of 2 bytes (bits 0,15), any operation with the process dying at any of the first 10 writes, reopened, then one more operation", [P, D, "died", "went through"]),
        e("crash2", "the same after 2 operations over 2 keys of 1 byte (bit 0), 8 writes", [P, D, "died", "went through"]),
        e("crash3", "the same after up to 1 operation over 3 keys of 1 byte (bits 0,4,7), 12 writes", [P, D, "died", "went through"]),
        e("fault", "1 operation over 2 keys of 1 byte (bit 0), any operation with any one of the first 24 accesses to the database failing, then one more operation", [P, D, "fault", "went through"]),
        e("fault2", "the same after 2 operations, 20 accesses", [P, D, "fault", "went through"]),
        e("twin3_t", "every history of up to 3 operations over 2 keys of 2 bytes (bits 0,15), closed and opened again in between", [P, D, O], "thorough"),
        e("limit4_t", "histories of up to 4 operations, depth limit 0", [P, D, R], "thorough"),
        e("limit1_t", "histories of up to 3 operations over 3 keys, depth limit 1", [P, D, R], "thorough"),
        e("crash3_t", "histories of up to 2 operations over 3 keys, dying at any of 12 writes, then one more operation", [P, D, "died"], "thorough"),
        e("crash2_t", "histories of up to 3 operations over 2 keys, dying at any of 10 writes, then 2 more operations", [P, D, "died"], "thorough"),
        e("fault2_t", "histories of up to 2 operations over 2 keys of 2 bytes, any of 30 accesses failing, then one more operation", [P, D, "fault"], "thorough"),
        e("fault3_t", "histories of up to 1 operation over 3 keys, any of 40 accesses failing, then 2 more operations", ["fault"], "thorough"),
    ]


def arrays():
    def e(name, bounds, covers=(), tier="quick"):
        return E("c20_" + name, bounds, list(covers), tier, cfg="dual")
    P, D = PREV, "removal"
    return [e(f"array{n}", f"every two arrays of {n} bytes: comparisons, hash, conversions, views, iteration, every index and range, writes, map keys") for n in (0, 1, 2, 4, 8, 31, 32, 33)] + [
        e("sort3", "sorting and searching any 3 arrays of 3 bytes"),
        e("sort32", "sorting and searching any 2 arrays of 32 bytes"),
        e("hist", "every history of up to 3 operations over 2 keys of 2 bytes (bits 0,15) run on both builds; every root, read and proof compared", [P, D]),
        e("pool3", "every history of up to 2 operations over 3 keys of 1 byte (bits 0,3,4,7)", [P, D]),
        e("span", "every history of up to 2 operations over 3 keys of 2 bytes (bits 5,8,9)", [P, D]),
        e("full32", "every history of up to 2 operations over 2 keys of 32 free bytes", [P, D]),
        e("limit", "histories of up to 2 operations over 3 keys of 1 byte, depth limit 1", [P, D, "refused"]),
        e("forge", "every proof of up to 3 free items, 2-byte keys", ["accepted", "refused"]),
        e("forge32", "every proof of up to 3 free items, 32-byte keys", ["accepted", "refused"]),
        e("bad", "calls with bad arguments, any previous root", ["inserted", "refused"]),
        e("hist4_t", "every history of up to 4 operations over 2 keys of 2 bytes (bit 0)", [P, D], "thorough"),
        e("pool3_t", "every history of up to 3 operations over 3 keys of 1 byte (bits 0,7)", [P, D], "thorough"),
    ]


CHECKS = {
    "C01": family("c01", [PREV, ONE], extra="; get and get_one of every key at the newest root") + [
        E("c01_typed", "every history of 2 inserts over 2 keys of 2 bytes (bits 0,15), values of a type of its own (0..2 free bytes), whose encoding differs from the value and may fail", ["no encoding"])],
    "C02": family("c02", [PREV, ONE], extra="; get and get_one of every key at every root") + [
        E("c02_typed", "every history of 3 inserts over 2 keys of 2 bytes (bits 0,15), values of a type of its own (0..2 free bytes), whose encoding differs from the value and may fail", ["no encoding"])],
    "C03": family("c03", [PREV, DEL], many=False, extra="; reads and proofs of every key at every root not removed") + [
        E("c03_typed", "every history of 3 inserts or removals over 2 keys of 2 bytes (bits 0,15), values of a type of its own (0..2 free bytes), whose encoding differs from the value and may fail", ["no encoding"]),
        E("c03_handed", "the same root handed out 300 times, free content, removed 299 or 300 times", opts=BIG)],
    "C04": family("c04", [PREV, DEL], extra="; all counts compared with the stored parents and live roots, then every root removed in two orders") + [
        E("c04_handed", "the same root handed out 300 times, free content, removed 299 or 300 times", opts=BIG)],
    "C05": family("c05", [PREV, DEL], extra="; every live root compared with a tree built at once in a new store") + [
        E("c05_typed", "every history of 3 inserts over 2 keys of 2 bytes (bits 0,15), values of a type of its own (0..2 free bytes), whose encoding differs from the value and may fail", ["no encoding"])],
    "C06": [
        E("c06_pairs", "every pair of trees over 2 keys of 2 bytes (bits 0,15), values of 0..4 free bytes, built on nothing or on each other", ["equal roots"]),
        E("c06_triples", "every triple of trees over 2 keys of 2 bytes (bits 0,15), values of 0 or 2 free bytes", ["equal roots"]),
        E("c06_keys", "two one-leaf trees with fully free 2-byte keys and values of 0..4 free bytes"),
        E("c06_keys32", "two one-leaf trees with fully free 32-byte keys and values of 0,1,8,31,32,33 free bytes"),
        E("c06_long", "every pair of trees over 1 key, values of 7..33 free bytes", ["equal roots"]),
        E("c06_hist", "roots of every history of up to 3 operations over 2 keys of 2 bytes free in bits 0,7,8,15", ["equal roots", PREV, DEL]),
        E("c06_typed", "every history of 2 inserts or removals over 2 keys of 2 bytes (bits 0,15), values of a type of its own (0..2 free bytes), whose encoding differs from the value and may fail", ["no encoding"]),
        E("c06_pairs3_t", "every pair of trees over 3 keys of 2 bytes (bits 0,8,15), values of 0,1,2,8 free bytes", ["equal roots"], "thorough"),
    ],
    "C07": family("c07", [PREV, DEL, "absent key"], extra="; proof of every stored key generated and verified, proofs of absent keys refused") + [
        E("c07_typed", "every history of 2 inserts or removals over 2 keys of 2 bytes (bits 0,15), values of a type of its own (0..2 free bytes), whose encoding differs from the value and may fail", ["no encoding"])],
    "C08": [
        E("c08_forge2", "every proof of 2 free items for trees of up to 2 keys (2 bytes, bits 0,15), free key, values of 0..4 free bytes", ["refused"]),
        E("c08_forge3", "every proof of 3 free items, same trees", ["accepted", "refused"]),
        E("c08_forge4", "every proof of 4 free items, trees of up to 3 keys", ["accepted", "refused"]),
        E("c08_forge5", "every proof of 5 free items, trees of up to 3 keys, values of 1..2 bytes", ["refused"]),
        E("c08_forge32", "every proof of 3 free items, 32-byte keys, values of 1 or 32 bytes", ["accepted", "refused"]),
        E("c08_mutilate", "genuine proofs in trees of 3 keys: truncated, extended, reordered, one item replaced, offered for another key, value or root", ["refused", "still accepted"]),
        E("c08_typed", "every history of 2 inserts over 2 keys of 2 bytes (bits 0,15), values of a type of its own (0..2 free bytes), whose encoding differs from the value and may fail", ["no encoding"]),
        E("c08_forge6_t", "every proof of 6 free items, trees of up to 3 keys", ["refused"], "thorough"),
        E("c08_mutilate4_t", "mutilated proofs in trees of 4 keys of 2 bytes free in bits 0,7,8,15", ["refused", "still accepted"], "thorough"),
    ],
    "C09": [
        E("c09_single", "every history of up to 3 operations over 2 keys of 2 bytes (bits 0,7,8,15), run with insert_one and with one-element batches; stores compared"),
        E("c09_values", "a value of 0..70001 bytes (38 lengths), first two, middle and last two bytes free, alone, next to another key or in place of another value"),
        E("c09_typed", "every history of 2 inserts or removals over 2 keys of 2 bytes (bits 0,15), values of a type of its own (0..2 free bytes), whose encoding differs from the value and may fail", ["no encoding"]),
        E("c09_seq", "a batch of 3 keys (1 byte, bits 0,3,4,7) on a tree of up to 2 against its elements one at a time"),
        E("c09_sspan", "histories of up to 2 operations over 3 keys of 2 bytes (bits 5,8,9)"),
        E("c09_seqspan", "a batch of 3 keys of 2 bytes (bits 5,8,9) on a tree of up to 2 against its elements one at a time"),
        E("c09_single4_t", "histories of up to 4 operations, bits 0,15", [], "thorough"),
        E("c09_seq4_t", "a batch of 4 keys on a tree of up to 3", [], "thorough"),
        E("c09_single32", "histories of 2 operations over 2 keys of 32 free bytes", [], "thorough"),
    ],
    "C10": [
        E("c10_order3", "every permutation of batches of 3 keys of 1 byte (bits 0,3,4,7)"),
        E("c10_order22", "every permutation of 2 keys on a previous root of 2 keys, bits 0,3,4,7", ["overwrites"]),
        E("c10_order32", "every permutation of 3 keys on a previous root of 2 keys, bits 0,3,7", ["overwrites"]),
        E("c10_queries", "every query of up to 3 free keys at trees of up to 3 keys, bits 0,3,4,7", ["repeated key", "stored key"]),
        E("c10_qspan", "every query of up to 3 free keys at trees of up to 2 keys, 2 bytes free in bits 5,8,9", ["repeated key", "stored key"]),
        E("c10_qfar", "every query of up to 2 free keys at trees of up to 2 keys, 32 bytes free in bits 0,1,127,128,200,255", ["repeated key", "stored key"]),
        E("c10_ospan", "every permutation of 2 keys on a previous root of 2 keys, 2 bytes free in bits 5,8,9", ["overwrites"]),
        E("c10_qspan3_t", "every query of up to 3 free keys at trees of up to 3 keys, 2 bytes free in bits 3,5,8,9", ["repeated key", "stored key"], "thorough"),
        E("c10_qlarge", "a tree of 40 32-byte keys asked for 41 keys in scrambled order, one of them free in one byte", opts=BIG),
        E("c10_order4_t", "every permutation of batches of 4 keys", [], "thorough"),
        E("c10_queries4_t", "every query of up to 4 free keys", ["repeated key", "stored key"], "thorough"),
    ],
    "C11": [
        E("c11_bad", "every bad call after every history of up to 2 operations over 2 keys of 2 bytes (bits 0,8)", ["removed root", PREV, DEL]),
        E("c11_bad32", "every bad call after 1 operation over 2 keys of 32 free bytes"),
        E("c11_bad3_t", "every bad call after every history of up to 3 operations", ["removed root", PREV, DEL], "thorough"),
    ],
    "C12": [
        E("c12_limits", "trees of 3 keys of 1 byte (bits 0..3), every operation under limits 0,1,2,3,8", ["beyond the limit", "within the limit"]),
        E("c12_span", "trees of 3 keys of 2 bytes (bits 5,8,9,15), limits 0,1,2,3,16", ["beyond the limit", "within the limit"]),
        E("c12_full1", "the deepest tree of 1-byte keys and a limit of 8"),
        E("c12_full4", "the deepest tree of 4-byte keys and a limit of 32", opts=BIG),
        E("c12_limits4_t", "trees of 4 keys of 1 byte (bits 0..3)", ["beyond the limit", "within the limit"], "thorough"),
    ],
    "C13": [
        E("c13_fault", "every history of up to 2 operations over 2 keys of 2 bytes (bits 0,15), then any call with any one of its storage operations failing, then reads and removals of all roots", ["fault", "no fault", PREV, DEL]),
        E("c13_retry", "as above after 1 operation, the failed call repeated", ["fault", "no fault"]),
        E("c13_queue", "a backend that holds writes back until they are flushed and loses them when a flush fails", ["fault", "no fault", PREV, DEL]),
        E("c13_pool3_t", "histories of up to 2 operations over 3 keys of 1 byte (bits 0,4,7)", ["fault", "no fault", PREV, DEL], "thorough"),
    ],
    "C14": [E("c14_impossible", "a data node as root or below a branch, a branch or leaf as data, any split index beyond the key; 2-byte keys")]
    + [E(f"c14_deep_{n}", f"{n} over a store of 2 nodes that are anything at all, pointing anywhere; 1-byte free key, depth limit 8", [c], opts=ANY)
       for n, c in (("one", "value"), ("get", "value"), ("proof", "proof"), ("remove", "removed"), ("insert", "inserted"), ("single", "inserted"))]
    + [E(f"c14_any_{n}", f"{n} over a store of 3 nodes that are anything at all; 1-byte free key, depth limit 2", [c], opts=ANY, tier="quick" if n in ("one", "get", "proof", "remove") else "thorough")
       for n, c in (("one", "value"), ("get", "value"), ("proof", "proof"), ("remove", "removed"), ("insert", "inserted"), ("single", "inserted"))]
    + [E(f"c14_rep1_{n}", f"{n} over a genuine tree of 2 keys (1 byte, bits 0,7) one node of which is anything or swapped; free keys", [c], opts=ANY, tier="quick" if n != "insert" else "thorough")
       for n, c in (("one", "value"), ("get", "value"), ("proof", "proof"), ("remove", "removed"), ("insert", "inserted"), ("single", "inserted"))]
    + [E("c14_two_get", "get of two free keys over a store of 2 nodes that are anything at all", ["value"], opts=ANY),
       E("c14_two_insert", "insert of two free keys over a store of 2 nodes that are anything at all", ["inserted"], "thorough", opts=ANY)]
    + [E(f"c14_rep_{n}", f"{n} over a genuine tree of 2 keys (2 bytes, bits 0,15) one node of which is anything or swapped", [c], "thorough", opts=ANY)
       for n, c in (("one", "value"), ("get", "value"), ("proof", "proof"), ("remove", "removed"), ("single", "inserted"))]
    + [E(f"c14_rep3_{n}_t", f"{n} over a genuine tree of 3 keys (2 bytes, bits 0,7,15) one node of which is anything or swapped", [c], "thorough", opts=ANY)
       for n, c in (("proof", "proof"), ("remove", "removed"))]
    + [E("c14_any2_remove", "remove over a store of 4 nodes that are anything at all, 2-byte locations, depth limit 3", ["removed"], "thorough", opts=ANY)],
    "C15": formats_back(),
    "C16": formats_any(),
    "C17": [E("c17_log", "every non-zero byte")]
    + [E(f"c17_bit{n}", f"every {n}-byte key and every position up to 8 bits beyond it", ["beyond", "within"]) for n in (1, 2, 4, 32, 40)]
    + [E(f"c17_split{n}", f"every sorted list of up to {m} free {n}-byte keys with a common prefix; every position of keys of up to 4 bytes, 10 of longer ones", ["beyond"]) for n, m in ((1, 4), (2, 4), (4, 3), (32, 3), (40, 3))]
    + [E(f"c17_min{k}", f"every sorted list of {k.split('_')[1]} keys of {k.split('_')[0]} bytes, every branch key" + x, ["all the same"], "thorough" if k.endswith("t") else "quick")
       for k, x in (("1_3", ""), ("2_2", ""), ("2_3_t", ""), ("4_2", ""), ("32_1", ""), ("40_1", ""), ("32_3", "; bits 0,7,8,127,128,255 free"), ("40_2", "; bits 0,255,256,319 free"))]
    + [E(f"c17_below{k}", f"every sorted list of {k.split('_')[1]} keys of {k.split('_')[0]} bytes, every branch key, every split of keys of up to 2 bytes and 11 of longer ones" + x, [], "thorough" if k.endswith("t") else "quick")
       for k, x in (("1_3", ""), ("2_2", ""), ("2_3", "; bits 0,3,7,8,9,15 free"), ("2_3_t", ""), ("4_2_t", ""), ("32_1", ""), ("32_2", "; 9 bits free"), ("40_2", "; 8 bits free"))]
    + [E(f"c17_queue{n}", f"every sorted list of {m} free {n}-byte keys", ["equal keys"]) for n, m in ((1, 4), (2, 3), (4, 3), (32, 2), (40, 2))]
    + [E(f"c17_map{n}", f"every list of {m} free {n}-byte keys") for n, m in ((2, 3), (32, 2))]
    + [E(f"c17_order{n}", f"every two references with {n}-byte keys") for n in (2, 32)],
    "C18": rocks(),
    "C19": hashes(),
    "C20": arrays(),
    "C21": family("c21", [PREV, DEL], extra="; every stored tree walked"),
}

CHECKS["C09"] += hashbrown(CHECKS["C09"], "c09_single", "c09_seq")
CHECKS["C10"] += hashbrown(CHECKS["C10"], "c10_order22", "c10_queries")
CHECKS["C11"] += hashbrown(CHECKS["C11"], "c11_bad")
CHECKS["C12"] += hashbrown(CHECKS["C12"], "c12_limits")
CHECKS["C13"] += hashbrown(CHECKS["C13"], "c13_retry")
CHECKS["C14"] += hashbrown(CHECKS["C14"], "c14_impossible", "c14_rep1_get")
CHECKS["C17"] += hashbrown(CHECKS["C17"], "c17_queue2", "c17_map2")

ASSUMPTIONS = {
    "*": [
        "rustc's LLVM IR (opt-level 1, overflow checks on) means what the compiled crate does; sampled paths are replayed natively and compared",
        "the hash function is replaced by a collision-free one (every distinct input gets its own location), as the properties allow",
        "the hash maps (std's and hashbrown's) hash every key alike under the executor, so that equality alone decides; allocation never fails",
    ],
    "C13": ["storage faults are single: one operation of one call fails"],
    "C18": ["RocksDB is replaced by a stand-in with the same interface: a write batch is applied as a whole, everything written before the process dies is there afterwards"],
    "C19": ["SHA-256 of OpenSSL is replaced by the sha2 crate's", "the hash functions' own crates are taken for what they compute"],
    "C14": ["reference counts and leaf counts of corrupt nodes are below 2^62"],
}
