#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))
BM="src/binary/merkle_tree.rs"; SM="src/sparse/merkle_tree.rs"; SN="src/sparse/node.rs"
p("B01","Binary root is the Merkle tree hash of exactly the pushed leaves, in order",
  "After every push, the root of a binary Merkle tree is the SHA-256 Merkle tree hash (leaf hash 0x00||data, node hash 0x01||left||right, left subtree the largest power of two below n) of exactly the leaves pushed so far, in order, and the hash of the empty string when there are none; so different leaf lists never share a root. The in-memory tree and a tree over any storage agree, including a storage that already holds records of another tree. Reading the root or a proof in between, any number of times, changes nothing.",
  ["inputs","histories"],"every list of byte strings (any length, any content, duplicates included), every interleaving of pushes and reads, every conforming storage",
  "The tests compare a handful of fixed sizes with 32-byte leaves against hand-built hashes or one reference implementation that shares the algorithm; leaf lengths, contents, other sizes, dirty storages and interleaved reads are not varied.",
  [BM,"src/binary/hash.rs","src/binary/node.rs","src/binary/in_memory.rs","src/common/subtree.rs","src/common/prefix.rs","src/common.rs"],
  [("peaks of equal height are joined on push",BM+"::join_all_subtrees"),("peaks are folded into the root",BM+"::build_root_node"),("domain-separated hashes","src/binary/hash.rs")],
  ["binary::MerkleTree::{new,push,root}","binary::in_memory::MerkleTree::{push,root}"])
p("B02","Binary inclusion proofs are exact for every leaf, refused for any other index",
  "For a tree of n leaves and every index i below n, a proof consists of the current root and the list made of the hash of leaf i followed by the roots of its sibling subtrees from the bottom to the top, which folds to that root. Every index from n up to the largest 64-bit value is refused with an invalid-index error (no proof, in the in-memory tree), never a panic or a wrong proof. Asking for proofs changes nothing, and both trees give the same proof.",
  ["inputs","histories"],"every tree size n, every index i in 0..2^64, every leaf content, before and after further pushes",
  "The tests check every index only for n in {1,4,5,7} and one random index at 14 sizes; incomplete right edges at other sizes, indices near 2^64 and proofs taken between pushes are not reached.",
  [BM,"src/binary/in_memory.rs","src/common/position_path.rs","src/common/path_iterator.rs"],
  [("side positions along the path, looked up in scratch then main storage",BM+"::prove"),("index bound check",BM+"::prove")],
  ["binary::MerkleTree::prove","binary::in_memory::MerkleTree::prove"])
p("B03","A binary tree reloaded from storage is the same tree, at any leaf count",
  "Loading a binary tree from the storage of a tree of n leaves with any leaf count k up to n gives the tree of the first k leaves: the same root, the same proofs for every index, the same refusals. Pushing further leaves onto it, the same or different ones, with reloads anywhere in between, gives exactly what a never-reloaded tree gives. Loading needs only read access to the storage.",
  ["inputs","histories","crash_points"],"every history of pushes, reloads at the current count, rollbacks to an earlier count and fresh starts over the same storage",
  "The tests reload at 15 sizes, only at the final count and only compare the root; proofs of reloaded trees, pushes after a reload, rollbacks and repeated reloads are never exercised.",
  [BM,"src/common/position.rs","src/common/position_path.rs"],
  [("peak positions derived from the leaf count",BM+"::peak_positions"),("peaks read back into the head list",BM+"::build")],
  ["binary::MerkleTree::{load,push,root,prove}"])
p("B04","Binary storage holds exactly the nodes of complete subtrees, at their positions",
  "After any history of pushes from an empty storage, the storage holds one record for every complete (perfectly filled, aligned) subtree of the leaves, including single leaves, and nothing else: its key is the subtree's in-order position and its value is that position and the subtree's hash. Once written a record never changes while leaves are appended. Reading roots and proofs and reloading write nothing.",
  ["inputs","histories"],"every sequence of pushes interleaved with root reads, proofs and reloads",
  "One test looks up 11 keys for one tree of 7 leaves; absence of other records, stability of old records and other sizes are unchecked.",
  [BM,"src/binary/primitive.rs","src/binary/node.rs","src/common/position.rs"],
  [("leaf and joined nodes are inserted on push",BM+"::{push,join_all_subtrees}"),("temporary nodes stay in scratch storage",BM+"::root_node"),("record format","src/binary/primitive.rs")],
  ["the StorageInspect/StorageMutate calls a tree makes on its storage"])
p("B05","Missing binary tree records are reported, never papered over",
  "If storage lacks some of the records of a tree, loading that tree and proving a leaf either succeed with exactly the right root and proof or fail with a load error, and fail only if a record needed for that answer is missing; loading with a leaf count the storage cannot back fails with a load error. There is no panic and no wrong root or proof, and proofs that do not need a missing record still succeed.",
  ["inputs","fault_sequences"],"every tree, every subset of lost records, every claimed leaf count below 2^63, every proof index",
  "One test loads 10 leaves from a storage of 5; no record is ever removed and proofs over incomplete storage are never tried.",
  [BM],[("absent record becomes a load error",BM+"::{build,prove}")],
  ["binary::MerkleTree::{load,prove}"])
p("B06","A storage failure during a binary tree operation is reported and harmless",
  "Whenever a storage access fails, at any point of any push, load or proof, the operation reports the failure instead of succeeding or panicking. After a failed push the tree is the one before it: same root, same proofs, and pushing again, the same leaf or another, gives the right tree; the records already persisted still load at the previous leaf count.",
  ["histories","fault_sequences","crash_points"],"every history of operations and every storage access in it at which the failure (before or after taking effect, once or repeatedly) may strike",
  "No test uses a storage that can fail: all run on an infallible in-memory map.",
  [BM],[("storage errors propagate with ?",BM),("peaks are restored when joining fails",BM+"::push")],
  ["binary::MerkleTree::{push,load,prove,root}"])
p("B07","Binary trees address leaves correctly up to 2^63 - 1 leaves",
  "For every leaf count up to 2^63 - 1, loading reads exactly the peaks of that tree, the root is their right-to-left fold, a proof consists of the records at the leaf's sibling positions (folding the incomplete right edge), and a push writes the new leaf and each subtree it completes at their in-order positions.",
  ["inputs"],"every leaf count below 2^63 and every leaf index, with arbitrary record contents (trees far too large to build are presented through a storage that computes its records)",
  "The largest tree any test builds has 65535 leaves; anything that goes wrong beyond 16, 32 or 62 bits is invisible.",
  [BM,"src/common/position.rs","src/common/position_path.rs","src/common/path_iterator.rs"],
  [("root and peak positions from the leaf count",BM+"::{root_position,peak_positions}"),("position arithmetic","src/common/position.rs")],
  ["binary::MerkleTree::{load,root,prove,push}","keys read from and written to storage"])
p("P01","Position navigation agrees with the in-order layout of a binary tree",
  "For every in-order index, height, leaf or node kind, leaf index, children, parent, sibling and uncle are those of the perfect binary tree numbered in order from its first leaf: a node of height h and offset o has index o*2^(h+1) + 2^h - 1. Children and parent are mutually inverse, siblings share a parent, and none of these overflow anywhere the result is a 64-bit index (only the root of the full 64-bit tree, 2^63 - 1, has no parent).",
  ["inputs"],"every 64-bit in-order index whose relative exists, every leaf index below 2^63",
  "The tests list about 40 small indices, all below 20; carries, high bits and the top of the range are unchecked.",
  ["src/common/position.rs"],[("bit arithmetic on the in-order index","src/common/position.rs")],
  ["common::Position"])
p("P02","Paths list exactly the nodes from root to leaf and their true side nodes",
  "For every leaf count n, every leaf below n and every root position that is the tree's root or lies above it, or is an inner node of the tree above that leaf, the path yields, from the top down, exactly the nodes of that tree between the root and the leaf, each with the sibling subtree's actual root in that (possibly incomplete) tree. The underlying descent in a full tree follows the bits of the leaf index, yields both children at each step and stops at the leaf.",
  ["inputs"],"every leaf count up to 2^63 - 1, every leaf index, every admissible root",
  "The tests list paths for trees of 1, 4, 5, 7 and at most 16 leaves.",
  ["src/common/position_path.rs","src/common/path_iterator.rs","src/common/path.rs","src/common/msb.rs"],
  [("positions beyond the rightmost leaf are skipped, sides descend leftward","src/common/position_path.rs::PositionPathIter::next"),("initial bit offset and instruction per bit","src/common/path_iterator.rs::PathIter")],
  ["common::Position::path","common::AsPathIterator::as_path_iter"])
p("S01","Sparse root is a function of the current key-value map alone",
  "After any history of updates and deletes, the root of a sparse Merkle tree is the compact sparse Merkle tree hash (leaf 0x00||key||hash(data), node 0x01||left||right, empty subtree 32 zero bytes, a subtree of one leaf is that leaf) of the resulting map and depends on nothing else: not the order, overwritten values, deleted keys or repeated operations. Updating with empty data deletes; deleting an absent or already deleted key changes nothing; the empty map has the zero root. The in-memory tree and a tree over any storage agree, and an operation on one key never alters another.",
  ["inputs","histories"],"every history of updates, overwrites, deletes, re-inserts over any 32-byte keys (any shared prefix length up to 255 bits) and any data",
  "The tests use sequential hashed keys, one constant value and about 20 fixed histories; keys with long shared prefixes, deletes of deleted keys and mixed histories are not sampled.",
  [SM,SN,"src/sparse/hash.rs","src/sparse/in_memory.rs","src/common/path.rs","src/common/msb.rs","src/common/path_iterator.rs"],
  [("leaf insertion along the path",SM+"::update_with_path_set"),("leaf removal and collapse of lone leaves",SM+"::delete_with_path_set"),("node height and side from common prefix",SN+"::create_node_on_path")],
  ["sparse::MerkleTree::{new,update,delete,root}","sparse::in_memory::MerkleTree"])
p("S02","Caller-chosen sparse keys and data cannot interfere with the tree's own records",
  "The sparse tree stays exact when keys and data are chosen adversarially with full knowledge of the tree: keys equal to the tree's present or past roots, node hashes, leaf hashes or data hashes, the zero key, keys differing in one chosen bit, data equal to serialised nodes, keys or hashes. The root remains that of the map, every other entry stays intact and updatable, and a reload gives the same tree.",
  ["inputs","histories"],"every adaptive history in which keys and data are derived from hashes the tree has produced so far",
  "All test keys are hashes of counters, so no key ever coincides with a stored hash.",
  [SM,SN,"src/sparse/primitive.rs"],[("nodes are stored under their hash only",SM+"::update"),("leaf/node prefix separation",SN+"::hash")],
  ["sparse::MerkleTree::{update,delete,root,load}"])
p("S03","A sparse tree reloaded from its root is the same tree",
  "Loading a sparse tree from its storage and current root, after any history including one that emptied it, gives a tree with that root on which every further update and delete acts as on the original. Loading a root that the storage does not hold fails with a load error, and a root record with an invalid kind byte fails with a deserialize error.",
  ["inputs","histories","crash_points"],"every history of updates and deletes with reloads at arbitrary points, every unknown root",
  "One test reloads once after five updates and then only updates; deletes after a reload, repeated reloads and the empty tree are unchecked.",
  [SM,"src/sparse/primitive.rs"],[("root node read back by its hash",SM+"::load")],
  ["sparse::MerkleTree::{load,update,delete,root}"])
p("S04","Sparse storage always holds the complete tree under the current root",
  "After every operation, walking the storage from the current root reaches exactly the entries of the map: each node's record is stored under the node's hash and holds its height, kind, and either its two children's hashes or its key and data hash, with empty children as zero hashes. Heights are 0 for leaves and 256 minus the depth for inner nodes.",
  ["inputs","histories"],"every history of updates, overwrites and deletes",
  "No test reads the storage of a sparse tree after operations; the record format is checked for single hand-made nodes only.",
  [SM,SN,"src/sparse/primitive.rs"],[("every node on the rebuilt path is inserted",SM+"::{update_with_path_set,delete_with_path_set}"),("record format","src/sparse/primitive.rs")],
  ["the records in the storage given to sparse::MerkleTree"])
p("S05","Sparse deletes erase the deleted path and nothing that is still needed",
  "Deleting a present key removes from storage its leaf record and every node of the previous tree on the path from the root to it. No operation removes or alters a record that the resulting tree needs. Deleting an absent key, or from an empty tree, leaves the storage byte for byte unchanged.",
  ["inputs","histories"],"every history of updates, overwrites and deletes of present and absent keys",
  "No test looks at what remains in storage after a delete.",
  [SM],[("path nodes are removed on delete",SM+"::delete_with_path_set"),("absent keys are detected before anything is written",SM+"::delete")],
  ["the records in the storage given to sparse::MerkleTree"])
p("S06","A storage failure during a sparse tree operation never corrupts the tree",
  "Whenever a storage access fails, at any point of any update, delete or load, the operation reports the failure instead of succeeding or panicking. Afterwards the tree is complete and consistent in the state before the operation or (only for a delete whose new tree was fully written) after it, the previous tree still loads from the persisted records while the root is unchanged, and repeating the operation reaches the right state.",
  ["histories","fault_sequences","crash_points"],"every history of operations and every storage access in it at which the failure (before or after taking effect, once or repeatedly) may strike",
  "No test uses a storage that can fail: all run on an infallible in-memory map.",
  [SM,SN],[("storage errors propagate with ?",SM),("the root moves only after all new nodes are stored, stale nodes go last",SM+"::delete_with_path_set")],
  ["sparse::MerkleTree::{update,delete,load,root}"])
p("S07","Missing or undecodable sparse records are reported, never papered over",
  "If storage lost some of a sparse tree's records, or holds some with an invalid kind byte, an update or delete either succeeds and yields exactly the right root, or fails with an error and leaves the root unchanged; it never panics and fails only if a damaged record lies on the key's path or beside it. Loading a tree whose root record is lost or undecodable fails.",
  ["inputs","fault_sequences"],"every tree, every set of lost or mis-tagged records, every operation",
  "Tests damage only the root record and only load; damage deeper in the tree is tried on single nodes in isolation.",
  [SM,SN,"src/sparse/primitive.rs","src/common/prefix.rs"],[("child lookup errors",SN+"::StorageNode::{left_child,right_child}"),("kind byte validation","src/common/prefix.rs")],
  ["sparse::MerkleTree::{update,delete,load,root}"])
p("M01","Sum tree root commits to every fee and leaf and carries the exact fee total",
  "After every push, the root of a sum tree is the pair of the exact sum of all pushed fees and the Merkle tree hash in which a leaf hashes 0x00||fee||data and a node 0x01||left fee||left hash||right fee||right hash (fees as 8 big-endian bytes, same tree shape as the binary tree); with no leaves it is zero and the hash of the empty string. Reading the root any number of times changes nothing. A total beyond 64 bits is refused, never reported wrapped or clamped.",
  ["inputs","histories"],"every list of (fee, byte string) pairs with any 64-bit fees, every interleaving of pushes and root reads, every conforming storage",
  "The tests use 0, 1, 4, 5 and 7 leaves, always with fee 100, and read the root once.",
  ["src/sum/merkle_tree.rs","src/sum/hash.rs","src/sum/node.rs"],[("equal peaks are joined, fees added","src/sum/merkle_tree.rs::{join_all_subtrees,join_subtrees}"),("checked fee sum","src/sum/node.rs::create_node")],
  ["sum::MerkleTree::{push,root}"])
p("M02","Sum tree storage lets anyone audit the fee total from the root",
  "Once the root of a sum tree has been read, walking the storage from the root's hash reaches every leaf in order: each node's record is stored under its hash and holds its fee, height and children's hashes, an inner node's fee is the sum of its children's and its height exceeds both. Appending leaves never removes a record.",
  ["inputs","histories"],"every list of (fee, byte string) pairs, duplicates included, with root reads at arbitrary points",
  "No test reads the sum tree's storage.",
  ["src/sum/merkle_tree.rs","src/sum/node.rs"],[("leaf and joined nodes are inserted under their hash","src/sum/merkle_tree.rs::{push,join_subtrees}")],
  ["the records in the storage given to sum::MerkleTree"])
p("M03","A storage failure during a sum tree operation is reported and harmless",
  "Whenever a storage access fails, at any point of a push or a root read, the operation reports the failure instead of succeeding or panicking. Afterwards the tree is the one before it: the root is unchanged, and repeating the operation, or pushing another leaf, gives the right result.",
  ["histories","fault_sequences"],"every history of pushes and root reads and every storage access in it at which the failure (before or after taking effect, once or repeatedly) may strike",
  "No test uses a storage that can fail.",
  ["src/sum/merkle_tree.rs"],[("storage errors propagate with ?","src/sum/merkle_tree.rs"),("peaks are restored when joining fails","src/sum/merkle_tree.rs::push")],
  ["sum::MerkleTree::{push,root}"])
p("C01","The bundled storage map behaves as a map under every history",
  "For every history of inserts, removes and look-ups, directly or through a mutable reference or the infallible helper interface, the bundled storage map answers exactly like a mathematical map: a look-up returns the last inserted and not removed value, presence agrees with look-up, and insert and remove return the previous value. Maps are independent of each other.",
  ["inputs","histories"],"every history over any keys and values, including types whose stored and returned forms differ",
  "Eight unit tests perform at most two operations each with one key.",
  ["src/common/storage_map.rs","src/storage.rs"],[("hash map behind the storage traits","src/common/storage_map.rs"),("infallible wrappers","src/storage.rs")],
  ["common::StorageMap","storage::{StorageInspect,StorageMutate,StorageInspectInfallible,StorageMutateInfallible}"])
p("D01","Errors name their cause",
  "An error names what went wrong: an invalid-index error the index that was asked for; a binary load error the in-order storage key of a record that is missing and that the load or proof needs; a sparse load error the root that was asked for (in hexadecimal), or on the path a missing record; a deserialize error the invalid kind byte; and a storage error is the very error the storage gave during the operation. With the standard library every error is a displayable `Error` whose text names the same.",
  ["inputs","fault_sequences"],"every tree, every set of lost or undecodable records, every index, and every failing storage access with any error value",
  "The tests check the kind of a few errors, never which record, index or storage error they carry.",
  [BM,SM,SN,"src/sum/merkle_tree.rs","src/common/error.rs","src/common/prefix.rs"],[("load errors carry the key looked up",BM+"::{build,prove}"),("root and child look-ups",SM+"::load; "+SN),("invalid prefix","src/common/prefix.rs")],
  ["binary::MerkleTreeError","sparse::MerkleTreeError","the storage's error type"])
p("E01","Operations touch only the records on one path, however large the tree",
  "The number of storage accesses of an operation is bounded by the depth of the tree, not its size: a push, load, root read or proof of a binary or sum tree of n leaves makes at most 4 (b + 3) accesses where b is the number of binary digits of n; an update or delete of a sparse tree at most 4 (2p + q + 3), where p and q are the numbers of nodes on the key's path in the tree before and after; a sparse load at most 16.",
  ["inputs","histories"],"every tree size and history of operations",
  "No test counts storage accesses or builds a tree in which a linear cost would show.",
  [BM,SM,"src/sum/merkle_tree.rs"],[("push joins only equal peaks, load reads only peaks",BM+"::{push,build,prove}"),("path_set walks one path",SM+"::path_set")],
  ["accesses to the storage given to the trees"])
p("X01","Every build configuration computes the same trees",
  "With or without the standard library, and with or without debug assertions and overflow checks, the same history of operations on binary, sparse and sum trees gives the same roots, proofs, stored records and kinds of error.",
  ["configurations","histories"],"the configurations {std, no-std} x {checked, release}, over histories of all public operations on all trees",
  "The tests run only the default configuration in the development profile; the no-std configuration is merely type-checked.",
  ["Cargo.toml","src/lib.rs","src/common/storage_map.rs",BM,SM,"src/sum/merkle_tree.rs"],[("cfg(feature = \"std\") guards and debug assertions","src")],
  ["transcripts of the public API in each build"])
p("H01","The proof verifier accepts the proof of every leaf and nothing else",
  "The verifier of the test-helper library accepts the proof of every leaf of every binary tree, and rejects it once the root or any single proof element is altered, removed, added or swapped for a different one, for an index outside the tree, for an empty proof, and for lists that lead to the root without being the leaf's own proof, such as those that start at an inner node. The helper library's own tree agrees with the production tree on every root and every proof, and yields the bare root and no proof for an index outside the tree.",
  ["inputs"],"every tree size and index, every tampering of root or proof, every list made of hashes of the tree",
  "The tests verify one genuine and three bad proofs by hand, plus eight fixtures.",
  ["test-helpers/src/binary/verify.rs","test-helpers/src/binary/merkle_tree.rs","test-helpers/src/binary/hash.rs"],
  [("subtree walk from the proof index","test-helpers/src/binary/verify.rs"),("streaming proof construction","test-helpers/src/binary/merkle_tree.rs")],
  ["fuel_merkle_test_helpers::binary::{verify,MerkleTree}"])
p("H02","Conformance fixtures pass exactly when their expected result is right",
  "Running a conformance fixture passes exactly when its expected outcome is the true one: a sparse fixture when the recorded root is that of the map its steps produce, a binary proof fixture when the recorded verdict is the verifier's; unknown actions are errors and undecodable values never pass. Encoded values decode to the bytes they were made from, in every encoding.",
  ["inputs"],"every fixture document over any steps, keys, values, encodings and expected results",
  "The fixtures in the repository are all meant to pass, so a runner that never fails would look the same.",
  ["test-helpers/src/data/sparse.rs","test-helpers/src/data/binary.rs","test-helpers/src/data/encoded_value.rs"],
  [("step interpreter and root comparison","test-helpers/src/data/sparse.rs"),("value codecs","test-helpers/src/data/encoded_value.rs")],
  ["fuel_merkle_test_helpers::data"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
