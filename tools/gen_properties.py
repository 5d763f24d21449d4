#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
            "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
            "observe_at": list(observe),
            "hook_needed": None,
        },
    })

H = "histories"; I = "inputs"; S = "schedules"; F = "fault_sequences"; C = "configurations"

p("C01", "Peers that know the same edits have the same document",
  "Any two peers that start from the same document and have applied the same set of edits have exactly the same document, whatever the order, interleaving, batching or duplication in which those edits reached them. Once every edit has been delivered to a peer and its backlogs drained, nothing is left unapplied and its document consists of every character ever inserted minus every character some deletion removed. No such history makes a replica panic or leaves its internal structures inconsistent.",
  [H, S], "all multi-peer editing histories (insertions, deletions, forks, late joiners), all delivery orders, and all points at which two peers happen to know the same edits",
  "The tests merge a few fixed conflicts plus a handful of seeded random sessions with two to five replicas that are all synchronised in the same few ways; convergence is claimed for every history and every delivery schedule, including partial knowledge, late joiners and out-of-order delivery.",
  ["src/replica.rs", "src/run_tree.rs", "src/gtree.rs", "src/run_indices.rs", "src/backlog.rs"],
  [("total order among concurrent runs at the same anchor (Lamport timestamp, then replica id)", "src/run_tree.rs:890 EditRun::cmp"),
   ("placement of a remote run among the siblings of its anchor", "src/run_tree.rs:719 merge_insertion"),
   ("deletion restricted to the text its author had seen", "src/run_tree.rs:504 merge_deletion"),
   ("causal gate", "src/replica.rs:216 can_merge_deletion, :234 can_merge_insertion")],
  [("version map", "how many units of every author's text have been integrated", "src/version_map.rs"),
   ("run tree", "the document as runs of visible or deleted text", "src/run_tree.rs, src/gtree.rs"),
   ("run indices", "where every fragment of every author's text is in the tree", "src/run_indices.rs")],
  ["integrate_insertion / integrate_deletion / backlogged_* return values applied to a text buffer"])

p("C02", "A buffer kept by following the replica never drifts from it",
  "If a user applies its own edits to a text buffer and then does exactly what the replica's return values say (insert remote text at the returned offset, delete the returned ranges in reverse order), the replica's length always equals the buffer's, every offset returned is within the buffer, and every list of ranges returned is ascending, non-overlapping, non-empty and within the buffer. This holds after every single call, for direct integrations as well as for edits released by the backlogs.",
  [H, S], "every call of every history of local edits, remote integrations, drains, forks and decodes",
  "The tests compare buffers only after hand-picked conflicts and random sessions of fixed shape; an off-by-one in one tree shape, one split position or one long fragment list goes unnoticed unless that shape is built.",
  ["src/replica.rs", "src/run_tree.rs", "src/gtree.rs", "src/run_indices.rs", "src/backlog.rs"],
  [("offset bookkeeping of tree nodes", "src/gtree.rs"), ("offset of an inserted run", "src/run_tree.rs:283 insert, :719 merge_insertion"),
   ("ranges of a merged deletion", "src/run_tree.rs:504 merge_deletion")],
  [("length", "length of the visible document", "src/replica.rs:645 len")],
  ["Replica::len-dependent panics, returned offsets and ranges"])

p("C03", "Inserted text stays where its author put it",
  "An insertion lands between the two characters its author saw around it: in every document any peer ever has, the new text comes after the character the author had on its left and before the one on its right, and its own characters stay in order. All documents of all peers at all times, including characters that were deleted before or since, are explained by one single total order of all the characters ever inserted.",
  [H, S], "all histories of concurrent insertions and deletions, all pairs of characters, including those whose neighbours have been deleted",
  "The tests check final equality between peers, which a wrong but consistently wrong placement also satisfies, and a few literal strings; the order constraint must hold for every insertion position among arbitrarily fragmented and deleted text.",
  ["src/run_tree.rs", "src/run_indices.rs", "src/insertion.rs", "src/gtree.rs"],
  [("insertions carry the identity of the character on their left", "src/insertion.rs, src/run_tree.rs:283 insert"),
   ("anchor lookup", "src/run_indices.rs:47 idx_at_anchor"), ("sibling scan", "src/run_tree.rs:719 merge_insertion")],
  [], ["returned insertion offsets"])

p("C04", "A deletion removes exactly what its author deleted",
  "Integrating a remote deletion removes precisely those characters that were in the range the author deleted, as the author saw it, and that are still visible at the receiver. Text that others inserted concurrently inside that range survives, text already deleted is not deleted twice, and nothing outside the range is touched.",
  [H, S], "all deletions in all histories, over text by any number of authors, with any concurrent insertions and deletions inside or next to the range, delivered in any order",
  "Which characters survive depends on how the range is fragmented at the receiver and what each side had seen; the tests cover a few concrete overlaps of two or three peers.",
  ["src/run_tree.rs", "src/deletion.rs", "src/replica.rs", "src/gtree.rs", "src/version_map.rs"],
  [("a deletion carries its end points and the text its author had seen", "src/deletion.rs, src/replica.rs:451 deleted"),
   ("walk from start to end skipping unseen and deleted text", "src/run_tree.rs:504 merge_deletion"),
   ("insertions at the edge of a deleted range", "src/gtree.rs delete_range")],
  [], ["ranges returned by integrate_deletion and backlogged_deletions"])

p("C05", "Receiving an edit again has no effect",
  "Integrating an edit that the replica already integrated, already holds in its backlog, or made itself returns nothing, changes nothing and never panics, no matter how often or when it is received again. A replica that received duplicates behaves from then on exactly like one that did not.",
  [H, S, F], "all histories with arbitrary re-deliveries (own echoes, duplicates of applied, of backlogged and of since-deleted edits) at arbitrary points",
  "The tests re-deliver a couple of freshly integrated edits; duplicates of backlogged edits, duplicates after a drain, duplicates across fork and decode, and the effects that show up only later are not sampled.",
  ["src/replica.rs", "src/backlog.rs", "src/version_map.rs"],
  [("duplicate detection", "src/replica.rs:570 has_merged_deletion, :577 has_merged_insertion"), ("backlog insertion", "src/backlog.rs:144, :189")],
  [("deletion map", "how many deletions of every author have been integrated", "src/replica.rs"), ("backlog", "edits received too early", "src/backlog.rs")],
  ["return values of integrate_*, later behaviour compared with a twin without duplicates"])

p("C06", "Early edits wait in the backlog and are all released, once, when ready",
  "An edit whose context (the author's earlier edits and the text it refers to) is known is applied immediately; an edit that arrives before its context is applied neither then nor later out of order, but is kept, and yielded exactly once by the backlog iterators as soon as everything it depends on has been applied. A replica that received edits out of order ends up exactly like one that received them in order, and draining after full delivery leaves nothing behind.",
  [H, S, F], "all delivery orders of all edits of all histories, all points at which backlogs are drained, fully or partially, and backlogs carried through fork and encode/decode",
  "The tests deliver a few sequences backwards; the order space is factorial and depends on chains across authors, on when drains happen and on duplicates mixed in.",
  ["src/backlog.rs", "src/replica.rs", "src/version_map.rs", "src/deletion.rs"],
  [("readiness", "src/replica.rs:216 can_merge_deletion, :234 can_merge_insertion"), ("drain iterators", "src/backlog.rs:239, :284"), ("ordered insertion into the backlog", "src/backlog.rs:144, :189")],
  [("backlog", "edits received too early, by author, in the author's order", "src/backlog.rs")],
  ["integrate_* return values, backlogged_insertions, backlogged_deletions"])

p("C07", "Encoding and decoding a replica loses nothing",
  "Decoding the encoding of a replica in any state (fragmented text, deletions, pending backlog, edits from many authors) always succeeds, and the decoded replica behaves from then on exactly like a fork of the original at that moment under the same id: same document length, same results for all local edits, remote edits, duplicates, drains and anchors.",
  [H, I], "all reachable replica states and all continuations after decoding, including stale snapshots that catch up later and chains of encode/decode",
  "The tests encode a few small replicas and compare internal equality; whether a decoded replica keeps behaving the same under every later edit depends on the whole tree, index and backlog state surviving.",
  ["src/encoded_replica.rs", "src/replica.rs", "src/run_tree.rs", "src/gtree.rs", "src/run_indices.rs", "src/backlog.rs", "src/version_map.rs", "src/encode.rs"],
  [("replica codec", "src/replica.rs:1060-1175"), ("run tree and run indices codec", "src/run_tree.rs:1161-1478"), ("backlog codec", "src/backlog.rs:358-590"), ("version map codec", "src/version_map.rs:173-253")],
  [], ["Replica::encode, Replica::decode, and every call after them"])

p("C08", "Forks and clones start identical and are independent",
  "A fork has the same document, the same knowledge of past edits and the same pending edits as the replica it was forked from, and makes edits under its own identity starting from scratch; a clone is the same replica. Whatever is done afterwards to one of them (edits, integrations, drains, or being dropped) has no effect on the other, and a fork continues exactly like a replica that joined by other means in the same state.",
  [H], "all reachable states at which a replica is forked or cloned, and all later operations on either copy",
  "The tests fork fresh or lightly edited replicas; state that is shared, lost or mis-attributed on a fork (pending backlog, per-author counters, identities) shows only in particular continuations.",
  ["src/replica.rs", "src/version_map.rs", "src/run_tree.rs", "src/run_indices.rs"],
  [("fork", "src/replica.rs:540 fork"), ("per-author counters of a fork", "src/version_map.rs:50 fork, :57 fork_in_place")],
  [], ["Replica::fork, Clone, and every call after them"])

p("C09", "Edits, anchors and encoded replicas survive serde unchanged",
  "Every Insertion, Deletion, Text, Anchor and EncodedReplica, however produced, deserialises to an equal value after being serialised with serde, in self-describing text formats, in binary formats, and in formats that represent bytes as sequences; and an edit that travelled this way has the same effect as the original.",
  [I, H, C], "all values a session can produce (all anchor shapes, all id and offset magnitudes up to 64 bits, empty edits) and several serde formats",
  "The tests round-trip a few random insertions and deletions in two formats; the encodings are packed by flags and presence of fields, so a wrong branch is only reached by particular combinations of values.",
  ["src/encode.rs", "src/insertion.rs", "src/deletion.rs", "src/text.rs", "src/anchor.rs", "src/encoded_replica.rs", "src/leb128.rs", "src/version_map.rs"],
  [("serde bridge", "src/encode.rs:143 impl_serialize/impl_deserialize"), ("packed insertion run", "src/insertion.rs:200-300"), ("packed anchors", "src/deletion.rs:165-375"), ("variable-length integers", "src/encode.rs:85-140")],
  [], ["serde_json, bincode, CBOR round trips"])

p("C10", "Corrupted or foreign encodings are rejected, with the right error",
  "Decoding an encoded replica whose bytes were altered in any way (bit flips, truncation, appended, swapped, dropped, duplicated or zeroed bytes) returns an error instead of a replica, and an unaltered one always decodes. Damage behind an intact header is reported as a checksum failure, and an encoding of another protocol version is reported as such, with both versions, whatever the rest contains.",
  [I, F], "all reachable encodings and all corruptions of them, all other version numbers",
  "The tests flip nothing more than a few chosen bytes; integrity is claimed for every byte position of every encoding.",
  ["src/encoded_replica.rs", "src/replica.rs", "src/encode.rs"],
  [("version and checksum verification", "src/encoded_replica.rs:58 to_replica, :240 checksum")],
  [], ["Replica::decode"])

p("C11", "Decoders never crash on arbitrary bytes",
  "Decoding an encoded replica from arbitrary bytes, including bytes with a correct version and checksum but arbitrary content, and deserialising edits, anchors and encoded replicas from arbitrary bytes, either yields a value or an error: it never panics, aborts, overflows the stack, loops or allocates without bound.",
  [I], "all byte strings presented to Replica::decode and to the serde implementations",
  "The tests only decode what the library itself encoded; totality is over all byte strings, of which the interesting ones are near-valid.",
  ["src/encoded_replica.rs", "src/encode.rs", "src/replica.rs", "src/run_tree.rs", "src/gtree.rs", "src/run_indices.rs", "src/backlog.rs", "src/version_map.rs", "src/insertion.rs", "src/deletion.rs", "src/text.rs", "src/anchor.rs"],
  [("bounds checked readers", "src/encode.rs"), ("validation of decoded parts", "src/gtree.rs encode module, src/run_tree.rs:1209-1478, src/backlog.rs:404-590")],
  [], ["Replica::decode, serde::Deserialize impls"])

p("C12", "An anchor keeps pointing at its place through all edits",
  "An anchor created between two characters resolves, at the replica that created it and at any later time, to the offset right after the character on its left (left bias) or right before the character on its right (right bias), wherever edits have moved that character; when that character is deleted it resolves to where the character was. Anchors at the very start with left bias and at the very end with right bias stay at the start and the end.",
  [H, I], "all documents, offsets, biases and all later local and remote edits",
  "The tests create anchors in a few fixed documents; resolution depends on the fragment the anchor falls in and on every split, deletion and insertion around it.",
  ["src/anchor.rs", "src/replica.rs", "src/run_tree.rs", "src/run_indices.rs"],
  [("creation", "src/run_tree.rs:64 create_anchor"), ("resolution", "src/run_tree.rs:793 resolve_anchor, src/replica.rs:940")],
  [], ["create_anchor, resolve_anchor"])

p("C13", "Anchors mean the same place at every peer",
  "An anchor created at one peer and resolved at another (also after serialisation, also at forks and decoded replicas) resolves to nothing while that peer does not know the text it refers to, never to a wrong offset and never with a panic; once the text is known, it resolves to the same place among the characters as at its creator, and peers with the same edits resolve it to the same offset.",
  [H, S, I], "all anchors of all histories, resolved at all peers at all times, before and after the text they refer to arrives",
  "The tests resolve a couple of anchors at the peer that made them; cross-peer resolution with partial knowledge has no systematic test.",
  ["src/anchor.rs", "src/replica.rs", "src/run_tree.rs", "src/run_indices.rs"],
  [("knowledge check", "src/replica.rs:563 has_anchor, :940 resolve_anchor"), ("lookup by identity of the character", "src/run_indices.rs:47")],
  [], ["resolve_anchor at other replicas"])

p("C14", "Temporal ranges identify every peer's text exactly once",
  "The text ranges reported for a peer's insertions start at zero for a forked or decoded peer (at the initial length for the creator of the document) and are contiguous in the order the peer made the insertions: each starts where the previous one ended and is as long as the text inserted, so that author plus range identifies any text uniquely for ever. Edits always report the id of the peer that made them, the text yielded from a backlog is the one that was inserted, and deletions, empty edits and remote edits never consume range.",
  [H], "all sequences of local edits interleaved with remote ones, forks, decodes and drains",
  "Users key their own storage of inserted text by these ranges; the tests assert them for a few consecutive insertions.",
  ["src/text.rs", "src/insertion.rs", "src/replica.rs", "src/version_map.rs", "src/deletion.rs"],
  [("temporal clock = own entry of the version map", "src/replica.rs:611 inserted"), ("restart on fork and decode", "src/replica.rs:540 fork, :394 decode")],
  [], ["Insertion::text, Text::temporal_range, inserted_by, deleted_by, backlogged_insertions"])

p("C15", "Out-of-range calls panic without corrupting, in-range calls never do",
  "Inserting, deleting or creating an anchor beyond the end of the document, with a reversed range, or using a zero or equal replica id panics, as documented, and leaves the replica exactly as it was, so that a caller that contains the panic can carry on with it. Calls within the document, at every boundary value, never panic.",
  [I, H, F], "all reachable replica states, all offsets and ranges up to the largest integer, all range forms, all ids",
  "The tests have a handful of should_panic cases on fresh replicas, and none looks at the state after the panic.",
  ["src/replica.rs", "src/utils.rs", "src/version_map.rs"],
  [("argument checks before any change", "src/replica.rs:349, :451, :611"), ("range normalisation", "src/utils.rs:103 range_bounds_to_start_end"), ("panics", "src/utils.rs:134-169")],
  [], ["inserted, deleted, create_anchor, fork, new, decode under catch_unwind"])

p("C16", "Empty edits are inert everywhere",
  "Inserting zero units or deleting an empty range at any position of any document changes nothing at the author, and the resulting edit, integrated any number of times by any peer in any state, before or after serialisation, returns nothing and changes nothing. A session with empty edits sprinkled in is indistinguishable from the session without them.",
  [H, I], "all positions and all points of all histories at which an empty edit can be made or delivered",
  "The tests integrate one empty insertion and deletion; that no clock, counter or backlog is disturbed shows only in the subsequent history.",
  ["src/replica.rs", "src/insertion.rs", "src/deletion.rs", "src/backlog.rs"],
  [("no-op detection", "src/insertion.rs:59 is_no_op, src/deletion.rs:65 is_no_op"), ("early returns", "src/replica.rs:451, :611, :716, :777")],
  [], ["integrate_* of empty edits, all later behaviour compared with a twin without them"])

p("C17", "Concurrently typed runs are not interleaved",
  "When several peers in the same state concurrently type text left to right at the same place, each continuing right after its own previous insertion, then after merging the text typed by each peer is contiguous in every document, whatever the number of peers and of keystrokes and the delivery order, also when a peer receives others' text while typing.",
  [H, S], "all numbers of peers, bursts and delivery orders; all documents the typing starts from",
  "The tests check one literal example of non-interleaving; mixing depends on the timestamps each peer has seen and on the order of arrival.",
  ["src/run_tree.rs", "src/replica.rs"],
  [("sibling order and skipping of a sibling's descendants", "src/run_tree.rs:719 merge_insertion, :890 cmp"), ("Lamport clock", "src/replica.rs:993-1030")],
  [], ["documents after merging"])

p("C18", "The size of a serialised edit doesn't grow with the session",
  "The serialised size of an insertion is bounded by a constant number of variable-length integers, and that of a deletion by such a constant plus one entry per author whose text lies in the deleted range: neither grows with the number of peers that ever took part, with the length of the history, or with how fragmented the document is.",
  [H, C], "all histories, numbers of participants and ids",
  "No test measures the size of an edit; growth with the number of participants shows only in sessions with many.",
  ["src/deletion.rs", "src/insertion.rs", "src/run_tree.rs", "src/version_map.rs"],
  [("version map of a deletion restricted to the authors in its range", "src/run_tree.rs:138 delete, src/replica.rs:451 deleted"), ("packed encodings", "src/insertion.rs:105-300, src/deletion.rs:95-375")],
  [], ["length of the serialised Insertion / Deletion"])

p("C19", "Typing character by character costs no more than pasting",
  "Text that a peer types left to right, unit by unit, is stored as compactly at that peer as the same text inserted at once: the number of runs and the size of the encoded replica are the same up to a constant, wherever in whatever document it is typed.",
  [H, I], "all documents, positions and ways of cutting the typed text into insertions",
  "Memory and snapshot size are what makes the library usable on long sessions; no test observes them, and a missed merge is functionally invisible.",
  ["src/run_tree.rs", "src/gtree.rs", "src/run_indices.rs", "src/replica.rs"],
  [("extension of the run typed last", "src/run_tree.rs:24 append_run_to_another, :911 can_append"), ("run clock", "src/replica.rs:1031")],
  [], ["Replica::encode().as_bytes().len(), number of runs"])

p("C20", "The unit of length is opaque",
  "Lengths and offsets are plain counts: a session in which every length and offset is multiplied by the same factor, however large, gives exactly the same results multiplied by that factor, and no cost, limit or panic depends on the magnitude (up to the integer range).",
  [I, H], "all histories and factors from 1 to 2^40",
  "The tests use short strings; dependence on magnitude (overflow, narrowing, per-unit loops, thresholds) is reached only by long texts.",
  ["src/replica.rs", "src/run_tree.rs", "src/gtree.rs", "src/run_indices.rs", "src/encode.rs", "src/lib.rs"],
  [("Length is an opaque integer everywhere", "src/lib.rs, src/gtree.rs, src/run_indices.rs")],
  [], ["all returned offsets, ranges, lengths and resolved anchors"])

p("C21", "A replica stores no more than it has to remember",
  "The storage of a replica (number of runs, size of its encoding, memory) is bounded by the number of edits it has received and of peers that took part: every insertion accounts for at most two runs, every deletion for a few per author it touches, and every waiting edit for itself only. Nothing without effect makes a replica grow, however often it is repeated: receiving again edits that are integrated or already waiting, draining an empty backlog, empty edits, rejected calls, creating and resolving anchors, forking it; and continuing to type after one's last insertion adds no run.",
  [H, S], "all multi-peer histories, all points in them, all repetitions of calls without effect",
  "A leak or a pointless split is functionally invisible and shows only over long sessions; no test measures the storage of a replica.",
  ["src/replica.rs", "src/run_tree.rs", "src/backlog.rs", "src/run_indices.rs", "src/gtree.rs", "src/encode.rs"],
  [("splitting and joining of runs", "src/run_tree.rs:138 delete, :284 insert, :430 merge of deletions, src/gtree.rs:1340-1400"), ("backlog without duplicates", "src/backlog.rs insert_insertion, insert_deletion"), ("early returns for edits already integrated", "src/replica.rs:716, :777")],
  [], ["number of runs, Replica::encode().as_bytes().len(), memory of a clone"])

p("C22", "Replica ids are opaque",
  "Replica ids are nothing but unique names: the same history with other ids that compare in the same order gives every peer the same documents after every call (or complete drain of a backlog), whatever the magnitude of the ids, their distance from each other and the length of their serialised form.",
  [I, H], "all histories and all order-preserving choices of unique 64-bit ids",
  "The tests use small consecutive ids; dependence on the value of an id (narrowing, hashing, sentinel values, iteration order of maps keyed by id) shows only with others.",
  ["src/replica_id.rs", "src/run_tree.rs", "src/version_map.rs", "src/backlog.rs", "src/run_indices.rs", "src/leb128.rs"],
  [("comparison of ids as the last tie-break", "src/run_tree.rs:890 cmp"), ("maps keyed by id", "src/replica_id.rs ReplicaIdMap")],
  [], ["documents after every call or drain"])

p("C23", "What an edit costs doesn't grow with the document",
  "The work done (and memory allocated) by a local insertion, by the deletion of a piece of one insertion, by integrating such an edit from a peer with the same document, by receiving it again, by queueing it when it arrives early and by creating and resolving an anchor in visible text grows at most logarithmically with the number of edits the document has been through, however those were made (fragmented text, tombstones, several authors, snapshots). Forking, encoding and decoding take work proportional to the number of runs.",
  [H, I], "all ways in which a document can have grown, all positions of the next edit, all sizes",
  "The tests assert results, never costs: a scan over all runs is functionally invisible and makes the library useless for what it is made for, long sessions on large documents.",
  ["src/gtree.rs", "src/run_tree.rs", "src/run_indices.rs", "src/replica.rs", "src/backlog.rs", "src/encode.rs"],
  [("B-tree with lengths per inode and a cursor", "src/gtree.rs:120-420"), ("index from (replica, timestamp) to the run", "src/run_indices.rs"), ("binary searches in the backlog", "src/backlog.rs:140-200")],
  [], ["number of executed code regions and bytes allocated per call"])

p("C24", "Builds with the same protocol number are compatible",
  "As ProtocolVersion documents, peers running different builds of cola with the same protocol number can share a session: each decodes the other's encoded replicas (in any state, with waiting edits) and deserialises the other's edits and anchors with their meaning unchanged, and the session is as good as one among equal builds: peers with the same edits have the same document, everything delivered gets applied, anchors resolve alike, authors and text ranges are read as they were written. A build with another protocol number rejects the other's encoded replicas.",
  [C, H], "all histories of a session, all divisions of its peers among two builds, all snapshots, edits and anchors that cross between them, in every serde format; the other build is a fixed release with the protocol number 3",
  "The tests only read what the same build has just written: a change of layout made on both sides, or of the order among concurrent insertions made at every peer alike, is consistent within one build and passes all of them.",
  ["src/lib.rs", "src/encoded_replica.rs", "src/encode.rs", "src/insertion.rs", "src/deletion.rs", "src/anchor.rs", "src/text.rs", "src/backlog.rs", "src/run_tree.rs", "src/gtree.rs", "src/version_map.rs", "src/replica.rs"],
  [("protocol number at the front of an encoding", "src/lib.rs:276, src/encoded_replica.rs:63"), ("Encode / Decode pairs", "src/*.rs mod encode"), ("order among concurrent insertions", "src/run_tree.rs:888 EditRun::cmp")],
  [], ["documents, offsets and ranges of every peer, resolved anchors, Text of every insertion"])

p("C25", "Safe calls are memory safe, also from several threads",
  "Whatever the public (and wholly safe) API is called with and in whatever order, including calls that panic and made-up bytes given to decoders, the library never executes undefined behaviour: no access out of bounds or after a free, no uninitialised value, no mutation through a shared reference, no data race; and no call ends the process. Replicas, edits, anchors and encoded replicas can be moved to other threads and shared among them: a replica that several threads read at once (length, anchors, encoding, forking, cloning) answers as when one reads it, and a session whose peers each run on a thread of their own is like any other.",
  [H, S], "all sequences of calls of the public API on all documents, all schedules of the threads that hold replicas or share one",
  "A test passes although memory is read after it was freed, an exclusive reference aliases a shared one or two threads race, as long as the value happens to be right; and no test uses threads.",
  ["src/gtree.rs", "src/run_tree.rs", "src/backlog.rs", "src/utils.rs", "src/run_indices.rs", "src/replica.rs", "src/encoded_replica.rs"],
  [("transmuted slices of children while deleting", "src/gtree.rs:1240-1300"), ("union of leaf and inode indices", "src/gtree.rs:2500-2620"), ("backlog borrowed beside its replica", "src/backlog.rs:215-240"), ("runs deleted while they are walked", "src/run_tree.rs:600-710")],
  [], ["Miri, AddressSanitizer, answers of concurrent readers, Send and Sync of the public types"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
