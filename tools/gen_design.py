#!/usr/bin/env python3
"""Writes DESIGN.md: the text below plus, per property, the bounds, assumptions and stand-ins stated in its harness."""
import json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

HEAD = open(os.path.join(ROOT, "tools", "design_head.md")).read()
TAIL = open(os.path.join(ROOT, "tools", "design_tail.md")).read()

ORACLE = {
"C01": "Values written through the real writers are read back through the real reader; the bytes are also compared with the big- or little-endian layout computed from the value by shifts.",
"C02": "A stream whose every call may fail or fall short decides the outcome; the oracle counts the bytes really delivered: success is allowed only if all of them were.",
"C03": "A three-line model (array, position) of a read-only file.",
"C04": "The underlying stream records the offset of every transfer; the oracle checks it lies in the window at the position the model holds.",
"C05": "The same operations on the unbuffered content: results, positions and bytes must agree; after a failure either an error or the right bytes.",
"C06": "A flat byte array kept beside the segments; every read, write, bit operation and copy is repeated on it.",
"C07": "Byte loops over the flat content; hashes against the hash of the flat copy.",
"C08": "The same operation on the plain UTF-8 string, written over code point boundaries.",
"C09": "Unsigned lexicographic byte comparison; equality and hash must follow from it.",
"C10": "The payload the slot was built from.",
"C11": "A vector of bytes per buffer; ownership through the pool's statistics and the memory checks of the engine.",
"C12": "Sums over the live blocks; contents kept in an array.",
"C13": "The same sums at the join of the threads; every interleaving within the preemption bound.",
"C14": "Membership of the inserted hashes; reload keeps every answer.",
"C15": "The predicate evaluated row by row on the plain values.",
"C16": "Any byte string is a legal input: memory safety, no exception and bounded memory are what is asserted.",
"C18": "Round trip, and an independent reference decoder for arbitrary bytes.",
"C19": "Membership of one arbitrary row number in inputs and result (an arbitrary witness makes this equality of sets), order and disjointness of the result.",
"C20": "Transitive closure of pairwise overlap.",
"C21": "Greedy reference with 128-bit sums.",
"C22": "A vector of pairs in insertion order.",
"C23": "Membership of an arbitrary probe id computed from the history; cardinality, order and seek from a sorted list.",
"C24": "As C23 with 64-bit ids.",
"C25": "Equality and membership after decoding, stream position at the end of the encoding.",
"C26": "Three-valued evaluation of the expression at one arbitrary row: a row the exact evaluation keeps must be kept.",
"C27": "As C26 for lists of literals and default answers.",
"C28": "Membership of an arbitrary row id in both operands and the result.",
"C29": "A map from row id to the bits of its score.",
"C30": "Equality of ids and scores after reload; every truncation and every other version must be refused.",
"C31": "Murmur3 written out on the byte array.",
"C32": "128-bit arithmetic on nanoseconds.",
"C33": "Field equality after decoding; truncations and other versions are refused.",
"C34": "Field equality after decoding, per version.",
"C35": "The stored code and the short name of each value as listed in the format.",
"C36": "A reference unescape; no unescaped special character in the path; different specs give different paths.",
"C37": "Minimum, maximum and null count over the list of collected values.",
"C38": "A map of sums; for threads, the sum of both.",
"C39": "A plain pair (code, message) per object.",
"C40": "A map of names; for threads, one instance whose fields are seen by every thread, no data race.",
"C41": "The call counter of the model; for threads, exactly one call fires in exact mode.",
"C42": "The modelled operating system keeps what is really on disk, in the page cache and in stdio buffers; success must agree with it and every failing call must be reported.",
"C43": "A sequential queue and the existence of a linearization of the observed results.",
"C44": "A counter per task; shutdown returns, no task is lost or run twice.",
"C45": "A counter per guard.",
"C46": "Shifts and masks; involution.",
"C47": "The content of the stream; an error whenever a call failed or too few bytes came.",
"C48": "Membership of an arbitrary row id; ranges are ordered, apart and not adjacent.",
"C49": "Byte loops over the given ranges, bytes outside unchanged.",
"C50": "The factory the scheme selects, which records the calls it gets; the same instance for the same key.",
"C51": "Readers' view of the table (live files computed from the published snapshots by the harness) before and after; each commit is in the table exactly once at the end; record counts, row ids, watermark and log offsets recomputed over the chain of snapshots.",
"C52": "Highest sequence number per key over all runs, keys in order; a failing run gives an error.",
"C53": "Files reachable from each snapshot, computed by replaying its deltas in the harness; the retention policy recomputed from the settings.",
"C55": "What the modelled disk holds after a crash, failure or race: nothing, the old file or the complete content; two successful stores never share a target.",
"C56": "Each aggregation function written as a fold over the versions of the key.",
"C57": "Each operator written over nullable values with SQL's null rule; a row that matches forces the statistics test to keep its file.",
"C58": "The values written; two ways of writing the same values give the same bytes, hash and equality.",
"C59": "Every file is in exactly one split; files whose key (or row id) ranges overlap are in the same one; runs are sorted and disjoint; size limits.",
"C60": "A reference comparison per type; antisymmetry on pairs and transitivity on triples.",
"C61": "Smallest and largest existing id in the modelled directory.",
"C62": "Files each snapshot needs, computed as in C53; ages, names and the retain condition of the extra files are known to the harness.",
}
REASON = {
"C54": "Not applicable: the map is a thin wrapper over oneTBB, whose lock-free runtime is installed only as a shared library, so there is no source to encode.",
}
SEEDED = {}
sd = os.path.join(ROOT, "seeded")
for s in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
    m = json.load(open(os.path.join(sd, s, "meta.json")))
    SEEDED.setdefault(m["property"], []).append((s, m))
out = [HEAD.rstrip(), "", "## The properties", "",
       "Cost is the wall time of the quick tier on 8 cores when last measured; bounds, assumptions and stand-ins are those stated at the top of each harness.", ""]
cost = json.load(open(os.path.join(ROOT, "tools", "cost.json")))
for line in open(os.path.join(ROOT, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    out.append("### %s %s" % (i, p["title"]))
    h = os.path.join(ROOT, "harness", i + ".cpp")
    if not os.path.exists(h):
        out += ["", REASON[i], ""]
        continue
    src = open(h).read()
    f = lambda k: "; ".join(x.strip() for x in re.findall(r"^// vp-%s: (.*)$" % k, src, re.M))
    out += ["", "* Oracle: " + ORACLE[i], "* Bounds: " + f("bounds")]
    if f("assume"):
        out.append("* Assumes: " + f("assume"))
    if f("stubs"):
        out.append("* Stand-ins: " + f("stubs"))
    out.append("* Beyond the tests: " + p["why_tests_cant"] if "why_tests_cant" in p else "* Quantified over: " + p["quantifier"]["text"])
    if i in cost:
        out.append("* Cost: %s s" % cost[i])
    out.append("")
out.append("## Planted bugs and what catches them\n")
out.append("Each was written from the property text and the code, builds, passes the stable tests, and is caught by the check of its property with a replayed counterexample.\n")
out.append("| bug | property, caught by | needs |\n|---|---|---|")
for i in sorted(SEEDED):
    for s, m in SEEDED[i]:
        out.append("| %s | %s | %s |" % (s, i, m["needs"].replace("|", "\\|")))
out += ["", "## Genuine defects found", "", "All were repaired in small `fix:` commits in /repo; the check of the property reported each before the repair, with a replayed counterexample.", ""]
for line in open(os.path.join(ROOT, "KNOWN_FINDINGS")):
    m = re.match(r"(fixed|known): property=(\S+) (\S+) (.*)", line)
    if m:
        out.append("* %s (%s %s): %s" % (m.group(2), m.group(1), m.group(3), m.group(4)))
out += ["", TAIL.rstrip(), ""]
open(os.path.join(ROOT, "DESIGN.md"), "w").write("\n".join(out))
