#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md (documentation only)."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {
 "c03-remembered-outputs": "missed first: in-place alterations of the accepted batch added",
 "c06-round-count": "missed first: transcripts with other round counts added",
 "c11-stale-zero": "missed first: `MimcReach` states added",
 "c22-octal": "missed first: leading zeros and signs added",
 "c02-zero-claim": "missed first: special batches and outputs added",
 "c23-repeating-random": "missed first: larger random arrays added",
 "c01-large-batch": "missed first: batches of 2^15 to 2^18 added",
 "c06-deferred-sums": "written with the two-round errors that catch it",
 "c06-limbs": "written with the near misses that catch it",
 "c02-summed-input-claims": "written with the rebalanced last claims that catch it",
 "c10-header-cache": "missed first: layer tables asked for twice",
 "c18-large-batch": "missed first: batches of 2^5 added",
 "c23-fixed-seed": "written with the processes that catch it",
 "c23-shared-entropy": "written with the concurrent callers that catch it",
 "c19-append-alias": "C14 and C15 missed it first: neighbouring points in one array added there",
}
rows = []
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    i = os.path.basename(os.path.dirname(d)); m = json.load(open(d))
    rows.append(f"| {i} | {m['property']} | {NOTES.get(i,'')} |")
p = V + "/DESIGN.md"; s = open(p).read()
a = s.index("| planted bug | caught by | note |"); b = s.index("\n\n", a) if "\n\n" in s[a:] else len(s)
s = s[:a] + "| planted bug | caught by | note |\n|---|---|---|\n" + "\n".join(rows) + s[b:]
open(p, "w").write(s)
