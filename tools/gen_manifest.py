#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
T = {
 "C01": "online comparison of every result with a sorted-map reference model",
 "C02": "online trace monitor of a two-ended iterator against a sequence model",
 "C03": "trace monitor of owning iteration with destructor ledger, storage ledger and heap balance",
 "C04": "online trace monitor of mutable iteration against a sequence model",
 "C05": "structural invariant monitor run on the nodes after every operation",
 "C06": "item lifecycle ledger (construct/return/drop events) checked online and at the end",
 "C07": "AddressSanitizer, LeakSanitizer and Miri (Stacked Borrows and Tree Borrows) over diverse workloads",
 "C08": "instrumented storages checking every node access against a ledger of live identifiers",
 "C09": "online comparison of addressed lookups and insertions with a sequence model",
 "C10": "online comparison of addressed removals and reinsertions with a sequence model",
 "C11": "walk monitor: item addresses compared with positions recomputed from the nodes",
 "C12": "walk monitor: front/back/normalized addresses compared with positions recomputed from the nodes",
 "C13": "differential monitor of a tree and its clone, with clone/drop ledger and node identities",
 "C14": "destructor ledger, storage ledger and heap balance around clear and forget, then a model comparison",
 "C15": "visit-order monitor against the child lists read from the nodes",
 "C16": "offline checker parsing the DOT output back, with fault-injecting writers",
 "C17": "planted structural defects and sound trees given to validate",
 "C18": "comparator-argument monitor with a panic injected at each call",
 "C19": "structural and lifecycle monitors under adversarial comparators",
 "C20": "panic injection at each destructor/clone/visit with ledgers, AddressSanitizer and Miri",
 "C21": "ThreadSanitizer and Miri data-race detection over shared/moved trees, plus auto-trait probes",
 "C22": "online comparison with the key type's own relations",
 "C23": "online comparison of node operations with a sequence model",
 "C24": "online comparison of offset arithmetic and order with signed integers",
 "C25": "cost monitor: comparator, storage and allocator events counted against bounds in the height",
 "C26": "online comparison of array operations with a vector, item ledger under injected panics and forgotten drains, Miri",
 "C27": "sequence models of several trees sharing one monitored storage, observed in full after every storage operation",
}
NOTE = ("Shows the property on the executions observed (counted in the evidence file), generated from VERIF_SEED, in debug and release builds. "
        "Trusts the monitors' models, the Rust toolchain and its sanitizers. ")
X = {
 "C07": "Miri and the sanitizers see only executed paths; one known finding (held iter_mut references) is listed in known-findings.txt.",
 "C17": "Decided in debug builds, where validate exists; release builds only run the sound-tree part.",
 "C21": "The auto-trait part is decided by probes compiled against the crate; races by TSan and seeded Miri schedules, which are samples of the schedules.",
 "C25": "The bounds' constants are fixed with a margin over what the pinned tree shows.",
}
m = dict(version=1, setup_cmd="python3 check.py --setup",
  checks=[dict(property=p, quick_cmd="python3 check.py " + p, thorough_cmd="VERIF_TIER=thorough python3 check.py " + p,
    technique="runtime monitoring: " + T[p], level="exploration", level_note=NOTE + X.get(p, "")) for p in sorted(T)],
  not_applicable=[],
  notes="No hooks in /repo: the monitors observe through the public API, a custom Storage, instrumented items and comparators. See DESIGN.md.")
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1); f.write("\n")
