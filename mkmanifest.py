#!/usr/bin/env python3
"""Writes MANIFEST.json from the list below."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
TRUST = " The verdict covers the executions of the run only (seeded, so repeatable); it trusts the reference model in the harness, goleveldb, gowaves' types and the stand-in for the kairos timer."
T = {
 "C01": ("run-time monitor: reference model of the block tree over random delivery histories", "exploration", "Every stored field of every block is compared with an independent model after thousands of random histories (7 shapes, extreme base targets and timestamps, reopenings)."),
 "C02": ("run-time monitor: leash model over random multi-peer histories", "exploration", "All leashes are compared with the model after every delivery, refusal, move and reopening."),
 "C03": ("run-time monitor: head tracker checked after every delivery", "exploration", "The head set, head numbers and active heads are checked after every single delivery against the model and the previous observation."),
 "C04": ("run-time monitor: independent fork definition compared with reported forks", "exploration", "Forks, single forks, last common blocks and statistics are compared with a naive parent walk over random trees, including systematic pairs of branch heights."),
 "C05": ("run-time monitor: independent parent walk compared with ancestor lists and generator tallies", "exploration", "Random trees, start blocks and counts (zero, negative, huge); memory use is observed through allocation counters."),
 "C06": ("fault injection: journal cut at all operation boundaries and sampled offsets, SIGKILL of a running process; recovered state compared with the admissible states", "fault_enumeration", "Every operation boundary and first/middle/last byte of each operation's journal records are enumerated per history; instants of SIGKILL and histories are sampled."),
 "C07": ("Go race detector and online consistency monitors under concurrent stress", "exploration", "Race detector plus monitors of per-peer monotonicity and snapshot consistency over stressed schedules; final state compared with the model."),
 "C08": ("fault injection: one table of a closed database is damaged; every answer compared with that of the undamaged database", "exploration", "After each sampled damage all queries of both storages are asked and compared with the undamaged answers; only equal answers and errors pass. Deliveries on the damaged storage are monitored as well."),
 "R01": ("run-time monitor: hostility model over random session histories", "exploration", "States, listings and offers of all addresses are compared with a model after every step."),
 "R02": ("run-time monitor in virtual time: model of due addresses compared with every hand-out", "exploration", "Virtual time makes hours of histories cheap; times within one second of the boundary are left undecided."),
 "R03": ("run-time monitor: address book model over random announcements", "exploration", "Each announcement's count and the whole address book are compared with a model."),
 "R04": ("run-time monitor: version-cycle model over random offers and outcomes", "exploration", "Each offer is compared with the model; random version sets and restarts."),
 "R05": ("run-time monitor: session/record model, restarts and journal truncation", "exploration", "All records and listings are compared with the model after every step, after restarts, and after journal truncation with any of the admissible past values."),
 "R06": ("Go race detector and conservation monitors under concurrent stress", "exploration", "Race detector plus conservation monitors (exactly-once counting, exclusive hand-outs, distinct offers) over stressed schedules."),
 "L01": ("run-time monitor in virtual time: progress oracle over scripted misbehaving peers", "exploration", "The real loader, registry and block storage run in virtual time with fake peers that misbehave in all listed ways; bounded progress is asserted in virtual time."),
 "L02": ("run-time monitor in virtual time: trace checker of requests and applied blocks", "exploration", "Every request sent and every leash movement is checked against a specification automaton fed with the same messages."),
 "D01": ("run-time monitor in virtual time: message effects compared with a composed model", "exploration", "The real distributor is fed random messages from many fake peers; registry, block storage, answers and loader channels are compared with a model after each batch."),
 "D02": ("run-time monitor: structured and raw byte fuzzing of the running components ", "exploration", "Survival, liveness of other peers, queries, API serialization and reload are observed after hostile inputs."),
 "D03": ("run-time monitor: shutdown injected at random moments, in virtual time and on the real binary", "exploration", "Bounded termination of the assembled components and the process, and persistence of what was accepted."),
 "A01": ("run-time monitor: HTTP answers compared with model", "exploration", "Black-box HTTP answers are compared with the reference models in random states."),
 "A02": ("run-time monitor: random and hostile HTTP requests, in all states and concurrently with updates, under the race detector", "exploration", "Status, content type, JSON form and internal consistency of every answer are observed."),
 "G01": ("run-time monitor: command line fuzzing against an independent specification", "exploration", "Random, valid and malformed option values; the returned parameters or error are compared with an independent parse; the real binary is probed too."),
 "N01": ("run-time monitor: real TCP sessions against the assembled components, under the race detector", "exploration", "Bytes on sockets, dials and connection lists are observed in a private network namespace with scaled timers."),
 "N02": ("run-time monitor: sockets and goroutines of the real program over rounds of sessions that come and go", "exploration", "The descriptor table of the process and the goroutine count it reports are compared before and after every round in a private network namespace."),
}
# Properties whose check is not there yet.
PENDING = {p: "the check is still being built" for p in T if not os.path.exists(os.path.join(HERE, "harness", p.lower() + "_test.go"))}
checks = []
for p, (tech, level, note) in T.items():
    if p in PENDING:
        continue
    checks.append(dict(property=p, quick_cmd=f"python3 check.py {p}", thorough_cmd=f"VERIF_TIER=thorough python3 check.py {p}",
                       evidence_file=f"evidence/{p}.json", technique=tech, level=level, level_note=note + TRUST))
m = dict(version=1, setup_cmd="python3 check.py --setup", checks=checks,
         not_applicable=[dict(property=p, reason=r) for p, r in PENDING.items()],
         notes="No hooks are needed in /repo: the harness is laid over package main with go's -overlay, the kairos timer is replaced through -modfile.")
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks", len(PENDING), "pending")
