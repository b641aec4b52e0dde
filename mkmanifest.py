#!/usr/bin/env python3
"""Writes MANIFEST.json from the claimed list below."""
import json
ASSUME = ("Seeded search, not exhaustive: a run is one exactly repeatable schedule of real code built from /repo's tree; "
          "the Go runtime's scheduler, clock, timers, select and map order are replaced by the simulator. ")
CLAIM = {
 "C01": "Oracle: independent reference register/map compared call by call. Trusts the reference semantics of masks and options in sim/props/model.go.",
 "C02": "Oracle: linearizability of the recorded history against the reference of C01 plus increment conservation; histories are small (<= about 12 calls).",
 "C03": "Oracle: fold of the received events equals Get/List at quiescence.",
 "C04": "Oracle: the writer's log (serial writes) predicts every event field; the subscriber's stream must equal it from the subscribe point on.",
 "C07": "Oracle: a ledger holding every message that crossed the API boundary with its bytes at that instant, re-compared after every later operation; inputs are scribbled over after each write; reads leave Get/List unchanged. Core resources, every trait model and every trait server.",
 "C08": "Oracle: the filtered stream equals the projection of the commit log by the predicate; its fold equals List with the predicate.",
 "C09": "Oracle: fold of the lossy stream equals fold of the full sequence, old values chain per id, write latency in simulated time is bounded as stated.",
 "C10": "Oracle: after a cancel the channel closes, calls return no later than the cancel explains, live listeners see every event once and in order, and no goroutine remains; on the bus, resources and every trait model.",
 "C17": "Oracle: the strategy contract evaluated on what the scripted members did (outcome, virtual completion instant, observed cancellation), including leak and panic checks.",
 "C19": "Oracle: an executable reference of the mode operations; exact step by step with one caller, linearizability of small histories with several; direct invariant checks on every listing and stream prefix.",
 "C20": "Oracle: small executable specifications per model, exact step by step with one caller, linearizability of small histories and invariants of every streamed value with several; unit conversion is seeded generation, no schedule bears on it.",
 "C11": "Oracle: the Go race detector, on executions whose schedule the simulator decides: it judges by happens-before, not by whether the accesses collided, and the harness' own goroutines share nothing with each other but their start and end. Callers keep reading every message they were handed or passed in, their own inputs are changed only where the API allows it. The detector remembers the last few accesses of each word, so a race far apart in time may need another seed.",
 "C12": "Oracle: scripted, recording connections behind the registered clients say which client got which request, and what the caller must see of the response, status, header, trailer and at which moment; the registry is compared with a map, call by call or by linearizability, and its callbacks with the transitions the results imply. The build runs the repository's generators on the linked API descriptors, and what they produce goes through the same checks as what is checked in.",
 "C13": "Oracle: the same commands run one at a time against real gRPC over bufconn in the same simulated process; free-running calls are judged against what gRPC guarantees for any call (order, outcome, header and trailer, isolation, no leak). Where gRPC itself races (cancel against an unread status) both outcomes are accepted; plain context errors count as their statuses.",
 "C14": "Oracle: one register per item: each response is compared with the next Get, masked Gets with an independent projection, streams with the sequence of values; where an update should do no more than its masks say, its result with a reference; concurrent callers by linearizability. Values overtaken before the streams caught up may be skipped, as the unbuffered default allows; open/close and ramping light streams may show steps in between.",
 "C16": "Oracle: streams under an equivalence judged with the comparer itself; comparers judged against proto.Equal and arithmetic references on generated pairs (the pure part is seeded generation, no schedule bears on it).",
}
PENDING = "Check under construction; not claimed yet."
NA = {
 "C05": "Pure function of (old message, written message, masks): no schedule, clock, I/O or fault bears on it, so there is nothing for a simulator to decide.",
 "C06": "Projection is a pure function of (message, read mask); no schedule, clock, I/O or fault is involved.",
 "C15": "Paging is a pure function of fixed contents, page size and token (the property itself holds the contents fixed): no schedule, clock, I/O or fault is involved.",
 "C18": "Algebra of timelines and segments: pure functions with no schedule, clock, I/O or fault.",
}
ALL = ["C%02d" % i for i in range(1, 21)]
m = {"version": 1, "setup_cmd": "./setup", "checks": [], "not_applicable": []}
for p in ALL:
    if p in CLAIM:
        m["checks"].append({
            "property": p, "quick_cmd": "./check " + p, "thorough_cmd": "VERIF_TIER=thorough ./check " + p,
            "evidence_file": "evidence/%s.json" % p,
            "technique": "deterministic simulation: seeded schedule and fault search over the real code",
            "level": "exploration", "level_note": ASSUME + CLAIM[p]})
    else:
        m["not_applicable"].append({"property": p, "reason": NA.get(p, PENDING)})
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
open("/verif/MANIFEST.json", "a").write("\n")
