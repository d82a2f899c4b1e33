#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: per property the deciding technique and what it assumes."""
import json, os
T = {
"C01": ("round-trip monitor: generated values and value streams through the real codec, compared with an independent reference encoder/decoder; fault-injecting writers", "Every generated value observed to come back equal; values are sampled (boundary biased), not enumerated."),
"C02": ("hostile-input monitor: mutated, truncated, deep and length-lying byte strings decoded in a worker process under heap accounting, chunking readers compared", "Crashes, stack or memory exhaustion and chunking differences of the real decoder are observed; inputs are sampled."),
"C03": ("accessor oracle: every accessor on every held class, given and decoded, against an independent exactness rule", "All accessor x class pairs with boundary values; other values sampled."),
"C04": ("wire monitor: bytes of the codec and of every packet kind on live connections judged by an independent decoder and golden vectors", "Format is judged against a reference written from the tag table, independent of the code."),
"C05": ("execution ledger over stress: every call carries an id, executions and results are matched exactly once", "Interleavings are those met under stress, several GOMAXPROCS and the race detector."),
"C06": ("event-log monitor: overlap detector in method bodies, per-caller order and progress oracles under local and remote load, race detector", "Interleavings are sampled by stress; overlap is also visible to the race detector through an unlocked probe."),
"C07": ("timing monitor: method-side and caller-side monotonic clocks, never-early and still-running oracles, late results traced", "Lower bounds are exact; promptness is judged against ticks of a heartbeat, so machine load does not matter."),
"C08": ("fault-injection monitor: bad calls between good ones, process survival, execution ledger", "Kinds of bad calls are enumerated, their order and mix sampled."),
"C09": ("value oracle: arguments and results across docks compared with those of the same call made locally and with a reference conversion", "Types and values sampled over the convertible classes."),
"C10": ("request/reply ledger over TCP, cutting proxies and the mock network, with fake docks that reorder, delay and duplicate replies; race detector", "Schedules are sampled; identifiers in flight are read off the wire."),
"C11": ("discovery monitor: random start orders and placements, every waiting call must complete at the right carrier; announcements read off the wire", "Orders and placements are sampled; liveness is bounded by heartbeat ticks."),
"C12": ("port ledger over hub histories from several loopback hosts with random black lists, to exhaustion", "Every port answered is checked; histories are sampled, exhaustion is complete."),
"C13": ("model-based oracle over hub histories of fake docks (exact when sequential, interval when concurrent)", "Assumes a peer registers a feature once and before declaring it ready."),
"C14": ("delivery ledger: exactly once, in order, intact, over TCP, segmenting relays and mock network; several serializers; race detector", "Message sequences and segmentations are sampled."),
"C15": ("callback-trace checker over connection histories with raw clients, resets and closes", "Histories are sampled; a connect that overlaps Close may or may not be reported."),
"C16": ("hostile-peer monitor: structured and random attacks, floods and descriptor exhaustion against live hub and dock processes with control peers", "Attacks sampled from a grammar of the protocol; service to control peers is judged by heartbeat ticks. Hostile peers use feature names and host addresses of their own."),
"C17": ("Go race detector and crash monitor over mixed stress of all exported operations", "Races are reported for the accesses executed; interleavings are those met."),
"C18": ("life-cycle trace checker with a fake hub that delays acceptance, blocking features, child processes for signals", "Histories are sampled; both real and fake hub."),
"C19": ("differential run of generated code: random interface trees through the real generator, compiled and driven against recording features, local and remote", "Programs are sampled from the stated subset."),
"C20": ("fault injection: peers killed, cut and reset at chosen protocol points; call outcomes and executions recorded", "Crash points of the protocol are enumerated, their timing within is sampled."),
"C21": ("resource monitor: goroutines, descriptors, processor time and live heap before and after cycles of work", "Growth is judged after quiescence over many repetitions."),
"C22": ("model-based oracle over random operation sequences", "Sequences sampled; items compared with a reference set."),
"C23": ("identity oracle over random and concurrent visits and registrations, race detector", "Schedules sampled."),
}
NA = {}
here = os.path.dirname(os.path.abspath(__file__))
done = [l.strip() for l in open(os.path.join(here, "claimed.txt")) if l.strip()]
m = {"version": 1, "setup_cmd": "./check.sh --build /tmp/vsetup && rm -rf /tmp/vsetup", "checks": [], "not_applicable": []}
for k in sorted(T):
    if k in done:
        m["checks"].append({"property": k, "quick_cmd": "./check.sh " + k, "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + k,
            "technique": T[k][0], "level": "exploration", "level_note": T[k][1]})
    else:
        m["not_applicable"].append({"property": k, "reason": NA.get(k, "its check is still being built")})
m["notes"] = "All checks build /repo's working tree with and without the Go race detector and watch its execution in worker processes. No hooks in /repo."
json.dump(m, open(os.path.join(here, "..", "MANIFEST.json"), "w"), indent=1)
