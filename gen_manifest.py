#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed properties below."""
import json
CLAIM = {
 "C09": "Every sequence of tree operations within the bounds; arbitrary symbolic path elements.",
 "C10": "Every interleaving (partial-order reduced) of the listed small concurrent programs with symbolic values; happens-before race detection on all repo memory accesses.",
 "C06": "Symbolic query/update path elements and lengths, several clients and operation sequences through match.Match and the subscription registration code.",
 "C19": "All paths, queries, scalars and pairs of TypedValues of bounded shape with symbolic strings, numbers and key-map iteration orders.",
 "C11": "Every interleaving (partial-order reduced) of inserters, one consumer and Close over coalesce.Queue with symbolic item identities.",
 "C01": "The collector program (configuration, manager, cache, Subscribe server) between scripted targets and the client library or the CLI, with symbolic path elements, keys, origins and values: after every step the client's view equals the target's state; every way to hand a request to the CLI gives the same request and display.",
 "C02": "All operation sequences of bounded length with symbolic timestamps, values, clock and threshold against a reference model.",
 "C03": "All notification shapes of bounded size with symbolic paths, values and timestamps; the replayed feed is compared with the cache content after every call.",
 "C12": "Symbolic notifications, subscribe requests and response streams of bounded size (every combination of missing parts, encodings, value types) through cache ingest, Server.Subscribe, the client receive path and the CLI display; no panic, rejected messages change nothing.",
 "C14": "Bounded histories of one target with symbolic paths, values and timestamps followed by a reset or removal, complete observable state of the other target compared; streaming subscribers; interleavings of operations on two targets.",
 "C15": "Bounded histories with symbolic values and timestamps against a counter model; symbolic latencies; interleavings (bounded preemptions) of the refreshes with the update stream with race detection.",
 "C13": "All scripts of up to 2 (3 short) sessions per target with every outcome of dial, stream, messages and end; interleavings (partial-order reduced) of a streaming session with Reconnect, Remove, Add and asynchronous timer expiry; real manager and connection manager over an in-memory transport.",
 "C16": "Every interleaving (partial-order reduced) of 3 requesters (4 in thorough) with symbolic dial outcomes, cancellation, double release; operation histories of length 5 (7) over two addresses against a reference count.",
 "C17": "All pairs of configurations of two targets and two requests with symbolic revisions, settings and contents, chains of three for one target, every invalid kind, base configurations, concurrent loads.",
 "C18": "All scripts of attempts with every outcome followed by Close; interleavings (partial-order reduced) of Close with Subscribe in every phase, with virtual time; real client stack over an in-memory transport.",
 "C04": "Histories with symbolic paths, values, timestamps and requests before and after the start of a subscription with stalls at any step, replay against the cache content; interleavings of changes with the start of a subscription and of two writers (partial-order reduced or bounded preemptions).",
 "C05": "ONCE and POLL requests with symbolic paths, globs, origins and key values over symbolic content (prefix splits, atomic containers, metadata), changes between and during polls and while a subscriber is stalled; interleavings (partial-order reduced) of a walk with a writer.",
 "C07": "Any table of users and targets, symbolic requests over symbolic content in every mode, changes and polls afterwards, failing authorisation, two users at once with stalls; interleavings (bounded preemptions) of a stream with changes of allowed and denied targets.",
 "C08": "Histories with symbolic values and timestamps with two subscribers that stall and resume at any step against a model of the backlog (entries, newest values, duplicate counts); operations while a send of any phase and mode is stalled; stalls around the send timeout in virtual time; interleavings (partial-order reduced) of writers with stalled and live subscribers.",
 "C20": "All value kinds with symbolic configurations (ranges, deltas, timestamps, options, repeats) and arbitrary pseudo-random draws, order of up to 3 values with symbolic timestamps, invalid configurations, the fake target's stream with its sync marker.",
}
NA = {}
TECH = "symbolic execution of the go/ssa of the real code (gosym) + z3/cvc5; counterexamples replayed natively"
ids = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
checks = []
for i in ids:
    if i in CLAIM:
        checks.append({"property": i, "quick_cmd": f"bash run.sh {i} quick", "thorough_cmd": f"bash run.sh {i} thorough",
            "technique": TECH, "level": "model_checking",
            "level_note": CLAIM[i] + " Bounded: see evidence/%s.json for bounds, functions encoded, queries. Trusts go/ssa, the gosym interpreter and its library models (spot-checked by native replay each run), and z3." % i})
na = [{"property": i, "reason": NA.get(i, "check under construction")} for i in ids if i not in CLAIM]
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na}, open("/verif/MANIFEST.json", "w"), indent=1)
