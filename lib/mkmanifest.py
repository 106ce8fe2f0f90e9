#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the table of claimed properties."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRUST = ("Trusts TLC, the trace specification's reading of the property, and that the driver records what the real code did; "
         "bounded: design model exhaustive within its constants, conformance over the generated executions.")
CLAIMED = {
 "C19": ("TLA+ Structures.tla: TLC design check + trace validation (StructuresTrace) of the real ordered structures", ""),
 "C20": ("TLA+ Batching.tla: TLC design check (safety+liveness) + trace validation (BatchingTrace) of the real batcher/reorder fetcher", ""),
 "C07": ("TLA+ DKV.tla: TLC design check (flush/compaction/checkpoint interleavings) + trace validation (DKVTrace) of the real dkv.DB under step, gated and parallel schedules", ""),
 "C08": ("TLA+ DKV.tla: TLC design check + trace validation (DKVTrace) of checkpoint, crash and restore histories of the real dkv.DB", ""),
 "C09": ("TLA+ DKV.tla: TLC design check + trace validation (DKVTrace) of file create/delete histories against the files retained checkpoints refer to", ""),
 "C17": ("TLA+ TableFormat.tla and WAL.tla: TLC design check + trace validation (TableTrace) of tables written, reopened, looked up and scanned and of WAL cut/truncate/rotate/replay histories of the real code", ""),
 "C18": ("TLA+ Compaction.tla: TLC design check + trace validation (CompactionTrace) of the real compactor's steps on generated layouts with concurrent flushes", ""),
 "C05": ("TLA+ Partitioning.tla: TLC design check + trace validation (PartitioningTrace; MurmurHash3 computed in TLA+) of real key spaces, source-runner routing and operators' persisted keys", ""),
 "C04": ("TLA+ SourceRunner.tla: TLC design check (safety+liveness) + trace validation (SourceRunnerTrace, BatchingTrace) of real source runners, real source runners feeding real operators, and the batching layer beneath", ""),
 "C11": ("TLA+ SourceRunner.tla, Timers.tla, Watermarks.tla: TLC design check + trace validation (WatermarksTrace, TimersTrace, SourceRunnerTrace) of the real watermarker, source runners and operators", ""),
 "C02": ("TLA+ BarrierAlign.tla: TLC design check (safety+liveness) of barrier alignment + trace validation (KeyedStateTrace) of real operators fed concurrently by several source runners, with restores from the checkpoints taken and failing handlers", ""),
 "C03": ("TLA+ KeyedState.tla, KeyCodec.tla: TLC enumeration of the key encoding + trace validation (KeyedStateTrace, DKVTrace) of the state real operators give their handler and of the database beneath, with tiny tables and caches", ""),
 "C06": ("TLA+ Rescale.tla, KeyedState.tla, Partitioning.tla: TLC design check of versions across deployments + trace validation (PartitioningTrace, KeyedStateTrace, DKVTrace) of range assignment, real operators rescaled repeatedly, and databases opened from several checkpoints", ""),
 "C10": ("TLA+ Timers.tla/TimersMC.tla: TLC design check (bounded caches, eviction, reload, firing, checkpoint/restore refine the abstract timer set) + trace validation (TimersTrace) of real timer registries and operators", ""),
 "C12": ("TLA+ SnapshotStore.tla: TLC design check of acknowledgement, publication, crash and restart interleavings + trace validation (SnapshotTrace) of the real snapshot store under good, repeated, late, foreign and concurrent acknowledgements", ""),
 "C13": ("TLA+ SnapshotStore.tla, DKV.tla: TLC design check + trace validation (SnapshotTrace, DKVTrace) of the real snapshot store over held back, failing and cut off storage operations and of the databases' retention", ""),
 "C14": ("TLA+ SnapshotStore.tla: TLC design check + trace validation (SnapshotTrace) of real savepoints of real databases restored with working storage wiped", ""),
}
exec(open(os.path.join(V, "lib", "claimed.py")).read()) if os.path.exists(os.path.join(V, "lib", "claimed.py")) else None
NA = {}
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "bin/setup", "checks": [], "not_applicable": []}
m["hooks"] = {"guard": "verif", "enable": "go build -tags verif", "source_commits": ["092a6d2eff903cc03b9e8047eca47ead39cb4889"]}
for p in props:
    if p in CLAIMED:
        t, note = CLAIMED[p]
        m["checks"].append({"property": p, "quick_cmd": "bin/check " + p, "thorough_cmd": "bin/check %s thorough" % p,
            "evidence_file": "evidence/%s.json" % p, "technique": t, "level": "model_checking",
            "level_note": (note + " " if note else "") + TRUST})
    else:
        m["not_applicable"].append({"property": p, "reason": NA.get(p, "check not built yet (in progress); the technique applies")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
