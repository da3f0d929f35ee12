#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the check table below."""
import json, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
T = {
 "S01": "property-based testing: generated sessions, round-trip agreement oracle, exhaustive small groups",
 "S02": "property-based testing: generated alterations (mutation of secrets and transcript), rejection oracle",
 "S03": "property-based testing: generated multiples and near-multiples of N, exact-classification oracle",
 "S04": "property-based testing: all bit flips, prefixes and extensions of proofs, acceptance-iff-equal oracle",
 "S05": "property-based testing: differential against an independent big-integer reference model",
 "S06": "property-based testing: metamorphic (zero padding, other encodings) and canonical-form oracles",
 "S07": "property-based testing: differential with RFC 5054 values, random-witness primality search",
 "K01": "property-based testing: generated sessions, agreement oracle",
 "K02": "property-based testing: generated one-difference pairs and transcript edits, key-separation oracle",
 "K03": "property-based testing: structured message generator, differential with an independent decoder",
 "K04": "property-based testing: differential against an independent python-spake2 style peer",
 "K05": "property-based testing: toy Group implementations (exhaustive scalars) against an algebraic model",
 "K06": "property-based testing: generated identities, exact-rendering and secret-independence oracles",
 "A01": "property-based testing: generated configurations and sessions, agreement oracle",
 "A02": "property-based testing: generated mismatches and in-flight alterations, no-shared-key oracle",
 "A03": "property-based testing: all bit flips and edits of authenticators, acceptance-iff-equal oracle",
 "A04": "property-based testing: neutral and non-neutral points injected at every step, exact-error oracle",
 "A05": "property-based testing: generated SSIDs and nonces, length and binding oracles",
 "A06": "property-based testing: generated databases and probe sequences, indistinguishability and stability oracles",
 "A07": "property-based testing: generated input lengths and hasher outcomes, recording-hasher oracle",
 "A08": "property-based testing: serialisation round trips in several formats, malformed-byte fuzzing",
 "A09": "property-based testing: differential against independent implementations of both roles",
 "A10": "property-based testing: generated blinded logins, metamorphic equality and independence oracles",
 "A11": "stateful model-based testing: generated interleaved histories against a reference map",
 "A12": "stateful model-based testing: generated key-pair histories, stored-pair oracle",
 "X01": "property-based testing: RNG-stream perturbation (metamorphic sensitivity) and freshness histories",
 "X02": "fuzzing: generated hostile peer input at every receiving function, panic oracle",
 "X04": "property-based testing: generated wrong proofs, metamorphic oracle on executed-instruction counts (in-process single-stepping)",
 "X05": "property-based testing: stateful generation of histories over recurring values on shared objects, one or more threads, against memoryless models",
 "X03": "differential property-based testing: probe programs built with each feature set, equal transcripts",
}
ASSUME = {
 "S": "Trusts num-bigint, the digest crates and the harness's own model.",
 "K": "Trusts curve25519-dalek arithmetic; curve membership, HKDF and protocol constants are recomputed independently.",
 "A": "Trusts curve25519-dalek ristretto arithmetic and hash-to-group, and the harness's own peers.",
 "X": "Trusts the harness's drivers.",
}
have = set(open(os.path.join(root, "harness/src/registry.rs")).read().split("&[&str] = &[")[1].split("]")[0].replace('"', "").replace(",", " ").split())
NA = {}
checks = []
for p in props:
    i = p["id"]
    if i in NA: continue
    if i not in have:
        NA[i] = "check not built yet"; continue
    checks.append({"property": i, "quick_cmd": f"./run.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough ./run.sh {i}",
      "evidence_file": f"evidence/{i}.json", "technique": T[i], "level": "exploration",
      "level_note": "Searches generated inputs with an explicit oracle; no violation found is evidence within the explored cases, not proof. " + ASSUME[i[0]]})
m = {"version": 1, "setup_cmd": "./run.sh build", "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
     "notes": "No hooks in /repo: all randomness, hashers, digests, groups and databases are injected through public type parameters. Findings: known_findings.txt."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
