#!/usr/bin/env python3
"""Writes MANIFEST.json from checks/list.py and the notes below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks.table import CHECKS
TECH = {
 "C01": ("runtime monitor: sign/verify round trips over keys, lengths, histories and forced restarts", "the library's own verifier is the observer; C02/C26 judge that verifier independently"),
 "C02": ("runtime monitor: differential against an exact-integer verifier on constructed adversarial signatures", "keys are solved for so that the norm can be placed exactly; the sides of the bound are observed, not proved"),
 "C03": ("runtime monitor: exhaustive single-bit and structured tampering, rejected unless the exact verifier accepts", "hash collisions aside, every generated change must be refused"),
 "C04": ("runtime monitor: differential against a reference codec, canonicity by re-encoding; ASan+UBSan build", ""),
 "C05": ("runtime monitor: differential against a reference codec over all positions and values", ""),
 "C06": ("runtime monitor: differential against a reference codec over all positions and values", ""),
 "C07": ("runtime monitor: exact-arithmetic oracle on every generated key pair, scripted random tapes", "key generation costs about a second per key; hostile tapes reach the rejection branches"),
 "C08": ("runtime monitor: exact equation and independent resultant gcd on solver outputs", ""),
 "C09": ("runtime monitor: differential against schoolbook multiplication", ""),
 "C10": ("runtime monitor: differential against long-double Gram / LDL tree on every node", "tolerances are rounding-error bounds with margin"),
 "C11": ("runtime monitor: statistical oracle over the 2N sampling residuals recovered from emitted signatures", "false-alarm probability below 1e-9 per run; small distortions below the sample resolution are invisible"),
 "C12": ("runtime monitor: chi-square against exact discrete Gaussians, exact replay of byte tapes; ASan+UBSan build", "false-alarm probability below 1e-9 per run"),
 "C13": ("runtime monitor: quad-precision oracle, acceptance threshold recovered by bisection over the tape; UBSan build", ""),
 "C14": ("runtime monitor: differential against an independent SHAKE256 and rejection loop; ASan+UBSan build", ""),
 "C15": ("runtime monitor and fault injection on the entropy source; stream statistics", "entropy failures are injected at every draw of each call"),
 "C16": ("runtime monitor: offline checker over the log of all generator reads and salts", "uniqueness and uniformity over the signatures of one run"),
 "C17": ("runtime monitor: exhaustive comparison with integer arithmetic", "all operand pairs"),
 "C18": ("runtime monitor: evaluation at roots and schoolbook products as oracle; complete bases", "linearity plus complete bases covers every input of a linear map"),
 "C19": ("runtime monitor: long-double evaluation by definition as oracle; complete bases", "tolerances are rounding-error bounds with margin"),
 "C20": ("runtime monitor: 128-bit integer oracle at all limb boundaries", ""),
 "C21": ("AddressSanitizer + UndefinedBehaviorSanitizer over every entry point with hostile contents; canary buffers", "only executed paths are judged"),
 "C22": ("ThreadSanitizer and sequential-replay comparison over concurrent workloads", "races are judged on the interleavings that ran"),
 "C23": ("differential execution with dirtied memory and histories; MemorySanitizer; valgrind memcheck", "GMP paths are judged by valgrind, the rest by MSan too"),
 "C24": ("runtime monitor with randomness budget and UBSan over malformed secret keys", ""),
 "C25": ("runtime monitor: random bytes per call against calibrated attempt cost", "attempts are inferred from bytes drawn"),
 "C27": ("runtime monitor: chi-square against the exact convolution, position and lag statistics, shared uniqueness set", "false-alarm probability below 1e-9 per run"),
 "C28": ("differential execution: each wrapper against its parts under replayed entropy", "expanded keys are compared to 1e-9, everything else exactly"),
 "C29": ("runtime monitor: differential against an independent conversion, exhaustive in values and positions; ASan+UBSan build", ""),
 "C30": ("runtime monitor: interposed allocator, process state and output compared around every call, entropy-failure injection, painted stacks", "a process may keep what its first calls set up"),
 "C26": ("runtime monitor: exact-integer verifier and strict decoder on every emitted signature; norm statistics", ""),
}
NA = {
 "U01": "Quantifies over all efficient adversaries; no set of observed executions bears on it.",
 "U02": "The code branches on secrets by design and promises nothing about timing; observing executions could only confirm that it does not hold.",
}
checks = []
for p in sorted(CHECKS):
    t, n = TECH[p]
    checks.append(dict(property=p, quick_cmd="python3 run.py " + p, thorough_cmd="VERIF_TIER=thorough python3 run.py " + p,
                       evidence_file="evidence/%s.json" % p, technique=t, level="exploration",
                       level_note=("Holds on the executions listed in the evidence file. " + n).strip()))
na = [dict(property=k, reason=r) for k, r in NA.items()]
for l in open(os.path.join(V, "properties.jsonl")):
    i = json.loads(l)["id"]
    if i not in CHECKS and i not in NA:
        na.append(dict(property=i, reason="No check registered yet."))
json.dump(dict(version=1, setup_cmd="python3 run.py --build-all", checks=checks, not_applicable=na),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
