#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
T = "deterministic simulation with fault injection: seeded search over "
NOTE = " Seeded search, not exhaustive: a pass means no violation among the runs counted in the evidence file. Trusted: the simulator's allocator/disk/clock model, AddressSanitizer, clang."
C = {
 "C01": ("library calls x failing allocation patterns", "Real library code under a simulated allocator that fails chosen allocations; AddressSanitizer and a step budget detect memory errors and hangs; the undisturbed call is the reference."),
 "C02": ("library calls x failing allocation patterns, ownership ledger", "Simulated allocator keeps the ledger of live blocks; after every call exactly the returned block may remain."),
 "C03": ("library calls x failing allocations x retries", "Arguments are compared byte by byte before and after each (failing) call, and every failure is followed by a retry compared with the undisturbed result."),
 "C04": ("thread interleavings at basic-block granularity", "Threads run under a baton scheduler whose decisions are drawn from the seed; each result is compared with the call made alone. Sequential consistency is assumed (no weak-memory effects)."),
 "C05": ("call histories, memory contents, clocks and builds", "The same call in two simulated processes that differ in everything that must not matter."),
 "C06": ("pipelines x disk and console faults while saving", "The real command line tool on a simulated disk; the saved file is decoded independently and compared with a reference interpretation of the pipeline."),
 "C07": ("input files x read faults", "The real command line tool on a simulated disk that fails or fragments reads; reference as in C06."),
 "C08": ("kill points, allocation and read faults, bad arguments", "The simulated disk is compared before and after runs that fail or are killed at a chosen step or I/O operation."),
 "C09": ("command line runs x failing allocation patterns", "The real command line tool, including parser, decoders and encoders, with chosen allocations failing."),
 "C10": ("storage corruption of input files x read fragmentation", "The real decoders and EXIF reader on damaged files under AddressSanitizer, a memory cap and a step budget, each run twice with different memory contents."),
 "C11": ("operation sequences, cut points and spellings across simulated restarts", "Each pipeline is compared with a reference interpretation (documented meaning, library functions called directly) and with the same operations in successive simulated processes."),
 "C12": ("calls of the Haskell bindings x failing allocations x collections and nested calls inside of C calls", "The compiled bindings and the GHC runtime run over the real C library with a simulated allocator; values are compared with direct C calls, live blocks with an ownership ledger."),
 "C13": ("corner detection runs x console and allocation faults", "Bytes that reached the simulated standard output are compared with the report computed from the library."),
 "C14": ("pipeline lengths, failing runs", "Live and peak bytes of the simulated allocator for pipelines of increasing length and for runs that fail."),
}
have_hs = os.path.exists(H + "/hs.py")
checks = []
for p, (t, n) in C.items():
    if p == "C12" and not have_hs:
        continue
    checks.append({"property": p, "quick_cmd": "python3 check.py %s" % p, "thorough_cmd": "python3 check.py %s --thorough" % p, "evidence_file": "evidence/%s.json" % p,
                   "technique": T + t, "level": "exploration", "level_note": n + NOTE})
PURE = "pure single-call input/output function: no concurrency, time, I/O, crash or failure behaviour for a simulator to control; deciding it needs an independent specification of the pixel arithmetic over inputs, which is property-based testing or proof, not simulation of schedules and faults"
na = [{"property": p, "reason": PURE} for p in ("C50", "C51", "C52", "C53")] + [{"property": "C54", "reason": "input validation of a pure parser: no schedule, fault or history it depends on (its behaviour under allocation failure is C09, its effect on the disk C08, its accepted spellings C11)"}]
if not have_hs:
    na.append({"property": "C12", "reason": "machinery under construction"})
json.dump({"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: the seams are the C library symbols the code calls, redirected at link time in the objects the checks build from /repo's working tree."}, open(H + "/MANIFEST.json", "w"), indent=1)
