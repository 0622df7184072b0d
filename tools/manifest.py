#!/usr/bin/env python3
"""Writes MANIFEST.json (kept next to properties.jsonl; run by hand when a claim changes)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
SEARCH = "deterministic simulation with fault injection: "
T = {
 "C01": ("fault_enumeration", "seeded interruptions and short transfers on every stream against the undisturbed run"),
 "C02": ("fault_enumeration", "seeded output errors at drawn bytes and calls, delivered bytes compared with the undisturbed run"),
 "C03": ("exploration", "seeded blocks through an interrupting stream, delivered report parsed back against a reference decoder"),
 "C04": ("exploration", "seeded combinations of configuration sources in simulated worlds against a reference resolution"),
 "C05": ("exploration", "seeded simulated directory trees with failing and misleading entries against a reference search"),
 "C06": ("fault_enumeration", "seeded open/read errors and defects of the configuration in force"),
 "C07": ("fault_enumeration", "seeded replacement of the configuration at every step of a run, result compared with each version's"),
 "C08": ("fault_enumeration", "seeded inputs with one stream failing, both recorded streams judged"),
 "C09": ("fault_enumeration", "every effect on the simulated kernel recorded, under faults, kills and failed allocations"),
 "C10": ("exploration", "each invocation run in two simulated worlds that differ in every irrelevant source of nondeterminism"),
 "C11": ("exploration", "seeded hostile inputs and interruption storms under simulated memory, stack, step and time budgets"),
 "C12": ("fault_enumeration", "seeded terminals, failing terminal queries and settings against forced-on and forced-off runs"),
 "C13": ("fault_enumeration", "seeded kills and failed allocations at drawn steps, delivered prefix and status judged"),
 "C14": ("fault_enumeration", "the real release script against a simulated repository with drawn command failures and kills"),
 "C15": ("fault_enumeration", "the real build script's generator on a simulated file system with drawn I/O faults and kills"),
 "C16": ("fault_enumeration", "every call on the inherited streams recorded in simulated runs with would-block answers, errors, kills and failed allocations"),
 "C17": ("fault_enumeration", "pairs of simulated runs on inputs of one structure and unlike contents, under drawn faults and endings, compared in everything but standard output"),
 "C18": ("fault_enumeration", "seeded hostile data and settings under drawn faults and endings, every byte of both recorded streams judged"),
 "C19": ("exploration", "each scenario run by two builds of the program in the same simulated world with the same faults"),
 "C21": ("exploration", "seeded tags identified in simulated worlds under interruptions, compared with the tag's bits and with the simulated runs that report an object with that tag"),
 "C27": ("exploration", "seeded blocks in simulated worlds under interruptions, each compared with the simulated runs on its parts: objects alone, children alone, the other format, the options for single values"),
 "C24": ("exploration", "seeded ambiguous, damaged and plain blocks in simulated worlds, the run compared with the explicit options' runs, also with the output failing at the same byte"),
 "C25": ("exploration", "pairs of simulated runs on two spellings of one value under the same settings and the same drawn faults"),
 "C26": ("exploration", "pairs of simulated runs on two ways of giving the same options under the same settings and drawn faults; misused options in worlds with unusable configurations and failing streams"),
}
N = {
 "C01": "Real binary under a simulated kernel; sampled fault schedules, not all of them.",
 "C02": "Real binary; one listed known finding (lost escape sequences at nesting depths near 1000 when a single write fails with EAGAIN).",
 "C03": "Report compared byte for byte in structure, tags, lengths and values with an independent decoder; names and decoded meanings of coded values are not judged.",
 "C04": "All three settings, all sources, compared with the explicit command line and the reference resolution.",
 "C05": "Simulated directory trees up to a few levels; stat errors on an existing candidate are not injected.",
 "C06": "Open and read errors, malformed text and ill-typed values of the settings in force.",
 "C07": "Replacement is atomic (rename), creation and removal; edits in place are outside the statement.",
 "C08": "Every operation; messages counted on the recorded stderr.",
 "C09": "Effects are recorded by the simulated kernel; every system call of the run is trapped (seccomp) and none reaches the real one.",
 "C10": "Pairs of worlds; help and usage text (which wrap to the terminal width) are outside the statement.",
 "C11": "Budgets are fixed constants with headroom over the measured peaks; nesting above 2500 is the listed known finding.",
 "C12": "Every operation, colour setting, source and kind of standard output.",
 "C13": "Signals and allocation failures at drawn points; also inside a partial write.",
 "C14": "The script is real bash; git, cargo, git-cliff and gpg are stand-ins on a simulated repository.",
 "C16": "Calls on the three inherited descriptors, their copies and their other names, in every kind of ending.",
 "C17": "Values with a coded meaning are the same in both runs of a pair; timing and memory use are not compared.",
 "C18": "Both streams, every ending; usage errors are outside the statement.",
 "C19": "Dev build (debug assertions, overflow checks) against an optimised one; kills and failed allocations, whose points differ between builds, are not injected.",
 "C21": "Names are compared between runs, not with the EMV books.",
 "C27": "Relations between runs: an error common to all of them (a wrong meaning everywhere) is not seen. Colours are compared as displayed, not as written.",
 "C24": "Where the reference decoder finds a text ambiguous, either reading that agrees with an explicit option is accepted.",
 "C25": "Faults are placed by byte and call of the output, so that they fall on both runs alike.",
 "C26": "Help and version texts are compared with each other only; which words a usage error has is not judged.",
 "C15": "The real build script; one listed known finding (an unreadable dotenv file is ignored).",
}
NA = {
 "C20": "pure function of the input bytes to text: no schedule, clock, I/O outcome or crash point can change which flags are named, so simulated faults decide nothing about it",
 "C22": "pure decoding of small coded values: nothing in it depends on scheduling, time, I/O or faults; a table check or enumeration would be the right tool",
 "C23": "pure predicate and field extraction on one byte string: nothing in it depends on scheduling, time, I/O or faults",
}
checks = []
for p in props:
    i = p["id"]
    if i in NA: continue
    lv, t = T[i]
    checks.append(dict(property=i, quick_cmd=f"bash run.sh check {i}", thorough_cmd=f"VERIF_TIER=thorough bash run.sh check {i}", evidence_file=f"evidence/{i}.json", technique=SEARCH + t, level=lv, level_note=N[i]))
m = dict(version=1, setup_cmd="bash run.sh setup", checks=checks, not_applicable=[dict(property=i, reason=NA[i]) for i in NA])
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
