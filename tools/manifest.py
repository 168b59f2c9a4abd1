#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json.  Claimed checks are listed here; every other property of properties.jsonl must
have an entry in NA."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
MC = "explicit-state model checking of the real function block against a reference model (product search)"
EX = "bounded-exhaustive enumeration of the real code's input space against a reference model"
EXS = "bounded-exhaustive enumeration of calls through the declared Structured Text layer, executed with the real exported symbols, against a reference model"
CHECKS = {
 # id: (technique, level, level_note)
 "C01": (MC, "model_checking", "Every transition from every explored state of all 18 counter variants is executed on the real code; 16-bit counters from every CV value, wider ones from all boundary values; depth-bounded histories. Trusts the 15-line reference counter."),
 "C02": (MC, "model_checking", "Product of reference and real instance bytes explored to a fixpoint (complete for instance-held state) plus all histories to a bound on a live instance."),
 "C03": (MC, "model_checking", "Product of reference and real instance bytes explored to a fixpoint (complete for instance-held state) plus all histories to a bound on a live instance."),
 "C04": (MC, "model_checking", "All call histories over boundary alphabets of IN, PT and clock steps to a depth bound, clock owned by the harness at the OS boundary, real-clock build."),
 "C05": (MC, "model_checking", "All call histories over boundary alphabets of IN, PT and clock steps to a depth bound, clock owned by the harness at the OS boundary, real-clock build."),
 "C06": (MC, "model_checking", "All call histories over boundary alphabets of IN, PT and clock steps to a depth bound, clock owned by the harness at the OS boundary, real-clock build."),
 "C07": ("exhaustive enumeration of the interleavings of two instances of every pair of function blocks", "model_checking", "All interleavings of bounded call sequences on two instances of every pair of blocks compared with each alone; guard pages and canaries around instances."),
 "C08": (EX, "exploration", "All strings to length 4/5 over an alphabet with every encoding length, every count/position around and beyond the length, plus all lengths to the capacity and type-limit arguments; guard pages around every buffer."),
 "C09": (EX, "exploration", "All string pairs to a length bound over the mixed-width alphabet, every count/position around and beyond the length, plus long strings and type-limit arguments; guard pages around every buffer."),
 "C10": (EX, "exploration", "All argument lists to a count and length bound over the mixed-width alphabet, with aliased arguments, plus long lists and long strings."),
 "C11": (EX, "exploration", "All string pairs to a length bound over alphabets that force partial and overlapping matches, plus long strings; reference search on code point vectors."),
 "C12": (EX, "exploration", "All pairs and triples of strings to a length bound, all lists of small strings to a count bound, reference comparison on code units."),
 "C13": ("explicit-state exploration of all operation chains over reused string variables plus exhaustive stale-content enumeration", "model_checking", "All chains of operations to a depth bound over reused variables against ideal strings; every string-producing function with every prior destination fill; guard pages and canaries."),
 "C14": (EX, "exploration", "Every Unicode scalar value, all strings of boundary characters to a length bound, every CHAR and WCHAR."),
 "C15": (EX, "exploration", "Boundary integers of every magnitude; every exponent of LREAL with structured mantissas, rounding boundaries; exact big-integer oracle."),
 "C16": (EX, "exploration", "All texts to a length bound over a grammar alphabet, every boundary integer in every base, rounding-boundary decimals; exact big-integer oracle."),
 "C17": (EX, "exploration", "Every calendar day of the range, every second of the day, boundary fractions, all unit-boundary TIME combinations, negative range."),
 "C18": (EX, "exploration", "All pairs of boundary operands for every overload against 128-bit arithmetic."),
 "C19": (EX, "exploration", "All 8/16-bit factors and boundary wider ones times boundary TIMEs against 128-bit arithmetic."),
 "C20": (EX, "exploration", "Every exponent with structured mantissas times boundary TIMEs against exact rational arithmetic with the precision bound of the operand type."),
 "C21": (EX, "exploration", "Every calendar day and every millisecond of day at boundaries, all invalid neighbours and type limits for every overload."),
 "C22": (EX, "exploration", "Every day of the DATE range, every boundary time of day, every overload, compose-split round trips."),
 "C29": (EX, "exploration", "Every boundary wall clock instant times every quarter-hour and odd UTC offset, clock and zone owned by the harness."),
 "C23": (EX, "exploration", "All 8/16-bit values, structured 32/64-bit patterns, all counts to 140 and all boundary counts."),
 "C24": (EX, "exploration", "All 16-bit values, structured wider patterns; thorough: all 2^32 values of the 32-bit types."),
 "C25": (EX, "exploration", "All lists of up to 4 (thorough 5) boundary values of all 20 types, all pairs over every walking pattern, every position of the extreme element in lists to 300 (and to 65537), all ordered ranges for LIMIT; arrays end at a guard page."),
 "C27": (EX, "exploration", "Every exponent with structured mantissas and all critical points for LREAL against 256-bit arithmetic; 2^23 (thorough all 2^32) patterns for REAL; grids of all exponents for ATAN2/EXPT; every exact integer power of bases to 2000."),
 "C30": ("stateless model checking of the real code: enumeration of preemption schedules under the x86 trap flag, and of call histories", "model_checking", "Every ordered pair of ~1500 representative calls against the fresh-process result, long runs; a second task's whole call after every instruction of each of ~430 calls, single preemptions at every early and stepped later point, two-cut and lockstep schedules."),
 "C26": (EX, "exploration", "All BYTE/WORD/DWORD/REAL patterns, structured LWORD/LREAL patterns."),
 "C28": (EX, "exploration", "All DWORD/REAL patterns, every LREAL exponent with structured mantissas."),
 "C38": (EX, "exploration", "All byte lists to a length bound over a 14-byte alphabet reaching every row of the UTF-8 table, all pairs of bytes, all word lists over 8, every word next to halves, every malformation at every place of longer texts."),
 "C39": ("exhaustive enumeration of bounded families of calls, each executed instruction by instruction under the x86 trap flag", "exploration", "Lengths x textures x counts for every text function, every exponent for every numeric function, boundary values for every integer, date and time argument, histories of every block with distant clock readings; instructions and stack of each call against a linear bound."),
 "C40": ("exhaustive enumeration of bounded families of calls and runs of repetitions of each, the resources of the process compared before and after", "exploration", "Every representative call 2000 times (300 when it aborts) with heap, mappings, descriptors and threads; over a million further calls repeated with the same arguments; runs of all different arguments of each function."),
 "C31": (EXS, "exploration", "All 8/16-bit values, structured 32/64-bit values plus a lattice, every declared pair of types, executed from the ST source of the tree."),
 "C32": (EXS, "exploration", "Every exponent with structured mantissas, every half and integer around the limits of the target, every declared pair of types, executed from the ST source of the tree; rounding oracle in integer arithmetic."),
 "C33": (EXS, "exploration", "Boundary operands pairwise for every typed and generic form; components on and beyond every field limit; every day; 128-bit and calendar oracle."),
 "C34": (EXS, "exploration", "31 client functions per text type x all texts to a length bound over characters of every width x all counts and positions around the length; red zones around every text variable."),
 "C35": (EXS, "exploration", "Every conversion over all 8/16-bit values, boundary values, every exponent, days and durations; all numerals to a length bound including non-ASCII characters; red zones around every temporary."),
 "C36": (EXS, "exploration", "Every generic function for every implemented type over all 8/16-bit values, every exponent, boundary values and small argument lists."),
 "C37": ("explicit-state model checking of client programs over declared instances (product search with reference models)", "model_checking", "Two instances between guards, every pair of blocks, every way of calling; every transition from every reached state within the depth and state bounds, executed on the declared layout and the real code; histories replayed on live clients."),
}
NA = {}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for p in props:
    i = p["id"]
    if i in CHECKS:
        t, l, n = CHECKS[i]
        checks.append(dict(property=i, quick_cmd=f"./check {i} quick", thorough_cmd=f"./check {i} thorough", technique=t, level=l, level_note=n))
    elif i not in NA:
        NA[i] = "check not built yet"
m = dict(version=1, setup_cmd="./check build", checks=checks,
         not_applicable=[dict(property=k, reason=v) for k, v in sorted(NA.items())],
         notes="No hooks in /repo: the harness crate compiles /repo/src unchanged, binds to the exported symbols and shadows clock_gettime.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(NA), "not claimed")
