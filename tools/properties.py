#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/properties.py)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files,
                          mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=None))
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(d)

NOITEST = ("Only the unit tests in src/ run in this build and none of them touches this; the integration tests (which need "
           "the RuSTy compiler) sample a handful of values each. ")

prop("C01", "Counters count exactly the rising edges they see and saturate",
 "For CTU, CTD and CTUD in every typed variant (INT, DINT, UDINT, LINT, ULINT and the untyped INT form), after every call CV equals: 0 if R was TRUE; else PV if LD was TRUE; else the previous CV moved by exactly one step per rising edge of CU (up) or CD (down), where simultaneous rising edges on CU and CD of a CTUD cancel and CV never moves past the largest or smallest value of its type. "
 "A rising edge is CU/CD being TRUE in a call when it was FALSE at the previous call that was not a reset or load; R and LD calls do not sample the edge inputs. "
 "After every call CTU.Q and CTUD.QU equal (CV >= PV) and CTD.Q and CTUD.QD equal (CV <= 0).",
 ["histories", "inputs"], "Every sequence of calls with every combination of CU/CD/R/LD and PV changing between calls, from the zero-initialised instance and from every counter value, for every typed variant.",
 NOITEST + "Saturation, edge memory and the interplay of R/LD with edges depend on the history of calls and on values near the limits of each type, which no finite script of calls settles.",
 ["src/counters.rs", "iec61131-st/counters.st"],
 [("edge memory in the instance", "src/counters.rs: CTUParams/CTDParams/CTUDParams internal signals"), ("saturation guards", "src/counters.rs: ctu, ctd, ctud")],
 ["FB instance memory (CV, Q, QU, QD) after each call"],
 [("CV", "current count", "src/counters.rs CT*Params.cv"), ("edge memory", "last sampled CU/CD", "src/counters.rs CT*Params.internal*")])

prop("C02", "R_TRIG and F_TRIG pulse for exactly one call per edge",
 "After every call of R_TRIG, Q is TRUE exactly when CLK is TRUE and CLK was FALSE at the previous call (a fresh zero-initialised instance counts as previously FALSE); after every call of F_TRIG, Q is TRUE exactly when CLK is FALSE and CLK was TRUE at the previous call (a fresh instance never fires on its first call).",
 ["histories"], "Every finite sequence of CLK values.",
 NOITEST + "The guarantee is about every history of CLK values, tests replay two or three short ones.",
 ["src/flanks.rs", "src/utils.rs", "iec61131-st/flanks.st"],
 [("edge detection", "src/utils.rs Signal::rising_edge/falling_edge"), ("output", "src/flanks.rs R_TRIG/F_TRIG")],
 ["Trigger instance memory after each call"], [("previous CLK", "last sampled clock", "src/flanks.rs Trigger.internal")])

prop("C03", "SR is set-dominant and RS reset-dominant in every history",
 "After every call of SR, Q1 = S1 OR (NOT R AND previous Q1); after every call of RS, Q1 = NOT R1 AND (S OR previous Q1); the previous Q1 of a fresh zero-initialised instance is FALSE.",
 ["histories"], "Every finite sequence of set/reset inputs.",
 NOITEST + "Memory elements are only right if every history of inputs leads to the right output.",
 ["src/bistable_functionblocks.rs", "iec61131-st/bistable_functionblocks.st"],
 [("latch", "src/bistable_functionblocks.rs SR/RS")], ["instance memory after each call"],
 [("Q1", "latched output", "src/bistable_functionblocks.rs SetResetParams.output")])

prop("C04", "TON turns on only after IN has been TRUE for more than PT",
 "For TON and its TIME/LTIME forms, with the clock read at each call: Q is TRUE after a call exactly when IN is TRUE and strictly more than the PT of this call has elapsed since the call that saw IN rise; ET is 0 while IN is FALSE or has just risen and otherwise min(PT, time since the rise). "
 "IN FALSE clears Q and ET in the same call, and a fresh zero-initialised instance behaves like one whose IN has been FALSE. PT is any non-negative TIME.",
 ["histories", "inputs"], "Every sequence of calls with any IN, any PT >= 0 per call and any non-decreasing clock.",
 "The integration tests (not runnable here) script one or two input patterns with a mock clock and never the real clock path; no unit test exists. The property is over all input and time histories.",
 ["src/timers.rs", "iec61131-st/timers.st"],
 [("start time and edge memory", "src/timers.rs TimerParams"), ("TON state machine", "src/timers.rs TON")],
 ["instance memory Q, ET after each call, clock intercepted at the OS boundary"],
 [("start_time", "when the timer was started, if running", "src/timers.rs TimerParams.start_time"), ("input_edge", "previous IN", "src/timers.rs TimerParams.input_edge")])

prop("C05", "TOF keeps Q for exactly PT after IN falls",
 "For TOF and its TIME/LTIME forms: Q is TRUE after a call exactly when IN is TRUE, or IN has fallen and no more than the PT of this call has elapsed since the call that saw it fall. "
 "ET is 0 from the call that sees IN rise until and including the call that sees it fall, and afterwards min(PT, time since the fall). A fresh zero-initialised instance has Q FALSE until IN is first TRUE.",
 ["histories", "inputs"], "Every sequence of calls with any IN, any PT >= 0 per call and any non-decreasing clock.",
 "The integration tests (not runnable here) script one pattern with a mock clock; no unit test exists. The property is over all input and time histories.",
 ["src/timers.rs", "iec61131-st/timers.st"], [("TOF state machine", "src/timers.rs TOF")],
 ["instance memory Q, ET after each call, clock intercepted at the OS boundary"],
 [("start_time", "when IN fell", "src/timers.rs TimerParams.start_time")])

prop("C06", "TP emits one uninterruptible pulse of length PT per rising edge",
 "For TP and its TIME/LTIME forms: a rising edge of IN while no pulse is active starts a pulse; while no more than the PT of the call has elapsed since that start Q is TRUE and ET is the elapsed time, whatever IN does; after the pulse Q is FALSE, ET is min(PT, elapsed) while IN is still TRUE and 0 once IN is FALSE, and the next rising edge starts a new pulse. "
 "Calling a TP that is idle (fresh zero-initialised instance, or pulse over) with IN FALSE leaves Q FALSE and ET 0 and never aborts.",
 ["histories", "inputs"], "Every sequence of calls with any IN, any PT >= 0 per call and any non-decreasing clock, including IN falling or pulsing during the pulse.",
 "The integration tests (not runnable here) hold IN TRUE through one pulse; an idle timer, IN falling during the pulse and retriggering are never scripted; no unit test exists.",
 ["src/timers.rs", "iec61131-st/timers.st"], [("TP state machine", "src/timers.rs TP")],
 ["instance memory Q, ET after each call, clock intercepted at the OS boundary"],
 [("start_time", "start of the pulse", "src/timers.rs TimerParams.start_time"), ("input_edge", "previous IN", "src/timers.rs TimerParams.input_edge")])

prop("C07", "Function block instances own their state and nothing else",
 "A function block call never modifies its inputs, and reads and writes only the memory its ST declaration reserves for that instance; an all-zero instance is a valid initial state. "
 "Any number of instances, of the same or of different blocks, called in any order behave exactly as each would alone.",
 ["histories", "schedules"], "Every function block type and variant, every interleaving of calls on two instances, every reachable instance state.",
 NOITEST + "Every test uses one instance; isolation and memory footprint concern all interleavings of instances.",
 ["src/counters.rs", "src/flanks.rs", "src/bistable_functionblocks.rs", "src/timers.rs", "iec61131-st/counters.st", "iec61131-st/timers.st", "iec61131-st/flanks.st", "iec61131-st/bistable_functionblocks.st"],
 [("repr(C) parameter structs matching the ST declarations", "src/counters.rs, src/timers.rs, src/flanks.rs, src/bistable_functionblocks.rs")],
 ["instance memory and surrounding canaries after each call"])

prop("C08", "LEFT, RIGHT and MID return exactly the requested characters",
 "For STRING (UTF-8) and WSTRING (UTF-16), counting whole characters: LEFT(s,n) is the first n characters, RIGHT(s,n) the last n, MID(s,n,p) the n characters starting at the 1-based position p. "
 "A request for characters the string does not have (n negative or larger than available, p outside the string) aborts without producing a result; it never yields a truncated or shifted string or half a character.",
 ["inputs"], "Every well-formed string up to the standard capacity and every count and position.",
 "The unit tests fix about a dozen strings and in-range arguments; the guarantee is over every string content (1-4 byte characters, surrogate pairs), length and argument.",
 ["src/string_functions.rs", "iec61131-st/string_functions.st"],
 [("character based iteration and range checks", "src/string_functions.rs LEFT_EXT/RIGHT_EXT/MID_EXT")], ["destination buffer after the call", "abort of the call"])

prop("C09", "INSERT, DELETE and REPLACE edit exactly the addressed characters",
 "For STRING and WSTRING, counting whole characters: INSERT(a,b,p) puts b after the p-th character of a; DELETE(s,n,p) removes n characters starting at 1-based position p; REPLACE(a,b,n,p) puts b in place of those n characters. "
 "All other characters are preserved in order, and a position or count outside the string, negative ones included, aborts without producing a result.",
 ["inputs"], "Every well-formed pair of strings up to the standard capacity and every count and position.",
 "The unit tests fix a few strings and arguments; the release build (no overflow checks) is never tested with out-of-range arguments.",
 ["src/string_functions.rs", "iec61131-st/string_functions.st"],
 [("character based splitting and range checks", "src/string_functions.rs INSERT_EXT/DELETE_EXT/REPLACE_EXT")], ["destination buffer after the call", "abort of the call"])

prop("C10", "CONCAT joins all its arguments in order",
 "CONCAT and CONCAT_EXT over any number of STRING (or WSTRING) arguments produce exactly the characters of every argument, in argument order, nothing between them, and report success (CONCAT). Without an argument list or a destination (null pointer) the call aborts and writes nothing.",
 ["inputs"], "Every argument list: any count of arguments, any mix of empty and non-empty strings, the same variable passed more than once.",
 "The unit tests use two fixed argument lists; the property is over all lists and contents.",
 ["src/string_functions.rs", "iec61131-st/string_functions.st"], [("variadic loop", "src/string_functions.rs CONCAT*")], ["destination buffer after the call"])

prop("C11", "LEN and FIND count characters, and FIND returns the first match",
 "LEN(s) is the number of characters of s (code points, not bytes or UTF-16 units). FIND(a,b) is the smallest 1-based character position at which b occurs in a, and 0 if it does not occur or either string is empty.",
 ["inputs"], "Every well-formed pair of strings.",
 "The unit tests search a few fixed words; overlapping partial matches, multi-unit characters before the match, and matches at the very end are over all inputs.",
 ["src/string_functions.rs", "iec61131-st/string_functions.st"], [("LEN/FIND", "src/string_functions.rs LEN__*, FIND__*")], ["return value"])

prop("C12", "String comparisons are a consistent lexicographic total order",
 "On STRING and WSTRING, GT/GE/EQ/LE/LT over any number of arguments are TRUE exactly when every adjacent pair is in that relation, and NE(a,b) exactly when a and b differ, where strings compare lexicographically by their code units and a proper prefix is smaller. "
 "Hence exactly one of LT, EQ, GT holds for each pair, and GE, LE, NE are the complements of LT, GT, EQ.",
 ["inputs"], "Every list of strings, of any length, in any order.",
 "The unit tests compare a few fixed lists; totality, transitivity and the variadic chaining are over all lists.",
 ["src/string_functions.rs", "iec61131-st/string_functions.st"], [("comparison helpers", "src/string_functions.rs GT__*...NE__*, compare")], ["return value"])

prop("C13", "String results stay in bounds, NUL-terminated, free of old contents",
 "Every function that produces a STRING or WSTRING writes to the destination exactly the result followed by one terminating NUL and nothing beyond it (the number and date/time-to-text conversions: nothing beyond the default 80-character destination), so reading the destination yields the result whatever it contained before; it reads no source beyond its terminating NUL and modifies no source. "
 "A call that aborts writes nothing outside the destination. Results of one call can feed any further call: chaining operations over a set of reused string variables always equals the same chain on ideal strings.",
 ["histories", "inputs"], "Every string-producing function, every prior destination content, every chain of operations over reused variables, strings from empty to the full standard capacity.",
 "The unit tests use fresh zeroed buffers, which hides missing terminators and stale tails; overruns and over-reads are not observed at all.",
 ["src/string_functions.rs", "src/string_conversion.rs", "src/extra_functions.rs"],
 [("terminator after the copied characters", "src/string_functions.rs, src/string_conversion.rs, src/extra_functions.rs")], ["destination buffer, canaries and guard pages around source and destination"])

prop("C14", "STRING/WSTRING conversion preserves the text both ways",
 "Converting any well-formed STRING to WSTRING, or WSTRING to STRING, yields the same sequence of characters, so a round trip is the identity for every Unicode character. "
 "CHAR_TO_WCHAR maps each of the 256 codes to the same code point and WCHAR_TO_CHAR returns the first byte of the character's encoding (the character itself for ASCII).",
 ["inputs"], "Every Unicode scalar value, every string of them up to the standard capacity, every CHAR and WCHAR value.",
 NOITEST + "There are over a million characters and every boundary of the two encodings matters.",
 ["src/string_conversion.rs", "iec61131-st/string_conversion.st"], [("transcoding", "src/string_conversion.rs")], ["destination buffer after the call", "return value"])

prop("C15", "Number-to-text conversion denotes exactly the number",
 "LINT and LWORD (and BYTE) convert to text that reads back as exactly the same integer; REAL and LREAL convert to fixed notation (magnitude below 1e14 for LREAL, below 1e6 for REAL) or scientific notation (from there on) with six fractional digits that is the correctly rounded decimal of the value, with the sign. "
 "This holds for every value, including the extremes, negatives, zero and non-finite values, and the call always succeeds.",
 ["inputs"], "Every integer of the type and every REAL/LREAL value.",
 "The unit tests convert a handful of positive values; negatives, extremes and magnitude boundaries are not covered.",
 ["src/extra_functions.rs", "iec61131-st/extra_functions.st"], [("formatting", "src/extra_functions.rs *_TO_STRING_EXT")], ["destination buffer after the call"])

prop("C16", "Text-to-number conversion yields exactly the number or aborts",
 "STRING_TO_LINT and STRING_TO_DINT yield exactly the integer denoted in decimal (optional sign), or in base 16 (16# 0x 0X), 8 (8#) or 2 (2# 0b 0B); STRING_TO_LREAL and STRING_TO_REAL yield the correctly rounded value of the decimal text. "
 "Text that is not a number, or denotes an integer outside the target type, aborts; a wrong number is never returned.",
 ["inputs"], "Every text.",
 "The unit tests parse a handful of literals; range limits, signs, digits illegal for the base and malformed text are over all inputs.",
 ["src/extra_functions.rs", "iec61131-st/extra_functions.st"], [("prefix dispatch and parsing", "src/extra_functions.rs STRING_TO_*")], ["return value", "abort of the call"])

prop("C17", "Date and time values convert to the text that denotes them",
 "DATE_TO_STRING, DT_TO_STRING and TOD_TO_STRING produce the proleptic Gregorian calendar date (YYYY-MM-DD) and/or time of day (HH:MM:SS with the fraction of a second when non-zero) of the value; TIME_TO_STRING produces the non-zero day, hour, minute, second, millisecond, microsecond and nanosecond components that sum up to exactly the value, with a leading minus sign for a negative TIME (and the empty text for zero). "
 "Two values with the same text are the same to the precision of the type's text.",
 ["inputs"], "Every DATE, DT, TOD and TIME value.",
 "The unit tests format a few values; every calendar day, unit boundary and the negative range is over all inputs.",
 ["src/extra_functions.rs", "iec61131-st/extra_functions.st"], [("formatting", "src/extra_functions.rs TIME/DT/DATE/TOD_TO_STRING_EXT")], ["destination buffer after the call"])

prop("C18", "Adding and subtracting dates and times is exact or refused",
 "ADD and SUB on TIME, TOD, DT and DATE operands (every typed overload) return the exact integer sum or difference in the resolution of the type. "
 "When it cannot be represented in the result type the call aborts; it never wraps around.",
 ["inputs"], "Every pair of operands.",
 NOITEST + "Overflow behaviour differs between debug and release builds and the release build is never tested.",
 ["src/date_time_numeric_functions.rs", "iec61131-st/date_time_numeric_functions.st"], [("checked arithmetic", "src/date_time_numeric_functions.rs")], ["return value", "abort of the call"])

prop("C19", "TIME scaled by an integer is exact or refused",
 "MUL and DIV of a TIME/LTIME by any integer type return exactly the mathematical product, or the quotient truncated toward zero, whenever it is representable as TIME; a product or quotient that is not representable and a division by zero abort. No result wraps around.",
 ["inputs"], "Every TIME and every value of each of the eight integer types, for all name variants.",
 NOITEST + "Overflow boundaries for eight integer types and the release build are never tested.",
 ["src/date_time_numeric_functions.rs", "iec61131-st/date_time_numeric_functions.st"], [("checked multiplication and division", "src/date_time_numeric_functions.rs")], ["return value", "abort of the call"])

prop("C20", "TIME scaled by a REAL or LREAL is the rounded value or refused",
 "MUL and DIV of a TIME/LTIME by a REAL or LREAL return the real-number product or quotient to within the precision of the operand type (and one nanosecond), with the right sign; division by zero, not-a-number operands and results outside the TIME range abort.",
 ["inputs"], "Every TIME and every floating point operand, for all name variants.",
 NOITEST + "The tests use three factors; sign, magnitude and overflow boundaries are over all inputs.",
 ["src/date_time_numeric_functions.rs", "iec61131-st/date_time_numeric_functions.st"], [("duration scaling", "src/date_time_numeric_functions.rs")], ["return value", "abort of the call"])

prop("C21", "Composing dates and times is exact, invalid components are refused",
 "CONCAT_DATE(year, month, day), CONCAT_TOD(hour, minute, second, millisecond) and CONCAT_DATE_TOD(date, tod), in every integer overload, return exactly the calendar day, time of day and instant so denoted. "
 "Components that denote no existing day or time of day (month 13, 30 February, hour 24, millisecond 1000, any value outside the component's range however large), and days outside the DATE range, abort.",
 ["inputs"], "Every component tuple in every integer type.",
 NOITEST + "The calendar (leap years, month lengths), the range limits and wide integer types are over all inputs.",
 ["src/date_time_extra_functions.rs", "iec61131-st/date_time_extra_functions.st"], [("calendar construction", "src/date_time_extra_functions.rs concat_date/concat_tod")], ["return value", "abort of the call"])

prop("C22", "Splitting dates and times inverts composing them",
 "SPLIT_DATE, SPLIT_TOD and SPLIT_DT, in every integer overload, return the proleptic Gregorian year, month, day and the hour, minute, second, millisecond of the value; DATE_AND_TIME_TO_DATE and DATE_AND_TIME_TO_TIME_OF_DAY split every instant, before and after 1970, into midnight of its day and the time since; DAY_OF_WEEK is 0 for Sunday to 6 for Saturday. "
 "Splitting and composing again gives the value back; a component that does not fit the target type aborts.",
 ["inputs"], "Every DATE, TOD and DT value and every overload.",
 NOITEST + "About 213 000 days, 86 400 000 milliseconds and the pre-1970 range; tests use two or three values.",
 ["src/date_time_extra_functions.rs", "src/date_time_conversion.rs", "iec61131-st/date_time_extra_functions.st", "iec61131-st/date_time_conversion.st"], [("calendar decomposition", "src/date_time_extra_functions.rs SPLIT_*, DAY_OF_WEEK"), ("midnight truncation", "src/date_time_conversion.rs")], ["output arguments and return value", "abort of the call"])

prop("C23", "Shifts fill with zeros and rotates are cyclic for every count",
 "For BYTE, WORD, DWORD and LWORD and every shift count N: SHL and SHR move the bits by N places and fill with zeros (so the result is 0 when N is at least the width), and ROL and ROR rotate by N modulo the width. No count aborts the call.",
 ["inputs"], "Every bit pattern and every count.",
 NOITEST + "Counts at and beyond the width differ between debug and release builds and are not tested.",
 ["src/bit_shift_functions.rs", "iec61131-st/bit_shift_functions.st"], [("shift and rotate", "src/bit_shift_functions.rs")], ["return value"])

prop("C24", "Endianness conversions swap or keep bytes consistently",
 "For every integer, bit-string, CHAR and date/time type, on this little-endian host, TO_BIG_ENDIAN and FROM_LITTLE_ENDIAN as shipped reverse the bytes and TO_LITTLE_ENDIAN and FROM_BIG_ENDIAN as shipped keep them, and REAL/LREAL forms keep the value; each conversion applied twice is the identity, so no bit is ever lost or changed otherwise.",
 ["inputs"], "Every value of every type.",
 NOITEST + "One value per type is sampled.",
 ["src/endianness_conversion_functions.rs", "iec61131-st/endianness_conversion_functions.st"], [("byte order conversion", "src/endianness_conversion_functions.rs")], ["return value"])

prop("C25", "MAX, MIN and LIMIT select one of their arguments by value order",
 "MAX (MIN) over any number of arguments returns the largest (smallest) argument in the order of the data type, and LIMIT(mn, in, mx) returns in clamped to the range from mn to mx, for every elementary numeric, bit-string, character and date/time type. Not-a-number arguments of MAX and MIN are ignored, and MAX or MIN of no arguments (an empty list or a null pointer) abort; LIMIT with mn greater than mx is not covered.",
 ["inputs"], "Every non-empty argument list of every type, in every order and with duplicates.",
 NOITEST + "Position of the extreme element, duplicates, list length, signedness and type width are over all inputs.",
 ["src/types.rs", "iec61131-st/selectors.st"], [("fold over the arguments", "src/types.rs")], ["return value"])

prop("C26", "IS_VALID and IS_VALID_BCD accept exactly the valid values",
 "IS_VALID(REAL/LREAL) is FALSE exactly for infinities and not-a-numbers; IS_VALID_BCD(BYTE/WORD/DWORD/LWORD) is TRUE exactly when every hexadecimal digit of the value is 0..9.",
 ["inputs"], "Every bit pattern of every type.",
 NOITEST + "A handful of patterns are sampled.",
 ["src/validation_functions.rs", "iec61131-st/validation_functions.st"], [("digit and exponent tests", "src/validation_functions.rs")], ["return value"])

prop("C27", "Numeric functions return the function they are named after",
 "ROUND, SQRT, LN, LOG, EXP, SIN, COS, TAN, ASIN, ACOS, ATAN, ATAN2 and EXPT, in every typed overload, return the mathematical value to within a few units in the last place of the type over the whole domain (EXPT with a DINT exponent n: n units, and intermediate under- or overflow of its repeated multiplication excepted; a REAL base takes its LREAL exponent rounded to REAL), follow the IEEE conventions for infinities, zeros and out-of-domain arguments, and the constants PI and E are correctly rounded; EXPT of an integer base is exact whenever the result fits.",
 ["inputs"], "Every argument of every overload.",
 NOITEST + "One or two arguments per function are sampled.",
 ["src/arithmetic_functions.rs", "src/numerical_functions.rs", "iec61131-st/arithmetic_functions.st", "iec61131-st/numerical_functions.st"], [("delegation to the numeric runtime", "src/arithmetic_functions.rs, src/numerical_functions.rs")], ["return value"])

prop("C28", "Bit-pattern transfers between REAL/LREAL and words lose no bit",
 "DWORD_TO_REAL, REAL_TO_DWORD, LWORD_TO_LREAL and LREAL_TO_LWORD transfer the bit pattern unchanged in both directions, for every pattern including signed zeros, infinities, denormals and not-a-numbers.",
 ["inputs"], "Every bit pattern.",
 NOITEST + "One value per function is sampled.",
 ["src/bit_num_conversion.rs", "iec61131-st/bit_num_conversion.st"], [("bit reinterpretation", "src/bit_num_conversion.rs")], ["return value"])

prop("C29", "TIME() returns the local wall-clock time of day",
 "TIME() returns the nanoseconds since local midnight at the moment of the call, for every instant and time zone offset; it is never negative and always less than one day.",
 ["inputs", "configurations"], "Every wall clock reading and every local UTC offset.",
 "One unit test with a mock clock; the real clock path is never tested.",
 ["src/extra_functions.rs", "iec61131-st/extra_functions.st"], [("wall clock read", "src/extra_functions.rs TIME")], ["return value with the clock intercepted at the OS boundary"])

prop("C30", "Calls are reentrant: no call affects another, past or concurrent",
 "The result of any function depends only on its arguments (and function blocks only on their instance and the clock): it is the same whatever calls preceded it, including calls that aborted, and whatever calls run at the same time in other tasks that preempt it at any instruction.",
 ["schedules", "histories"], "Every pair of calls, every preemption point of one by the other, every order of calls.",
 "All tests call each function alone, in one thread, from a fresh process state; hidden static buffers or caches would pass them.",
 ["src/string_functions.rs", "src/string_conversion.rs", "src/extra_functions.rs", "src/date_time_extra_functions.rs", "src/date_time_numeric_functions.rs", "src/types.rs", "src/counters.rs", "src/timers.rs"],
 [("absence of shared mutable state", "whole crate")], ["results of both calls under every enumerated preemption"])

ST = "What a program calls is the Structured Text declaration, not the Rust symbol: the repository's unit tests never read the ST sources, its integration tests sample a few values. "
prop("C31", "Declared integer, bit and time conversions keep or truncate the value",
 "Every conversion X_TO_Y that the Structured Text sources declare among BOOL, bit strings, characters, integers and (same family) date and time types keeps the value when Y can hold it; otherwise the result is the low bits of the two's complement pattern (for BOOL: the lowest bit of a bit string, non-zero for a number). No conversion aborts.",
 ["inputs"], "Every value of the source type, every declared pair of types.",
 ST + "Some hundred one-line wrappers, each easily wrong in one type.",
 ["iec61131-st/num_conversion.st", "iec61131-st/bit_conversion.st", "iec61131-st/bit_num_conversion.st", "iec61131-st/date_time_conversion.st"], [("wrapper functions X_TO_Y", "iec61131-st/*_conversion.st")], ["value returned to the program"])

prop("C32", "Declared REAL/LREAL conversions round to the nearest value",
 "Every conversion that the Structured Text sources declare between REAL or LREAL and integers, bit patterns or each other gives the nearest value of the target type: a real to an integer type the nearest integer (halves away from zero; TRUNC functions towards zero), an integer to a real the nearest real (ties to even), LREAL to REAL the nearest REAL; transfers from and to DWORD/LWORD keep the bit pattern. Reals whose rounded value the target cannot hold are not covered.",
 ["inputs"], "Every value of the source type whose result is representable, every declared pair of types.",
 ST + "Halves, 24/53-bit boundaries and type limits are over all inputs.",
 ["iec61131-st/num_conversion.st", "iec61131-st/bit_num_conversion.st", "iec61131-st/extra_functions.st", "src/num_conversion.rs", "src/bit_num_conversion.rs"], [("wrapper functions", "iec61131-st/num_conversion.st, bit_num_conversion.st"), ("rounding externals", "src/num_conversion.rs")], ["value returned to the program"])

prop("C33", "Declared date and time functions compute the exact calendar result",
 "The date and time functions as a program calls them (typed names ADD_TIME, SUB_DT_TIME, MUL_TIME, CONCAT_DATE_TOD, DATE_AND_TIME_TO_DATE, ..., and the generic ADD, SUB, MUL, DIV, CONCAT_x, SPLIT_x, DAY_OF_WEEK for every combination of argument types, T and L variants) give the exact result or abort when it cannot be represented, and hand each argument and each output variable to the right place.",
 ["inputs"], "Every operand of every overload a program can name.",
 ST + "The overload is chosen by the declaration; one wrong overload, swapped argument or missing symbol shows only in programs using it.",
 ["iec61131-st/date_time_numeric_functions.st", "iec61131-st/date_time_extra_functions.st", "iec61131-st/date_time_conversion.st", "src/date_time_numeric_functions.rs", "src/date_time_extra_functions.rs"], [("declared overloads", "iec61131-st/date_time_*.st")], ["value and output variables of the program", "abort"])

prop("C34", "String functions of a program return exactly the edited text",
 "LEN, FIND, LEFT, RIGHT, MID, CONCAT, INSERT, DELETE, REPLACE, the comparisons and the _EXT forms, called by a program on STRING and WSTRING variables, positionally or by parameter name, nested, chained, in place and in loops, yield exactly the requested characters, cut only by the declared length of the receiving variable; the arguments and every other variable of the program keep their contents.",
 ["inputs", "histories"], "Every text, count, position and composition of calls that fits the documented capacity.",
 ST + "Buffers, lengths and argument order are set by the declarations; composition of calls reuses temporaries.",
 ["iec61131-st/string_functions.st", "src/string_functions.rs"], [("declared string functions and their buffers", "iec61131-st/string_functions.st")], ["texts of the program's variables before and after"])

prop("C35", "Declared text conversions denote the value and read it back",
 "Every value-to-text conversion a program can call (integers, bit strings, REAL/LREAL, date and time types, CHAR/WCHAR, STRING/WSTRING) returns a text that denotes the value, in STRING and WSTRING alike; every text-to-number conversion returns exactly the number the text denotes or aborts; nothing is read or written outside the variables concerned, whatever characters the text contains.",
 ["inputs"], "Every value of every type, every text.",
 ST + "The wide forms and the temporaries exist only in Structured Text and have no unit test at all.",
 ["iec61131-st/string_conversion.st", "src/string_conversion.rs", "src/extra_functions.rs", "iec61131-st/extra_functions.st"], [("declared conversions and their temporaries", "iec61131-st/string_conversion.st, extra_functions.st")], ["returned text or number", "memory around the temporaries"])

prop("C36", "Declared numeric, bit and selection functions fit their type",
 "ABS, SQRT, LN, LOG, EXP, the trigonometric functions, ROUND, ATAN2, EXPT, MAX, MIN, LIMIT, SHL, SHR, ROL, ROR, the endianness conversions, IS_VALID and IS_VALID_BCD, called generically by a program for every type they are implemented for, and the library's constants, give the value the function is named after, computed in the type of the arguments (ABS of the most negative integer excepted; an unsigned or 64-bit exponent of EXPT counts with its full value).",
 ["inputs"], "Every argument of every instantiation.",
 ST + "Each type has its own wrapper; a narrowing or a wrong external shows for some values of one type only.",
 ["iec61131-st/numerical_functions.st", "iec61131-st/arithmetic_functions.st", "iec61131-st/selectors.st", "iec61131-st/bit_shift_functions.st", "iec61131-st/endianness_conversion_functions.st", "iec61131-st/validation_functions.st", "iec61131-st/extra_functions.st"], [("typed wrappers and externals", "iec61131-st/*.st")], ["value returned to the program"])

prop("C37", "Function blocks behave the same through every declared instance and call",
 "A program's instances of any library function block follow the block's defined behaviour (C01..C06) whatever way they are called (named, positional, reordered, omitted or assigned parameters, outputs by => or by member), an omitted input keeps its last value, and a call changes nothing outside its own instance: neither a neighbouring instance of the same or another block nor a variable declared before or after it.",
 ["histories", "inputs"], "Every history of calls of two instances of every pair of blocks.",
 ST + "The instance a program reserves is laid out by the ST declaration, the code that runs on it by a Rust struct; nothing but agreement over all fields and histories keeps them in step.",
 ["iec61131-st/counters.st", "iec61131-st/timers.st", "iec61131-st/flanks.st", "iec61131-st/bistable_functionblocks.st", "src/counters.rs", "src/timers.rs", "src/flanks.rs", "src/bistable_functionblocks.rs"], [("declared instance layout", "iec61131-st/counters.st, timers.st, flanks.st, bistable_functionblocks.st"), ("struct layout", "src/counters.rs, timers.rs, ...")], ["outputs, guards and the neighbour after every call"])

prop("C38", "Malformed text is refused or repaired, never passed on or read past its end",
 "A STRING operand that is not well-formed UTF-8 makes LEN, LEFT, RIGHT, MID, INSERT, DELETE, REPLACE, CONCAT, STRING_TO_WSTRING and the STRING_TO_number conversions abort, whichever operand it is and wherever the malformed part lies, the comparisons still order it by its bytes and FIND still returns 0 when there is no match and the position of the first match when the text before it is well-formed, or aborts. "
 "In a WSTRING an unpaired surrogate counts as one character: an editing function aborts if it would get into the result and otherwise works as usual, comparisons and FIND work on the code units, and WSTRING_TO_STRING replaces each by U+FFFD. "
 "In no case is anything read behind the terminator, written outside the destination, or malformed text delivered.",
 ["inputs"], "Every byte or word sequence, as every operand, at every place of a longer text.",
 NOITEST + "Fields are filled from field buses and truncation in the middle of a character is ordinary; every row of the UTF-8 table has its own way to be wrong, and the decoders read ahead of what they have checked.",
 ["src/string_functions.rs", "src/string_conversion.rs"],
 [("decoding with validation", "src/string_functions.rs: CharsDecoder/EncodedCharsIter, ptr_to_slice; src/string_conversion.rs")],
 ["destination buffer, guard pages around operands and destination, abort"])

prop("C39", "Every call ends within a bounded number of steps and a bounded stack",
 "Every exported function and function block returns or aborts after at most a constant number of machine instructions plus an amount proportional to the length of its text and list arguments (400 000, plus 5 000 for every character or list element, plus 100 for every pair of characters of the two operands of FIND; today's code needs less than a fifth), whatever the values of its numbers, counts, positions, shift counts, exponents and clock readings and whatever calls came before, and needs at most 64 KiB of stack. No value makes a call loop for longer or for ever.",
 ["inputs", "histories"], "Every value of every argument, every length, every gap of the clock.",
 "A PLC task must finish within its cycle or the watchdog stops the machine; a loop that depends on a value (a count of four billion, an exponent, a clock that advanced by years) is unremarkable for the values tests use.",
 ["src/string_functions.rs", "src/extra_functions.rs", "src/arithmetic_functions.rs", "src/bit_shift_functions.rs", "src/timers.rs", "src/counters.rs", "src/date_time_extra_functions.rs", "src/types.rs"],
 [("loops over texts and lists; closed forms elsewhere", "src/string_functions.rs; src/types.rs; src/*.rs")], ["machine instructions executed under the trap flag until the call returns or aborts", "lowest stack pointer"])

prop("C40", "Calls leave nothing behind however often they are repeated",
 "No call of a function or function block, whether it returns or aborts, keeps memory or other resources of the process: repeated any number of times, with the same or with ever different arguments, the heap in use, the memory mapped, the open files and the threads do not grow with the number of calls.",
 ["histories", "inputs"], "Histories of any length over every call.",
 "A PLC program calls these functions every few milliseconds for years; a few bytes per call end in a stopped machine after weeks, and no test repeats a call more than a handful of times.",
 ["src/extra_functions.rs", "src/string_functions.rs", "src/string_conversion.rs", "src/date_time_extra_functions.rs", "src/timers.rs"],
 [("temporary texts and error values are dropped", "src/extra_functions.rs: x_TO_STRING, STRING_TO_x; src/string_conversion.rs")], ["live bytes of the allocator before and after runs of calls", "/proc/self/fd, task, statm"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=True) + "\n")
print(len(P), "properties")
