#!/usr/bin/env python3
"""Single source of the properties: writes properties.jsonl and MANIFEST.json.

Anchors are given as symbol names and resolved to line numbers of the current
source, so that the two files stay in step with the code.
"""
import ast
import json
import os
import re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = "/repo/pysrc/whenever/_pywhenever.py"
INI = "/repo/pysrc/whenever/__init__.py"


def lines(path):
    out = {}

    def walk(node, pre):
        for n in node.body:
            if isinstance(n, (ast.ClassDef, ast.FunctionDef)):
                out[pre + n.name] = n.lineno
                if isinstance(n, ast.ClassDef):
                    walk(n, pre + n.name + ".")
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        out[pre + t.id] = n.lineno

    walk(ast.parse(open(path).read()), "")
    return out


L, LI = lines(SRC), lines(INI)


def at(sym):
    if sym.startswith("src/"):
        return sym
    if sym.startswith("init:"):
        return f"pysrc/whenever/__init__.py:{LI[sym[5:]]}"
    if sym not in L:  # inherited: name the base that defines it
        m = sym.split(".")[-1]
        c = [k for k in L if k.endswith("." + m)]
        for pre in ("_KnowsInstantAndLocal", "_KnowsInstant", "_KnowsLocal", "_BasicConversions"):
            if f"{pre}.{m}" in c:
                return f"pysrc/whenever/_pywhenever.py:{L[f'{pre}.{m}']}"
        raise KeyError(sym, c)
    return f"pysrc/whenever/_pywhenever.py:{L[sym]}"


P = []


def prop(id, title, statement, over, text, why, mech, observe, state=(), technique=None, note=None, files=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, mech=mech,
                  observe=observe, state=state, technique=technique, note=note, files=files))


TRUST = ("Trusted: the integer reference model in mc/ (cross-checked against an independent source where one exists), CPython 3.12, "
         "the tz database installed here. Values outside the stated alphabet are not covered. ")
ENUM = "explicit enumeration of a bounded input/state space on the real code against an integer reference model"

prop("C01", "Dates follow the proleptic Gregorian calendar, including all arithmetic",
     "Every date from 0001-01-01 to 9999-12-31 exists exactly once, has the right weekday, orders, hashes and formats as the Gregorian calendar says, and no other date can be constructed. "
     "Adding or subtracting years, months, weeks and days shifts first by whole months, truncating to the last day of the target month, then by days; results outside the range raise ValueError or OverflowError, never a wrong date.",
     ["inputs", "programs"], "all dates x all shifts by any combination of years, months, weeks, days, in any call form (method keywords, delta, operators)",
     "The tests sample some dozens of date/shift pairs; month-end truncation, leap rules and range edges need every date and every (month length, leap) combination.",
     [("Date arithmetic", "Date._shift"), ("month arithmetic", "Date._add_months"), ("constructor validation", "Date.__init__")],
     ["Date accessors, comparison, str, add/subtract/+/-"],
     technique=ENUM, note="All 3,652,059 dates are visited; shifts are the full product of a stated alphabet of month and day counts with every day of the boundary months.")
prop("C02", "Date differences invert date addition and count days exactly",
     "For any two dates the difference in months and days is the greatest whole number of months that does not pass the target, plus the remaining days, so adding the difference back gives the target date. "
     "The number of days between two dates is exact and antisymmetric, and the difference never raises for valid dates.",
     ["inputs"], "all ordered pairs of dates",
     "Tests check a couple of dozen pairs; the algorithm has separate cases per sign and per month length that only an exhaustive pair sweep meets.",
     [("difference", "Date.__sub__"), ("day count", "Date.days_until")], ["Date - Date, Date.days_until, Date.days_since"],
     technique=ENUM, note="All ordered pairs within windows around leap, century and range edges, plus all pairs of month edges over decades.")
prop("C03", "TimeDelta is exact integer nanosecond arithmetic within its range",
     "A time delta is one exact signed count of nanoseconds: construction from any unit mix, sum, difference, negation, absolute value, integer scaling, division, remainder, comparison, hashing and unit splitting are exact, without floating-point loss; its size in any unit, and the ratio of two deltas, is the float nearest to the exact one. "
     "Any result beyond the documented maximum raises ValueError or OverflowError.",
     ["inputs", "programs"], "all time deltas in range and all pairs of them, all unit combinations and integer factors",
     "Tests use human-sized values where float error and sign handling are invisible.",
     [("delta arithmetic", "TimeDelta.__add__"), ("division", "TimeDelta.__truediv__"), ("construction", "TimeDelta.__init__")],
     ["TimeDelta operators, in_* accessors, comparison"],
     technique=ENUM, note="All ordered pairs of ~90 magnitudes chosen at every representation boundary, both signs; float multiplication and division are documented as approximate and only bounded.")
prop("C04", "Date and date-time deltas add component-wise and never mix signs",
     "Calendar deltas are exact pairs or triples of months, days and nanoseconds that add, subtract, negate and scale per component. "
     "A delta whose components have opposite signs, or exceed the maximum, can never be produced: such operations raise ValueError or OverflowError.",
     ["inputs", "programs"], "all pairs of date deltas, time deltas and date-time deltas over a boundary alphabet, under every operator",
     "Sign mixing and maximums depend on pairs of operand types and signs which tests sample sparsely.",
     [("date delta", "DateDelta.__add__"), ("date-time delta", "DateTimeDelta.__add__"), ("construction", "DateTimeDelta.__init__")],
     ["DateDelta and DateTimeDelta operators and accessors"],
     technique=ENUM, note="Full product of operand types, signs and boundary magnitudes.")
prop("C05", "ISO 8601 durations round-trip exactly and only valid durations parse",
     "Formatting any delta as an ISO 8601 duration and parsing it back gives an equal delta, to the nanosecond. "
     "The parsers accept exactly the documented duration grammar and raise ValueError on everything else, and an accepted text always means the arithmetically exact value.",
     ["inputs"], "all deltas; all strings over the token alphabet of durations up to a length",
     "Tests list some valid and invalid strings; grammar holes and float loss in the fractional part show only when all token sequences and digit patterns are enumerated.",
     [("parsing", "TimeDelta.parse_common_iso"), ("parsing", "DateTimeDelta.parse_common_iso"), ("component parser", "_parse_timedelta_component")],
     ["format_common_iso, parse_common_iso, str, repr of deltas"],
     technique="exhaustive enumeration of all token strings up to a length against a reference grammar, and of boundary deltas",
     note="Reference grammar is an independent recursive recogniser; strings outside the token alphabet are covered by single-character edits only.")
prop("C06", "Exact types compare, hash and subtract by instant, whatever their form",
     "Two values that stand for moments compare, hash and subtract purely by the moment, across every combination of exact types, offsets and zones, and during repeated local times. "
     "The strict comparison additionally distinguishes type, offset and zone; comparing with a local value never counts as equal and ordering against it raises TypeError.",
     ["inputs", "configurations"], "all ordered pairs of (instant, form) over forms: instant, offsets, zones, system zone",
     "Tests compare a few pairs; repeated times, equal moments in different zones and sub-minute offsets are pairs of special values.",
     [("comparison", "_KnowsInstant.__eq__"), ("hash", "Instant.__hash__"), ("strict equality", "ZonedDateTime.exact_eq")],
     ["==, <, <=, >, >=, hash, -, difference, exact_eq"],
     technique=ENUM, note="All ordered pairs of the alphabet per system zone.")
prop("C07", "Conversions between exact types keep the instant and yield the right offset",
     "Converting between instants, fixed offsets, time zones and the system zone, in any order and any number of times, keeps the moment exactly to the nanosecond. "
     "The local fields and offset after converting to a zone are those the tz database gives for that moment, before, inside and after every transition.",
     ["inputs", "histories"], "all zones x all moments around every transition; all conversion chains up to a depth",
     "Tests convert a few moments in a few zones; errors hide at specific transitions, at sub-second edges and in chains.",
     [("to zone", "_KnowsInstant.to_tz"), ("to offset", "_KnowsInstant.to_fixed_offset"), ("to instant", "ZonedDateTime.instant")],
     ["to_tz, to_fixed_offset, to_system_tz, instant, offset, local fields"],
     technique="explicit enumeration over every tz database transition plus breadth-first search over conversion chains, against an independent TZif interpreter",
     note="The zone oracle is our own TZif/POSIX-rule reader (mc/tzmodel.py) of the same data files.")
prop("C08", "Local times in gaps and folds resolve as the disambiguation mode says",
     "A local time that occurs once maps to that moment; one that occurs twice maps to the earlier or later moment as the mode says; a skipped one is shifted by the length of the gap forward or backward; 'raise' raises the documented errors. "
     "This holds for every zone and transition and for every way of attaching a zone to a local time.",
     ["inputs", "configurations"], "all zones x all gaps and folds x all modes x all entry points",
     "Tests use a handful of transitions of one-hour DST; half-hour, two-hour, day-long, negative-DST and sub-minute transitions behave differently.",
     [("resolution", "_resolve_ambiguity"), ("entry", "ZonedDateTime.__init__"), ("entry", "LocalDateTime.assume_tz")],
     ["ZonedDateTime(...), assume_tz, replace*, is_ambiguous"],
     technique="explicit enumeration over every gap and fold of every zone (real and synthetic) and every mode, against an independent solver of the local-time equation",
     note="The oracle enumerates all UTC moments mapping to the local time instead of using folds.")
prop("C09", "Exact-time arithmetic moves along the timeline, whatever the zone does",
     "Adding or subtracting hours or smaller units moves every exact type by exactly that much elapsed time, across any transitions, and the result carries the offset its zone has at the new moment. "
     "Adding and then subtracting the same amount returns the identical value, and differences are exact elapsed time.",
     ["inputs", "histories"], "all zones x starts around every transition x steps that land on every other edge",
     "Tests cross a few transitions with whole hours.",
     [("addition", "ZonedDateTime.__add__"), ("addition", "Instant.__add__"), ("system", "SystemDateTime.__add__")],
     ["+, -, add, subtract, difference"],
     technique=ENUM + " (TZif interpreter)", note="Steps are chosen from the transition table so each start reaches each neighbouring edge and its nanosecond neighbours.")
prop("C10", "Calendar arithmetic shifts the local date, then resolves gaps and folds",
     "Adding calendar units to a zoned or system time shifts the local date, keeping the clock time, then resolves it with the chosen mode (by default keeping the previous offset where possible), and only then adds exact time units. "
     "All call forms agree, zero shifts return the same moment, and out-of-range results raise.",
     ["inputs", "programs"], "all zones x starts x (months, days, time) shifts that land in and around every transition x all modes x all call forms",
     "Tests cover a few landings in gaps and folds; which offset is kept depends on where the start lies relative to the transition.",
     [("zoned", "ZonedDateTime.add"), ("system", "SystemDateTime.add"), ("resolution by offset", "_resolve_ambiguity_using_prev_offset")],
     ["add, subtract, +, -, replace_date/time"],
     technique=ENUM + " (TZif interpreter)", note="Landing points are enumerated from the transition tables of real and synthetic zones.")
prop("C11", "A ZonedDateTime is always a real moment, however it was reached",
     "After any sequence of operations a zoned value's local fields, offset, zone and moment agree with one another and with the tz database; skipped local times never appear and repeated ones always carry one of their two offsets. "
     "The value depends only on the moment and zone: any two operation sequences reaching the same moment and zone give indistinguishable values.",
     ["histories"], "all sequences of arithmetic, replacement, conversion, rounding and serialization operations up to a depth, from starts near transitions",
     "Tests check single operations from well-behaved values; a leaked fold or stale offset shows only after a second or third operation.",
     [("construction", "ZonedDateTime._from_py_unchecked"), ("replace", "ZonedDateTime.replace"), ("rounding", "ZonedDateTime.round")],
     ["every public accessor of the reached values"], state=[("ZonedDateTime", "local fields, zone, nanosecond, fold", "ZonedDateTime")],
     technique="breadth-first explicit-state search over operation sequences on the real code with state deduplication, every step compared to a reference model",
     note="Depth 5 (quick) / 8 (thorough); the state includes what the public API exposes including conversion to a standard datetime.")
prop("C12", "The system-zone type behaves as a zoned value of the current system zone",
     "With the system time zone set to any tz database zone, every operation of the system-zone type gives the same local time, offset, moment and errors as the same operation on a zoned value of that zone. "
     "When the system zone changes during the process, existing values keep their moment, local time and offset, and later operations use the zone then in force.",
     ["configurations", "histories"], "all operations x system zones x transitions; all sequences of zone changes and operations up to a depth",
     "Tests set a few zones and never interleave zone changes with operations systematically.",
     [("type", "SystemDateTime"), ("resolution", "_resolve_system_ambiguity"), ("conversion", "_KnowsInstant.to_system_tz")],
     ["SystemDateTime API under TZ changes"], state=[("process time zone", "TZ environment plus tzset", "SystemDateTime")],
     technique="explicit enumeration per zone plus breadth-first search over histories of zone changes and operations, against the zone model",
     note="The C library's local time functions are driven through TZ and tzset; zones and years the C library and the tz data disagree on are excluded by comparing libc itself with the model first.")
prop("C13", "Rounding gives the nearest multiple of the increment chosen by the mode",
     "Rounding any time, local, offset, instant or duration value to an increment of a unit gives the multiple of that increment that the mode selects (ceil, floor, or nearest with the documented tie rule), carrying correctly into the date. "
     "Illegal increments raise ValueError, and rounding is idempotent.",
     ["inputs"], "all units x all legal increments x all modes x values just around every boundary and midpoint",
     "Tests sample some combinations; odd increments, ties and carries over midnight or the range edges are rarely met.",
     [("time rounding", "Time._round_unchecked"), ("delta rounding", "TimeDelta.round"), ("increments", "_parse_rounding_args" if "_parse_rounding_args" in L else "Time.round")],
     ["round()"], technique=ENUM, note="Every legal increment of every unit with all modes at every multiple's boundary or a stated stride of multiples.")
prop("C14", "Zoned and system rounding, day starts and day lengths follow the actual day",
     "The start of day is the first moment the local date begins to exist by the compatible rule, the day length is the elapsed time between consecutive starts, and rounding to a day uses that real length. "
     "Rounding to smaller units rounds the local time and lands on a real moment with the offset kept where possible.",
     ["inputs", "configurations"], "all zones x days containing or next to a transition x units, increments and modes",
     "Tests use one or two DST days; midnight gaps and folds, skipped days and day-length changes by half-hours are not met.",
     [("rounding", "ZonedDateTime.round"), ("start of day", "ZonedDateTime.start_of_day"), ("day length", "ZonedDateTime.day_length")],
     ["round, start_of_day, day_length"], technique=ENUM + " (TZif interpreter)", note="Every transition day of every real and synthetic zone.")
prop("C15", "ISO 8601 and RFC 3339 text of a moment parses back to the identical value",
     "Formatting any date-time value in the common ISO format and parsing it gives the identical value including offset, zone and nanoseconds, during repeated times too. "
     "The text itself is exactly the documented format, with the shortest exact fraction; the RFC 3339 form keeps the moment and whole-minute offset.",
     ["inputs", "configurations"], "all types x fields x all offsets x all zero/nonzero patterns of the fraction x zones around transitions",
     "Tests round-trip a few values; padding, fraction trimming, second-level offsets and repeated times combine.",
     [("format", "ZonedDateTime.format_common_iso"), ("parse", "ZonedDateTime.parse_common_iso"), ("offset format", "OffsetDateTime.format_common_iso")],
     ["format_common_iso, parse_common_iso, format_rfc3339, parse_rfc3339, str"],
     technique=ENUM, note="Expected text is produced by an independent formatter.")
prop("C16", "Parsers accept exactly their format: anything else is a ValueError",
     "Each ISO and RFC 3339 parser accepts exactly the texts its documentation describes and gives them their meaning; every other string raises ValueError (or, for an unknown zone name, a lookup error), never another exception and never a wrong value. "
     "Offsets that contradict the zone raise the documented error.",
     ["inputs"], "all one-character insertions, deletions and substitutions (and pairs of positions in the thorough tier) of valid texts of every format",
     "Tests list some invalid strings; unusual digits, separators, lengths and embedded characters are infinite in kind.",
     [("patterns", "LocalDateTime.parse_common_iso"), ("patterns", "OffsetDateTime.parse_common_iso"), ("offset check", "ZonedDateTime.parse_common_iso")],
     ["parse_common_iso, parse_rfc3339 of all types"],
     technique="exhaustive enumeration of the edit neighbourhood of valid texts against a reference recogniser",
     note="Alphabet includes non-ASCII digits, NUL, newline and lone surrogates.")
prop("C17", "RFC 2822 text keeps the moment to the second and its offset's meaning",
     "Formatting a value with whole-minute offset as RFC 2822 gives exactly the standard form, and parsing it gives the same moment truncated to the second with the same offset. "
     "Parsing a valid text never yields a moment other than the one it denotes; anything unparsable raises ValueError or OverflowError.",
     ["inputs"], "all offsets x dates x valid grammar variants; all one-character edits of valid texts",
     "Tests check a few headers; day names, optional parts, obsolete zones and edge offsets multiply.",
     [("format", "OffsetDateTime.format_rfc2822"), ("parse", "OffsetDateTime.parse_rfc2822"), ("parse", "Instant.parse_rfc2822")],
     ["format_rfc2822, parse_rfc2822"], technique=ENUM, note="The parser is documented as lenient, so edits are only required to be rejected with ValueError/OverflowError or to give a value consistent with their text.")
prop("C18", "Pickling and copying give back the identical value",
     "Pickling with any protocol, copying and deep-copying any value gives an identical value of the same type, including repeated times, nanoseconds, and range extremes. "
     "Pickles written by earlier releases still load to the value they denote, and data that does not denote a valid value is rejected.",
     ["inputs", "histories"], "all types x boundary values x protocols; all released byte layouts; zones at every fold",
     "Tests pickle one value per type.",
     [("pickle", "ZonedDateTime.__reduce__"), ("unpickle", "_unpkl_zoned"), ("copy", "_ImmutableBase.__copy__")],
     ["pickle.dumps/loads, copy, deepcopy"], technique=ENUM, note="The released byte layout is re-encoded independently and read back.")
prop("C19", "Standard library conversions keep moment, fields, zone and fold both ways",
     "Converting any value to its standard-library counterpart gives the same moment, fields (truncated to microseconds), zone and fold, and converting a standard value gives the value it denotes. "
     "Standard values that denote nothing representable (wrong kind of tzinfo, skipped time, out of range) raise instead of giving a wrong value.",
     ["inputs", "configurations"], "all types x boundary values x tzinfo kinds x folds, including subclasses",
     "Tests convert a few ordinary values.",
     [("from", "ZonedDateTime.from_py_datetime"), ("from", "Time.from_py_time"), ("to", "_BasicConversions.py_datetime")],
     ["py_datetime, from_py_datetime, py_date, py_time, py_timedelta and inverses"], technique=ENUM, note="tzinfo kinds: None, timezone, ZoneInfo, keyless ZoneInfo, user tzinfo, subclasses of datetime and time.")
prop("C20", "DST-unsafe operations never run without an explicit opt-out",
     "Arithmetic, rounding, replacement and creation on values whose type cannot account for DST raise the documented error unless the caller passes the explicit opt-out. "
     "With the opt-out the result is the plain clock arithmetic; operations that are safe never ask for it.",
     ["programs"], "all operations x argument combinations x opt-out settings on local, offset and other types",
     "Tests exercise each method once; the guard must hold for every argument combination and alternative call form.",
     [("offset arithmetic", "OffsetDateTime.add"), ("local arithmetic", "LocalDateTime.add"), ("current time", "OffsetDateTime.now")],
     ["ignore_dst argument, raised errors"], technique="exhaustive enumeration of the call matrix (operation x argument form x opt-out) against a decision table",
     note="Decision table is derived from the documentation.")
prop("C21", "The type stubs promise exactly what the library does at run time",
     "Every operator expression, attribute access and call that type-checks against the shipped stubs runs without a type error and gives a value of the declared type (calling Instant itself aside). "
     "Every operator expression and public name the stubs reject, and every call they reject for its choice of arguments, is refused at run time, so type checking neither lies nor hides operations.",
     ["programs"], "all ordered pairs of types under all binary operators, and all public methods with well-typed arguments",
     "Tests never compare stubs with behaviour.",
     [("stubs", "Date"), ("operators", "DateTimeDelta.__add__")],
     ["mypy verdict and inferred type, run-time result type"], technique="exhaustive enumeration of all type-pair x operator programs, stub verdict (mypy) compared with execution",
     note="Bounded to single-operator programs and single method calls.", files=["pysrc/whenever/__init__.pyi", "pysrc/whenever/_pywhenever.py"])
prop("C22", "No operation yields a value outside the documented range",
     "Moments stay between 0001-01-01T00:00Z and the end of 9999 in UTC, local times stay within years 1 to 9999, offsets stay within 24 hours, and whatever would leave this raises ValueError or OverflowError. "
     "Values at the very edges still support every operation that stays in range; only the system-zone type may refuse a local time within two days of the ends.",
     ["inputs", "programs"], "all constructors, conversions and arithmetic at the range edges, with offsets and zones that straddle them",
     "Tests probe a few overflow cases; local and UTC range disagree near the edges for every offset.",
     [("offset range", "OffsetDateTime.__init__"), ("instant range", "Instant.from_timestamp"), ("zoned range", "ZonedDateTime.__init__")],
     ["results and errors of all operations at the edges"], technique=ENUM, note="All pairs of edge moments and offsets/zones under every operation.")
prop("C23", "Clock patching shifts, freezes and always restores the current time",
     "While the clock is patched, every way of asking for the current time gives the patched moment: frozen, or ticking from the chosen moment, shifted by exactly the requested amounts in order. "
     "Leaving the patch, normally or by exception, nested or decorated or reused, restores what was in force before.",
     ["histories"], "all sequences of enter, exit, raise, shift, tick and query up to a depth, with nested patches and all forms of use",
     "Tests use single patches; nesting, exceptions and shift sequences form a state machine.",
     [("patch", "init:patch_current_time"), ("patched clock", "init:_TimePatch")],
     ["now() of all types and Date.today_in_system_tz"], state=[("current patch", "stack of active clocks", "init:patch_current_time")],
     technique="breadth-first search over sequences of patch events on the real code against a stack-of-clocks model",
     note="The process clock is replaced by a controlled one.", files=["pysrc/whenever/__init__.py", "pysrc/whenever/_pywhenever.py"])
prop("C24", "Values are immutable and results never depend on history or threads",
     "No operation changes an existing value, and no public attribute of a value can be assigned, added or removed. "
     "The result of an operation depends only on its operands (and the system zone or clock where documented): earlier operations, cache state, hash seeds, concurrent use by other threads, and use by a signal handler or finalizer in the middle of an operation never change it.",
     ["schedules", "histories", "configurations"], "all pairs of operations in both orders and all thread interleavings of operation pairs up to a preemption bound; cache states; hash seeds",
     "Tests run each operation once in a fixed order on one thread.",
     [("immutability", "_ImmutableBase"), ("formatting and parsing", "ZonedDateTime"), ("shared state", "SystemDateTime")],
     ["results, operand snapshots, cross-process hashes"], state=[("module-level state", "caches, patched functions", "_ImmutableBase")],
     technique="preemption-bounded exhaustive exploration of thread interleavings under a controlled scheduler, plus exhaustive operation-pair histories",
     note="Scheduling points are Python line events in library code; C code is atomic under the interpreter lock.")
prop("C25", "Times, year-months and month-days are faithful, ordered, composable values",
     "Every clock time, year-month and month-day keeps its fields exactly, compares and hashes by them, formats and parses back, and combines with dates to the value its fields say. "
     "Month-days map into a year exactly when they exist there and report leap days correctly.",
     ["inputs"], "all seconds of a day x boundary nanoseconds; all year-months; all month-days x all years",
     "Tests use a few values; comparisons look at several fields in turn.",
     [("time", "Time.__lt__"), ("year-month", "YearMonth"), ("month-day", "MonthDay")],
     ["accessors, comparison, formatting, on(), at(), replace()"], technique=ENUM, note="All 86,400 seconds, all 366 month-days and all 119,988 year-months are visited.")
prop("C26", "Local and fixed-offset arithmetic is plain clock arithmetic",
     "Arithmetic on local and fixed-offset values shifts the date first, truncating at month ends, then the clock exactly, carrying over days; the offset never changes. "
     "Differences between local values are the exact difference of clock readings, all call forms agree, and adding then subtracting exact units returns the same value.",
     ["inputs", "programs"], "all boundary values x all shifts of a component alphabet x all call forms",
     "Tests check few combinations; carries and signs interact with month truncation and range edges.",
     [("local", "LocalDateTime.add"), ("offset", "OffsetDateTime.add"), ("difference", "LocalDateTime.difference")],
     ["add, subtract, +, -, difference"], technique=ENUM, note="Full product of boundary values and shift components, each in every call form.")
prop("C27", "Timestamps map one-to-one to moments, in every unit and sign",
     "Converting to a timestamp floors to the unit and converting back gives that moment, for every exact type, negative times included; nanosecond timestamps are lossless. "
     "Fractional timestamps give the moment to within a nanosecond, values out of range or not finite raise ValueError, OverflowError or OSError, and fractional milliseconds or nanoseconds TypeError.",
     ["inputs"], "all boundary seconds, milliseconds and nanoseconds of either sign; all offsets and zones; float edge values",
     "Tests use a few positive timestamps.",
     [("seconds", "Instant.from_timestamp"), ("millis", "Instant.from_timestamp_millis"), ("nanos", "Instant.from_timestamp_nanos"), ("to timestamp", "Instant.timestamp")],
     ["timestamp*, from_timestamp* of all exact types"], technique=ENUM, note="Floats are compared with exact rational arithmetic.")
prop("C28", "Replacing fields changes exactly those fields, or raises",
     "Replacing any subset of fields of any value equals constructing a new value with those fields substituted, subject to the same validation and disambiguation; unnamed fields never change. "
     "Replacing nothing returns an identical value, and unknown or unsuitable fields raise.",
     ["inputs", "programs"], "all subsets of fields x boundary values for every type",
     "Tests replace one or two fields; combinations such as day with month, or offset with zone, interact.",
     [("date", "Date.replace"), ("zoned", "ZonedDateTime.replace"), ("offset", "OffsetDateTime.replace"), ("local", "LocalDateTime.replace")],
     ["replace, replace_date, replace_time"], technique=ENUM, note="All subsets of fields with boundary values for each field.")
prop("C29", "The current time is the clock's time, exactly, in every type",
     "For every type, asking for the current time gives the moment the system clock shows, to the nanosecond, in the requested offset or zone. "
     "Today's date is the local date of that moment in the system zone, for any clock value and zone.",
     ["inputs", "configurations"], "all clock readings around transitions and boundaries x all types x zones and system zones",
     "Tests can only compare with a moving clock.",
     [("instant", "Instant.now"), ("zoned", "ZonedDateTime.now"), ("offset", "OffsetDateTime.now"), ("today", "Date.today_in_system_tz")],
     ["now(), today_in_system_tz()"], technique=ENUM + " under a controlled clock", note="time.time_ns is replaced before the library is imported.")
prop("C30", "The Rust extension meets the same specification",
     "The Rust extension (src/), built with release semantics, satisfies the statements of all the other properties within the same bounds, for every operation and value explored there, and never aborts the interpreter. "
     "Exception: it does not validate pickle data that pickling did not produce.",
     ["inputs", "histories", "schedules", "configurations"], "the 33 explorations of the other properties, executed against the extension built from the working tree",
     "The tests run against one implementation at a time and sample it; agreement on every input and absence of aborts are universal statements.",
     [("type registration", "src/lib.rs:1"), ("shared helpers", "src/common.rs:1"), ("zoned", "src/zoned_datetime.rs:1")], ["the whole public API of the extension module"],
     technique="exhaustive explicit-state exploration: the 33 other models replayed on the compiled extension",
     files=["src/lib.rs", "src/common.rs", "src/date.rs", "src/time.rs", "src/date_delta.rs", "src/time_delta.rs", "src/datetime_delta.rs", "src/instant.rs", "src/local_datetime.rs", "src/offset_datetime.rs", "src/zoned_datetime.rs",
            "src/system_datetime.rs", "src/monthday.rs", "src/yearmonth.rs", "src/round.rs", "pysrc/whenever/__init__.py"],
     note="Compiled by rustc against a stand-in for the pyo3-ffi declarations (rust/pyo3_ffi.rs), since no crate can be fetched; an abort of the interpreter is a violation.")

prop("C31", "Results do not depend on the interpreter's surroundings",
     "The same well-typed call on the same values gives the same result or error whatever the interpreter's surroundings: assertions and docstrings stripped (-O, -OO), hash seed, development mode with warnings as errors, locale, I/O encoding, decimal context, integer text limit, "
     "C or Python implementation of the standard library's datetime and zoneinfo, current time, thread, forked child, subinterpreter, garbage collection. Only operations on the system timezone depend on it. Subinterpreters that come and go never disturb each other.",
     ["inputs", "configurations", "histories"], "every program of the interface on the pool's values in each of 19 surroundings; repeated explorations of other properties under -OO + foreign locale + small decimal context, and on the Python datetime and zoneinfo; all short histories of two subinterpreters",
     "The tests run once, in one configuration of the interpreter: nothing there would notice a validation that is an assert, a month name taken from the locale or a result taken from the decimal context.",
     [("formatting and parsing", "Instant"), ("validation", "Date"), ("standard library conversions", "ZonedDateTime.py_datetime"), ("shared state", "SystemDateTime")],
     ["results and errors of all public operations, per surrounding"],
     technique="exhaustive exploration of programs x interpreter configurations, each compared with the plain configuration and with the reference models; exhaustive subinterpreter histories",
     note="On the Python datetime/zoneinfo, ValueError and OverflowError are one outcome, and zones with a single transition are left out (the Python zoneinfo does not set the fold there).")

prop("C32", "Printed forms of a value show exactly that value",
     "For every value of every type, str(), format() without a spec, f-strings and %s give the canonical ISO 8601 text; repr() and %r, alone or inside containers, give the type's name around the same content "
     "(with a space for the date-time separator; TimeDelta as [-]HH:MM:SS[.fraction], with all hours). Fractions show exactly the significant digits up to nanoseconds. So values that differ in any component print differently.",
     ["inputs", "configurations"], "all fraction patterns, offsets, zones and aliases around transitions, dates, year-months, month-days; boundary products of delta components of both signs; system zones",
     "The tests compare a handful of printed values; a wrong sign, padding, fraction or separator shows only at particular component combinations.",
     [("printing time deltas", "TimeDelta"), ("printing zoned values", "ZonedDateTime"), ("printing dates", "Date")],
     ["str, repr, format, f-strings, % codes, containers"],
     technique="exhaustive explicit-state exploration of the component space, the canonical text predicted by a reference model",
     note="format() with a non-empty spec is not offered by the library.")

prop("C33", "strptime() reads exactly the date, time and offset the format describes",
     "OffsetDateTime.strptime() and LocalDateTime.strptime() give the value whose fields are those a text shows under the format's directives (the standard library's, to the microsecond, absent fields at 1900-01-01T00:00), "
     "and equal from_py_datetime() of what datetime.strptime() reads. OffsetDateTime requires an offset (%z, whole seconds) and a moment in range, LocalDateTime refuses one; texts that don't match the format raise ValueError.",
     ["inputs"], "20 date x 13 time formats x separators x offset directives; boundary days and times; all offset spellings; all one-character edits of rendered texts",
     "Tests parse two texts; the combinations of directives, offset spellings, sub-second offsets and range ends are unbounded.",
     [("offset strptime", "OffsetDateTime.strptime"), ("local strptime", "LocalDateTime.strptime"), ("conversion", "OffsetDateTime.from_py_datetime")],
     ["strptime()"], technique="exhaustive enumeration of formats x values rendered by a reference model, and of edited texts",
     note="Names of months and days in the C locale; %Z alone (a name without offset) only for OffsetDateTime.")

prop("C34", "Comparisons and operators obey Python's laws, between all types",
     "Values are equal exactly if they are of comparable types and denote the same moment (exact types) or content; equal values hash alike, and order is total within a family: so sets, dicts, sorting, min and max work. "
     "Across families == is False and ordering raises TypeError, as does every operator not offered for its operand types, in-place forms included. "
     "Operands of types the library doesn't know get their say (reflected methods, errors in them propagate); if they have none, the result is TypeError, or False for ==.",
     ["inputs", "programs"], "all ordered pairs of values of all types under all comparisons; all operators between all types; foreign operand classes and standard types on either side",
     "Tests compare a few pairs per type and never let a foreign operand's arithmetic methods decide.",
     [("exact comparison", "_KnowsInstant.__eq__"), ("delta equality", "DateTimeDelta.__eq__"), ("multiplication", "DateTimeDelta.__mul__")],
     ["comparison and arithmetic operators, hash, containers"],
     technique="exhaustive exploration of operand pairs x operators against a model of families and offered operations",
     note="text % value is formatting and not included; subclasses of int and float count as numbers, bool is left out.")


prop("C35", "Operations leave no memory, references or open files behind",
     "Every operation of the library, whether it succeeds or raises, leaves nothing behind: after its result is dropped, repeating it holds no more memory blocks, heap memory, references "
     "(to operands, types, time zones) or open files than before. With ever new operands (values, texts, unknown zones, unknown names) memory stays bounded as well: nothing is remembered per value.",
     ["histories", "inputs"], "all operations, methods and constructors, also with wrong arguments, repeated on a pool of values; 45,000 (thorough: 180,000) different operands in sequence for 80+ operations",
     "Tests look at results; what stays behind shows only in the allocator's counts over repetitions.",
     [("cached zone lookups", "ZonedDateTime"), ("parsing", "_match_zoned_str"), ("conversions", "ZonedDateTime.to_system_tz")],
     ["sys.getallocatedblocks(), mallinfo2(), reference counts and open files around repeated calls"],
     technique="exhaustive exploration of call histories (program x operands x repetitions), monitoring the allocator",
     note="growth that stops (caches of up to 30,000 entries) is no leak.")

prop("C36", "An operation cut short fails cleanly and leaves everything as it was",
     "If an operation is interrupted at any point (KeyboardInterrupt or another exception arriving between any two lines of the library's code) any one of its memory allocations fails, or the call stack is exhausted, "
     "that exception (or MemoryError, RecursionError) reaches the caller: it is never swallowed or replaced, never yields a wrong value, never ends the process. Operands keep their value, and the same operation, and all others, afterwards give what they gave before.",
     ["crash points", "inputs"], "all operations on a pool of values x every line of library code they execute x every memory allocation they make x every depth of stack left",
     "Tests never stop an operation half-way; the fault points of one operation are tens to hundreds.",
     [("clock patching", "_patch_time_frozen"), ("parsing", "_match_zoned_str"), ("arithmetic", "ZonedDateTime._shift")],
     ["exceptions and values at the caller; later results"],
     technique="exhaustive fault injection: one execution per program, operands and fault point",
     note="a SystemError counts as a failed allocation (the interpreter's own way to fail); patch_current_time() itself is not interrupted.")

prop("C37", "Every operation finishes promptly, whatever its operands",
     "Every operation, whether it succeeds or raises, takes a small bounded number of steps whatever the size of its operands: dates and deltas at opposite ends of the range, numbers with thousands of digits, any time zone. "
     "Parsing takes time at most about proportional to the length of the text, for any text: no input makes an operation hang or take disproportionately long.",
     ["inputs"], "all operations on a pool of values x numbers of every magnitude x every repeated part of texts",
     "Tests use ordinary operands, on which a loop or a backtracking pattern takes no time.",
     [("parsing", "_match_datetimedelta"), ("date arithmetic", "Date._add_months"), ("disambiguation", "_resolve_ambiguity")],
     ["lines of library code executed; processor time"],
     technique="exhaustive enumeration of operands, and of repeated parts of texts, with the library's steps counted",
     note="promptly means 1,000 lines of library code and 0.4 s of processor time, each many times what the longest operations need.")


prop("C38", "Both implementations give the same results",
     "The pure-Python implementation and the extension are interchangeable: every operation on equal operands gives an equal result in both - same type, same local fields, offset, zone and moment, same texts; hashes, and a nanosecond of rounding when a TimeDelta is scaled, aside - "
     "or is refused by both; and a text is accepted by both, with the same value, or by neither.",
     ["inputs", "programs"], "all operations on a pool of values, then all operations on every value reached; every single edit of texts in every format",
     "The test suite runs against one implementation at a time, on its own examples; nothing compares the two.",
     [("shifting in the system time zone", "SystemDateTime._shift_kwargs"), ("exact differences", "TimeDelta.__truediv__"), ("date arithmetic", "Date._add_months")],
     ["results of all operations in both implementations"],
     technique="exhaustive exploration of the product of both implementations to depth two, compared step by step",
     note="which exception is raised isn't compared; the extension is built from /repo/src for the comparison, and if it can't be built nothing is decided.")


def main():
    have = {f[:-3].upper() for f in os.listdir(V + "/mc/checks") if re.fullmatch(r"c\d\d\.py", f)}
    with open(V + "/properties.jsonl", "w") as fh:
        for p in P:
            files = p["files"] or ["pysrc/whenever/_pywhenever.py"]
            a = {"files": files, "mechanism": [{"name": n, "where": at(s)} for n, s in p["mech"]]}
            if p["state"]:
                a["state"] = [{"name": n, "meaning": m, "where": at(s)} for n, m, s in p["state"]]
            a["observe_at"] = p["observe"]
            a["hook_needed"] = None
            assert len(p["title"]) <= 80, p["id"]
            fh.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                                 "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": a}) + "\n")
    man = {"version": 1, "setup_cmd": "true", "checks": [], "not_applicable": [],
           "notes": "No hooks in /repo are needed: every check drives the public API in-process and owns the clock, TZ, tz data and thread schedule from outside."}
    for p in P:
        if p["id"] in have:
            cmd = f"/opt/venv/bin/python -B check.py {p['id']}"
            man["checks"].append({"property": p["id"], "quick_cmd": cmd + " quick", "thorough_cmd": cmd + " thorough",
                                  "technique": "model checking: " + p["technique"], "level": "model_checking", "level_note": TRUST + p["note"]})
        else:
            man["not_applicable"].append({"property": p["id"], "reason": "check not built yet"})
    if not man["not_applicable"]:
        man["not_applicable"] = []
    json.dump(man, open(V + "/MANIFEST.json", "w"), indent=1)
    print(len(P), "properties,", len(man["checks"]), "checks; missing", [x["property"] for x in man["not_applicable"]])


main()
