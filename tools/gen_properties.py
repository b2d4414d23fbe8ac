#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the wording stays reviewable)."""
import json, os
DT="src/iso8601/date_time.rs"; B="src/iso8601/date_time_builder.rs"; G="src/gregorian_normalized_date.rs"
Z="src/zoneinfo.rs"; I="src/instant.rs"; D="src/duration.rs"; C="src/slice_cursor.rs"; CH="src/iso8601/chronology.rs"
P=[]
def p(id,title,statement,over,text,why,files,mechanism,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mechanism],"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("B01","The builder accepts exactly the date-times that exist",
 "For any year plus any gap-free run of finer components (month, day, hour, minute, second, milli-, micro-, nanosecond), building succeeds if and only if they name a real UTC date-time of the proleptic Gregorian calendar in years 0000-9999, where the last minute of a day is as long as the loaded leap-second table makes it and components not given start at their first value. Otherwise checked building returns an error (out of bounds if only the year is above 9999, invalid if the year is in range) and unchecked building panics with it. Checked building never panics on such input.",
 ["inputs","configurations"],"every u16 year, u8 month/day/hour/minute/second, u16 milli/micro/nanosecond, every precision, every leap-second table",
 "The one builder test tries about a dozen inputs, all at second precision and against the system's table; day 0, coarse precisions, deleted leap seconds and century rules over 10,000 years are never sampled.",
 [B,G,Z],[("checked_build validation",B),("from_date month/day validation",G),("leap-second lookup of the last minute",Z)],observe=["DateTimeBuilder::checked_build","DateTimeBuilder::build"])
p("B02","A date-time reads back the components it was built from",
 "Year, month, day, hour, minute and second read from a built date-time are those given to the builder, and components finer than the given precision read as their first value. The result depends only on the last value given to each component: not on the order of the calls, on overwritten values (except that precision is the finest component ever given), or on earlier builds from the same builder.",
 ["inputs","histories"],"every valid component combination, every sequence of builder calls with interleaved builds",
 "Tests read back about ten date-times built in one fixed order; the packed representation has special cases at second 65,536 of the day, leap seconds, January/February and range ends.",
 [B,DT,G],[("setters and precision tracking",B),("bit packing of components",DT),("March-based year arithmetic",G)],observe=["DateTimeBuilder setters","DateTime::{year,month,day,hour,minute,second}"])
p("B03","Equality sees every component, and arithmetic keeps precision and sub-second",
 "Two date-times that share a chronology are equal exactly when they have the same precision and the same components down to the nanosecond; a clone equals its original. Adding years, months, days, hours, minutes or seconds leaves precision and sub-second part unchanged.",
 ["inputs","histories"],"all pairs of date-times of one chronology, all precisions, all nanosecond values, all arithmetic operations",
 "No test compares two date-times or uses a sub-second value other than an invalid one, so a bit lost in the packed word is invisible to them.",
 [DT,B],[("pack/unpack of precision, seconds and nanoseconds",DT),("derived PartialEq",DT)],state=[("w0/w1","packed precision, date, second and nanosecond",DT)],observe=["DateTime ==","DateTime::clone","checked_add_*"])
p("B04","Incomplete components are refused, never guessed",
 "A builder that lacks the year, or any component coarser than the finest one given, never builds a date-time, whatever was given, in whatever order: checked building is refused (it panics or returns an error), and unchecked building panics. What was missing can be given afterwards, and the builder then builds as if nothing had ever been missing.",
 ["inputs","histories"],"every subset of the nine components that is empty or has a gap, every value of those given, every order of calls and every builder refused before",
 "No test builds from incomplete components; a component that defaults silently gives a date-time that exists, and is wrong, so nothing later can notice it.",
 [B],[("precision tracking and the components it requires",B)],observe=["DateTimeBuilder::checked_build","DateTimeBuilder::build"])
p("E01","Equal date-times are interchangeable, across all chronologies",
 "Equality of date-times, and of chronologies, whichever databases and zones they were loaded from and whether those are still loaded, is reflexive, symmetric and transitive, and != is its negation. Clones of a chronology are equal to it. Equal chronologies hold the same leap-second table, and equal date-times have the same components, text and timeline: every operation gives equal results, or is refused, for both. A result belongs to the chronology of its operand: adding nothing gives an equal date-time.",
 ["inputs","configurations","histories"],"all pairs and triples of date-times and chronologies loaded from any tables, alike but for one entry or entirely, over any sequence of loads and drops",
 "No test compares two date-times, and none loads two tables; equality that forgets the chronology, compares tables superficially or identifies chronologies by something that repeats passes them all.",
 [CH,DT],[("Chronology equality",CH),("DateTime equality",DT),("chronology carried into results",DT)],state=[("pimpl","the shared table that a chronology stands for",CH)],observe=["Chronology ==","DateTime ==","checked_add_*"])
p("A01","Adding seconds is exact elapsed time on the UTC timeline",
 "Adding n seconds (positive or negative) to a date-time gives the date-time exactly n elapsed seconds later, where every UTC day lasts 86,400 seconds plus whatever the loaded leap-second table inserts or deletes at its end. A leap second is passed through as 23:59:60, a deleted second is skipped, and days before and after the table's span have 86,400 seconds.",
 ["inputs","configurations"],"every date-time, every i64 amount with the result in range, every leap-second table",
 "The test follows some 25 hand-picked steps around two real leap seconds; there are 27 real leap seconds, unboundedly many tables (also with deleted seconds) and 3*10^11 start points.",
 [DT,Z,G],[("to_second_instant / from_second_instant",DT),("segment table and binary search",Z)],observe=["DateTime::add_seconds","DateTime::checked_add_seconds"])
p("A02","Adding days moves the calendar date by exactly that many days",
 "Adding n days to a date-time moves its date by exactly n days of the proleptic Gregorian calendar and keeps the time of day. If that time of day does not exist on the target day (a leap second, or a deleted second), the result is the last second of that day and the excess is reported as seconds of carry; otherwise the carry is zero.",
 ["inputs","configurations"],"every date-time, every i32 amount with the result in range, every leap-second table",
 "Tests use a dozen amounts from four dates, never a leap second; the calendar's 400-year cycle, century and quadrennium boundaries give many places where one wrong digit shows only on particular dates.",
 [DT,G],[("GregorianNormalizedDate::add_days",G),("spill_eod_second_overflow",DT)],observe=["DateTime::checked_add_days","DateTime::add_days"])
p("A03","Adding months clips to the month end and reports the clipped days",
 "Adding n months gives the same day of month and time of day n calendar months away. If the target month is shorter, the result is its last day and the days carry is the number of days clipped (at most 3); a time of day missing on the resulting day is clipped likewise with seconds carry; otherwise the carry is zero.",
 ["inputs","configurations"],"every date-time, every i32 amount with the result in range, every leap-second table",
 "Tests try 14 additions; 12 month lengths x leap-year rules x sign x year boundary x leap seconds are not covered.",
 [DT,G],[("GregorianNormalizedDate::add_months",G),("checked_add_months",DT)],observe=["DateTime::checked_add_months","DateTime::add_months"])
p("A04","Adding years keeps month, day and time, clipping only 29 February",
 "Adding n years gives the same month, day and time of day in the year n later. Only 29 February moved to a common year is clipped, to 28 February with a days carry of 1; a time of day missing on the resulting day is clipped with seconds carry; otherwise the carry is zero.",
 ["inputs","configurations"],"every date-time, every i16 amount with the result in range, every leap-second table",
 "Tests try 8 additions, all near 2000 or at the range ends; century years, negative amounts over leap days and leap seconds are not sampled.",
 [DT,G],[("GregorianNormalizedDate::add_years",G),("is_leap_year on the shifted year",G)],observe=["DateTime::checked_add_years","DateTime::add_years"])
p("A05","Adding hours and minutes counts 1,440 minutes per day",
 "Adding n minutes moves a date-time's minute label by n, every day having exactly 1,440 minutes whatever its length in seconds, and keeps the second of the minute; adding n hours is adding 60n minutes. If the target minute is too short for that second, the result is that minute's last second and the excess is reported as seconds carry; otherwise the carry is zero.",
 ["inputs","configurations"],"every date-time, every i64 minute / i32 hour amount with the result in range, every leap-second table",
 "Tests use about 15 amounts and one real leap second; minutes of 59 seconds, leap-to-leap moves and day borders from arbitrary seconds are not sampled.",
 [DT],[("checked_add_minutes",DT),("spill_eod_second_overflow",DT)],observe=["DateTime::checked_add_minutes","DateTime::checked_add_hours"])
p("A06","Carry accounts for everything that was clipped",
 "The carry of an operation is non-zero exactly when the result was clipped, and dropping it gives the clipped date-time. Applying it gives the clipped date-time moved forward by the carried calendar days and then by the carried seconds (plus any seconds clipped in moving the days) of elapsed time. Unwrapping returns the date-time when there is no carry and panics when there is.",
 ["inputs","histories","configurations"],"every result of adding years, months, days, hours or minutes, under every leap-second table",
 "Tests apply a carry five times, always a pure day carry or a single leap second; combined day and second carries and carries landing on leap days are never produced.",
 [DT],[("DateTimeWithCarry",DT),("checked_apply_carry",DT)],observe=["DateTimeWithCarry::{has_carry,days_carry,seconds_carry,unwrap,drop_carry,apply_carry,checked_apply_carry}"])
p("A07","Out-of-range arithmetic is reported, never wrapped",
 "For every date-time and every amount of the argument type, each checked addition returns none if and only if the target (after clipping) lies outside 0000-01-01 to 9999-12-31, and never panics, overflows or wraps around. Each unchecked addition panics exactly in those cases and otherwise gives the same result as the checked one.",
 ["inputs"],"every date-time, every i16/i32/i64 amount including the extremes of the type and amounts aliasing a small one modulo a power of two",
 "Tests check one step past each end of the range plus i32::MAX days; amounts that overflow an intermediate narrower type only misbehave for particular multiples.",
 [DT,G],[("is_in_range",DT),("checked arithmetic in add_days/add_years/add_months/add_minutes",G)],observe=["DateTime::checked_add_*","DateTime::add_*"])
p("A08","Every reachable date-time is one that exists",
 "Whatever sequence of building, adding, dropping, applying carries and cloning produced it, a date-time lies in 0000-01-01 to 9999-12-31 and its components name a second that exists under its chronology's leap-second table, so the builder accepts those same components. At second precision or finer, the date-time rebuilt that way equals it.",
 ["histories","configurations"],"every finite sequence of operations from every start, under every leap-second table",
 "Tests chain at most three operations; an invalid internal state (such as 23:59:60 on an ordinary day) only appears after particular combinations.",
 [DT,B,G],[("clipping and range checks in every operation",DT),("from_second_instant",DT)],observe=["DateTime accessors after each step"])
p("L01","The timeline contains exactly the leap seconds of the loaded table",
 "For every non-empty leap-second table in the time-zone database directory that is in use (the directory named by the environment, or the system default), each UTC day listed is longer or shorter by exactly the listed change and every other day has 86,400 seconds, whichever time zone the chronology was loaded for. The builder and second arithmetic agree with each other on this, second by second.",
 ["configurations"],"every table of inserted and deleted leap seconds that a compiled zoneinfo file can hold, including tables with a trailing no-change expiry entry",
 "Tests run against the one table installed on the machine, which contains no deleted second, and look at three of its entries.",
 [Z,CH,B,DT],[("load_leap_segments",Z),("by_day / by_instant lookup",Z)],state=[("segments","continuous stretches ending in a leap second",Z)],observe=["load_chronology","DateTimeBuilder::checked_build","checked_add_seconds"])
p("L03","A damaged or missing database is refused, never half used",
 "Loading a chronology, and everything that loads one by itself (a builder without a chronology, converting a system time), either uses the complete leap-second table of the database or is refused (it panics). A database whose named zone or leap-second table is missing, unreadable, not a zoneinfo file, or cut off anywhere inside its 32-bit data is always refused; one whose table is replaced (by renaming) while it is being loaded gives the old table or the new one, never a mixture. A refusal leaves chronologies loaded before, and loads after the database is repaired, unaffected, and leaves no file open.",
 ["fault_sequences","configurations","schedules"],"every byte at which a file can be cut off, every kind of unreadable file, every header count the file has no room for, and every moment at which the table is replaced",
 "Tests only read the intact database of the machine; what happens with a damaged one is never looked at.",
 [Z,CH,B],[("load_zoneinfo",Z),("load_leap_segments",Z),("default chronology",B)],observe=["load_chronology","DateTimeBuilder::checked_build","Instant::try_from(SystemTime)"])
p("L02","Results depend only on the operands, on any thread",
 "No operation changes its operands, and the same operation on the same operands gives the same result, or is refused alike, whatever was computed before (operations that were refused or panicked included), in whatever order, with whatever other chronologies loaded from other leap-second tables, and on however many threads sharing the same chronology, builders' default chronology, date-times and instants.",
 ["schedules","histories"],"every interleaving of operations on shared values by several threads and every order of operations, with several chronologies in use",
 "Tests are single-threaded and use a single chronology per value; a cache or shared scratch value would pass all of them.",
 [CH,DT,Z,I],[("immutable Arc-shared chronology",CH),("value-type DateTime",DT)],observe=["all public operations, compared between runs"])
p("I01","System time converts to exact elapsed ticks including leap seconds",
 "Where the system clock does not count leap seconds, converting a system time gives the number of whole ticks (rounded down) elapsed since 1970-01-01T00:00:00 UTC, including every leap second that the table inserted or deleted before that time, also for times before 1970 and after the last entry. If the tick type cannot hold that number, the conversion reports an error and never wraps or panics.",
 ["inputs","configurations"],"every system time, every tick type and every scale (also one whose tick is not a whole number of nanoseconds), every leap-second table",
 "The test converts the current time twice and checks only that the results do not decrease; no absolute value, no pre-1970 time and no leap-second boundary is checked.",
 [I,Z],[("TryFrom<SystemTime>",I),("get_leap_second_adjustment_for_unix_timestamp",Z)],observe=["Instant::try_from(SystemTime)"])
p("I02","Conversion follows the C library's view of the clock, at any current time",
 "If the C library's calendar shows that the system clock already counts leap seconds, they are not added again: conversion then gives the raw count of ticks; otherwise they are added. Whatever the current clock reading is (including before 1970, in the far future, on leap days and at year ends) and whatever ordinary time zone the process uses, converting a given system time gives the same instant.",
 ["configurations","fault_sequences","inputs"],"every reading or jump of the system clock at the time of conversion and every time-zone setting of the process",
 "Tests only ever see the real clock of the build machine and its default zone, so the detection code is run for one date.",
 [I],[("system_time_includes_leap_seconds",I),("utc_to_unix_time / julian_day",I)],observe=["Instant::try_from(SystemTime) under a substituted clock_gettime"])
p("I03","Instants of any tick type and scale compare as exact points in time",
 "Comparing two instants (==, !=, <, <=, >, >=, three-way) agrees with the exact rational comparison of their times since the epoch, for any two tick types of any width and signedness and any two scales, whether or not one is a multiple of the other. No comparison overflows or panics.",
 ["inputs"],"all pairs of tick values of all pairs of integer types and scales",
 "No test compares instants of different types or scales.",
 [I],[("PartialEq/PartialOrd across types",I)],observe=["Instant comparison operators"])
p("I04","Rescaling an instant loses nothing it does not report",
 "Flooring an instant to a coarser scale gives the latest coarse instant not after it, also before the epoch; splitting gives that same instant plus a non-negative remainder shorter than one coarse tick, and the two add up to the original (it panics if the tick type cannot hold that remainder). Extending to a finer scale is exact, or none when the target type cannot hold it, and flooring an extended instant gives the original back. Between scales of which neither is a multiple of the other, rescaling is refused (it panics) rather than giving a wrong result.",
 ["inputs"],"all tick values of all integer types, also types too small for the scales themselves, all pairs of scales",
 "No test calls these functions; rounding errors show only for negative values or values near the type's limits.",
 [I],[("Instant::floor / split / extend",I)],observe=["Instant::floor","Instant::split","Instant::extend"])
p("I05","Instant arithmetic and tick-type conversion is exact or refused",
 "Checked addition of a duration gives the exact sum or none when the tick type overflows; the + and - operators give the exact result or panic, never a wrapped value. Converting an instant or duration to another tick type keeps the value exactly or reports out of range when it does not fit; widening always keeps the value.",
 ["inputs"],"all tick values, all pairs of tick types",
 "No test exercises these conversions or overflows.",
 [I,D,"src/widen.rs"],[("checked_add, Add, Sub",I),("try_from/try_into/into/widen",I),("widen! macro",'src/widen.rs')],observe=["Instant and Duration operators and conversions"])
p("D01","Duration division and rescaling are exact",
 "Dividing a duration by another gives the integer quotient rounded down (or up) and a remainder r with dividend = quotient * divisor + r (or - r), where 0 <= r < divisor for a positive divisor, exact when the dividend's scale is a multiple of the divisor's. A division by zero, and one whose numbers the tick type cannot hold, is refused (it panics) and never gives a wrong result. Flooring a duration rounds towards negative infinity, extending it is exact or none on overflow, both are refused (they panic) between scales of which neither is a multiple of the other, and sum, difference and multiple are exact or refused (they panic) when they do not fit, never wrapped.",
 ["inputs"],"all dividends and divisors of all integer types, all scale pairs (a result is due wherever the cross-multiplied tick counts, give or take one divisor, and the scales' common multiple fit the tick type)",
 "No test touches durations on their own; sign and divisibility cases are not sampled.",
 [D],[("div_rem_floor / div_rem_ceil",D),("floor / extend",D)],observe=["Duration::{div_rem_floor,div_rem_ceil,floor,extend}","Duration operators"])
p("D02","Durations order, and equal values hash alike",
 "Durations of one tick type and scale are ordered, and equal, exactly as their lengths are, with all comparison operators, minimum and maximum, sorting and ordered sets agreeing. Equal durations, and equal instants of one type and scale, always have the same hash, however they were obtained or copied. Every duration since the epoch lies between those of the minimum and the maximum instant, and converting an instant to it and back gives the same instant.",
 ["inputs","histories"],"all pairs and collections of tick values of every integer type and scale",
 "No test compares, sorts or hashes durations, or hashes instants.",
 [D,I],[("derived Ord/Eq/Hash of Duration",D),("derived Hash of Instant",I)],observe=["Duration comparison operators and Hash","Instant Hash","min_value / max_value / duration_since_epoch"])
p("T01","Debug text tells date-times apart",
 "The debug text of two date-times that share a chronology is the same exactly when they are equal (same precision and components down to the nanosecond), however they were reached, and likewise that of two date-times with carry when also their carries are equal. Printing never panics.",
 ["inputs","histories"],"all pairs of date-times and of results with carry, at every precision, including leap seconds",
 "No test prints a date-time; a shortened or ambiguous text only shows for particular pairs.",
 [DT,G],[("impl Debug for DateTime",DT),("derived Debug of DateTimeWithCarry, GregorianNormalizedDate",DT)],observe=["format!(\"{:?}\") of DateTime and DateTimeWithCarry"])
p("T02","Debug text tells instants and durations apart",
 "The debug text, plain or spread over lines, of two instants of one tick type and scale is the same exactly when they are equal, however they were obtained, and likewise that of two durations. Printing never panics.",
 ["inputs"],"all tick values of all tick types and scales, negative ones and the ends of the types included",
 "No test prints an instant or a duration; a text that drops a sign, pads a fraction wrongly or goes through a narrower or floating type is wrong for few values.",
 [I,D],[("Debug of Instant",I),("Debug of Duration",D)],observe=["format!(\"{:?}\")"])
p("X01","Using the library changes nothing but its results",
 "Whatever is asked of the library, also where it is refused, no call writes to standard output, standard error or any file, creates, changes or removes a file or directory, changes the environment, the working directory, the file-creation mask, the locale, signal handling, the panic hook, limits or priorities of the process, starts or ends a process or opens a network connection, not even for a moment. Files are read only where a chronology is loaded (also by a builder without one and by converting a system time); no other operation on chronologies, date-times, instants and durations reads any.",
 ["inputs","histories"],"every call of the public API with every operand, under every leap-second table and every kind of refusal",
 "A test sees the value that a call returns, not what the call did to the process around it, and effects may need a particular table, operand or refusal.",
 [I,Z,CH,DT],[("system_time_includes_leap_seconds asks the C library",I),("load_zoneinfo, load_leap_segments read files",Z)],observe=["C library functions with effects, interposed","state of the process before and after","descriptors 1 and 2"])
p("P01","No operation slows down with the size of its arguments",
 "Building, reading, comparing and printing date-times, all their additions and carries, comparing, rescaling, adding and converting instants, and dividing and rescaling durations each return (or refuse, or panic where that is specified) after a small bounded amount of work, whatever the magnitude of the amounts, ticks, scales or components given.",
 ["inputs"],"all operands, including the extremes of every argument type",
 "Tests use small amounts, for which a loop over days, years or seconds is as fast as arithmetic; with a hostile amount it never ends.",
 [DT,B,G,I,D,Z],[("closed-form calendar arithmetic",G),("segment binary search",Z),("checked_add_*",DT)],observe=["processor time of every call"])
p("N01","A cursor never loses its place",
 "A cursor over a sequence is before the first element, on an element, or after the last; stepping moves one place and stops at the ends, and what is returned, peeked, current and reported as position always agrees with that place. Moving by n passes min(n, elements remaining in that direction) elements without leaving the last one reached, reports exactly how many steps were not taken, and never panics, whatever the state and n.",
 ["histories","inputs"],"every sequence of cursor operations on slices of any length with any step count, including usize::MAX",
 "Tests walk a three-element slice along fixed paths and call the multi-step moves from one end only.",
 [C,"src/cursor.rs"],[("SliceCursor navigation",C)],state=[("pos","0 = start, 1..=len = element, len+1 = end",C)],observe=["CursorProbe methods"],hook="cfg(momentous_verif): verif_hooks::CursorProbe forwards to the crate-private SliceCursor")
p("S01","Safe use never causes a memory error, undefined behaviour or a data race",
 "However the public API is used from safe code, on one thread or many (including first use of the default chronology and conversion of system times racing on several threads), the process performs no invalid memory access, no undefined behaviour and no data race, and does not leak memory, files or threads, also where operations are refused.",
 ["schedules","inputs"],"every workload over the public API, every thread interleaving",
 "Ordinary tests run uninstrumented and single-threaded; the conversion from system time calls into C with raw pointers.",
 [I,DT,CH,Z,C],[("unsafe call of gmtime_r with a stack tm",I),("Arc-shared chronology",CH)],observe=["AddressSanitizer, LeakSanitizer, ThreadSanitizer, Miri and valgrind reports; abnormal process ends"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
