#!/usr/bin/env python3
"""Writes /verif/properties.jsonl.  Statements live here so they can be edited as text."""
import json, os
P = []
EN = "src/parsers/en/"
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(zip(("name", "meaning", "where"), s)) for s in state],
                     mechanism=[dict(zip(("name", "where"), m)) for m in mech],
                     observe_at=list(observe), hook_needed=hook)))

p("C01", "Every phrase gets an answer: no crash, no hang, no escaped error",
  "For every text (up to two thousand bytes) and every valid reference moment in years 1400-9999, the command-line program ends normally with status 0 and prints exactly one answer line: 'Date:' followed by a well-formed date or date range, or the invalid-date notice. Parsing and refining the text never lets an exception escape, reads no memory it does not own, and always terminates, also when the text names an impossible or unrepresentable date or an absurdly large count.",
  ["inputs"], "all texts that are sequences of date/time vocabulary, numbers, connectives, punctuation and raw bytes; all reference moments including both ends of the calendar",
  "Tests feed about 60 well-formed phrases at one or two reference dates to one parser at a time and never run the program; the crashing inputs are combinations (number too big, day too big, end of calendar) nobody sampled.",
  ["time.cpp", "src/parsers/parsers.cpp", "src/result.cpp", "src/refiners/en/ENMergeDateAndTimeRefiner.hpp", "src/refiners/en/ENMergeDateRangeRefiner.hpp"],
  [("scan loop of Parser::execute", "src/parsers/parsers.cpp"), ("candidate filter hasPossibleDates", "src/result.cpp"), ("pipeline in main", "time.cpp")],
  observe=["stdout, exit status and signals of the program", "exceptions out of Parser::execute / Refiner::refine"])

p("C02", "An answer depends only on the text and the reference moment",
  "What a parser, a refiner or the whole program reports for a text and a reference moment is a function of those two alone: it does not depend on which texts were parsed before, by which parser objects, in which order, or how often. Parsing leaves the reference moment unchanged and the text unchanged except for lower-casing its letters.",
  ["histories"], "all sequences of parse/refine operations, over all parsers, that precede a call in the same process",
  "Each test case runs in its own process with at most a handful of calls; state left behind in the library's shared vocabulary tables by one expression and read by another is visible only for particular ordered pairs.",
  ["src/utils/utils.hpp", "src/utils/utils.cpp", EN+"ENWeekExperessionParser.hpp", EN+"ENDeadlineFormatParser.hpp", EN+"ENRelativeDateFormatParser.hpp", "src/parsers/parsers.cpp"],
  [("vocabulary tables shared by all parsers", "src/utils/utils.hpp"), ("function-local static patterns", EN)],
  state=[("INTEGER_WORDS, ORDINAL_WORDS, MONTH_CONSTANTS, WEEKDAY_OFFSET, DEFAULT_TIMEZONE_ABBR_MAP", "mutable process-wide vocabulary", "src/utils/utils.hpp")],
  observe=["results of Parser::execute", "argument objects after the call"])

p("C03", "Surrounding words and letter case do not change the reported date",
  "Writing a supported expression in any mixture of upper and lower case, or placing it inside a sentence between blank-separated words that have no date meaning, or following it with sentence punctuation, leaves the date the program reports unchanged. A text that contains no expression is reported as invalid.",
  ["inputs"], "all case variants of every expression form and all placements in a neutral sentence (before, after, both; short and long context; separators blank, tab, newline, punctuation)",
  "Tests embed a few phrases in one sentence each; case folding and word-boundary handling are per-pattern and per-position, and several patterns only worked in the one position the test used.",
  ["src/parsers/parsers.cpp", "src/utils/utils.cpp", EN+"*.hpp", "time.cpp"],
  [("lower-casing and incremental search", "src/parsers/parsers.cpp"), ("word-boundary anchors of each pattern", EN)],
  observe=["stdout of the program"])

p("C04", "All expressions in a text are found, in order, at their own position",
  "When a text contains several expressions of one family separated by other words, that family's parser reports exactly one result per expression, in text order, each with the meaning the expression has when it stands alone. Each result's position and length denote a part of the text that contains the expression and otherwise at most adjacent blanks (and its at/on/from lead-in); parts of different results never overlap.",
  ["inputs"], "all sequences of up to three expressions per family, all separators, short and long gaps",
  "Tests parse one expression per text and look at results[0]; offset bookkeeping across several matches in one text is never exercised.",
  ["src/parsers/parsers.cpp", EN+"*.hpp"],
  [("remaining-text cursor and index computation", "src/parsers/parsers.cpp"), ("result construction from match and index", EN)],
  state=[("remainingText", "unscanned suffix of the text", "src/parsers/parsers.cpp")],
  observe=["getIndex, textLength and components of every result"])

p("C05", "Casual day words resolve relative to the reference moment",
  "'now' is the exact reference moment; 'today' and 'tonight' (22h) are the reference date; 'tomorrow'/'tmr' is the next calendar day, except during the first hour after midnight, when it is still the reference date; 'yesterday' is the previous calendar day at the reference hour; 'last night' is hour 0 of the previous day, or of the reference date when the reference hour is 6 or earlier. Dates roll over month, year and leap-day boundaries correctly and are marked as certain.",
  ["inputs"], "all reference moments (every day of leap and ordinary years, century boundaries, every hour) times every word",
  "Tests use a single reference moment (2018-02-13 18:16) per word, so no month end, year end, leap day or early-morning hour is reached.",
  [EN+"ENCasualDateParser.hpp"], [("ENCasualDateParser::extract", EN+"ENCasualDateParser.hpp")],
  observe=["components of the result"])

p("C06", "Casual time words give fixed hours on the reference day",
  "'morning', 'afternoon', 'evening', 'night' and 'noon', with or without 'this', mean 6, 15, 20, 20 and 12 o'clock on the reference date at the reference minute; date, weekday, hour and minute are all implied, never certain.",
  ["inputs"], "all reference moments times every word form",
  "Tests use two reference moments; weekday and date propagation is checked for one of them.",
  [EN+"ENCasualTimeParser.hpp"], [("ENCasualTimeParser::extract", EN+"ENCasualTimeParser.hpp")],
  observe=["components of the result"])

p("C07", "Weekday names resolve inside the Sunday-based week asked for",
  "A weekday name, full or abbreviated, alone or with 'this', denotes that weekday of the Sunday-to-Saturday week containing the reference date; with 'last' or 'next' before it, or after it (optionally followed by 'week'), it denotes that weekday exactly one week earlier or later. Dates obtained with last/next are certain, otherwise implied; 'early'/'earlier' or 'late' before such a modifier implies 6:01 or 20:01.",
  ["inputs"], "every reference weekday and date (month/year/leap boundaries), every spelling, every modifier and position",
  "The repository's weekday tests use one reference Monday and none of them passes on the pinned commit, so the stable suite does not reach this parser at all.",
  [EN+"ENDayOfTheWeekParser.hpp", "src/utils/utils.hpp"], [("updateParsedComponent", EN+"ENDayOfTheWeekParser.hpp"), ("WEEKDAY_OFFSET", "src/utils/utils.hpp")],
  observe=["components of the result"])

p("C08", "'in/within N units' is the reference moment plus exactly N units",
  "'in' or 'within' followed by a count (digits, one..twelve, a/an, 'a few' = 3) and a unit from seconds to years, in any supported spelling or abbreviation, denotes the reference moment advanced by that amount with calendar carry; day-and-longer units give a date (half a day also hour and minute), shorter ones a full date and time; 'half a' unit means 1 s, 30 s, 30 min, 12 h, 3 days, 15 days, 6 months for second..year. Month and year steps clip to the end of a shorter month and keep the last day of a month last; a target outside years 1400-9999 is not reported, and a count beyond 2147483647 may go unreported but never gives a wrong date.",
  ["inputs"], "all counts including very large ones, all units and spellings, all reference moments including midnight and month-end rollovers",
  "One stable test ('in a few years'); rollover past midnight, abbreviations and big counts are never sampled.",
  [EN+"ENDeadlineFormatParser.hpp"], [("ENDeadlineFormatParser::extract", EN+"ENDeadlineFormatParser.hpp")],
  observe=["components of the result"])

p("C09", "'N units ago' and 'N units later' move by exactly that amount",
  "A positive count and unit (or a sequence of different units such as '1 day 3 hours') followed by ago/before/earlier, or by later/after/from now/henceforth/forward/out, denotes the reference moment moved back or forward by the sum of the amounts with calendar carry; counts are digits, one..twelve, a/an, 'a few' = 3, 'half a' as for deadlines. If only day-or-longer units are named the date is certain and no time of day is given; if a shorter unit (or half a day, which is 12 hours) is named the time of day is certain too. Moving back and moving forward by the same days, hours, minutes or seconds are inverse to each other.",
  ["inputs"], "all counts, units, suffix words, one or two amounts, all reference moments",
  "The only stable test of either parser parses the empty string or nothing; the patterns never matched on the pinned commit.",
  [EN+"ENTimeAgoFormatParser.hpp", EN+"ENTimeLaterParser.hpp", "src/utils/utils.cpp", "src/utils/utils.hpp"],
  [("ENTimeAgoFormatParser::extract", EN+"ENTimeAgoFormatParser.hpp"), ("ENTimeLaterParser::extract", EN+"ENTimeLaterParser.hpp"), ("extractDateTimeUnitFragments", "src/utils/utils.cpp")],
  observe=["components of the result"])

p("C10", "'last/past/next [N] units' and 'this week/month/year'",
  "'next' or 'last'/'past' with an optional count (digits, one..twelve, few = 3, half) and a unit from seconds to years moves the reference moment forward or back by that amount, default one, with the same half-unit and month-end rules as deadlines. 'this week' is the range from Sunday to Saturday around the reference date, 'this month' its first to last day, 'this year' January 1 to December 31; a count after 'this' yields nothing.",
  ["inputs"], "all modifier/count/unit combinations and all reference moments (leap February, year ends)",
  "All three tests of this parser fail on the pinned commit for an unrelated index expectation, so none is in the stable suite.",
  [EN+"ENRelativeDateFormatParser.hpp"], [("ENRelativeDateFormatParser::extract", EN+"ENRelativeDateFormatParser.hpp")],
  observe=["components of the result"])

p("C11", "'last/next N weeks' and 'this week' shift by whole weeks",
  "'last' or 'next', an optional count (digits or one..twelve, default one) and 'week(s)' denote the reference date moved by exactly seven days per week, as implied date; 'this week' is the reference date. A word that is not a number is not taken as a count, and a target outside years 1400-9999 is not reported.",
  ["inputs"], "all counts including overflowing ones, unknown count words, all reference dates",
  "One reference date, counts one and two.",
  [EN+"ENWeekExperessionParser.hpp"], [("ENWeekExpressionParser::extract", EN+"ENWeekExperessionParser.hpp")],
  observe=["components of the result"])

p("C12", "ISO 8601 timestamps are read back exactly or rejected",
  "YYYY-M-D with optional Thh:mm[:ss[.fff]] and optional Z or signed hh[:]mm offset yields exactly those year, month, day, hour, minute and second as certain values, and the offset in signed minutes (0 for Z or none) when a time is given. Timestamps that name no real calendar date or time of day are not reported.",
  ["inputs"], "every calendar date, every month/day/hour/minute/second number including impossible ones, every offset form",
  "Three literal timestamps, none invalid, none with an offset (the test says 'todo').",
  [EN+"ENISOFormatParser.hpp", "src/result.cpp"], [("ENISOFormatParser::extract", EN+"ENISOFormatParser.hpp")],
  observe=["components and certainty of the result"])

p("C13", "A month name denotes the first of that month in the given or nearest year",
  "Every English month name and supported abbreviation (with or without trailing dot), optionally followed by a four-digit year, denotes day 1 (implied) of that month (certain) in that year; a 'BE' year is 543 less, an AD year is itself, a year below 100 without era counts from 2000, and a year outside 1400-9999 (or BC) is not reported. Without a year, and for a reference in years 1401-9998, the year is the one (previous, same or next) whose first-of-month lies nearest to the reference date (either on a tie).",
  ["inputs"], "all month spellings, all years, all reference dates",
  "One month (September), one year; the nearest-year rule, 'May', dots and eras are not tested.",
  [EN+"ENMonthNameParser.hpp", "src/utils/utils.hpp"], [("ENMonthNameParser::extract", EN+"ENMonthNameParser.hpp"), ("MONTH_CONSTANTS", "src/utils/utils.hpp")],
  observe=["components of the result"])

p("C14", "Month-day expressions give that day in the given or nearest year",
  "A month name or abbreviation followed by a day (1-31, with or without st/nd/rd/th, or an ordinal word first..thirty-first), in any supported separator style, optionally preceded by a weekday and followed by a year or era year, denotes exactly that month and day, certain, in the given year or, without year, in the year nearest to the reference date (for references in 1401-9998; either on a tie); the weekday word is recorded. 'July 24 - 27' and 'July first to third' denote the range ending on the second day at 23:59. Days that do not exist in that year are not reported.",
  ["inputs"], "all month spellings times all days 1..31 in both notations times all separators, years, eras and reference dates",
  "All tests of this parser fail (crash) on the pinned commit; nothing in the stable suite reaches it.",
  [EN+"ENMonthNameMiddleEndianParser.hpp", "src/utils/utils.cpp"], [("ENMonthNameMiddleEndianParser::extract", EN+"ENMonthNameMiddleEndianParser.hpp"), ("argToOrdinalValue", "src/utils/utils.cpp")],
  observe=["components of start and end"])

p("C15", "Clock times are read exactly; impossible ones are rejected",
  "h, h:mm or h:mm:ss (colon or dot before the minutes), compact hmm/hhmm, noon and midnight, with optional at/from lead-in and am/pm/o'clock in any supported spelling, denote that hour and minute (and second, if given) as certain values on the reference date (implied). 12am is 0h, 12pm is 12h, other pm hours add 12; an hour above 24, minutes or seconds above 59, or an hour above 12 with am/pm/o'clock is not a time. A number glued to a preceding word is not a time.",
  ["inputs"], "all hours 0..99 times all minutes 0..99 times meridiem forms, all compact numbers 0..9999, all seconds",
  "Tests sample about ten times out of thousands; only three impossible times are checked.",
  [EN+"ENTimeExpressionParser.hpp"], [("ENTimeExpressionParser::extract, start part", EN+"ENTimeExpressionParser.hpp")],
  observe=["components of the result"])

p("C16", "Clock ranges give both ends, sharing am/pm when only one states it",
  "'A to B' (also -, ~ and en dash) between two clock times gives A as start and B as end on the reference date, each read as a single clock time would be. If only B says pm, an A before 12 is pm as well; if only A says am or pm, a B of at most 12 takes the same half of the day; hours above 12 are never shifted. If B is not a possible time, or looks like a numeric zone offset (-0500), only A is reported.",
  ["inputs"], "all pairs of start and end hours 0..24 times meridiem combinations times separators, representative minutes and seconds",
  "Five literal ranges; the start-side and end-side meridiem rules interact over hundreds of combinations.",
  [EN+"ENTimeExpressionParser.hpp"], [("ENTimeExpressionParser::extract, 'to' part", EN+"ENTimeExpressionParser.hpp")],
  observe=["components of start and end, end()"])

p("C17", "US holidays fall on their statutory date in the reference year",
  "Independence Day is July 4, New Year's Day January 1, New Year's Eve December 31, Veterans Day November 11, Christmas December 25 (Eve: 24), MLK Day the third Monday of January, President's Day the third Monday of February, Memorial Day the last Monday of May, Labor Day the first Monday of September, Columbus Day the second Monday of October, Thanksgiving the fourth Thursday of November and Black Friday the day after it, all in the reference year at 0:00 (the floating ones with their weekday), for every reference year and every supported spelling with or without 'day'.",
  ["inputs"], "all years of the 400-year calendar cycle and beyond, all holiday spellings, reference dates before and after the holiday",
  "The single holiday test fails on the pinned commit and covers one year; weekday-based holidays differ by year.",
  [EN+"ENUSHolidaysParser.hpp"], [("ENHolidayParser::extract", EN+"ENUSHolidaysParser.hpp")],
  observe=["components of the result"])

p("C18", "A known time zone after a clock time is recorded and applied in full",
  "When a clock time or clock range is followed by a known zone abbreviation (any case, optionally parenthesised; behind it only punctuation or the end of the text, blanks aside, or its closing parenthesis), that zone's offset in minutes is recorded on the start and, for a range, on the end, and the result is marked as carrying a zone and spans it; the printed start and end are then both in UTC, each the written clock time minus its offset, also after merging with a date. An unknown abbreviation, one followed by more words, or a result that is no clock time leaves the results unchanged.",
  ["inputs"], "every entry of the zone table, every placement of the time in the text, single times and ranges, unknown abbreviations",
  "One zone (EST) on one time at the start of the text; ranges and rendering are not tested.",
  ["src/refiners/ExtractTimeZoneAbbreviation.hpp", "src/utils/utils.hpp", "src/result.cpp"], [("ExtractTimeZoneAbbreviation::refine", "src/refiners/ExtractTimeZoneAbbreviation.hpp"), ("toDate", "src/result.cpp")],
  observe=["getTimeZoneOffset, getTag, toDate"])

p("C19", "Overlapping results are reduced to the longest, and nothing else is lost",
  "Given results ordered by position, overlap removal returns a subsequence of them whose text spans do not overlap: going left to right, a result overlapping the currently kept one replaces it only if its span is strictly longer and is dropped otherwise, and every result that overlaps no other is kept. The kept results are unchanged.",
  ["inputs"], "all ordered lists of up to five results over all small span positions and lengths, with and without end dates",
  "One list of two overlapping results.",
  ["src/refiners/OverlapRemovalRefiner.hpp"], [("OverlapRemover::refine", "src/refiners/OverlapRemovalRefiner.hpp")],
  observe=["list returned by refine"])

p("C20", "Adjacent date-only and time-only results merge into one date-time",
  "When a result without explicit hour stands next to one with neither explicit month nor explicit day that is not a weekday either, the two are replaced by one result with the date of the former and the time (and time range) of the latter, spanning both, marked with both sources; a merged range that would end before it starts ends on the following calendar day (as far as the calendar has one). All other results are kept exactly once, unchanged and in order: none is lost or duplicated.",
  ["inputs"], "all result lists up to length four over date-only / time-only / date-time kinds with and without end; all days for the past-midnight rollover",
  "No test of this refiner exists.",
  ["src/refiners/en/ENMergeDateAndTimeRefiner.hpp"], [("ENMergeDateAndTime::refine, mergeResult, mergeDateTimeComponent", "src/refiners/en/ENMergeDateAndTimeRefiner.hpp")],
  observe=["list returned by refine", "stdout of the program"])

p("C21", "Two dates joined by to/through/and/- become one chronological range",
  "When two neighbouring results that are not ranges have a connective (and, to, through, -) in the text between them, they are replaced by one range whose start is the earlier and whose end is the later of the two, spanning both and marked with both sources. All other results are kept exactly once, unchanged and in order: none is lost or duplicated.",
  ["inputs"], "all result lists up to length four over single/range kinds, both chronological orders, with and without connective in each gap",
  "No test of this refiner exists.",
  ["src/refiners/en/ENMergeDateRangeRefiner.hpp"], [("ENMergeDateRange::refine, mergeResult, isAbleToMerge", "src/refiners/en/ENMergeDateRangeRefiner.hpp")],
  observe=["list returned by refine", "stdout of the program"])

p("C22", "Certain date parts win over implied ones in every order of updates",
  "Each of the eight parts of a date (year, month, day, weekday, hour, minute, second, zone offset) reads as its last certain value if one was ever set, else as its last implied value, else as 0, and is reported certain exactly when it was set as certain. Implying a certain part, or naming an unknown part, changes nothing; updates of one part never affect another.",
  ["histories"], "all sequences of set and imply operations on all parts, and copies taken at any point",
  "Three tests set each field once and read it back; no imply, no certainty query, no order of operations.",
  ["src/result.cpp", "src/result.hpp"], [("knownValues/impliedValues tables", "src/result.hpp")],
  state=[("knownValues", "certain parts", "src/result.hpp"), ("impliedValues", "implied parts", "src/result.hpp")],
  observe=["getters, isCertain"])

p("C23", "Copying a result preserves it, and copies are independent",
  "Copy-constructing, assigning (also to itself or over a result that already had other contents) and returning results through containers preserves position, text length, marks, start date and, when the result has an end, the end date and that fact; later changes to either object never show in the other. A result without an end never gains one by being copied or assigned.",
  ["histories"], "all short sequences of mutations, copies and assignments over two or three result objects",
  "One assignment of a result without end or dates.",
  ["src/result.cpp", "src/result.hpp"], [("ParsedResult copy constructor and operator=", "src/result.cpp"), ("ParsedComponents copy and assignment", "src/result.cpp")],
  observe=["all accessors of both objects"])

p("C24", "The program reports the first expression in the text, whatever its kind",
  "For every supported expression of every family the program wires in (all but the this/next/last-units family), the program's output line is the rendering of that expression's meaning; with several expressions in the text it is that of the first one in text order, after neighbouring dates and times have been merged. An expression is never displaced by a shorter reading of a part of it (such as the bare number in '5 days ago').",
  ["inputs"], "every expression family and form, ordered pairs of expressions of different families, a set of reference moments",
  "No test runs the program or more than one parser at a time.",
  ["time.cpp", "src/refiners/OverlapRemovalRefiner.hpp", "src/parsers/parsers.cpp"], [("parser and refiner lists, sort, output", "time.cpp")],
  observe=["stdout of the program"])

p("C25", "Only dates that exist are ever reported",
  "A set of date parts counts as a possible date exactly when year, month and day form a calendar date in years 1400-9999 and hour is 0-24, minute and second 0-59; every result any parser reports satisfies this for its start and, if present, its end. Judging a set of parts never throws, whatever the values.",
  ["inputs"], "all combinations of year, month, day, hour, minute and second around their limits; all parser outputs for numeric texts around the limits",
  "Tests check only that an all-empty result is rejected; the validity check itself is never exercised with real values.",
  ["src/result.cpp", "src/parsers/parsers.cpp"], [("isPossibleDate / hasPossibleDates", "src/result.cpp"), ("filter in Parser::execute", "src/parsers/parsers.cpp")],
  observe=["hasPossibleDates, isPossibleDate, results of execute"])

p("C26", "Rendering prints exactly the moments the result denotes",
  "A result renders as 'YYYY-Mon-DD HH:MM:SS' for its start and, if and only if it has an end, ' - ' and the same form for its end; both are the stored parts, zero where unset, with hour 24 as midnight of the next day, and both are converted to UTC if and only if a zone was extracted. Rendering does not change the result, and reading the moment of a set of parts back gives the same parts.",
  ["inputs"], "all days of leap, ordinary and century years, all times of day, all zone offsets, with and without end",
  "toDate and date are never called by any test.",
  ["src/result.cpp"], [("ParsedResult::toDate, ParsedComponents::date", "src/result.cpp")],
  observe=["toDate, date"])

p("C27", "Command-line contract: usage, explicit and default reference",
  "With no argument or more than two the program prints its usage text and nothing else; with a reference argument 'YYYY-MM-DD HH:MM:SS' exactly that moment is the reference; with only a phrase the current local second is the reference, so relative expressions follow the clock. A reference argument that holds no existing calendar date produces the usage text, not a crash.",
  ["inputs", "configurations"], "all argument counts, all reference strings (valid and malformed), all clock values around day, month and year ends",
  "No test runs the program.",
  ["time.cpp"], [("main", "time.cpp")],
  observe=["stdout, exit status"])

p("C28", "Results stay marked with the expression families they came from",
  "Every reported result carries the mark of the family that recognised it (week expressions have none) and no other; merging keeps the marks of both parts and adds the mark of the merge, zone extraction adds its mark, and no step drops a mark.",
  ["inputs", "histories"], "every expression form of every family; every merge and zone-extraction combination",
  "One tag (zone) on one result is checked.",
  [EN+"*.hpp", "src/refiners/*.hpp", "src/result.cpp"], [("setTag/getTag and tag union in merges", "src/result.cpp")],
  observe=["getTag"])

p("C29", "Threads with their own parsers and refiners do not disturb each other",
  "When several threads of one process parse, refine and render texts at the same time, each with its own text, parser and refiner objects, then under every interleaving of the threads each gets exactly the answer it gets alone, no thread crashes, waits for ever or fails to end, and no thread reads or writes memory that another thread writes without synchronisation between the two. This holds from the first use in the process on.",
  ["schedules"], "all interleavings of two and three threads over all points at which one can influence the other; all families side by side with themselves and each other; fresh and used process",
  "All tests are single-threaded; even a threaded test would see a handful of accidental schedules.",
  ["src/utils/utils.hpp", "src/utils/utils.cpp", "src/parsers/parsers.cpp", EN+"*.hpp", "src/refiners/*.hpp", "src/result.cpp"], [("static patterns and their initialisation", EN+"*.hpp getPattern"), ("word and zone tables shared by all objects", "src/utils/utils.hpp")],
  observe=["results, refined results and rendered dates of each thread; termination"])

p("C30", "Assembled, the library lists every expression once, merged where joined",
  "Running every expression family the program wires in over one text, ordering the results by position and applying the overlap, zone, date-time and range refiners in the program's order gives exactly one entry per expression of the text, in text order, with the meaning the expression has alone; except that a clock time's zone is added to it, a date next to a time becomes one date-time, and two single dates joined by and/to/through/- become one range. No expression is lost, doubled or misread because of another one, however many there are; every entry spans its own part of the text (adjacent blanks and an at/on/from lead-in apart), carries the marks of exactly the families it came from, and renders as what it means. A fraction of a second in the reference changes nothing.",
  ["inputs"], "all pairs, triples and quadruples of expressions over all families and joins, long texts of many expressions, all surroundings and letter cases",
  "No test runs more than one parser, or a parser followed by a refiner, on a text with two expressions.",
  ["src/parsers/parsers.cpp", EN+"*.hpp", "src/refiners/*.hpp", "src/refiners/en/*.hpp", "src/result.cpp"], [("incremental search of each parser", "src/parsers/parsers.cpp"), ("overlap removal, zone, date-time and range merging", "src/refiners/")],
  observe=["complete list after the last refiner: getIndex, textLength, parts, end, tags, toDate"])

p("C31", "Answers do not depend on time zone setting, wall clock or locale",
  "For a text and a reference moment that is given, what the parsers, the refiners, the rendering and the program answer is the same in all surroundings: whatever time zone the process is set to, with or without daylight saving, whatever the wall clock reads, and whatever global C++ locale (digit grouping, decimal point) the host program has set. In particular a moment is never shifted, rejected or moved to another day because local clocks skip or repeat an hour on that day.",
  ["configurations", "inputs"], "all combinations of time zone settings, wall clock readings and locales with all expression families; all times of the days on which some local clock is set forward or back",
  "All tests run in the one environment of the build machine, which is set to UTC, the default locale and the present.",
  ["time.cpp", "src/result.cpp", EN+"*.hpp"], [("reference moment passed down instead of read from the clock", "time.cpp, src/parsers/parsers.cpp"), ("rendering by calendar arithmetic without local time", "src/result.cpp toDate, date")],
  observe=["stdout of the program; complete refined list and toDate of every result"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
