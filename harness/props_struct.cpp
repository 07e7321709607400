// C18-C23, C25, C26, C28: refiners over all result lists, result objects over all operation sequences.
#include "adapter_int.h"
#include "model.h"
#include <climits>
namespace mcx {

static bool same(const Obs& a, const Obs& b) { return a.index == b.index && a.len == b.len && a.end == b.end && a.tags == b.tags && a.s == b.s && (!a.end || a.e == b.e); }
static std::string compare(const std::vector<Obs>& got, const std::vector<Obs>& want) {
    bool ok = got.size() == want.size();
    for (size_t i = 0; ok && i < got.size(); i++) ok = same(got[i], want[i]);
    return ok ? "" : "got " + show(got) + ", expected " + show(want);
}
static Comp parts(std::vector<std::pair<int, int>> certain, std::vector<std::pair<int, int>> impliedParts) {
    Comp c; for (auto& p : certain) known(c, p.first, p.second); for (auto& p : impliedParts) implied(c, p.first, p.second); return c;
}

// ---------- C19 ----------
static void lists(Ctx& c, int n, int maxPos, int maxLen, int endMask, int base = 0, int unit = 1) {
    const std::string text(64 + base + 20 * unit, 'x');
    std::vector<Obs> v(n);
    std::function<void(int, int)> rec = [&](int k, int from) {
        if (k == n) {
            c.test([&] { std::string s; for (auto& o : v) s += fmt(" [%ld,%ld)%s", o.index, o.index + o.len, o.end ? "range" : ""); return "overlap removal of" + s; },
                   [&] { Refined r = runRefiner(R_OVERLAP, v, text); c.ops(1); c.outcome(hashObs(r.r)); return r.error.empty() ? compare(r.r, modelOverlap(v)) : r.error; });
            return;
        }
        for (int p = from; p <= maxPos; p++) for (int l = 1; l <= maxLen; l++) {
            Obs& o = v[k]; o = Obs(); o.index = base + p * unit; o.len = l * unit;
            o.s = parts({{Y, 2000 + k}, {MO, 1 + k}, {D, 10 + k}}, {{H, k + 1}});
            o.end = (endMask >> ((k + p + l) % 4)) & 1;
            if (o.end) o.e = parts({{Y, 2010 + k}, {MO, 2}, {D, 3}, {MI, k}}, {});
            o.tags = 1u << ((k * 3 + l) % NTAGS);
            rec(k + 1, p);
        }
    };
    rec(0, 0);
}
PROPERTY(C19, "all ordered lists of 0..4 spans over positions 0..7 x lengths 1..5, of 5 spans over positions 0..6 x lengths 1..4 and of 6 over 0..4 x 1..3 (thorough: 5 over 0..8 x 1..5, 6 over 0..6 x 1..4), of 3 and 4 at positions up to a million and with lengths up to 260000, with and without ends",
         "left-to-right rule of the statement; kept results compared in all parts, marks, span and end") {
    for (int n = 0; n <= 4; n++) { lists(c, n, 7, 5, 5); if (n < 4) lists(c, n, 9, 10, 10); }
    lists(c, 5, 6, 4, 6);
    for (int base : {120, 250, 32760, 65530, 1000000}) lists(c, 3, 7, 5, 6, base);      // far into a long text
    for (int unit : {50, 127, 128, 255, 256, 9000, 32768, 65535, 65536}) { lists(c, 3, 4, 4, 5, unit % 2, unit); lists(c, 4, 3, 3, 6, 3, unit); }      // long spans
    if (!c.thorough) lists(c, 6, 4, 3, 9); else { lists(c, 5, 8, 5, 5); lists(c, 6, 6, 3, 9); lists(c, 6, 5, 4, 3); }
}

// ---------- C20 ----------
struct Kind { const char* name; Obs o; };
static std::vector<Kind> kindsDT() {
    std::vector<Kind> v;
    auto add = [&](const char* n, Comp s, bool end = false, Comp e = Comp(), unsigned tags = 0) { Obs o; o.s = s; o.end = end; o.e = e; o.tags = tags; v.push_back({n, o}); };
    std::vector<std::pair<int, int>> ref{{Y, 2018}, {MO, 2}, {D, 28}};
    auto plus = [&](std::vector<std::pair<int, int>> a, std::vector<std::pair<int, int>> b) { a.insert(a.end(), b.begin(), b.end()); return a; };
    add("date", parts({{Y, 2019}, {MO, 12}, {D, 31}}, {}), false, {}, 1u << T_MME);
    add("date+impliedhour", parts({{Y, 2018}, {MO, 2}, {D, 28}}, {{H, 22}}), false, {}, 1u << T_CDATE);
    add("daterange", parts({{Y, 2018}, {MO, 7}, {D, 24}}, {}), true, parts({{Y, 2018}, {MO, 7}, {D, 27}, {H, 23}, {MI, 59}}, {}), 1u << T_MME);
    add("clock", parts({{H, 17}, {MI, 30}}, ref), false, {}, 1u << T_TIME);
    add("clockrange", parts({{H, 9}, {MI, 0}}, ref), true, parts({{H, 11}, {MI, 45}}, ref), 1u << T_TIME);
    add("nightrange", parts({{H, 22}, {MI, 0}}, ref), true, parts({{H, 2}, {MI, 0}}, ref), 1u << T_TIME);
    add("casualtime", parts({}, plus(ref, {{WD, 3}, {H, 6}, {MI, 16}})), false, {}, 1u << T_CTIME);
    add("datetime", parts({{Y, 2020}, {MO, 2}, {D, 29}, {H, 9}, {MI, 5}, {TZ, -90}}, {}), false, {}, 1u << T_ISO);
    add("datetimerange", parts({{Y, 2020}, {MO, 2}, {D, 29}, {H, 9}, {MI, 5}}, {}), true, parts({{Y, 2020}, {MO, 3}, {D, 1}, {H, 1}, {MI, 1}}, {}), 1u << T_ISO);
    add("month", parts({{MO, 9}}, {{D, 1}, {Y, 2017}}), false, {}, 1u << T_MONTH);
    add("weekday", parts({}, {{Y, 2018}, {MO, 3}, {D, 2}}), false, {}, 1u << T_DOW);
    add("clock+zone", parts({{H, 5}, {MI, 0}, {TZ, -300}}, ref), false, {}, 1u << T_TIME | 1u << T_ZONE);
    add("clock+sec", parts({{H, 0}, {MI, 0}, {S, 9}}, ref), false, {}, 1u << T_TIME);
    add("daycertain", parts({{D, 15}}, {{MO, 4}, {Y, 2018}}), false, {}, 0);
    add("impliedrange", parts({}, {{Y, 2018}, {MO, 2}, {D, 25}}), true, parts({}, {{Y, 2018}, {MO, 3}, {D, 3}}), 1u << T_RELATIVE);
    add("ago", parts({{H, 3}, {MI, 4}, {S, 5}}, {{Y, 2018}, {MO, 2}, {D, 27}}), false, {}, 1u << T_AGO);
    return v;
}
static void listsOf(Ctx& c, int which, const std::vector<Kind>& kinds, int n, const std::vector<std::string>& gaps, const std::string& word, size_t lead = 3) {
    std::vector<int> k(n), g(n);
    std::function<void(int)> rec = [&](int i) {
        if (i == n) {
            std::string text; std::vector<Obs> v; 
            c.test([&] {
                std::string s, t = lead > 3 ? fmt("(%zu bytes) ", lead) : "xx "; for (int j = 0; j < n; j++) { if (j) t += gaps[g[j]]; t += word; s += std::string(j ? ", " : "") + kinds[k[j]].name; }
                return std::string("refiner ") + std::to_string(which) + " on [" + s + "] in " + showText(t + " yy"); },
                [&] {
                    text = std::string(lead - 1, 'x') + " ";
                    for (int j = 0; j < n; j++) { if (j) text += gaps[g[j]]; Obs o = kinds[k[j]].o; o.index = (long) text.size(); o.len = (long) word.size(); text += word; v.push_back(o); }
                    text += " yy";
                    Refined r = runRefiner(which, v, text); c.ops(1); c.outcome(hashObs(r.r));
                    if (!r.error.empty()) return r.error;
                    return compare(r.r, which == R_DATETIME ? modelDateTime(v) : which == R_RANGE ? modelRange(v, text) : modelOverlap(v));
                });
            return;
        }
        for (size_t a = 0; a < kinds.size(); a++) for (size_t b = 0; b < (i ? gaps.size() : 1); b++) { k[i] = (int) a; g[i] = (int) b; rec(i + 1); }
    };
    rec(0);
}
static void rollover(Ctx& c, const DT& d, bool certain, int h1, int h2, bool impliedRange) {
    c.test([&] { return fmt("date %04d-%02d-%02d (%s) merged with %d:00-%d:00%s", d.y, d.m, d.d, certain ? "certain" : "implied", h1, h2, impliedRange ? " (implied date first)" : ""); },
           [&] {
               Obs a, b; a.index = 0; a.len = 4; b.index = 8; b.len = 5; a.tags = 1u << T_MME; b.tags = 1u << T_TIME;
               putDate(a.s, {d.y, d.m, d.d}, certain);
               if (!certain) known(a.s, MO, d.m);
               b.s = parts({{H, h1}, {MI, 0}}, {{Y, 2018}, {MO, 2}, {D, 13}}); b.end = true; b.e = parts({{H, h2}, {MI, 0}}, {{Y, 2018}, {MO, 2}, {D, 13}});
               std::vector<Obs> v{a, b};
               if (impliedRange) { v = {b, a}; std::swap(v[0].index, v[1].index); v[0].len = 4; }
               Refined r = runRefiner(R_DATETIME, v, "date at clock time"); c.ops(1); c.outcome(hashObs(r.r));
               return r.error.empty() ? compare(r.r, modelDateTime(v)) : r.error;
           });
}
PROPERTY(C20, "all result lists of length 0..5 over 16 kinds of result, every gap ', ' / ' at ' / ' foo bar ' for lists up to 3; past-midnight ranges: every day of 411 years x certain/implied date x 6 hour pairs x both orders; the same through the program",
         "pairwise left-to-right merging rule of the statement with own calendar; all parts, marks, spans compared") {
    auto kinds = kindsDT();
    for (int n = 0; n <= 3; n++) listsOf(c, R_DATETIME, kinds, n, {", ", " at ", " foo bar "}, "today");
    listsOf(c, R_DATETIME, kinds, 4, {" "}, "tod");
    for (size_t lead : {126, 250, 32764, 65530, 300000}) listsOf(c, R_DATETIME, kinds, 2, {", ", " at "}, "today", lead);      // far into a long text
    for (size_t gap : {130, 260, 33000, 66000}) listsOf(c, R_DATETIME, kinds, 2, {" " + std::string(gap, 'z') + " "}, "today");
    listsOf(c, R_DATETIME, kinds, 5, {" "}, "to");
    std::vector<int> years{1400, 1900, 1999, 2000, 2019, 2020, 2024, 2100, 2400, 9998, 9999};
    for (int y = 2001; y <= 2401; y++) years.push_back(y);
    for (auto& d : refsDays(years, {0})) for (bool certain : {true, false}) for (auto h : {std::pair<int, int>{22, 2}, {23, 0}, {9, 17}, {10, 10}, {1, 0}, {24, 1}}) for (bool rev : {false, true}) {
        if (d.y == 9999 && d.m == 12 && d.d == 31 && h.first == 24) continue;
        rollover(c, d, certain, h.first, h.second, rev);
    }
    // through the program: a date followed or preceded by a time or time range
    struct P { std::string t; std::function<Allowed(const DT&)> f; int tag; };
    std::vector<P> dates{{"tomorrow", [](const DT& r) { return meanCasualDate("tomorrow", r); }, T_CDATE}, {"july 24", [](const DT& r) { return meanMonthDay(7, 24, -1, -1, -1, r); }, T_MME},
        {"december 31 2019", [](const DT& r) { return meanMonthDay(12, 31, 2019, -1, -1, r); }, T_MME}, {"friday", [](const DT& r) { return meanWeekday(5, 0, 0, r); }, T_DOW}, {"next tuesday", [](const DT& r) { return meanWeekday(2, 1, 0, r); }, T_DOW},
        {"today", [](const DT& r) { return meanCasualDate("today", r); }, T_CDATE}, {"2020-02-29", [](const DT&) { return meanIso({2020, 2, 29, false}); }, T_ISO}, {"in 3 days", [](const DT& r) { return meanDeadline({U_DAY, 3, false}, r); }, T_DEADLINE},
        {"5 days ago", [](const DT& r) { return meanAgoLater({{U_DAY, 5, false}}, -1, r); }, T_AGO}, {"two weeks later", [](const DT& r) { return meanAgoLater({{U_WEEK, 2, false}}, 1, r); }, T_LATER}, {"next week", [](const DT& r) { return meanWeek(1, r); }, -1}};
    std::vector<P> times{{"5pm", [](const DT& r) { return meanClock({5, 0, -1, M_PM}, r); }, T_TIME}, {"at 14:05", [](const DT& r) { return meanClock({14, 5, -1, M_NONE}, r); }, T_TIME}, {"10pm to 2am", [](const DT& r) { return meanClockRange({10, 0, -1, M_PM}, {2, 0, -1, M_AM}, r); }, T_TIME},
        {"from 9 to 11:30", [](const DT& r) { return meanClockRange({9, 0, -1, M_NONE}, {11, 30, -1, M_NONE}, r); }, T_TIME}, {"morning", [](const DT& r) { return meanCasualTime("morning", r); }, T_CTIME}, {"this evening", [](const DT& r) { return meanCasualTime("evening", r); }, T_CTIME}, {"6:07:08 am", [](const DT& r) { return meanClock({6, 7, 8, M_AM}, r); }, T_TIME}};
    for (auto& d : dates) for (auto& t : times) for (auto& r : refsSmall()) for (int order = 0; order < 2; order++) {
        if (r.y == 1400 || r.y == 9999) continue;
        const P &a = order ? t : d, &b = order ? d : t;
        if (order && (b.t[0] == 'i' || isdigit((unsigned char) b.t[0])) && a.t.find("1:30") == std::string::npos && isdigit((unsigned char) a.t.back())) continue;
        std::string text = a.t + (order ? " foo " : ", ") + b.t;
        c.test([&] { return "program on " + showText(text) + " reference " + show(r); }, [&]() -> std::string {
            CliOut o = runCli({text, refArg(r)}); c.ops(1); c.outcome(hashStr(o.out));
            std::string want;
            for (auto& ma : a.f(r)) for (auto& mb : b.f(r)) {
                std::vector<Obs> v; if (ma.present) v.push_back(obsOf(ma, 0, (long) a.t.size(), a.tag)); if (mb.present) v.push_back(obsOf(mb, (long) (text.size() - b.t.size()), (long) b.t.size(), b.tag));
                want = modelLine(modelRange(modelDateTime(v), text));
                if (want == o.out) return "";
            }
            return "prints " + showText(o.out) + o.error + ", expected " + showText(want);
        });
    }
}

// ---------- C21 ----------
PROPERTY(C21, "all result lists of length 0..4 over 6 kinds (three single moments, one of them equal to another, ranges) x all 10 gap texts in each gap (thorough: length 5); every pair of days of one month around a leap day in both orders; the same through the program",
         "pairwise left-to-right joining rule of the statement") {
    std::vector<Kind> kinds;
    auto add = [&](const char* n, Comp s, bool end, Comp e, unsigned tags) { Obs o; o.s = s; o.end = end; o.e = e; o.tags = tags; kinds.push_back({n, o}); };
    add("early", parts({{Y, 2018}, {MO, 7}, {D, 5}}, {}), false, {}, 1u << T_MME);
    add("late", parts({{Y, 2019}, {MO, 1}}, {{D, 1}, {H, 22}}), false, {}, 1u << T_MONTH);
    add("early+time", parts({{Y, 2018}, {MO, 7}, {D, 5}, {H, 9}, {MI, 1}, {S, 1}}, {}), false, {}, 1u << T_DATETIME | 1u << T_TIME | 1u << T_CDATE);
    add("range", parts({{Y, 2018}, {MO, 3}, {D, 5}}, {}), true, parts({{Y, 2018}, {MO, 3}, {D, 9}}, {}), 1u << T_RELATIVE);
    std::vector<std::string> gaps{" to ", " - ", "-", " and ", " through ", ", ", " ", " foo ", " foo and bar ", " , to the "};
    std::vector<std::string> few{" to ", " foo ", "-"};
    for (int n = 0; n <= 3; n++) { auto k = kinds; Obs o = kinds[0].o; o.s = parts({}, {{Y, 2018}, {MO, 7}, {D, 5}}); o.tags = 0; k.push_back({"early-implied", o}); o = kinds[3].o; o.tags = 1u << T_TIME; o.s = parts({{H, 5}}, {{Y, 2018}, {MO, 2}, {D, 3}}); k.push_back({"clockrange", o}); listsOf(c, R_RANGE, k, n, gaps, n == 2 ? "today" : "sandto"); }
    listsOf(c, R_RANGE, kinds, 4, gaps, "tot-and");
    listsOf(c, R_RANGE, kinds, 5, few, "tom");
    for (size_t lead : {120, 126, 250, 32764, 65530, 300000}) for (int n = 2; n <= 3; n++) listsOf(c, R_RANGE, kinds, n, few, "today", lead);      // far into a long text
    for (size_t gap : {100, 130, 260}) { std::string z(gap, 'z'); listsOf(c, R_RANGE, kinds, 2, {" " + z + " ", " " + z + " and ", " to " + z + " ", "- " + z, z + " through " + z}, "today"); }
    if (c.thorough) { listsOf(c, R_RANGE, kinds, 5, {" to ", " foo ", "-", " and "}, "to-"); listsOf(c, R_RANGE, {kinds[0], kinds[1], kinds[3]}, 6, few, "andx"); }
    for (int i = 0; i < 40; i++) for (int j = 0; j < 40; j++) for (int h = 0; h < 3; h++) {
        c.test([&] { return fmt("days 2020-02-10 + %d and + %d joined by 'to' (hours %d)", i, j, h); }, [&] {
            Obs a, b; a.index = 2; a.len = 5; b.index = 11; b.len = 7; a.tags = 1u << T_ISO; b.tags = 1u << T_MME;
            putDate(a.s, dateOf(dayNo(2020, 2, 10) + i), true); putDate(b.s, dateOf(dayNo(2020, 2, 10) + j), false);
            if (h) known(a.s, H, 12); if (h == 2) implied(b.s, H, 24);
            std::vector<Obs> v{a, b}; std::string text = "x first to second1 y";
            text = "x firs5 to  second1y";
            Refined r = runRefiner(R_RANGE, v, text); c.ops(1); c.outcome(hashObs(r.r));
            return r.error.empty() ? compare(r.r, modelRange(v, text)) : r.error;
        });
    }
    struct P { std::string t; std::function<Allowed(const DT&)> f; int tag; };
    std::vector<P> ds{{"tomorrow", [](const DT& r) { return meanCasualDate("tomorrow", r); }, T_CDATE}, {"yesterday", [](const DT& r) { return meanCasualDate("yesterday", r); }, T_CDATE}, {"july 24, 2018", [](const DT& r) { return meanMonthDay(7, 24, 2018, -1, -1, r); }, T_MME},
        {"december 31 2019", [](const DT& r) { return meanMonthDay(12, 31, 2019, -1, -1, r); }, T_MME}, {"next tuesday", [](const DT& r) { return meanWeekday(2, 1, 0, r); }, T_DOW}, {"2020-02-29", [](const DT&) { return meanIso({2020, 2, 29, false}); }, T_ISO},
        {"in 3 days", [](const DT& r) { return meanDeadline({U_DAY, 3, false}, r); }, T_DEADLINE}, {"5 days ago", [](const DT& r) { return meanAgoLater({{U_DAY, 5, false}}, -1, r); }, T_AGO}, {"christmas", [](const DT& r) { return meanHoliday(CHRISTMAS, r); }, T_HOLIDAY},
        {"2018-05-06t10:00:00", [](const DT&) { return meanIso({2018, 5, 6, true, 10, 0, true, 0, true, 0}); }, T_ISO}};
    for (auto& a : ds) for (auto& b : ds) for (auto& r : refsSmall()) for (std::string g : {" to ", " and ", " through ", " - ", " foo "}) {
        if (r.y == 1400 || r.y == 9999) continue;
        if (g == " - " && isdigit((unsigned char) b.t[0]) && isdigit((unsigned char) a.t.back())) continue;     // digits around '-' read as one expression
        if (g == " to " && isdigit((unsigned char) b.t[0]) && isdigit((unsigned char) a.t.back())) continue;
        std::string text = a.t + g + b.t;
        c.test([&] { return "program on " + showText(text) + " reference " + show(r); }, [&]() -> std::string {
            CliOut o = runCli({text, refArg(r)}); c.ops(1); c.outcome(hashStr(o.out));
            std::string want;
            for (auto& ma : a.f(r)) for (auto& mb : b.f(r)) {
                std::vector<Obs> v{obsOf(ma, 0, (long) a.t.size(), a.tag), obsOf(mb, (long) (a.t + g).size(), (long) b.t.size(), b.tag)};
                want = modelLine(modelRange(modelDateTime(v), text));
                if (want == o.out) return "";
            }
            return "prints " + showText(o.out) + o.error + ", expected " + showText(want);
        });
    }
}

// ---------- C18 ----------
static std::string cased(const std::string& s, int how) { std::string r; for (size_t i = 0; i < s.size(); i++) r += how == 0 || (how == 2 && i % 2) ? (char) toupper((unsigned char) s[i]) : (char) tolower((unsigned char) s[i]); return r; }
PROPERTY(C18, "every zone of the table x 3 letter cases x 5 attachments x 12 time expressions x with/without a sentence in front (real clock parser, refiner and rendering); 16 continuations behind the zone; unknown abbreviations (all 26^2 two-letter and 26^3 three-letter words); zones followed by words; zones in the middle of two results of all kinds; non-clock results; program runs with and without a date for every zone",
         "golden copy of the zone table; own calendar for the shift") {
    struct T { const char* t; Clock a; bool range; Clock b; };
    std::vector<T> ts{{"5pm", {5, 0, -1, M_PM}, false}, {"at 5:30 pm", {5, 30, -1, M_PM}, false}, {"0:15", {0, 15, -1, M_NONE}, false}, {"23:59:59", {23, 59, 59, M_NONE}, false}, {"1630", {16, 30, -1, M_NONE}, false}, {"midnight", {0, 0, -1, M_NONE}, false}, {"8 o'clock", {8, 0, -1, M_OCLOCK}, false},
        {"5 to 7pm", {5, 0, -1, M_NONE}, true, {7, 0, -1, M_PM}}, {"9:15am - 11:45am", {9, 15, -1, M_AM}, true, {11, 45, -1, M_AM}}, {"from 22:00 to 23:30", {22, 0, -1, M_NONE}, true, {23, 30, -1, M_NONE}}, {"0:05-0:10", {0, 5, -1, M_NONE}, true, {0, 10, -1, M_NONE}}, {"noon to 2", {12, 0, -1, M_NONE}, true, {2, 0, -1, M_NONE}}};
    std::vector<DT> refs{{2020, 3, 1, 18, 16, 5}, {2019, 12, 31, 23, 0, 0}, {2019, 1, 1, 0, 0, 0}};
    const std::vector<std::pair<std::string, std::string>> att{{" ", ""}, {" (", ")"}, {"(", ")"}, {"  ", ""}, {"\t", ""}};
    auto run = [&](const T& t, const std::string& pre, const std::string& tail, const DT& ref, const int* offset) {
        std::string text = pre + t.t + tail;
        c.test([&] { return "clock parser, zone refiner and rendering of " + showText(text) + " reference " + show(ref); }, [&]() -> std::string {
            std::vector<std::string> lines;
            Refined r = runParserRefiner(F_TIME, R_ZONE, text, ref, &lines); c.ops(1); c.outcome(hashObs(r.r));
            if (!r.error.empty()) return r.error;
            Meaning m = t.range ? meanClockRange(t.a, t.b, ref)[0] : meanClock(t.a, ref)[0];
            Obs want = obsOf(m, 0, 0, T_TIME);
            if (offset) { known(want.s, TZ, *offset); if (want.end) known(want.e, TZ, *offset); want.tags |= 1u << T_ZONE; }
            if (r.r.size() != 1) return "got " + show(r.r);
            Obs got = r.r[0]; got.index = got.len = 0;
            if (!same(got, want)) return "got " + show(r.r) + ", expected " + show(want);
            auto line = modelRender(want);
            if (line && lines[0] != *line) return "renders " + showText(lines[0]) + ", expected " + showText(*line);
            return "";
        });
    };
    for (auto& z : ZONES) for (size_t k = 0; k < ts.size(); k++) for (int how = 0; how < 3; how++) for (size_t a = 0; a < att.size(); a++) for (int p = 0; p < 2; p++) {
        if (a == 2 && isalpha((unsigned char) ts[k].t[strlen(ts[k].t) - 1]) && std::string(ts[k].t) != "midnight") { }
        int off = z.second;
        for (size_t i = 0; i < (c.thorough ? refs.size() : 2); i++) run(ts[k], p ? "we meet again " : "", att[a].first + cased(z.first, how) + att[a].second, refs[(i + k) % refs.size()], &off);
    }
    // what is not a zone
    auto known = [](const std::string& s) { for (auto& z : ZONES) if (cased(z.first, 1) == s) return true; return false; };
    std::vector<std::string> unknown;
    for (char a = 'a'; a <= 'z'; a++) for (char b = 'a'; b <= 'z'; b++) { unknown.push_back(std::string{a, b}); for (char d = 'a'; d <= 'z'; d++) unknown.push_back(std::string{a, b, d}); }
    for (std::string s : {"xyzzy", "abcd", "estx", "xest", "zulu", "gmtx", "utcc", "hello", "eest1", "e.s.t", "1est", "es t"}) unknown.push_back(s);
    for (auto& u : unknown) { if (known(u) || u == "am" || u == "pm" || u == "to") continue; run(ts[2], "", " " + u, refs[0], nullptr); }
    for (auto& z : ZONES) for (std::string tail : {" foo", " x y", " , ok", " .", " )", " (x", "_", "1", "_, ok"}) { run(ts[1], "", " " + cased(z.first, z.first.size() % 2) + tail, refs[0], nullptr); }
    for (std::string tail : {" (est", " est)", " ((est))", " [est]", " -est", " foo est", " est est", " est pst"}) if (tail != " (est" && tail != " est)") run(ts[0], "", tail, refs[0], nullptr);
    for (auto& z : ZONES) for (size_t k = 0; k < ts.size(); k++) for (std::string tail : {".", ", ok", "!", " ", "\t \n", "; x", "-x", ") x", ")x", ")", "\xe2\x80\x93x", ",", "\"", "?", "/pst", "'s"}) {      // what may follow a zone
        int off = z.second; run(ts[k], "", (tail[0] == ')' ? " (" : " ") + cased(z.first, (int) k % 3) + tail, refs[0], &off);
    }
    // results that are no clock times: unchanged
    for (auto& k : kindsDT()) for (std::string tail : {" EST", " pst", "(GMT)", " (cet)", " xyz", ""}) c.test([&] { return std::string("zone refiner on a result of kind ") + k.name + " followed by " + showText(tail); }, [&] {
        Obs o = k.o; o.index = 3; o.len = 6; std::vector<Obs> v{o}; std::string text = "at abcdef" + tail;
        Refined r = runRefiner(R_ZONE, v, text); c.ops(1); c.outcome(hashObs(r.r));
        return r.error.empty() ? compare(r.r, modelZone(v, text)) : r.error; });
    for (auto& k : kindsDT()) for (auto& l : kindsDT()) for (std::string tail : {" EST", " xyz"}) c.test([&] { return std::string("zone refiner on results of kinds ") + k.name + ", " + l.name + " followed by " + showText(tail); }, [&] {
        Obs o = k.o; o.index = 3; o.len = 6; Obs q = l.o; q.index = 12; q.len = 4; std::vector<Obs> v{o, q}; std::string text = "at abcdef , uvwx" + tail;
        Refined r = runRefiner(R_ZONE, v, text); c.ops(1); c.outcome(hashObs(r.r));
        return r.error.empty() ? compare(r.r, modelZone(v, text)) : r.error; });
    for (auto& k : kindsDT()) for (auto& l : kindsDT()) for (std::string mid : {" EST, ", "(gmt) ", " Pst-", " xyz, ", " est to "}) for (std::string tail : {" CET", "", " NPT."}) c.test([&] { return std::string("zone refiner on results of kinds ") + k.name + " followed by " + showText(mid) + ", " + l.name + " followed by " + showText(tail); }, [&] {
        Obs o = k.o; o.index = 3; o.len = 6; Obs q = l.o; q.index = (long) (9 + mid.size()); q.len = 4; std::vector<Obs> v{o, q}; std::string text = "at abcdef" + mid + "uvwx" + tail;
        Refined r = runRefiner(R_ZONE, v, text); c.ops(1); c.outcome(hashObs(r.r));
        return r.error.empty() ? compare(r.r, modelZone(v, text)) : r.error; });
    // the whole program
    for (auto& z : ZONES) for (size_t k = 0; k < ts.size(); k++) for (int withDate = 0; withDate < 3; withDate++) {
        std::string text = std::string(withDate == 1 ? "yesterday " : withDate == 2 ? "2020-02-28, " : "") + ts[k].t + " " + z.first;
        const DT& ref = refs[k % 3];
        c.test([&] { return "program on " + showText(text) + " reference " + show(ref); }, [&]() -> std::string {
            CliOut o = runCli({text, refArg(ref)}); c.ops(1); c.outcome(hashStr(o.out));
            Meaning m = ts[k].range ? meanClockRange(ts[k].a, ts[k].b, ref)[0] : meanClock(ts[k].a, ref)[0];
            if (withDate) { Date d = withDate == 1 ? dateOf(dayNo(ref.y, ref.m, ref.d) - 1) : Date{2020, 2, 28}; putDate(m.s, d, true); if (m.end) { bool next = m.e.v[H] * 60 + m.e.v[MI] < m.s.v[H] * 60 + m.s.v[MI]; putDate(m.e, next ? dateOf(dayNo(d.y, d.m, d.d) + 1) : d, true); } }
            Obs w = obsOf(m, 0, 1, T_TIME); mcx::known(w.s, TZ, z.second); if (w.end) mcx::known(w.e, TZ, z.second); w.tags |= 1u << T_ZONE;
            std::string want = modelLine({w});
            return o.out == want ? "" : "prints " + showText(o.out) + o.error + ", expected " + showText(want);
        });
    }
}

// ---------- C22 ----------
static const char* const PARTS[NPART] = {"year", "month", "mday", "wday", "hour", "min", "sec", "tzoffset"};
static void setPart(parse::ParsedComponents& p, int part, int v) {
    switch (part) {
        case Y: p.setYear(v); break; case MO: p.setMonth(v); break; case D: p.set_mDay(v); break; case WD: p.set_wDay(v); break;
        case H: p.setHour(v); break; case MI: p.setMinute(v); break; case S: p.setSeconds(v); break; case TZ: p.setTimeZoneOffset(v); break;
    }
}
struct Parts { Comp c; };                     // what the statement says they read as: last certain, else last implied, else 0
static const int VAL[3][NPART] = {{2018, 7, 21, 3, 13, 31, 41, -330}, {1999, 11, 6, 5, 22, 47, 53, 60}, {0, 0, 0, 0, 0, 0, 0, 0}};
struct Op22 { int part; bool set; int v; };   // part -1: unknown name
static std::string showOp(const Op22& o) { return o.part < 0 ? fmt("imply unknown part #%d", o.v) : fmt("%s %s=%d", o.set ? "set" : "imply", PARTS[o.part], VAL[o.v][o.part]); }
static void applyModel(Comp& m, const Op22& o) {
    if (o.part < 0) return;
    int v = VAL[o.v][o.part];
    if (o.set) known(m, o.part, v); else if (!m.c[o.part]) m.v[o.part] = v;
}
static void applyReal(parse::ParsedComponents& p, const Op22& o) {
    static const char* const UNKNOWN[] = {"foo", "", "Year", "day"};
    if (o.part < 0) { p.implyComponent(UNKNOWN[o.v], 77); return; }
    int v = VAL[o.v][o.part];
    if (o.set) setPart(p, o.part, v); else p.implyComponent(PARTS[o.part], v);
}
static std::string explore22(const std::vector<Op22>& ops, parse::ParsedComponents& obj, const Comp& m, int depth, std::string& trail, u64& n) {
    for (auto& o : ops) {
        size_t mark = trail.size();
        parse::ParsedComponents saved(obj);
        Comp next = m; applyModel(next, o);
        applyReal(obj, o); ++n;
        Comp g = readComp(obj);
        if (!(g == next)) return "after" + trail + " " + showOp(o) + ": reads " + show(g) + ", expected " + show(next);
        g = readComp(saved);
        if (!(g == m)) return "after" + trail + " copy; " + showOp(o) + " on the original: the copy reads " + show(g) + ", expected " + show(m);
        if (depth > 1) {
            trail += " " + showOp(o) + ";";
            std::string bad = explore22(ops, obj, next, depth - 1, trail, n);
            if (!bad.empty()) return bad;
            trail.resize(mark);
        }
        obj = saved;
        g = readComp(obj);
        if (!(g == m)) return "after" + trail + " " + showOp(o) + "; assign the earlier copy back: reads " + show(g) + ", expected " + show(m);
    }
    return "";
}
PROPERTY(C22, "all sequences of up to 5 operations from 36: set or imply each of 8 parts with two values, unknown names; every copy taken before an operation checked after it, every object assigned back; all sequences of 8 (thorough: 9) operations on one part; all values -1500..10500 and machine-word limits for each part; all 2^8 known/unknown combinations x overriding; all sequences of 4 operations read only at the end; 15 names of no part after all pairs of operations; all 3^8 tables of absent/unknown/known values a set of parts is made from",
         "last certain else last implied else 0, per part") {
    std::vector<Op22> ops;
    for (int p = 0; p < NPART; p++) for (int v = 0; v < 2; v++) { ops.push_back({p, true, v}); ops.push_back({p, false, v}); }
    for (int u = 0; u < 4; u++) ops.push_back({-1, false, u});
    int depth = 5;
    for (auto& a : ops) for (auto& b : ops) c.test([&] { return "parts after " + showOp(a) + "; " + showOp(b) + fmt("; every continuation of up to %d operations", depth - 2); }, [&]() -> std::string {
        parse::ParsedComponents p; Comp m; u64 n = 0;
        if (!(readComp(p) == m)) return "a new object reads " + show(readComp(p));
        std::string trail;
        for (auto& o : {a, b}) { applyReal(p, o); applyModel(m, o); trail += " " + showOp(o) + ";"; ++n; Comp g = readComp(p); if (!(g == m)) return "after" + trail + " reads " + show(g) + ", expected " + show(m); }
        c.outcome(hashMix(hashStr(show(m)), 1));
        std::string bad = explore22(ops, p, m, depth - 2, trail, n);
        c.ops(n);
        return bad;
    });
    // the same without reading anything in between: reading may create parts
    for (auto& a : ops) c.test([&] { return "parts after " + showOp(a) + "; every continuation, read only at the end"; }, [&]() -> std::string {
        u64 n = 0; std::vector<Op22> seq{a};
        std::function<std::string(int)> go = [&](int left) -> std::string {
            parse::ParsedComponents p; Comp m; for (auto& o : seq) { applyReal(p, o); applyModel(m, o); ++n; }
            Comp g = readComp(p);
            if (!(g == m)) { std::string t; for (auto& o : seq) t += " " + showOp(o) + ";"; return "after" + t + " reads " + show(g) + ", expected " + show(m); }
            if (left) for (auto& o : ops) { seq.push_back(o); std::string bad = go(left - 1); if (!bad.empty()) return bad; seq.pop_back(); }
            return "";
        };
        std::string bad = go(3); c.ops(n); return bad;
    });
    // names that are no parts: never certain, and naming them changes nothing
    for (auto& a : ops) for (auto& b : ops) c.test([&] { return "names that are no parts, after " + showOp(a) + "; " + showOp(b); }, [&]() -> std::string {
        parse::ParsedComponents p; Comp m; for (auto& o : {a, b}) { applyReal(p, o); applyModel(m, o); }
        for (std::string name : {"", "foo", "Year", "MONTH", "day", "years", "yea", " year", "year ", "minute", "second", "wDay", "tz", "timezone", "m"}) {
            c.ops(2);
            if (p.isCertain(name)) return "the part " + showText(name) + " is certain";
            p.implyComponent(name, 55);
            if (p.isCertain(name)) return "the part " + showText(name) + " is certain after it was implied";
            Comp g = readComp(p); if (!(g == m)) return "naming " + showText(name) + " leaves " + show(g) + ", expected " + show(m);
        }
        return "";
    });
    // made from a table of known values
    for (int first = 0; first < 81; first++) c.test([&] { return fmt("parts made from every table whose first four entries are pattern %d (absent, unknown or known)", first); }, [&]() -> std::string {
        for (int rest = 0; rest < 81; rest++) for (int after = 0; after < 2; after++) {
            Components t; Comp m; int code[8], x = first, y = rest; c.ops(1);
            for (int i = 0; i < 4; i++) { code[i] = x % 3; x /= 3; code[i + 4] = y % 3; y /= 3; }
            for (int p = 0; p < NPART; p++) { if (code[p] == 1) t[PARTS[p]] = {false, 0}; if (code[p] == 2) { t[PARTS[p]] = {true, 3 + p}; known(m, p, 3 + p); } }
            parse::ParsedComponents q{static_cast<const Components&>(t)};
            if (after) for (int p = 0; p < NPART; p++) { Op22 o{p, rest % 2 == 1 && p == first % NPART, 1}; applyReal(q, o); applyModel(m, o); }
            t.clear();
            Comp g = readComp(q); if (!(g == m)) return fmt("rest %d, %s: reads ", rest, after ? "then updated" : "as made") + show(g) + ", expected " + show(m);
        }
        return "";
    });
    for (int p = 0; p < NPART; p++) for (int first = 0; first < 6; first++) c.test([&] { return fmt("sequences of %d operations on %s only, first %d", c.thorough ? 9 : 8, PARTS[p], first); }, [&]() -> std::string {
        std::vector<Op22> mine; for (int v = 0; v < 3; v++) { mine.push_back({p, true, v}); mine.push_back({p, false, v}); }
        parse::ParsedComponents q; Comp m; std::string trail = " " + showOp(mine[first]) + ";"; u64 n = 0;
        applyReal(q, mine[first]); applyModel(m, mine[first]);
        std::string bad = explore22(mine, q, m, c.thorough ? 8 : 7, trail, n); c.ops(n); return bad;
    });
    for (int p = 0; p < NPART; p++) for (int block = -1500; block < 10500; block += 500) c.test([&] { return fmt("values %d..%d of %s", block, block + 499, PARTS[p]); }, [&]() -> std::string {
        std::vector<int> vs; for (int v = block; v < block + 500; v++) vs.push_back(v);
        if (block == -1500) for (int v : {INT_MIN, INT_MAX, 32767, 32768, 65535, 65536, -32768, -32769, 1 << 24, 16777217, -65536}) vs.push_back(v);
        for (int v : vs) for (int how = 0; how < 2; how++) {
            parse::ParsedComponents q; if (how) q.implyComponent(PARTS[p], v); else setPart(q, p, v);
            Comp m; m.v[p] = v; m.c[p] = !how; Comp g = readComp(q); c.ops(1);
            if (!(g == m)) return fmt("%s %s = %d reads ", how ? "imply" : "set", PARTS[p], v) + show(g);
        }
        return "";
    });
    for (int mask = 0; mask < 256; mask++) for (int second = 0; second < 256; second++) c.test([&] { return fmt("parts %02x set, the others implied, then parts %02x implied again, then set", mask, second); }, [&]() -> std::string {
        parse::ParsedComponents q; Comp m; c.ops(24);
        auto go = [&](const Op22& o) { applyReal(q, o); applyModel(m, o); };
        for (int p = 0; p < NPART; p++) go({p, (mask >> p & 1) != 0, 0});
        for (int p = NPART - 1; p >= 0; p--) if (second >> p & 1) go({p, false, 1});
        Comp g = readComp(q); if (!(g == m)) return "reads " + show(g) + ", expected " + show(m);
        for (int p = 0; p < NPART; p++) if (second >> p & 1) go({p, true, 1});
        g = readComp(q); return g == m ? "" : "reads " + show(g) + ", expected " + show(m);
    });
}

// ---------- C23 ----------
static const posix_time::ptime ANCHOR{gregorian::date(2018, 2, 13)};
struct Slot23 { parse::ParsedResult* r; Obs m; };
struct Op23 { int kind, i, j; };
static const char* const OPNAME[] = {"index=%d+", "text+ of #%d", "tag A on #%d", "tag B on #%d", "start year of #%d set", "start hour of #%d implied", "end of #%d made valid", "end of #%d changed", "#%d = #%d", "#%d copy-constructed from #%d", "#%d through a vector from #%d", "swap #%d #%d"};
static std::string showOp(const Op23& o) { return fmt(OPNAME[o.kind], o.i, o.j); }
static void apply23(std::vector<parse::ParsedResult>& v, std::vector<Obs>& m, const Op23& o, int step) {
    auto& r = v[o.i]; auto& k = m[o.i];
    switch (o.kind) {
        case 0: r.setIndex(step + 3 + 10 * o.i); k.index = step + 3 + 10 * o.i; break;
        case 1: r.setText(std::string(step + 1 + o.i, 'x')); k.len = step + 1 + o.i; break;
        case 2: r.setTag(modOf(T_TIME)); k.tags |= 1u << T_TIME; break;
        case 3: r.setTag(modOf(T_CDATE)); k.tags |= 1u << T_CDATE; break;
        case 4: r.startDate.setYear(2000 + step + 100 * o.i); known(k.s, Y, 2000 + step + 100 * o.i); break;
        case 5: r.startDate.implyComponent("hour", 5 + step + 7 * o.i); if (!k.s.c[H]) k.s.v[H] = 5 + step + 7 * o.i; break;
        case 6: { parse::ParsedComponents e; e.setMonth(1 + step + 3 * o.i); e.implyComponent("mday", 9 + step); r.endDate = e; r.makeEndDateValid(); k.end = true; k.e = Comp(); known(k.e, MO, 1 + step + 3 * o.i); implied(k.e, D, 9 + step); break; }
        case 7: if (k.end) { r.endDate.setMinute(20 + step + 5 * o.i); known(k.e, MI, 20 + step + 5 * o.i); } break;
        case 8: v[o.i] = v[o.j]; m[o.i] = m[o.j]; break;
        case 9: { parse::ParsedResult copy(v[o.j]); v[o.i] = copy; m[o.i] = m[o.j]; copy.setIndex(77); copy.startDate.setMonth(4); copy.setTag(modOf(T_ISO)); if (copy.end()) copy.endDate.setYear(1); break; }
        case 10: { std::vector<parse::ParsedResult> w; w.push_back(v[o.j]); w.push_back(v[o.i]); w.reserve(w.capacity() * 2 + 1); v[o.i] = w[0]; m[o.i] = m[o.j]; w[0].setText("yyyyyyyyyyyyyyy"); w[0].makeEndDateValid(); w[0].endDate.setMonth(8); w[0].startDate.setHour(1); break; }
        case 11: std::swap(v[o.i], v[o.j]); std::swap(m[o.i], m[o.j]); break;
    }
}
static std::string check23(std::vector<parse::ParsedResult>& v, const std::vector<Obs>& m) {
    for (size_t i = 0; i < v.size(); i++) {
        Obs g; parse::ParsedResult& r = v[i];
        g.index = r.getIndex(); g.len = (long) r.textLength(); g.end = r.end(); g.s = readComp(r.startDate); if (g.end) g.e = readComp(r.endDate);
        for (int t : {T_TIME, T_CDATE, T_ISO, T_ZONE}) if (r.getTag(modOf(t))) g.tags |= 1u << t;
        if (!same(g, m[i])) return fmt("result #%zu reads ", i) + show(g) + ", expected " + show(m[i]);
    }
    return "";
}
static std::string explore23(const std::vector<Op23>& ops, const std::vector<parse::ParsedResult>& v, const std::vector<Obs>& m, int step, int depth, std::string& trail, u64& n) {
    for (auto& o : ops) {
        std::vector<parse::ParsedResult> w(v); std::vector<Obs> k(m);
        size_t mark = trail.size();
        apply23(w, k, o, step); ++n;
        trail += "; " + showOp(o);
        if (depth > 1) { std::vector<parse::ParsedResult> unread(v); std::vector<Obs> k2(m); apply23(unread, k2, o, step); std::string bad = explore23(ops, unread, k, step + 1, depth - 1, trail, n); if (!bad.empty()) return bad; }
        std::string bad = check23(w, k);        // reading may create parts, so what was read is not used any further
        if (!bad.empty()) return "after" + trail + ": " + bad;
        trail.resize(mark);
    }
    return "";
}
PROPERTY(C23, "all sequences of 5 operations over two result objects from 29 operations and of 4 over three objects from 54: mutations of index, text, marks, start and end; assignment incl. to itself; copy construction; moves through containers; swap; each sequence also continued from objects never read; parts: all pairs of histories of up to 2 of 8 updates, assigned, copied, swapped",
         "value semantics: each object reads as its own record, every object checked after every step") {
    for (int objs : {2, 3}) {
        std::vector<Op23> ops;
        for (int i = 0; i < objs; i++) { for (int k = 0; k < 8; k++) ops.push_back({k, i, 0}); for (int j = 0; j < objs; j++) { ops.push_back({8, i, j}); ops.push_back({9, i, j}); ops.push_back({10, i, j}); if (i < j) ops.push_back({11, i, j}); } }
        int depth = objs == 2 ? 5 : 4;
        for (auto& a : ops) for (auto& b : ops) c.test([&] { return fmt("%d results: ", objs) + showOp(a) + "; " + showOp(b) + fmt("; every continuation of up to %d operations", depth - 2); }, [&]() -> std::string {
            std::vector<parse::ParsedResult> v; std::vector<Obs> m;
            for (int i = 0; i < objs; i++) { v.push_back(parse::ParsedResult(ANCHOR, 2 + i, std::string(5 + i, 'a'))); Obs o; o.index = 2 + i; o.len = 5 + i; m.push_back(o); }
            u64 n = 2; std::string trail;
            int step = 1;
            for (auto& o : {a, b}) { apply23(v, m, o, step++); trail += "; " + showOp(o); }
            std::string bad = explore23(ops, v, m, 3, depth - 2, trail, n);
            if (bad.empty()) { bad = check23(v, m); if (!bad.empty()) bad = "after" + trail + ": " + bad; }
            c.ops(n); c.outcome(hashObs(m)); return bad;
        });
    }
    // parts alone: every short history of the source and of the target, assigned or constructed without being read before
    {
        std::vector<Op22> ops; for (int p : {Y, H, MI, TZ}) for (int how = 0; how < 2; how++) ops.push_back({p, how == 1, p % 2});
        std::vector<std::vector<Op22>> hist{{}}; for (auto& a : ops) { hist.push_back({a}); for (auto& b : ops) hist.push_back({a, b}); }
        for (auto& h : hist) c.test([&] { std::string s; for (auto& o : h) s += " " + showOp(o) + ";"; return "parts after" + s + " assigned over, and copied to, parts of every other history"; }, [&]() -> std::string {
            for (auto& g : hist) for (int how = 0; how < 4; how++) {
                parse::ParsedComponents from, to; Comp mf, mt;
                for (auto& o : h) { applyReal(from, o); applyModel(mf, o); }
                for (auto& o : g) { applyReal(to, o); applyModel(mt, o); }
                c.ops(h.size() + g.size() + 1);
                Comp r, f; std::string name;
                if (how == 0) { to = from; applyReal(from, {H, true, 1}); r = readComp(to); applyModel(mf, {H, true, 1}); f = readComp(from); Comp want; for (auto& o : h) applyModel(want, o); if (!(r == want) || !(f == mf)) name = "assigned, then the source changed"; }
                else if (how == 1) { to = from; applyReal(to, {MI, false, 0}); r = readComp(to); mt = mf; applyModel(mt, {MI, false, 0}); f = readComp(from); if (!(r == mt) || !(f == mf)) name = "assigned, then the target changed"; }
                else if (how == 2) { parse::ParsedComponents copy(from); applyReal(from, {Y, true, 1}); r = readComp(copy); if (!(r == mf)) name = "copy-constructed, then the source changed"; }
                else { std::swap(from, to); r = readComp(to); f = readComp(from); if (!(r == mf) || !(f == mt)) name = "swapped"; }
                if (!name.empty()) { std::string t; for (auto& o : g) t += " " + showOp(o) + ";"; return name + ", over" + t + ": reads " + show(r); }
            }
            c.outcome(hashStr(fmt("%zu", h.size()))); return "";
        });
    }
    // a result that had an end, overwritten by one without, in every container position
    for (int n = 1; n <= 6; n++) for (int mask = 0; mask < 1 << n; mask++) c.test([&] { return fmt("vector of %d results, ends at %02x, erased, inserted, sorted and copied", n, mask); }, [&]() -> std::string {
        std::vector<parse::ParsedResult> v; std::vector<Obs> m; c.ops(4 * n);
        for (int i = 0; i < n; i++) { Obs o; o.index = n - i; o.len = 1 + i; o.s = parts({{Y, 2000 + i}}, {{H, i}}); o.end = mask >> i & 1; if (o.end) o.e = parts({{MO, 1 + i}}, {}); if (i % 2) o.tags = 1u << T_TIME; m.push_back(o); v.push_back(makeResult(o, std::string(40, 'x'))); }
        std::string bad = check23(v, m); if (!bad.empty()) return "filled: " + bad;
        std::sort(v.begin(), v.end(), [](parse::ParsedResult a, parse::ParsedResult b) { return a.getIndex() < b.getIndex(); });
        std::reverse(m.begin(), m.end());
        bad = check23(v, m); if (!bad.empty()) return "sorted: " + bad;
        v.erase(v.begin()); m.erase(m.begin());
        bad = check23(v, m); if (!bad.empty()) return "erased: " + bad;
        if (n > 1) { v.insert(v.begin(), v.back()); m.insert(m.begin(), Obs(m.back())); bad = check23(v, m); if (!bad.empty()) return "inserted: " + bad; }
        std::vector<parse::ParsedResult> w(v); for (auto& r : v) { r.setIndex(99); r.startDate.setYear(1); r.makeEndDateValid(); r.endDate.setHour(3); }
        bad = check23(w, m); return bad.empty() ? "" : "copied: " + bad;
    });
}

// ---------- C25 ----------
static bool possible(const Comp& k) { return dateExists(k.v[Y], k.v[MO], k.v[D]) && timeExists(k.v[H], k.v[MI], k.v[S]); }
static bool lastHour(const Comp& k) { return k.v[H] == 24 && k.v[Y] == MAXY && k.v[MO] == 12 && k.v[D] == 31; }   // no such moment, either answer
PROPERTY(C25, "all combinations of 18 years x month -1..14 x day -1..33 x 7 hours x 5 minutes x 5 seconds, certain and implied; machine-word limits in every part; all days of 8600 years (first, last and impossible days); start/end combinations; every result of every parser over all its forms and over numeric texts around every limit",
         "own calendar") {
    std::vector<int> ys{-1, 0, 1, 99, 1399, 1400, 1401, 1582, 1900, 2000, 2019, 2020, 9998, 9999, 10000, 32768, 65536 + 2019, INT_MIN};
    auto judge = [&](const Comp& k) -> std::string {
        parse::ParsedComponents p; writeComp(p, k); c.ops(1);
        bool got = p.isPossibleDate();
        if (lastHour(k) && possible(k)) return "";
        return got == possible(k) ? "" : show(k) + (got ? " counts as possible" : " counts as impossible");
    };
    for (int y : ys) for (int mo = -1; mo <= 14; mo++) for (int d = -1; d <= 33; d++) c.test([&] { return fmt("possibility of %d-%d-%d with 175 times", y, mo, d); }, [&]() -> std::string {
        for (int h : {-1, 0, 1, 12, 23, 24, 25}) for (int mi : {-1, 0, 30, 59, 60}) for (int s : {-1, 0, 30, 59, 60}) {
            Comp k; bool certain = (h + mi + s + d) & 1;
            putDate(k, {y, mo, d}, certain); for (auto q : {std::pair<int, int>{H, h}, {MI, mi}, {S, s}}) (mo & 1) ? known(k, q.first, q.second) : implied(k, q.first, q.second);
            std::string bad = judge(k); if (!bad.empty()) return bad;
        }
        return "";
    });
    for (int y = 1390; y <= 10010; y++) c.test([&] { return fmt("possibility of the days of year %d", y); }, [&]() -> std::string {
        for (int mo = 1; mo <= 12; mo++) for (int d : {1, 28, 29, 30, 31, 32}) { Comp k; putDate(k, {y, mo, d}, true); std::string bad = judge(k); if (!bad.empty()) return bad; }
        return "";
    });
    std::vector<int> limits{INT_MIN, INT_MAX, -1, 0, 255, 256, 257, 65535, 65536, 65537, 65536 + 5, 256 + 5, 1 << 24, -65531, INT_MAX - 1899, INT_MIN + 1900, INT_MIN + 1};
    for (int part : {Y, MO, D, H, MI, S}) for (int other : {Y, MO, D, H, MI, S}) for (int v : limits) for (int w : limits) c.test([&] { return fmt("possibility with %s=%d, %s=%d", PARTS[part], v, PARTS[other], w); }, [&] {
        Comp k = parts({{Y, 2020}, {MO, 2}, {D, 5}, {H, 5}, {MI, 5}, {S, 5}}, {}); k.v[part] = v; if (other != part) k.v[other] = w;
        std::string bad = judge(k);
        for (int i = 0; i < NPART; i++) k.c[i] = false;
        return bad.empty() ? judge(k) : bad;
    });
    // start and end together
    std::vector<Comp> cs{parts({{Y, 2020}, {MO, 2}, {D, 29}}, {}), parts({{Y, 2019}, {MO, 2}, {D, 29}}, {}), Comp(), parts({{Y, 2019}, {MO, 4}, {D, 30}, {H, 24}}, {}), parts({{Y, 2019}, {MO, 4}, {D, 31}}, {}), parts({{Y, 2019}, {MO, 4}, {D, 30}, {H, 25}}, {}), parts({}, {{Y, 9999}, {MO, 12}, {D, 31}, {MI, 59}})};
    for (auto& a : cs) for (auto& b : cs) for (bool end : {false, true}) c.test([&] { return "result with start " + show(a) + (end ? " and end " : " without end ") + show(b); }, [&]() -> std::string {
        Obs o; o.index = 1; o.len = 2; o.s = a; o.e = b; o.end = end; auto r = makeResult(o, "xxxxxxx"); c.ops(1);
        if (!end) writeComp(r.endDate, b);
        bool want = possible(a) && (!end || possible(b));
        return r.hasPossibleDates() == want ? "" : want ? "is judged impossible" : "is judged possible";
    });
    // everything the parsers report
    auto refs = refsEdges();
    std::vector<std::pair<int, std::string>> texts;
    for (int f = 0; f < NFAM; f++) { auto es = formsOf(f, f != F_MME && f != F_MONTH); size_t step = (f == F_AGO || f == F_LATER || f == F_DEADLINE || f == F_RELATIVE) ? 7 : 1; for (size_t i = 0; i < es.size(); i += step) texts.push_back({f, es[i].text}); }
    for (auto n : {"0", "1", "9", "12", "13", "24", "25", "28", "29", "30", "31", "32", "59", "60", "99", "100", "999", "1399", "1400", "2019", "2359", "2360", "2400", "2401", "9998", "9999", "10000", "95000", "415000", "3000000", "99999999", "2147483647", "4294967295", "99999999999999999999"}) {
        std::string s = n;
        for (std::string u : {"days", "weeks", "months", "years", "hours", "minutes", "seconds"}) { texts.push_back({F_DEADLINE, "in " + s + " " + u}); texts.push_back({F_AGO, s + " " + u + " ago"}); texts.push_back({F_LATER, s + " " + u + " later"}); texts.push_back({F_RELATIVE, "next " + s + " " + u}); texts.push_back({F_RELATIVE, "last " + s + " " + u}); }
        texts.push_back({F_WEEK, "next " + s + " weeks"}); texts.push_back({F_WEEK, "last " + s + " weeks"});
        for (std::string m : {"feb", "april", "december"}) { texts.push_back({F_MME, m + " " + s}); texts.push_back({F_MME, m + " 29, " + s}); texts.push_back({F_MME, m + " 5 - " + s}); texts.push_back({F_MONTH, m + " " + s}); texts.push_back({F_MME, m + " 29 " + s + " be"}); texts.push_back({F_MME, m + " 3 " + s + " bc"}); texts.push_back({F_MONTH, m + " " + s + " bc"}); }
        for (std::string m : {"0", "12", "24", "25", "59", "60", "99"}) { texts.push_back({F_TIME, s + ":" + m}); texts.push_back({F_TIME, m + ":" + s}); texts.push_back({F_TIME, "5 to " + s + ":" + m + "pm"}); texts.push_back({F_TIME, s + " - " + m}); texts.push_back({F_TIME, m + " to " + s}); texts.push_back({F_ISO, "2019-" + s + "-" + m}); texts.push_back({F_ISO, s + "-" + m + "-28"}); texts.push_back({F_ISO, "2020-02-" + s + "t" + m + ":00"}); texts.push_back({F_TIME, "24:00 to " + s + ":" + m + ":" + m}); }
    }
    for (auto& t : texts) for (size_t i = 0; i < refs.size(); i += (t.first == F_MME || t.first == F_MONTH) && !c.thorough ? 2 : 1) {
        const DT& r = refs[i];
        c.test([&] { return fmt("results of parser %s on ", FAM_NAME[t.first]) + showText(t.second) + " reference " + show(r); }, [&]() -> std::string {
            Parsed p = runParser(t.first, t.second, r); c.ops(1); c.outcome(hashObs(p.r));
            if (!p.error.empty()) return p.error;
            for (auto& o : p.r) if (!existing(o.s) || (o.end && !existing(o.e))) return "reports " + show(o);
            return "";
        });
    }
}

// ---------- C26 ----------
static Moment written(const Comp& k);
static std::string renderCase(Ctx& c, const Obs& o) {
    auto want = modelRender(o);
    parse::ParsedResult r = makeResult(o, std::string(40, 'x'));
    c.ops(1);
    std::string got;
    try { got = r.toDate(); } catch (std::out_of_range& e) { if (want) return std::string("throws ") + e.what() + ", expected " + showText(*want); return ""; }
    if (!want) return "";                          // outside the calendar: unspecified
    c.outcome(hashStr(got));
    if (got != *want) return show(o) + " renders as " + showText(got) + ", expected " + showText(*want);
    Obs after = readObs(r);
    if (!same(after, o)) return "rendering changes " + show(o) + " to " + show(after);
    if (r.toDate() != *want) return "renders differently the second time";
    for (int e = 0; e < (o.end ? 2 : 1); e++) {
        auto t = fromPtime(e ? r.endDate.date() : r.startDate.date()); const Comp& k = e ? o.e : o.s;
        DT w = dtOf(written(k));
        if (t.y != w.y || t.m != w.m || t.d != w.d || t.H != w.H || t.M != w.M || t.S != w.S) return "moment of " + show(k) + " reads back as " + show(t);
    }
    return "";
}
static Moment written(const Comp& k) { return plusSec(Moment{dayNo(k.v[Y], k.v[MO], k.v[D]), 0}, k.v[H] * 3600 + k.v[MI] * 60 + k.v[S]); }
PROPERTY(C26, "every day of the years 1400..9999 at 5 times including hour 24; every second of a day; every offset -900..900 min x 11 edge moments including hour 24 x with/without zone mark x with/without end; ends in every combination with starts; all 64 x 64 certain/implied patterns of start and end x every 3rd (thorough: every) pattern of absent times",
         "own calendar and formatting") {
    auto day = [&](int y, int mo) { c.test([&] { return fmt("rendering of every day of %d-%02d", y, mo); }, [&]() -> std::string {
        for (int d = 1; d <= monthLen(y, mo); d++) for (int t : {0, 3599, 45296, 86399, 86400}) {
            Obs o; o.index = 3; o.len = 4; putDate(o.s, {y, mo, d}, d & 1); if (t) { int h = t == 86400 ? 24 : t / 3600; (d & 2) ? known(o.s, H, h) : implied(o.s, H, h); implied(o.s, MI, t / 60 % 60); known(o.s, S, t % 60); }
            if (t == 86400) { o.s.v[MI] = o.s.v[S] = 0; if (y == 9999 && mo == 12 && d == 31) continue; }
            if (t == 45296) { o.end = true; o.e = o.s; known(o.e, H, 23); }
            if (t == 3599) implied(o.s, WD, 3);
            std::string bad = renderCase(c, o); if (!bad.empty()) return bad;
        }
        return ""; }); };
    for (int y = 1400; y <= 9999; y++) for (int mo = 1; mo <= 12; mo++) day(y, mo);
    for (int m = 0; m < 1440; m++) c.test([&] { return fmt("rendering of the seconds of %02d:%02d", m / 60, m % 60); }, [&]() -> std::string {
        for (int s = 0; s < 60; s++) { Obs o; o.len = 2; putDate(o.s, {2020, 2, 29}, true); known(o.s, H, m / 60); known(o.s, MI, m % 60); known(o.s, S, s); o.end = s % 3 == 0; if (o.end) { o.e = o.s; o.e.v[D] = 28; } std::string bad = renderCase(c, o); if (!bad.empty()) return bad; }
        return ""; });
    std::vector<DT> ms{{2020, 3, 1, 0, 0, 0}, {2019, 12, 31, 23, 59, 59}, {2019, 1, 1, 5, 0, 0}, {2020, 2, 29, 14, 14, 14}, {1970, 1, 1, 0, 0, 0}, {2000, 3, 1, 12, 0, 0}, {1900, 3, 1, 1, 0, 0}, {2018, 7, 4, 17, 30, 0}, {2020, 2, 28, 24, 0, 0}, {2019, 12, 31, 24, 0, 0}, {2400, 2, 29, 24, 0, 0}};
    for (int off = -900; off <= 900; off++) c.test([&] { return fmt("rendering with offset %d min", off); }, [&]() -> std::string {
        for (size_t i = 0; i < ms.size(); i++) for (int mark = 0; mark < 2; mark++) for (int end = 0; end < 3; end++) {
            Obs o; o.len = 2; const DT& d = ms[i]; putDate(o.s, {d.y, d.m, d.d}, true); known(o.s, H, d.H); known(o.s, MI, d.M); known(o.s, S, d.S); known(o.s, TZ, off);
            if (mark) o.tags = 1u << T_ZONE | 1u << T_TIME; else o.tags = 1u << T_TIME;
            if (end) { const DT& f = ms[(i + 3) % ms.size()]; o.end = true; putDate(o.e, {f.y, f.m, f.d}, false); known(o.e, H, f.H); known(o.e, MI, f.M); known(o.e, TZ, end == 1 ? off : -off / 2); }
            std::string bad = renderCase(c, o); if (!bad.empty()) return bad;
        }
        return ""; });
    // every combination of certain and implied parts, and of absent times, at start and end
    for (int sm = 0; sm < 64; sm++) c.test([&] { return fmt("rendering with certain start parts %02x and every combination at the end", sm); }, [&]() -> std::string {
        static const int P[6] = {Y, MO, D, H, MI, S};
        for (int em = 0; em < 64; em++) for (int absent = 0; absent < 64; absent += (em % 8 == sm % 8 || c.thorough) ? 1 : 3) {
            Obs o; o.index = 1; o.len = 3; o.end = true; if (em & 1) o.tags = 1u << T_TIME;
            static const int sv[6] = {2019, 12, 30, 21, 47, 13}, ev[6] = {2020, 1, 17, 8, 9, 58};
            for (int i = 0; i < 6; i++) {
                if (!(i >= 3 && (absent >> (i - 3) & 1))) (sm >> i & 1) ? known(o.s, P[i], sv[i]) : implied(o.s, P[i], sv[i]);
                if (!(i >= 3 && (absent >> i & 1))) (em >> i & 1) ? known(o.e, P[i], ev[i]) : implied(o.e, P[i], ev[i]);
            }
            std::string bad = renderCase(c, o); if (!bad.empty()) return bad;
        }
        return ""; });
    for (auto& a : refsEdges()) for (auto& b : refsEdges()) c.test([&] { return "rendering of the range from " + show(a) + " to " + show(b); }, [&] {
        Obs o; o.len = 2; o.end = true; putDate(o.s, {a.y, a.m, a.d}, true); putDate(o.e, {b.y, b.m, b.d}, false);
        known(o.s, H, a.H); implied(o.s, MI, a.M); known(o.e, MI, b.M); known(o.e, S, b.S);
        std::string bad = renderCase(c, o);
        if (!bad.empty()) return bad;
        o.tags = 1u << T_RANGE | 1u << T_DATETIME; return renderCase(c, o);
    });
}

// ---------- C28 ----------
PROPERTY(C28, "every form of every family x 3 reference moments (exactly the family's mark); merges of all 14 x 14 pairs of marks by both merge refiners in both orders; zone extraction on every pair of marks; all sequences of up to 3 refiners over lists of up to 3 results of 8 kinds; marks survive copies for all pairs of marks; real texts through parsers and all refiners",
         "union of marks plus the step's own mark; the reference refiners of C18-C21") {
    std::vector<DT> refs{{2018, 2, 13, 18, 16, 5}, {2020, 2, 29, 0, 0, 0}, {2019, 12, 31, 23, 59, 59}};
    for (int f = 0; f < NFAM; f++) for (auto& e : formsOf(f, true)) for (auto& r : refs) {
        c.test([&] { return fmt("marks of parser %s on ", FAM_NAME[f]) + showText(e.text) + " reference " + show(r); }, [&]() -> std::string {
            Parsed p = runParser(f, e.text, r); c.ops(1); c.outcome(hashObs(p.r));
            if (!p.error.empty()) return p.error;
            unsigned want = e.tag < 0 ? 0 : 1u << e.tag;
            for (auto& o : p.r) if (o.tags != want) return "marks are wrong on " + show(o);
            bool must = true; for (auto& m : e.mean(r)) must = must && m.present;
            return must && p.r.empty() ? "no result" : "";
        });
    }
    for (int a = 0; a < NTAGS; a++) for (int b = 0; b <= NTAGS; b++) {
        unsigned ta = 1u << a, tb = b == NTAGS ? 0 : 1u << b;
        for (int which : {R_DATETIME, R_RANGE, R_OVERLAP, R_ZONE}) for (int order = 0; order < 2; order++) c.test([&] { return fmt("refiner %d on results marked %s and %s, order %d", which, TAG_NAME[a], b == NTAGS ? "nothing" : TAG_NAME[b], order); }, [&]() -> std::string {
            Obs x, y; x.index = 0; x.len = 4; y.index = 8; y.len = 5;
            x.s = parts({{Y, 2019}, {MO, 3}, {D, 4}}, {}); y.s = parts({{H, 9}, {MI, 1}}, {{Y, 2018}, {MO, 2}, {D, 1}});
            if (which == R_RANGE) y.s = parts({{Y, 2020}, {MO, 3}, {D, 4}}, {});
            if (order) std::swap(x.s, y.s);
            x.tags = order ? tb : ta; y.tags = order ? ta : tb;
            std::vector<Obs> v{x, y}; std::string text = "abcd to efghi EST";
            Refined r = runRefiner(which, v, text); c.ops(1); c.outcome(hashObs(r.r));
            if (!r.error.empty()) return r.error;
            return compare(r.r, which == R_DATETIME ? modelDateTime(v) : which == R_RANGE ? modelRange(v, text) : which == R_ZONE ? modelZone(v, text) : modelOverlap(v));
        });
        c.test([&] { return fmt("marks %s and %d on one result, copied and assigned", TAG_NAME[a], b); }, [&]() -> std::string {
            Obs o; o.index = 1; o.len = 2; o.tags = ta | tb; c.ops(2);
            auto r = makeResult(o, "xxxxx"); if (b < NTAGS) r.setTag(modOf(b)); r.setTag(modOf(a));
            parse::ParsedResult s(r), t; t.setTag(modOf(T_LATER)); t = s;
            return readObs(r).tags == o.tags && readObs(s).tags == o.tags && readObs(t).tags == o.tags ? "" : "marks are lost or gained: " + show(readObs(t));
        });
    }
    auto all = kindsDT(); std::vector<Kind> kinds{all[0], all[1], all[2], all[3], all[4], all[6], all[7], all[10]};
    for (int n = 1; n <= 3; n++) for (int code = 0; code < (n == 1 ? 8 : n == 2 ? 64 : 512); code++) for (int seq = 0; seq < 4 * 4 * 4 + 4 * 4; seq++) c.test([&] { return fmt("list %o of %d results through refiner sequence %d", code, n, seq); }, [&]() -> std::string {
        std::string text = "xx "; std::vector<Obs> v; static const char* const gap[] = {" to ", ", "};
        for (int j = 0; j < n; j++) { if (j) text += gap[(code + j) % 2]; Obs o = kinds[(code >> (3 * j)) & 7].o; o.index = (long) text.size(); o.len = 3; text += "abc"; v.push_back(o); }
        text += " EST";
        std::vector<int> order; if (seq < 16) order = {seq & 3, seq >> 2}; else order = {(seq - 16) & 3, ((seq - 16) >> 2) & 3, ((seq - 16) >> 4) & 3};
        std::vector<Obs> real = v, model = v;
        for (int w : order) {
            Refined r = runRefiner(w, real, text); c.ops(1); if (!r.error.empty()) return r.error;
            real = r.r; model = w == R_DATETIME ? modelDateTime(model) : w == R_RANGE ? modelRange(model, text) : w == R_ZONE ? modelZone(model, text) : modelOverlap(model);
            std::string bad = compare(real, model); if (!bad.empty()) return bad;
        }
        c.outcome(hashObs(real)); return "";
    });
}
}
