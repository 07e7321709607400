// C05-C17: what each expression family means, over vocabulary x reference moments.
#include "model.h"
namespace mcx {

static void one(Ctx& c, const Expr& e, const DT& ref) {
    c.test([&] { return fmt("parser %s, text ", FAM_NAME[e.fam]) + showText(e.text) + ", reference " + show(ref); },
           [&] {
               Parsed p = runParser(e.fam, e.text, ref);
               c.ops(1); c.outcome(hashObs(p.r));
               return checkMeaning(p, e.mean(ref));
           });
}
static void cross(Ctx& c, const std::vector<Expr>& es, const std::vector<DT>& refs) { for (auto& e : es) for (auto& r : refs) one(c, e, r); }
static const std::vector<int> YEARS{1400, 1401, 1900, 1999, 2000, 2019, 2020, 2100, 9998, 9999};
static std::vector<int> yearRange(int a, int b) { std::vector<int> v; for (int y = a; y <= b; y++) v.push_back(y); return v; }
static std::vector<int> hoursOfDay() { std::vector<int> v; for (int h = 0; h < 24; h++) v.push_back(h * 3600 + (h * 137) % 3600); v.push_back(86399); v.push_back(3599); v.push_back(0); return v; }
static std::vector<Expr> pick(const std::vector<Expr>& v, size_t step) { std::vector<Expr> r; for (size_t i = 0; i < v.size(); i += step) r.push_back(v[i]); return r; }

PROPERTY(C05, "8 word forms x every day of 10 years incl. both calendar ends x 8 times of day; x every day of a 400-year cycle x 3 times (thorough: 27 times, and every day of the whole calendar x 2); every second of a day for 'now'; every minute for the others (thorough: every 7th second of 62 days)",
         "own calendar; exact date, hour, minute, second and certainty of all eight parts") {
    auto es = formsOf(F_CDATE, true);
    cross(c, es, refsDays(YEARS, {0, 59, 3599, 3600, 6 * 3600 + 3599, 7 * 3600, 45296, 86399}));
    for (auto& e : es) for (int s = 0; s < 86400; s += e.text == "now" ? 1 : 60) one(c, e, {2020, 3, 1, s / 3600, s / 60 % 60, s % 60});
    cross(c, es, refsDays(yearRange(1999, 2400), {1800, 3600, 6 * 3600 + 1800}));
    if (c.thorough) { cross(c, es, refsDays(yearRange(1999, 2400), hoursOfDay())); cross(c, es, refsDays(yearRange(1400, 9999), {3599, 86399})); for (auto& e : es) for (DT d : refsDays({2019}, {0})) if (d.d == 1 || d.d > 27) for (int s = 0; s < 86400; s += 7) one(c, e, {d.y, d.m, d.d, s / 3600, s / 60 % 60, s % 60}); }
}
PROPERTY(C06, "15 word forms x every day of 10 years x 3 times of day and of a 400-year cycle x 1 (thorough: 4 times, and every day of the whole calendar); every 20 seconds of a day",
         "own calendar; exact parts, all implied") {
    auto es = formsOf(F_CTIME, true);
    cross(c, es, refsDays(YEARS, {0, 18 * 3600 + 16 * 60 + 5, 86399}));
    for (auto& e : es) for (int s = 0; s < 86400; s += 20) one(c, e, {2019, 12, 31, s / 3600, s / 60 % 60, s % 60});
    cross(c, es, refsDays(yearRange(1999, 2400), {7 * 3600 + 59 * 60}));
    if (c.thorough) { cross(c, es, refsDays(yearRange(1999, 2400), {0, 45296, 86399})); cross(c, es, refsDays(yearRange(1400, 9999), {22 * 3600 + 61})); }
}
PROPERTY(C07, "17 weekday spellings x 22 modifier forms x edge moments; 7 weekdays x all forms x every day of 40 years; all spellings x every day of 7 years incl. the first and last two of the calendar (thorough: every day of a 400-year cycle; a third of the forms x every day of the whole calendar; all spellings x 28 years)",
         "own calendar with Sunday-based weeks; exact parts and certainty") {
    auto es = formsOf(F_DOW, true);
    cross(c, es, refsEdges());
    std::vector<Expr> full;
    for (auto& e : es) if (e.text.find("day") != std::string::npos) full.push_back(e);
    cross(c, full, refsDays(c.thorough ? yearRange(1999, 2400) : yearRange(1996, 2035), {18 * 3600}));
    cross(c, es, refsDays({1400, 1401, 1900, 2000, 2100, 9998, 9999}, {0}));
    if (c.thorough) { cross(c, es, refsDays(yearRange(2000, 2027), {3599})); cross(c, pick(full, 3), refsDays(yearRange(1400, 9999), {0})); }
}
static std::vector<std::pair<std::string, long long>> bigCounts() {
    std::vector<std::pair<std::string, long long>> v;
    for (long long n : {0LL, 127LL, 128LL, 255LL, 256LL, 999LL, 1000LL, 7980LL, 8599LL, 8600LL, 32767LL, 32768LL, 65535LL, 65536LL, 65537LL, 95759LL, 99999LL, 415000LL, 1000000LL, 2915000LL, 3140000LL, 16777217LL, 30000001LL,
                        75000000LL, 2147483646LL, 2147483647LL, 2147483648LL, 2147483649LL, 3000000000LL, 4294967295LL, 4294967296LL, 4294967297LL, 4294967301LL, 99999999999LL, 9223372036854775807LL}) v.push_back({std::to_string(n), n});
    v.push_back({"18446744073709551616", 9223372036854775807LL}); v.push_back({"18446744073709551617", 9223372036854775807LL});
    v.push_back({std::string(40, '9'), 9223372036854775807LL}); v.push_back({std::string(400, '1'), 9223372036854775807LL});
    v.push_back({"007", 7}); v.push_back({"0000000000000000000003", 3});
    return v;
}
PROPERTY(C08, "in/within x all counts (words, a/an, few, halves, 18 numbers) x 24 unit spellings x 60 edge moments; counts 0..5000 x 7 units x 12 moments; 41 counts at machine-word limits x 7 units x 60 moments; 7 units x 6 counts x every day of 15 years (thorough: 0..60000, 400 years)",
         "own calendar arithmetic over days and seconds in 128 bits; exact parts or no result") {
    auto es = formsOf(F_DEADLINE, true);
    cross(c, es, refsEdges());
    static const char* U[NUNIT] = {"seconds", "minutes", "hours", "days", "weeks", "months", "years"};
    auto mk = [&](const std::string& n, long long v, int u, bool half) { Amount a{(Unit) u, v, half}; return makeExpr(F_DEADLINE, "in " + n + " " + U[u], [a](const DT& t) { return meanDeadline(a, t); }); };
    auto small = refsSmall(), edges = refsEdges();
    for (int u = 0; u < NUNIT; u++) for (int n = 0; n <= (c.thorough ? 60000 : 5000); n++) { Expr e = mk(std::to_string(n), n, u, false); for (auto& r : small) one(c, e, r); }
    for (int u = 0; u < NUNIT; u++) for (auto& b : bigCounts()) { Expr e = mk(b.first, b.second, u, false); for (auto& r : edges) one(c, e, r); }
    for (int u = 0; u < NUNIT; u++) for (auto n : std::vector<std::pair<std::string, long long>>{{"half a", -1}, {"1", 1}, {"2", 2}, {"11", 11}, {"13", 13}, {"59", 59}}) {
        Expr e = mk(n.first, n.second < 0 ? 1 : n.second, u, n.second < 0);
        for (auto& r : refsDays(c.thorough ? yearRange(1999, 2400) : std::vector<int>{1400, 1600, 1899, 1900, 1904, 1999, 2000, 2001, 2019, 2020, 2021, 2096, 2100, 9996, 9999}, {0, 45296, 86399})) one(c, e, r);
    }
}
static void agoLater(Ctx& c, int fam) {
    int sign = fam == F_AGO ? -1 : 1; const std::string suf = fam == F_AGO ? "ago" : "from now";
    auto es = formsOf(fam, true);
    auto edges = refsEdges(), small = refsSmall();
    cross(c, es, edges);
    static const char* U[NUNIT] = {"seconds", "minutes", "hours", "days", "weeks", "months", "years"};
    auto mk = [&](const std::string& n, const std::vector<Amount>& as) { return makeExpr(fam, n + " " + suf, [as, sign](const DT& t) { return meanAgoLater(as, sign, t); }); };
    for (int u = 0; u < NUNIT; u++) for (int n = 1; n <= (c.thorough ? 30000 : 3000); n++) { Expr e = mk(std::to_string(n) + " " + U[u], {Amount{(Unit) u, n, false}}); for (auto& r : small) one(c, e, r); }
    for (int u = 0; u < NUNIT; u++) for (auto& b : bigCounts()) if (b.second) { Expr e = mk(b.first + " " + U[u], {Amount{(Unit) u, b.second, false}}); for (auto& r : small) one(c, e, r); }
    // sums of two and three different units
    for (int u = 0; u < NUNIT; u++) for (int v = 0; v < NUNIT; v++) if (u != v) for (int n : {1, 2, 7, 25, 61}) for (int m : {1, 3, 30, 90}) {
        Expr e = mk(fmt("%d %s %d %s", n, U[u], m, U[v]), {Amount{(Unit) u, n, false}, Amount{(Unit) v, m, false}});
        for (auto& r : small) one(c, e, r);
    }
    for (int u = 2; u < NUNIT; u++) for (int v = 0; v < u; v++) {     // half a unit and a smaller one, number words
        for (std::string w : {"half a", "three", "a", "a few"}) {
            Amount a{(Unit) u, w == "three" || w == "a few" ? 3 : 1, w == "half a"};
            Expr e = mk(w + " " + std::string(U[u]).substr(0, strlen(U[u]) - (a.n == 1)) + " two " + U[v], {a, Amount{(Unit) v, 2, false}});
            if (a.half && v == (u == U_DAY ? U_HOUR : u == U_HOUR ? U_MIN : u == U_MIN ? U_SEC : u == U_YEAR ? U_MONTH : U_DAY)) continue;   // would name the same unit twice
            for (auto& r : small) one(c, e, r);
        }
    }
    for (int v = 0; v < 5; v++) for (int w = 0; w < v; w++) for (int u = v + 1; u < NUNIT; u++) {
        Expr e = mk(fmt("1 %s 2 %s 3 %s", U[u], U[v], U[w]), {Amount{(Unit) u, 1, false}, Amount{(Unit) v, 2, false}, Amount{(Unit) w, 3, false}});
        for (auto& r : small) one(c, e, r);
    }
    // every set of units, in falling and rising order and starting in the middle, three ways of counting
    for (int set = 1; set < 128; set++) for (int pat = 0; pat < 3; pat++) {
        std::vector<int> us; for (int u = NUNIT - 1; u >= 0; u--) if (set >> u & 1) us.push_back(u);
        for (int order = 0; order < 3; order++) {
            if (us.size() < 3 && order == 2) continue;
            std::vector<int> o = us;
            if (order == 1) std::reverse(o.begin(), o.end());
            if (order == 2) std::rotate(o.begin(), o.begin() + o.size() / 2, o.end());
            std::vector<Amount> as; std::string t;
            for (size_t i = 0; i < o.size(); i++) {
                int n = pat == 0 ? 1 : pat == 1 ? (int) i * 3 + 2 : 61 - 7 * o[i];
                std::string w = pat == 0 ? (o[i] == U_HOUR ? "an" : i % 2 ? "one" : "a") : pat == 1 && n <= 12 ? NUMBER_WORDS[n - 1].first : std::to_string(n);
                t += (i ? " " : "") + w + " " + std::string(U[o[i]]).substr(0, strlen(U[o[i]]) - (n == 1));
                as.push_back(Amount{(Unit) o[i], n, false});
            }
            Expr e = mk(t, as);
            for (auto& r : small) one(c, e, r);
        }
    }
    for (int u = 0; u < NUNIT; u++) for (int n : {1, 13}) { Expr e = mk(std::to_string(n) + " " + U[u], {Amount{(Unit) u, n, false}}); for (auto& r : refsDays(c.thorough ? yearRange(1999, 2400) : yearRange(1990, 2105), {0, 86399})) one(c, e, r); }
}
// moving back by n and forward by n from there returns to the start, on the real parsers
static void inverse(Ctx& c) {
    static const char* U[5] = {"seconds", "minutes", "hours", "days", "weeks"};
    for (int u = 0; u < 5; u++) for (int n : {1, 2, 3, 7, 24, 29, 31, 60, 90, 365, 1000, 86401}) for (auto& r : refsEdges()) {
        if (r.y < 1500 || r.y > 9000 || (u == 4 && n > 20000)) continue;
        c.test([&] { return fmt("back and forth by %d %s from ", n, U[u]) + show(r); }, [&]() -> std::string {
            Parsed a = runParser(F_AGO, fmt("%d %s ago", n, U[u]), r);
            c.ops(2);
            if (a.r.size() != 1) return "'ago' reports " + show(a.r);
            const Comp& k = a.r[0].s;
            DT m{k.v[Y], k.v[MO], k.v[D], u < 3 ? k.v[H] : r.H, u < 3 ? k.v[MI] : r.M, u < 3 ? k.v[S] : r.S};
            Parsed b = runParser(F_LATER, fmt("%d %s later", n, U[u]), m);
            if (b.r.size() != 1) return "'later' reports " + show(b.r);
            const Comp& q = b.r[0].s;
            bool same = q.v[Y] == r.y && q.v[MO] == r.m && q.v[D] == r.d && (u >= 3 || (q.v[H] == r.H && q.v[MI] == r.M && q.v[S] == r.S));
            return same ? "" : "comes back to " + show(q);
        });
    }
}
PROPERTY(C09, "all counts x 17 unit spellings x 9 suffix words x edge moments; counts 1..3000 and machine-word limits x 7 units x 12 moments; all ordered pairs of units x 20 count pairs, triples; every set of the 7 units in 3 orders x 3 ways of counting; 7 units x 2 counts x every day of 116 years; back-and-forth from edge moments (thorough: counts to 30000, 400 years of days)",
         "own calendar arithmetic; any order of month and day steps accepted for sums; exact parts or no result") {
    agoLater(c, F_AGO); agoLater(c, F_LATER); inverse(c);
}
PROPERTY(C10, "next/last/past x all counts x 17 unit spellings x 60 edge moments; 'this' x 3 units x every day of 410 years (thorough: of the whole calendar); 9 units and halves x next/last/past x every day of 15 years (thorough: 400); counts 1..2000 (thorough: 30000) and machine-word limits; 'this' with a count",
         "own calendar arithmetic; exact parts or no result") {
    auto es = formsOf(F_RELATIVE, true);
    auto edges = refsEdges(), small = refsSmall();
    std::vector<Expr> these;
    for (auto& e : es) if (e.text.substr(0, 4) == "this") these.push_back(e);
    cross(c, es, edges);
    cross(c, these, refsDays(YEARS, {0, 86399}));
    cross(c, these, refsDays(yearRange(1999, 2400), {45296}));
    if (c.thorough) { cross(c, these, refsDays(yearRange(1400, 9999), {0})); cross(c, es, refsDays({2019, 2020}, {45296})); }
    std::vector<Expr> first; for (auto& e : es) for (std::string p : {"next ", "last ", "past "}) for (std::string t : {"month", "year", "week", "half a year", "half month", "2 months", "day", "half a day", "hour"}) if (e.text == p + t) first.push_back(e);
    cross(c, first, refsDays(c.thorough ? yearRange(1999, 2400) : std::vector<int>{1400, 1600, 1899, 1900, 1904, 1999, 2000, 2001, 2019, 2020, 2021, 2096, 2100, 9996, 9999}, {0, 86399}));
    static const char* U[NUNIT] = {"seconds", "minutes", "hours", "days", "weeks", "months", "years"};
    auto mk = [&](int sign, const std::string& n, long long v, int u) { Amount a{(Unit) u, v, false}; return makeExpr(F_RELATIVE, (sign > 0 ? "next " : sign == -1 ? "last " : "past ") + n + " " + U[u], [a, sign](const DT& t) { return meanRelative(a, sign > 0 ? 1 : -1, t); }); };
    for (int sign : {1, -1, -2}) for (int u = 0; u < NUNIT; u++) {
        for (int n = 1; n <= (c.thorough ? 30000 : 2000); n++) { Expr e = mk(sign, std::to_string(n), n, u); for (auto& r : small) one(c, e, r); }
        for (auto& b : bigCounts()) if (b.second) { Expr e = mk(sign, b.first, b.second, u); for (auto& r : small) one(c, e, r); }
    }
    for (std::string n : {"2", "one", "two", "twelve", "few", "17"}) for (int u = 0; u < NUNIT; u++)
        for (auto& r : small) one(c, makeExpr(F_RELATIVE, "this " + n + " " + U[u], [](const DT&) { return Allowed{nothing()}; }), r);
}
PROPERTY(C11, "last/next x counts (words, numbers to 1000) x week/weeks x every day of 10 years, 6 counts x a 400-year cycle (thorough: all counts x 400 years, some x the whole calendar); counts 0..20000 (thorough: 460000, past both calendar ends) and machine-word limits; 30 words that are no numbers",
         "own calendar; exact parts or no result") {
    auto es = formsOf(F_WEEK, true);
    auto small = refsSmall(), edges = refsEdges();
    cross(c, es, edges);
    cross(c, pick(es, 5), refsDays(YEARS, {0, 45296}));
    cross(c, es, refsDays(YEARS, {86399})); cross(c, pick(es, 9), refsDays(yearRange(1999, 2400), {0}));
    if (c.thorough) { cross(c, es, refsDays(yearRange(1999, 2400), {45296})); cross(c, pick(es, 23), refsDays(yearRange(1400, 9999), {0})); }
    for (int sign : {1, -1}) {
        auto mk = [&](const std::string& n, long long v) { long long s = sign * v; return makeExpr(F_WEEK, (sign > 0 ? "next " : "last ") + n + " weeks", [s](const DT& t) { return meanWeek(s, t); }); };
        for (int n = 0; n <= (c.thorough ? 460000 : 20000); n++) { Expr e = mk(std::to_string(n), n); for (auto& r : small) one(c, e, r); }
        for (auto& b : bigCounts()) { Expr e = mk(b.first, std::min(b.second, 1LL << 40)); for (auto& r : edges) one(c, e, r); }
        for (std::string w : {"few", "couple", "several", "some", "thirteen", "twenty", "hundred", "many", "zero", "half", "first", "onee", "twoo", "abc", "ones", "seven1", "1one", "one1", "___", "work", "school", "busy"}) {
            std::string t = (sign > 0 ? "next " : "last ") + w + " weeks";
            for (auto& r : small) one(c, makeExpr(F_WEEK, t, [](const DT&) { return Allowed{nothing()}; }), r);
        }
    }
}
static void iso(Ctx& c, const Iso& i, const std::string& text) { one(c, makeExpr(F_ISO, text, [i](const DT&) { return meanIso(i); }), DT{2018, 2, 13, 18, 16, 5}); }
PROPERTY(C12, "every month 0..99 x day 0..99 in 10 years, both digit styles; the last days of every month of the years 0..9999 (thorough: every day), every day of 400 years with a time, every 11th (thorough: every) second of a day; hour 0..99 x minute 0..99; second 0..99; every offset +-00:00..14:59 in 2 spellings; times with impossible dates",
         "validity and values computed from the digits by own calendar") {
    for (int y : {1399, 1400, 1899, 1900, 1999, 2000, 2019, 2020, 9999, 0}) for (int m = 0; m < 100; m++) for (int d = 0; d < 100; d++) {
        Iso i{y, m, d, false};
        iso(c, i, isoText(i, 2, ""));
        if (m < 10 || d < 10) iso(c, i, isoText(i, 1, ""));
    }
    for (int y = 0; y <= 9999; y++) for (int m = 1; m <= 12; m++) for (int d : c.thorough ? std::vector<int>{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32} : m == 2 ? std::vector<int>{28, 29, 30} : std::vector<int>{30, 31}) {
        Iso i{y, m, d, false}; iso(c, i, isoText(i, 2, ""));
    }
    for (int y : yearRange(1999, 2400)) for (int m = 1; m <= 12; m++) for (int d = 1; d <= 31; d++) { Iso i{y, m, d, true, (m * d) % 24, d, false, 0, true, 0}; iso(c, i, isoText(i, 2, "z")); }
    for (int s = 0; s < 86400; s += c.thorough ? 1 : 11) for (int d = 0; d < 2; d++) { Iso i{2020, 1 + s % 12, 1 + s % 28, true, s / 3600, s / 60 % 60, true, s % 60, true, d ? -570 : 0}; iso(c, i, isoText(i, 2 - s % 2, d ? ".25-09:30" : "")); }
    for (int h = 0; h < 100; h++) for (int mi = 0; mi < 100; mi++) {
        Iso i{2019, 12, 31, true, h, mi, false, 0, false, 0};
        iso(c, i, isoText(i, 2, ""));
        if (h < 10 || mi < 10) iso(c, i, isoText(i, 1, ""));
        i.hasSec = true; i.s = 59; i.hasOff = true; i.off = -300; iso(c, i, isoText(i, 2, "-05:00"));
    }
    for (int h : {0, 23, 24}) for (int mi : {0, 59}) for (int s = 0; s < 100; s++) for (std::string off : {"", "z", "+01:00", ".5", ".12", ".123z", ".1234-0130"}) {
        Iso i{2020, 2, 29, true, h, mi, true, s, true, off == "+01:00" ? 60 : off == ".1234-0130" ? -90 : 0};
        iso(c, i, isoText(i, 2, off));
        if (s < 10) iso(c, i, isoText(i, 1, off));
    }
    for (int sign : {1, -1}) for (int h = 0; h < 15; h++) for (int mi = 0; mi < 60; mi++) for (int style = 0; style < 2; style++) {
        Iso i{2018, 7, 4, true, 17, 30, false, 0, true, sign * (h * 60 + mi)};
        iso(c, i, isoText(i, 2, fmt(style ? "%c%02d%02d" : "%c%02d:%02d", sign > 0 ? '+' : '-', h, mi)));
        if (mi == 0 && style) iso(c, i, isoText(i, 2, fmt("%c%02d", sign > 0 ? '+' : '-', h)));
        i.hasSec = true; i.s = 7;
        iso(c, i, isoText(i, 2, fmt(style ? "%c%02d%02d" : "%c%02d:%02d", sign > 0 ? '+' : '-', h, mi)));
    }
    // impossible dates with a time, and all reference moments are irrelevant
    for (int y : {2018, 2020}) for (int m = 0; m <= 13; m++) for (int d = 0; d <= 32; d++) { Iso i{y, m, d, true, 10, 0, false, 0, false, 0}; iso(c, i, isoText(i, 2, "")); }
    for (auto& e : formsOf(F_ISO, true)) for (auto& r : refsEdges()) one(c, e, r);
}
PROPERTY(C13, "35 month spellings x 7 year forms x 12 moments; 12 months x every day of 5 years as reference (thorough: 35 spellings x every day of 9 years); spellings x years 0..9999 in steps (thorough: all years), each plain, BE, BC and AD",
         "own calendar, nearest year by day distance (either on a tie)") {
    auto es = formsOf(F_MONTH, true);
    cross(c, es, refsSmall());
    std::vector<Expr> plain, names;
    for (auto& e : es) { bool y = e.text.find_first_of("0123456789") != std::string::npos; if (!y) plain.push_back(e); }
    for (auto& e : plain) if (e.text.size() > 5 || e.text == "march" || e.text == "april" || e.text == "may" || e.text == "june" || e.text == "july") if (e.text.find('.') == std::string::npos) names.push_back(e);
    cross(c, names, refsDays({2019, 2020}, {0})); cross(c, pick(names, 1), refsDays({1403, 1900, 2000}, {86399}));
    cross(c, plain, refsEdges());
    if (c.thorough) cross(c, plain, refsDays({1401, 1899, 1900, 1999, 2000, 2100, 2101, 2400, 9998}, {86399}));
    static const char* N[12] = {"jan", "february", "mar.", "april", "may", "june", "jul", "august", "sept.", "oct", "november", "dec."};
    for (int y = 0; y <= 9999; y++) {
        if (!c.thorough && y % 23 && y > 105 && (y < 540 || y > 547) && (y < 1398 || y > 1402) && (y < 1940 || y > 2021) && y < 9995) continue;
        for (int k = 0; k < 12; k++) {
            if (!c.thorough && k != y % 12 && k != 11) continue;
            int mo = k + 1, yy = y < 100 ? y + 2000 : y;
            one(c, makeExpr(F_MONTH, fmt("%s %04d", N[k], y), [mo, yy](const DT& t) { return meanMonth(mo, yy, t); }), {2018, 2, 13, 18, 16, 5});
            one(c, makeExpr(F_MONTH, fmt("%s %04d be", N[k], y), [mo, y](const DT& t) { return meanMonth(mo, y == 542 ? 0 : y - 543, t); }), {2018, 2, 13, 18, 16, 5});
            one(c, makeExpr(F_MONTH, fmt("%s %04d bc", N[k], y), [](const DT&) { return Allowed{nothing()}; }), {2018, 2, 13, 18, 16, 5});
            one(c, makeExpr(F_MONTH, fmt("%s %04d ad", N[k], y), [mo, y](const DT& t) { return meanMonth(mo, y, t); }), {2018, 2, 13, 18, 16, 5});
        }
    }
}
PROPERTY(C14, "35 month spellings x 31 days in digits; 12 months x 31 days x 5 notations x 5 separators x year forms; 12 months x 31 days x every 11th (thorough: every) day of 2019-2020 and 20 edge moments; weekday prefixes; day ranges in digits, with ordinal endings and in words, ends that do not exist; years 0..9999 in steps (thorough: all), each plain, BE, BC and AD",
         "own calendar, nearest year by day distance (either on a tie), non-existing days absent") {
    static const char* N[12] = {"jan", "february", "mar.", "april", "may", "june", "jul", "august", "sept.", "oct", "november", "dec."};
    const DT ref{2018, 2, 13, 18, 16, 5};
    auto md = [&](const std::string& t, int m, int d, int y, int wd, int e) { return makeExpr(F_MME, t, [=](const DT& r) { return meanMonthDay(m, d, y, wd, e, r); }); };
    std::vector<std::vector<std::string>> words(32);
    for (auto& o : ORDINALS) words[o.second].push_back(o.first);
    auto th = [](int d) { return d % 10 == 1 && d != 11 ? "st" : d % 10 == 2 && d != 12 ? "nd" : d % 10 == 3 && d != 13 ? "rd" : "th"; };
    for (auto& m : MONTHS) for (int d = 1; d <= 31; d++) one(c, md(m.first + fmt(" %d", d), m.second, d, -1, -1, -1), ref);
    for (int m = 1; m <= 12; m++) for (int d = 1; d <= 31; d++) {
        std::vector<std::string> ds{fmt("%d", d), fmt("%02d", d), fmt("%d%s", d, th(d)), fmt("%dth", d)};
        for (auto& w : words[d]) ds.push_back(w);
        for (size_t k = 0; k < ds.size(); k++) {
            static const char* seps[] = {" ", "-", "/", ", ", ""};
            for (int s = 0; s < 5; s++) {
                bool dot = N[m - 1][strlen(N[m - 1]) - 1] == '.';
                if (s == 4 && k >= 4) continue;
                (void) dot;
                if (!c.thorough && s && (d + m + s) % 4) continue;
                std::string base = std::string(N[m - 1]) + seps[s] + ds[k];
                one(c, md(base, m, d, -1, -1, -1), ref);
                if (!c.thorough && (d * 7 + m + (int) k) % 5) continue;
                one(c, md(base + " 2012", m, d, 2012, -1, -1), ref);
                one(c, md(base + ", 2019", m, d, 2019, -1, -1), ref);
                one(c, md(base + " 2555 be", m, d, 2012, -1, -1), ref);
                one(c, md(base + "/2020", m, d, 2020, -1, -1), ref);
                one(c, md(base + " 1999 ad", m, d, 1999, -1, -1), ref);
            }
        }
        Expr e = md(fmt("%s %d", N[m - 1], d), m, d, -1, -1, -1);
        if (c.thorough) for (auto& r : refsDays({2019, 2020}, {0})) one(c, e, r);
        else { auto edges = refsEdges(); for (size_t i = 0; i < edges.size(); i += 3) one(c, e, edges[i]); auto days = refsDays({2019, 2020}, {(d % 2) * 86399}); for (size_t k = (d * 3 + m) % 11; k < days.size(); k += 11) one(c, e, days[k]); }
        // around half a year away
        for (int y : {2019, 2020}) {
            if (!dateExists(y, m, d)) continue;
            for (int delta : {-184, -183, -182, 182, 183, 184}) { Date x = dateOf(dayNo(y, m, d) + delta); one(c, e, {x.y, x.m, x.d, 12, 0, 0}); }
        }
    }
    for (auto& w : WEEKDAYS) for (std::string sep : {" ", ", "}) for (int m : {1, 7, 9}) { one(c, md(w.first + sep + N[m - 1] + " 24", m, 24, -1, w.second, -1), ref); one(c, md(w.first + sep + N[m - 1] + " 3rd, 2012", m, 3, 2012, w.second, -1), ref); one(c, md("on " + w.first + sep + N[m - 1] + " fifth", m, 5, -1, w.second, -1), ref); }
    for (int m : {2, 7, 12}) for (int a = 1; a <= 31; a += c.thorough ? 1 : 3) for (int b = a; b <= 31; b += c.thorough ? 1 : 2) {
        one(c, md(fmt("%s %d - %d", N[m - 1], a, b), m, a, -1, -1, b), ref);
        one(c, md(fmt("%s %d to %d", N[m - 1], a, b), m, a, -1, -1, b), ref);
        one(c, md(fmt("%s %d-%d, 2012", N[m - 1], a, b), m, a, 2012, -1, b), ref);
        for (auto& wa : words[a]) for (auto& wb : words[b]) if (c.thorough || (a + b) % 3 == 0) one(c, md(fmt("%s %s to %s", N[m - 1], wa.c_str(), wb.c_str()), m, a, -1, -1, b), ref);
    }
    // every pair of ordinal words, and of a number and a word
    for (int a = 1; a <= 31; a++) for (int b = a; b <= 31; b++) for (size_t i = 0; i < words[b].size(); i++) {
        auto &wa = words[a][i % words[a].size()], &wb = words[b][i];
        one(c, md(fmt("july %s to %s", wa.c_str(), wb.c_str()), 7, a, -1, -1, b), ref);
        if (c.thorough || (a + b) % 4 == 0) { one(c, md(fmt("aug %d - %s", a, wb.c_str()), 8, a, -1, -1, b), ref); one(c, md(fmt("january %s-%d, 2012", wa.c_str(), b), 1, a, 2012, -1, b), ref); }
    }
    for (int m : {2, 7, 11}) for (int a = 1; a <= 31; a++) for (int b : {a + 1, 3, 11, 22, 31, 32, 0}) {     // ordinal endings on either end of a range, ends that do not exist
        if (!c.thorough && (a + b) % 2) continue;
        int end = b < 1 ? 0 : b;
        one(c, md(fmt("%s %d%s - %d%s", N[m - 1], a, th(a), b, th(b)), m, a, -1, -1, end), ref);
        one(c, md(fmt("%s %d to %d%s", N[m - 1], a, b, th(b)), m, a, -1, -1, end), ref);
        if (b <= 31 && b > 0) one(c, md(fmt("%s %d%s-%s, 2020", N[m - 1], a, th(a), words[b].back().c_str()), m, a, 2020, -1, end), ref);
        one(c, md(fmt("fri %s %d - %d 2555 be", N[m - 1], a, b), m, a, 2012, 5, end), ref);
    }
    for (int m : {1, 2, 12}) for (int d : {1, 4, 29, 31}) for (int y = 0; y <= 9999; y++) {
        if (!c.thorough && y % 211 && (y < 540 || y > 547) && (y < 1398 || y > 1402) && (y < 1940 || y > 1945) && y > 3 && y < 9998) continue;
        int k = (m + d + y) % 2;
        one(c, md(fmt(k ? "%s %d, %04d" : "%s %d %04d", N[m - 1], d, y), m, d, y < 100 ? y + 2000 : y, -1, -1), ref);
        one(c, md(fmt("%s %d %04d be", N[m - 1], d, y), m, d, y == 542 ? 0 : y - 543, -1, -1), ref);
        for (auto era : {"bc", " bc", "ad", " ad"}) { if (!c.thorough && (era[0] == ' ') == k) continue; one(c, md(fmt("%s %d, %d%s", N[m - 1], d, y, era), m, d, era[strlen(era) - 2] == 'b' ? 0 : y, -1, -1), ref); }
    }
    for (int m : {2, 4, 12}) for (int d : {0, 30, 31, 32, 99}) for (int y : {1399, 1400, 2019, 2020, 9999}) one(c, md(fmt("%s %d, %d", N[m - 1], d, y), m, d, y, -1, -1), ref);
    if (c.thorough) cross(c, formsOf(F_MME, true), refsSmall());
}
struct MerForm { const char* t; Mer m; };
static const std::vector<MerForm> MERS{{"", M_NONE}, {"am", M_AM}, {" am", M_AM}, {" a.m.", M_AM}, {" a.m", M_AM}, {"a", M_AM}, {"pm", M_PM}, {" pm", M_PM}, {"p.m.", M_PM}, {" p.m", M_PM}, {" p", M_PM}, {" o'clock", M_OCLOCK}, {" oclock", M_OCLOCK}};
static void clock(Ctx& c, const std::string& text, const Clock& k, const DT& ref) { one(c, makeExpr(F_TIME, text, [k](const DT& t) { return meanClock(k, t); }), ref); }
PROPERTY(C15, "hour 0..99 x minute 0..99 x 13 meridiem spellings x ':' (and '.' for 3), two-digit hours; hour 0..99 alone x spellings x lead-ins; all compact 3- and 4-digit numbers x none/am/pm; hour x minute x second 0..99 at the limits; hour 0..26 x minute 0..61 x second 0..61 x one (thorough: each) of the 13 meridiem spellings; noon/midnight; words glued to the number; every day of 3 years as reference",
         "arithmetic on the digits; impossible times absent") {
    const DT ref{2020, 2, 29, 18, 16, 5};
    for (int h = 0; h < 100; h++) for (size_t k = 0; k < MERS.size(); k++) {
        for (int mi = 0; mi < 100; mi++) {
            Clock q{h, mi, -1, MERS[k].m};
            clock(c, fmt("%d:%02d%s", h, mi, MERS[k].t), q, ref);
            if (h < 10 && (true)) clock(c, fmt("%02d:%02d%s", h, mi, MERS[k].t), q, ref);
            if (k == 0 || k == 2 || k == 8) if (true) clock(c, fmt("%d.%02d%s", h, mi, MERS[k].t), q, ref);
        }
        Clock q{h, 0, -1, MERS[k].m};
        for (std::string lead : {"", "at ", "from ", "at"}) { clock(c, lead + fmt("%d%s", h, MERS[k].t), q, ref); if (h < 10) clock(c, lead + fmt("%02d%s", h, MERS[k].t), q, ref); }
    }
    for (int n = 0; n < 10000; n++) for (auto& m : {MerForm{"", M_NONE}, MerForm{" am", M_AM}, MerForm{"pm", M_PM}}) {
        Clock q{n / 100, n % 100, -1, m.m};
        clock(c, fmt("%04d%s", n, m.t), q, ref);
        if (n < 1000) clock(c, fmt("%03d%s", n, m.t), q, ref);
    }
    for (int h : {0, 1, 9, 11, 12, 13, 23, 24, 25}) for (int mi : {0, 30, 59, 60}) for (int s = 0; s < 100; s++) for (auto& m : {MerForm{"", M_NONE}, MerForm{" am", M_AM}, MerForm{"pm", M_PM}, MerForm{".5", M_NONE}, MerForm{".123456 pm", M_PM}}) {
        clock(c, fmt("%d:%02d:%02d%s", h, mi, s, m.t), Clock{h, mi, s, m.m}, ref);
    }
    for (int h = 0; h < 27; h++) for (int mi = 0; mi < 62; mi++) for (int s = 0; s < 62; s++) for (size_t k = 0; k < MERS.size(); k++) {      // every second of the day
        if (!c.thorough && (h * 7 + mi * 3 + s + k) % 13) continue;
        clock(c, fmt(s % 3 ? "%d:%02d:%02d%s" : "%02d:%02d:%02d%s", h, mi, s, MERS[k].t), Clock{h, mi, s, MERS[k].m}, ref);
    }
    for (std::string lead : {"", "at ", "from "}) { clock(c, lead + "noon", {12, 0, -1, M_NONE}, ref); clock(c, lead + "midnight", {0, 0, -1, M_NONE}, ref); }
    for (std::string w : {"abc", "route", "x", "v", "mat", "no", "art", "9x", "_", "room", "b", "st", "at_", "t9t", "from_x"}) for (std::string t : {"5", "5:30", "5pm", "17:05", "1630", "12 am"})
        one(c, makeExpr(F_TIME, w + t, [](const DT&) { return Allowed{nothing()}; }), ref);
    for (auto& r : refsDays(c.thorough ? yearRange(1999, 2100) : std::vector<int>{1400, 2019, 2020, 9999}, {0, 86399})) clock(c, "at 5:30pm", {5, 30, -1, M_PM}, r);
    for (auto& r : refsEdges()) for (auto& e : formsOf(F_TIME, true)) one(c, e, r);
}
PROPERTY(C16, "A x B over hours 0..24(+26) x {none, am, pm} x {no minutes, :30} each, 8 separators to/-/~/en dash with and without blanks (thorough: also :00, :01, :59, :60); minutes and seconds at their limits; impossible B; zone-like B; edge reference moments",
         "single-time meanings of A and B combined by the sharing rule") {
    const DT ref{2020, 2, 29, 18, 16, 5};
    struct T { std::string t; Clock c; };
    std::vector<T> ts;
    for (int h = 0; h <= 26; h++) for (auto& m : {MerForm{"", M_NONE}, MerForm{"am", M_AM}, MerForm{" pm", M_PM}}) for (int mi : c.thorough ? std::vector<int>{-1, 0, 1, 30, 59, 60} : std::vector<int>{-1, 30}) {
        std::string s = mi < 0 ? fmt("%d%s", h, m.t) : fmt("%d:%02d%s", h, mi, m.t);
        ts.push_back({s, {h, std::max(mi, 0), -1, m.m}});
    }
    auto range = [&](const std::string& text, const Clock& a, const Clock& b, const DT& r) { one(c, makeExpr(F_TIME, text, [a, b](const DT& t) { return meanClockRange(a, b, t); }), r); };
    std::vector<std::string> seps{" to ", " - ", "-", " ~ ", " \xe2\x80\x93 ", "~", " -", "- "};
    for (size_t i = 0; i < ts.size(); i++) {
        if (!clockValid(ts[i].c)) continue;
        for (size_t j = 0; j < ts.size(); j++) for (size_t s = 0; s < seps.size(); s++) {
            range(ts[i].t + seps[s] + ts[j].t, ts[i].c, ts[j].c, ref);
        }
    }
    std::vector<T> ms{{"4:00", {4, 0, -1, M_NONE}}, {"4:59", {4, 59, -1, M_NONE}}, {"4:60", {4, 60, -1, M_NONE}}, {"11:59:59", {11, 59, 59, M_NONE}}, {"11:59:60", {11, 59, 60, M_NONE}}, {"12:00:00 pm", {12, 0, 0, M_PM}}, {"12:30am", {12, 30, -1, M_AM}},
        {"6:07:08pm", {6, 7, 8, M_PM}}, {"1045", {10, 45, -1, M_NONE}}, {"930 pm", {9, 30, -1, M_PM}}, {"1260", {12, 60, -1, M_NONE}}, {"8.15", {8, 15, -1, M_NONE}}, {"10 a.m.", {10, 0, -1, M_AM}}, {"3 p.m", {3, 0, -1, M_PM}}, {"23:59:59", {23, 59, 59, M_NONE}}, {"24:00", {24, 0, -1, M_NONE}}};
    for (auto& a : ms) { if (!clockValid(a.c)) continue; for (auto& b : ms) for (std::string s : {" to ", " ~ ", " - "}) {
        if (s == " - " && (b.t == "1045" || b.t == "1260" || b.t == "930 pm")) continue;
        range(a.t + s + b.t, a.c, b.c, ref);
        range("from " + a.t + s + b.t, a.c, b.c, ref); range("at " + a.t + s + b.t, a.c, b.c, ref);
    } }
    for (std::string b : {"0500", "0530", "0000", "1130", "100", "1400"}) for (std::string a : {"10:30", "5pm", "14:05:09", "1630", "12am"}) {
        Clock k = a == "10:30" ? Clock{10, 30, -1, M_NONE} : a == "5pm" ? Clock{5, 0, -1, M_PM} : a == "14:05:09" ? Clock{14, 5, 9, M_NONE} : a == "1630" ? Clock{16, 30, -1, M_NONE} : Clock{12, 0, -1, M_AM};
        clock(c, a + "-" + b, k, ref); clock(c, a + " -" + b, k, ref);
    }
    // o'clock says nothing about the half of the day
    for (int h = 0; h <= 14; h++) for (int g = 0; g <= 14; g++) for (size_t s = 0; s < 3; s++) for (int how = 0; how < 3; how++) {
        Clock a{h, 0, -1, how == 0 ? M_NONE : M_OCLOCK}, b{g, 0, -1, how == 1 ? M_NONE : M_OCLOCK};
        if (clockValid(a)) range(fmt("%d", h) + (how == 0 ? "" : " o'clock") + seps[s * 3] + fmt("%d", g) + (how == 1 ? "" : s ? " oclock" : " o'clock"), a, b, ref);
    }
    for (std::string w : {"noon", "midnight"}) for (auto& b : ts) if (b.c.h < 14) range(w + " to " + b.t, {w == "noon" ? 12 : 0, 0, -1, M_NONE}, b.c, ref);
    for (auto& r : refsEdges()) for (int i = 0; i < 54; i += 7) for (int j = 0; j < 50; j += 5) if (clockValid(ts[i].c)) range(ts[i].t + " to " + ts[j].t, ts[i].c, ts[j].c, r);
}
PROPERTY(C17, "18 holiday spellings, with and without 'day', x every year 1400..9999 at 3 dates each (thorough: 15); all forms x 60 edge moments; all forms x every day of 2 (thorough: 42) years",
         "own calendar: n-th weekday by counting") {
    auto es = formsOf(F_HOLIDAY, true);
    for (int y = 1400; y <= 9999; y++) for (size_t i = 0; i < es.size(); i++) {
        one(c, es[i], {y, 1 + y % 12, 1 + y % 28, y % 24, 0, 0});
        one(c, es[i], {y, 1, 1, 0, 0, 0}); one(c, es[i], {y, 12, 31, 23, 59, 59});
        if (c.thorough) for (int m = 1; m <= 12; m++) one(c, es[i], {y, m, monthLen(y, m), 12, 0, 0});
    }
    cross(c, es, refsEdges());
    cross(c, es, refsDays(c.thorough ? yearRange(1999, 2040) : std::vector<int>{2019, 2020}, {45296}));
}
}
