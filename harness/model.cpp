#include "model.h"
#include <cmath>
namespace mcx {

std::string show(const Meaning& m) {
    if (!m.present) return "nothing";
    return show(m.s) + (m.end ? " -> " + show(m.e) : "");
}

// ---------- families ----------
Allowed meanCasualDate(const std::string& w, const DT& ref) {
    Moment r = momentOf(ref); long long day = r.day; Meaning m; m.present = true;
    if (w == "tonight") implied(m.s, H, 22);
    else if (w == "tomorrow" || w == "tmr") { if (ref.H > 0) day++; }
    else if (w == "yesterday") { day--; implied(m.s, H, ref.H); }
    else if (w == "last night") { implied(m.s, H, 0); if (ref.H > 6) day--; }
    else if (w == "now") { known(m.s, H, ref.H); known(m.s, MI, ref.M); known(m.s, S, ref.S); }
    if (!inCal(day)) return {nothing()};
    putDate(m.s, dateOf(day), true);
    return {m};
}
Allowed meanCasualTime(const std::string& w, const DT& ref) {
    Meaning m; m.present = true;
    int h = w == "morning" ? 6 : w == "afternoon" ? 15 : w == "noon" ? 12 : 20;
    implied(m.s, H, h); implied(m.s, MI, ref.M);
    putDate(m.s, {ref.y, ref.m, ref.d}, false);
    implied(m.s, WD, weekday(dayNo(ref.y, ref.m, ref.d)));
    return {m};
}
Allowed meanWeekday(int wd, int mod, int timing, const DT& ref) {
    long long r = dayNo(ref.y, ref.m, ref.d);
    long long day = r - weekday(r) + wd + 7 * mod;        // Sunday-based week
    Meaning m; m.present = true;
    if (!inCal(day)) return {nothing()};
    putDate(m.s, dateOf(day), mod != 0);
    if (timing == 1) { implied(m.s, H, 6); implied(m.s, MI, 1); }
    if (timing == 2) { implied(m.s, H, 20); implied(m.s, MI, 1); }
    Allowed a{m};
    if (!inCal(r - 14) || !inCal(r + 14)) a.push_back(nothing());   // first/last fortnight of the calendar
    return a;
}
std::optional<Moment> shift(Moment m, const Amount& a, int sign) {
    static const long long SEC[NUNIT] = {1, 60, 3600, 86400, 604800, 0, 0};
    Moment r = m;
    if (a.half) {
        switch (a.u) {
            case U_SEC: r = plusSec(m, sign); break;
            case U_MIN: r = plusSec(m, sign * 30); break;
            case U_HOUR: r = plusSec(m, sign * 1800); break;
            case U_DAY: r = plusSec(m, sign * 43200); break;
            case U_WEEK: r = plusSec(m, sign * 3LL * 86400); break;
            case U_MONTH: r = plusSec(m, sign * 15LL * 86400); break;
            default: return plusMonths(m, sign * 6);
        }
    }
    else if (a.u == U_MONTH || a.u == U_YEAR) {
        if (a.n > 200000) return {};
        return plusMonths(m, sign * a.n * (a.u == U_YEAR ? 12 : 1));
    }
    else r = plusSec(m, (__int128) sign * a.n * SEC[a.u]);
    if (!r.ok()) return {};
    return r;
}
static Allowed shifted(const Amount& a, int sign, const DT& ref) {   // deadlines and relative units
    auto r = shift(momentOf(ref), a, sign);
    if (!r) return {nothing()};
    Meaning m; m.present = true; DT t = dtOf(*r);
    putDate(m.s, {t.y, t.m, t.d}, false);
    if (a.u < U_DAY || (a.u == U_DAY && a.half)) { implied(m.s, H, t.H); implied(m.s, MI, t.M); }
    if (a.u < U_DAY) implied(m.s, S, t.S);
    Allowed out{m};
    if (!a.half && a.n > 2147483647LL) out.push_back(nothing());   // such a count may go unread, but not be read wrongly
    return out;
}
Allowed meanDeadline(const Amount& a, const DT& ref) { return shifted(a, 1, ref); }
Allowed meanRelative(const Amount& a, int sign, const DT& ref) { return shifted(a, sign, ref); }
Allowed meanAgoLater(const std::vector<Amount>& as, int sign, const DT& ref) {
    bool dateUnit = false, timeUnit = false;
    bool huge = false;
    for (auto& a : as) {
        if (!a.half && a.n > 2147483647LL) huge = true;
        if (a.u < U_DAY || (a.u == U_DAY && a.half)) timeUnit = true; else dateUnit = true;
    }
    Allowed out;
    std::vector<int> order; for (size_t i = 0; i < as.size(); i++) order.push_back((int) i);
    do {                                                  // months do not commute with days: any order will do
        std::optional<Moment> r = momentOf(ref);
        for (int i : order) if (r) r = shift(*r, as[i], sign);
        Meaning m;
        if (r) {
            m.present = true; DT t = dtOf(*r);
            putDate(m.s, {t.y, t.m, t.d}, dateUnit);
            if (timeUnit) { known(m.s, H, t.H); known(m.s, MI, t.M); known(m.s, S, t.S); }
        }
        if (std::find(out.begin(), out.end(), m) == out.end()) out.push_back(m);
    } while (std::next_permutation(order.begin(), order.end()));
    if (huge) out.push_back(nothing());
    return out;
}
Allowed meanThis(Unit u, const DT& ref) {
    Meaning m; m.present = true; m.end = true;
    long long r = dayNo(ref.y, ref.m, ref.d);
    if (u == U_WEEK) {
        long long a = r - weekday(r), b = a + 6;
        if (!inCal(a) || !inCal(b)) return {nothing()};
        putDate(m.s, dateOf(a), false); putDate(m.e, dateOf(b), false);
    }
    else if (u == U_MONTH) {
        for (Comp* c : {&m.s, &m.e}) { known(*c, Y, ref.y); known(*c, MO, ref.m); }
        implied(m.s, D, 1); implied(m.e, D, monthLen(ref.y, ref.m));
    }
    else if (u == U_YEAR) {
        known(m.s, Y, ref.y); known(m.e, Y, ref.y);
        implied(m.s, MO, 1); implied(m.s, D, 1); implied(m.e, MO, 12); implied(m.e, D, 31);
    }
    else return {nothing()};
    return {m};
}
Allowed meanWeek(long long n, const DT& ref) {
    if (n > 2147483647LL || n < -2147483647LL) return {nothing()};   // 41 million years
    long long day = dayNo(ref.y, ref.m, ref.d) + 7 * n;
    if (!inCal(day)) return {nothing()};
    Meaning m; m.present = true; putDate(m.s, dateOf(day), false);
    return {m};
}
Allowed meanIso(const Iso& i) {
    Meaning m; m.present = true;
    known(m.s, Y, i.y); known(m.s, MO, i.m); known(m.s, D, i.d);
    if (i.time) {
        known(m.s, H, i.h); known(m.s, MI, i.mi);
        if (i.hasSec) known(m.s, S, i.s);
        known(m.s, TZ, i.hasOff ? i.off : 0);
    }
    Allowed a{reported(m)};
    if (i.time && i.h == 24 && i.mi > 0) a.push_back(nothing());      // 24:30 is an hour of 24, but hardly a time of day
    return a;
}
static int nearestYear(int month, int day, const DT& ref, int slack, std::vector<int>* also) {
    long long r = dayNo(ref.y, ref.m, ref.d); int best = ref.y; long long bd = -1;
    long long dist[3];
    for (int k = 0; k < 3; k++) { int y = ref.y + (k == 0 ? 0 : k == 1 ? 1 : -1); dist[k] = std::llabs(dayNo(y, month, std::min(day, monthLen(y, month))) - r); }
    for (int k = 0; k < 3; k++) if (bd < 0 || dist[k] < bd) { bd = dist[k]; best = ref.y + (k == 0 ? 0 : k == 1 ? 1 : -1); }
    if (also) for (int k = 0; k < 3; k++) if (dist[k] <= bd + slack) also->push_back(ref.y + (k == 0 ? 0 : k == 1 ? 1 : -1));
    return best;
}
Allowed meanMonth(int month, int year, const DT& ref) {
    Meaning m; m.present = true; known(m.s, MO, month); implied(m.s, D, 1);
    if (year != -1) { known(m.s, Y, year); return {reported(m)}; }
    std::vector<int> years; nearestYear(month, 1, ref, 0, &years);    // two years may be equally near
    Allowed a;
    for (int y : years) { implied(m.s, Y, y); a.push_back(reported(m)); }
    if (ref.y == MINY || ref.y == MAXY) a.push_back(nothing());     // a neighbouring year does not exist
    return a;
}
Allowed meanMonthDay(int month, int day, int year, int wd, int endDay, const DT& ref) {
    Allowed out; std::vector<int> years;
    if (year != -1) years.push_back(year);
    else if (month == 2 && day >= 28) {        // where February ends differs from year to year: a day of slack
        std::vector<int> ys; nearestYear(month, day, ref, 1, &ys); years = ys;
        if (day >= 29) out.push_back(nothing());
        if (day == 29) for (int y = ref.y - 1; y <= ref.y + 1; y++) if (leap(y)) { if (std::find(years.begin(), years.end(), y) == years.end() && y == ref.y) years.push_back(y); }
    }
    else nearestYear(month, day, ref, 0, &years);
    for (int y : years) {
        Meaning m; m.present = true;
        known(m.s, Y, y); known(m.s, MO, month); known(m.s, D, day);
        if (wd >= 0) known(m.s, WD, wd);
        if (endDay >= 0) { m.end = true; m.e = m.s; known(m.e, D, endDay); known(m.e, H, 23); known(m.e, MI, 59); }
        out.push_back(reported(m));
    }
    if (year == -1 && (ref.y == MINY || ref.y == MAXY)) out.push_back(nothing());
    return out;
}
bool clockValid(const Clock& c) {
    if (c.h > 24 || c.mi > 59 || c.s > 59) return false;
    return !(c.mer != M_NONE && c.h > 12);
}
static int hourOf(const Clock& c) {
    if (c.mer == M_AM) return c.h == 12 ? 0 : c.h;
    if (c.mer == M_PM) return c.h == 12 ? 12 : c.h + 12;
    return c.h;
}
static void putClock(Comp& k, int h, const Clock& c, const DT& ref) {
    known(k, H, h); known(k, MI, c.mi); if (c.s >= 0) known(k, S, c.s);
    putDate(k, {ref.y, ref.m, ref.d}, false);
}
Allowed meanClock(const Clock& c, const DT& ref) {
    if (!clockValid(c)) return {nothing()};
    Meaning m; m.present = true; putClock(m.s, hourOf(c), c, ref);
    return {reported(m)};
}
Allowed meanClockRange(const Clock& a, const Clock& b, const DT& ref) {
    if (!clockValid(a)) return {nothing()};
    if (!clockValid(b)) return meanClock(a, ref);
    int ha = hourOf(a), hb = hourOf(b);
    if (b.mer == M_PM && a.mer == M_NONE && ha < 12) ha += 12;
    if (b.mer == M_NONE && a.mer == M_AM && hb == 12) hb = 0;
    if (b.mer == M_NONE && a.mer == M_PM && hb < 12) hb += 12;
    Meaning m; m.present = true; m.end = true;
    putClock(m.s, ha, a, ref); putClock(m.e, hb, b, ref);
    return {reported(m)};
}
static Date nthWeekday(int y, int m, int wd, int n) {     // n-th, or last for n == 0
    if (n == 0) { int d = monthLen(y, m); while (weekday(dayNo(y, m, d)) != wd) --d; return {y, m, d}; }
    int d = 1; while (weekday(dayNo(y, m, d)) != wd) ++d;
    return {y, m, d + 7 * (n - 1)};
}
Allowed meanHoliday(Holiday h, const DT& ref) {
    int y = ref.y; Date d{y, 1, 1}; bool floating = true;
    switch (h) {
        case INDEPENDENCE: d = {y, 7, 4}; floating = false; break;
        case NEWYEAR: d = {y, 1, 1}; floating = false; break;
        case NEWYEARSEVE: d = {y, 12, 31}; floating = false; break;
        case VETERANS: d = {y, 11, 11}; floating = false; break;
        case CHRISTMAS: d = {y, 12, 25}; floating = false; break;
        case CHRISTMASEVE: d = {y, 12, 24}; floating = false; break;
        case MLK: d = nthWeekday(y, 1, 1, 3); break;
        case PRESIDENTS: d = nthWeekday(y, 2, 1, 3); break;
        case MEMORIAL: d = nthWeekday(y, 5, 1, 0); break;
        case LABOR: d = nthWeekday(y, 9, 1, 1); break;
        case COLUMBUS: d = nthWeekday(y, 10, 1, 2); break;
        case THANKSGIVING: d = nthWeekday(y, 11, 4, 4); break;
        case BLACKFRIDAY: d = nthWeekday(y, 11, 4, 4); d.d++; break;
    }
    Meaning m; m.present = true; putDate(m.s, d, true); known(m.s, H, 0); known(m.s, MI, 0);
    if (floating) known(m.s, WD, weekday(dayNo(d.y, d.m, d.d)));
    return {m};
}

std::string checkMeaning(const Parsed& p, const Allowed& want) {
    if (!p.error.empty()) return p.error;
    for (auto& w : want) {
        if (!w.present) { if (p.r.empty()) return ""; continue; }
        if (p.r.size() != 1) continue;
        Meaning g; g.present = true; g.s = p.r[0].s; g.end = p.r[0].end; g.e = p.r[0].e;
        if (g == w) return "";
    }
    std::string s = "got " + show(p.r) + ", expected ";
    for (size_t i = 0; i < want.size(); i++) s += (i ? " or " : "") + show(want[i]);
    return s;
}

// ---------- vocabulary ----------
const std::vector<std::pair<std::string, int>> NUMBER_WORDS{{"one", 1}, {"two", 2}, {"three", 3}, {"four", 4}, {"five", 5}, {"six", 6},
    {"seven", 7}, {"eight", 8}, {"nine", 9}, {"ten", 10}, {"eleven", 11}, {"twelve", 12}};
const std::vector<std::pair<std::string, int>> ORDINALS{{"first", 1}, {"second", 2}, {"third", 3}, {"fourth", 4}, {"fifth", 5}, {"sixth", 6},
    {"seventh", 7}, {"eighth", 8}, {"ninth", 9}, {"tenth", 10}, {"eleventh", 11}, {"twelfth", 12}, {"thirteenth", 13}, {"fourteenth", 14},
    {"fifteenth", 15}, {"sixteenth", 16}, {"seventeenth", 17}, {"eighteenth", 18}, {"nineteenth", 19}, {"twentieth", 20},
    {"twenty first", 21}, {"twenty second", 22}, {"twenty third", 23}, {"twenty fourth", 24}, {"twenty fifth", 25}, {"twenty sixth", 26},
    {"twenty seventh", 27}, {"twenty eighth", 28}, {"twenty ninth", 29}, {"thirtieth", 30}, {"thirty first", 31},
    {"twenty-first", 21}, {"twenty-second", 22}, {"twenty-third", 23}, {"twenty-fourth", 24}, {"twenty-fifth", 25}, {"twenty-sixth", 26},
    {"twenty-seventh", 27}, {"twenty-eighth", 28}, {"twenty-ninth", 29}, {"thirty-first", 31}};
const std::vector<std::pair<std::string, int>> MONTHS{{"january", 1}, {"jan", 1}, {"jan.", 1}, {"february", 2}, {"feb", 2}, {"feb.", 2},
    {"march", 3}, {"mar", 3}, {"mar.", 3}, {"april", 4}, {"apr", 4}, {"apr.", 4}, {"may", 5}, {"may.", 5}, {"june", 6}, {"jun", 6}, {"jun.", 6},
    {"july", 7}, {"jul", 7}, {"jul.", 7}, {"august", 8}, {"aug", 8}, {"aug.", 8}, {"september", 9}, {"sept", 9}, {"sept.", 9}, {"sep", 9}, {"sep.", 9},
    {"october", 10}, {"oct", 10}, {"oct.", 10}, {"november", 11}, {"nov", 11}, {"nov.", 11}, {"december", 12}, {"dec", 12}, {"dec.", 12}};
const std::vector<std::pair<std::string, int>> WEEKDAYS{{"sunday", 0}, {"sun", 0}, {"monday", 1}, {"mon", 1}, {"tuesday", 2}, {"tues", 2}, {"tue", 2},
    {"wednesday", 3}, {"wed", 3}, {"thursday", 4}, {"thurs", 4}, {"thur", 4}, {"thu", 4}, {"friday", 5}, {"fri", 5}, {"saturday", 6}, {"sat", 6}};
const std::vector<std::pair<std::string, int>> UNIT_DEADLINE{{"second", U_SEC}, {"seconds", U_SEC}, {"sec", U_SEC}, {"secs", U_SEC},
    {"minute", U_MIN}, {"minutes", U_MIN}, {"min", U_MIN}, {"mins", U_MIN}, {"hour", U_HOUR}, {"hours", U_HOUR}, {"hr", U_HOUR}, {"hrs", U_HOUR},
    {"day", U_DAY}, {"days", U_DAY}, {"week", U_WEEK}, {"weeks", U_WEEK}, {"wk", U_WEEK}, {"wks", U_WEEK}, {"month", U_MONTH}, {"months", U_MONTH},
    {"year", U_YEAR}, {"years", U_YEAR}, {"yr", U_YEAR}, {"yrs", U_YEAR}};
const std::vector<std::pair<std::string, int>> UNIT_AGO{{"second", U_SEC}, {"seconds", U_SEC}, {"sec", U_SEC}, {"minute", U_MIN}, {"minutes", U_MIN},
    {"min", U_MIN}, {"mins", U_MIN}, {"hour", U_HOUR}, {"hours", U_HOUR}, {"day", U_DAY}, {"days", U_DAY}, {"week", U_WEEK}, {"weeks", U_WEEK},
    {"month", U_MONTH}, {"months", U_MONTH}, {"year", U_YEAR}, {"years", U_YEAR}};
const std::vector<std::pair<std::string, int>> UNIT_RELATIVE{{"second", U_SEC}, {"seconds", U_SEC}, {"minute", U_MIN}, {"minutes", U_MIN},
    {"min", U_MIN}, {"mins", U_MIN}, {"hour", U_HOUR}, {"hours", U_HOUR}, {"day", U_DAY}, {"days", U_DAY}, {"week", U_WEEK}, {"weeks", U_WEEK},
    {"month", U_MONTH}, {"months", U_MONTH}, {"year", U_YEAR}, {"years", U_YEAR}};
const std::vector<std::pair<std::string, Holiday>> HOLIDAYS{{"independence", INDEPENDENCE}, {"president's", PRESIDENTS}, {"new year's", NEWYEAR},
    {"newyear's", NEWYEAR}, {"new year's eve", NEWYEARSEVE}, {"columbus", COLUMBUS}, {"mlk", MLK}, {"martin luther king junior", MLK},
    {"martin luther king jr", MLK}, {"martin luther king jnr", MLK}, {"thanksgiving", THANKSGIVING}, {"memorial", MEMORIAL}, {"labor", LABOR},
    {"veterans", VETERANS}, {"veteran's", VETERANS}, {"christmas", CHRISTMAS}, {"christmas eve", CHRISTMASEVE}, {"black friday", BLACKFRIDAY}};
// golden copy of the zone table
const std::vector<std::pair<std::string, int>> ZONES{
    {"ACDT", 630}, {"ACST", 570}, {"ADT", -180}, {"AEDT", 660}, {"AEST", 600}, {"AFT", 270}, {"AKDT", -480}, {"AKST", -540},
    {"ALMT", 360}, {"AMST", -180}, {"AMT", -240}, {"ANAST", 720}, {"ANAT", 720}, {"AQTT", 300}, {"ART", -180}, {"AST", -240},
    {"AWDT", 540}, {"AWST", 480}, {"AZOST", 0}, {"AZOT", -60}, {"AZST", 300}, {"AZT", 240}, {"BNT", 480}, {"BOT", -240},
    {"BRST", -120}, {"BRT", -180}, {"BST", 60}, {"BTT", 360}, {"CAST", 480}, {"CAT", 120}, {"CCT", 390}, {"CDT", -300},
    {"CEST", 120}, {"CET", 60}, {"CHADT", 825}, {"CHAST", 765}, {"CKT", -600}, {"CLST", -180}, {"CLT", -240}, {"COT", -300},
    {"CST", -360}, {"CVT", -60}, {"CXT", 420}, {"CHST", 600}, {"DAVT", 420}, {"EASST", -300}, {"EAST", -360}, {"EAT", 180},
    {"ECT", -300}, {"EDT", -240}, {"EEST", 180}, {"EET", 120}, {"EGST", 0}, {"EGT", -60}, {"EST", -300}, {"ET", -300},
    {"FJST", 780}, {"FJT", 720}, {"FKST", -180}, {"FKT", -240}, {"FNT", -120}, {"GALT", -360}, {"GAMT", -540}, {"GET", 240},
    {"GFT", -180}, {"GILT", 720}, {"GMT", 0}, {"GST", 240}, {"GYT", -240}, {"HAA", -180}, {"HAC", -300}, {"HADT", -540},
    {"HAE", -240}, {"HAP", -420}, {"HAR", -360}, {"HAST", -600}, {"HAT", -90}, {"HAY", -480}, {"HKT", 480}, {"HLV", -210},
    {"HNA", -240}, {"HNC", -360}, {"HNE", -300}, {"HNP", -480}, {"HNR", -420}, {"HNT", -150}, {"HNY", -540}, {"HOVT", 420},
    {"ICT", 420}, {"IDT", 180}, {"IOT", 360}, {"IRDT", 270}, {"IRKST", 540}, {"IRKT", 540}, {"IRST", 210}, {"IST", 330},
    {"JST", 540}, {"KGT", 360}, {"KRAST", 480}, {"KRAT", 480}, {"KST", 540}, {"KUYT", 240}, {"LHDT", 660}, {"LHST", 630},
    {"LINT", 840}, {"MAGST", 720}, {"MAGT", 720}, {"MART", -510}, {"MAWT", 300}, {"MDT", -360}, {"MESZ", 120}, {"MEZ", 60},
    {"MHT", 720}, {"MMT", 390}, {"MSD", 240}, {"MSK", 240}, {"MST", -420}, {"MUT", 240}, {"MVT", 300}, {"MYT", 480},
    {"NCT", 660}, {"NDT", -90}, {"NFT", 690}, {"NOVST", 420}, {"NOVT", 360}, {"NPT", 345}, {"NST", -150}, {"NUT", -660},
    {"NZDT", 780}, {"NZST", 720}, {"OMSST", 420}, {"OMST", 420}, {"PDT", -420}, {"PET", -300}, {"PETST", 720}, {"PETT", 720},
    {"PGT", 600}, {"PHOT", 780}, {"PHT", 480}, {"PKT", 300}, {"PMDT", -120}, {"PMST", -180}, {"PONT", 660}, {"PST", -480},
    {"PT", -480}, {"PWT", 540}, {"PYST", -180}, {"PYT", -240}, {"RET", 240}, {"SAMT", 240}, {"SAST", 120}, {"SBT", 660},
    {"SCT", 240}, {"SGT", 480}, {"SRT", -180}, {"SST", -660}, {"TAHT", -600}, {"TFT", 300}, {"TJT", 300}, {"TKT", 780},
    {"TLT", 540}, {"TMT", 300}, {"TVT", 720}, {"ULAT", 480}, {"UTC", 0}, {"UYST", -120}, {"UYT", -180}, {"UZT", 300},
    {"VET", -210}, {"VLAST", 660}, {"VLAT", 660}, {"VUT", 660}, {"WAST", 120}, {"WAT", 60}, {"WEST", 60}, {"WESZ", 60},
    {"WET", 0}, {"WEZ", 0}, {"WFT", 720}, {"WGST", -120}, {"WGT", -180}, {"WIB", 420}, {"WIT", 540}, {"WITA", 480},
    {"WST", 780}, {"WT", 0}, {"YAKST", 600}, {"YAKT", 600}, {"YAPT", 600}, {"YEKST", 360}, {"YEKT", 360},
};
}
