#include "model.h"
namespace mcx {

// ---------- reference refiners (what C18-C21 say) ----------
static Obs merged(const Obs& a, const Obs& b) {           // spans both, marks of both
    Obs o = a;
    long from = std::min(a.index, b.index), to = std::max(a.index + a.len, b.index + b.len);
    o.index = from; o.len = to - from; o.tags |= b.tags;
    return o;
}
std::vector<Obs> modelOverlap(const std::vector<Obs>& in) {
    std::vector<Obs> out;
    for (auto& x : in) {
        if (!out.empty() && x.index < out.back().index + out.back().len) { if (x.len > out.back().len) out.back() = x; }
        else out.push_back(x);
    }
    return out;
}
static Comp dateWithTime(const Comp& d, const Comp& t) {
    Comp c = d;
    auto imply = [&](int part, int v) { if (!c.c[part]) c.v[part] = v; };
    if (t.c[H]) {
        known(c, H, t.v[H]); known(c, MI, t.v[MI]);
        if (t.c[S]) known(c, S, t.v[S]); else imply(S, t.v[S]);
    } else { imply(H, t.v[H]); imply(MI, t.v[MI]); imply(S, t.v[S]); }
    if (t.c[TZ]) known(c, TZ, t.v[TZ]);
    return c;
}
static Moment written(const Comp& c) { return plusSec(Moment{dayNo(c.v[Y], c.v[MO], c.v[D]), 0}, c.v[H] * 3600 + c.v[MI] * 60 + c.v[S]); }
static bool before(const Moment& a, const Moment& b) { return a.day != b.day ? a.day < b.day : a.sec < b.sec; }
static Obs dateTime(const Obs& d, const Obs& t) {
    Obs o = merged(d, t);
    o.s = dateWithTime(d.s, t.s);
    o.end = d.end || t.end;
    o.e = Comp();
    if (o.end) {
        o.e = dateWithTime(d.end ? d.e : d.s, t.end ? t.e : t.s);
        if (!d.end && before(written(o.e), written(o.s))) {
            long long next = std::min(written(o.e).day + 1, maxDay());
            Date n = dateOf(next);
            o.e.v[Y] = n.y; o.e.v[MO] = n.m; o.e.v[D] = n.d;      // as certain as they were
        }
    }
    o.tags |= 1u << T_DATETIME;
    return o;
}
std::vector<Obs> modelDateTime(const std::vector<Obs>& in) {
    auto dateOnly = [](const Obs& o) { return !o.s.c[H]; };
    auto timeOnly = [](const Obs& o) { return !o.s.c[MO] && !o.s.c[D] && !(o.tags >> T_DOW & 1); };   // a weekday names a day
    std::vector<Obs> out;
    for (size_t i = 0; i < in.size(); i++) {
        if (i + 1 < in.size()) {
            if (dateOnly(in[i]) && timeOnly(in[i + 1])) { out.push_back(dateTime(in[i], in[i + 1])); i++; continue; }
            if (dateOnly(in[i + 1]) && timeOnly(in[i])) { out.push_back(dateTime(in[i + 1], in[i])); i++; continue; }
        }
        out.push_back(in[i]);
    }
    return out;
}
std::vector<Obs> modelRange(const std::vector<Obs>& in, const std::string& text) {
    std::vector<Obs> out;
    for (size_t i = 0; i < in.size(); i++) {
        if (i + 1 < in.size() && !in[i].end && !in[i + 1].end) {
            const Obs &a = in[i], &b = in[i + 1];
            long from = a.index + a.len;
            std::string gap = b.index > from ? text.substr(from, b.index - from) : "";
            bool joined = false;
            for (const char* w : {"and", "to", "through", "-"}) if (gap.find(w) != std::string::npos) joined = true;
            if (joined) {
                bool swap = before(written(b.s), written(a.s));
                Obs o = merged(a, b);
                o.s = swap ? b.s : a.s; o.e = swap ? a.s : b.s; o.end = true;
                o.tags |= 1u << T_RANGE;
                out.push_back(o); i++; continue;
            }
        }
        out.push_back(in[i]);
    }
    return out;
}
static std::string upper(std::string s) { for (auto& c : s) c = (char) toupper((unsigned char) c); return s; }
std::vector<Obs> modelZone(const std::vector<Obs>& in, const std::string& text) {
    std::vector<Obs> out = in;
    for (auto& o : out) {
        if (!(o.tags >> T_TIME & 1)) continue;
        size_t p = o.index + o.len, q = p;
        while (q < text.size() && isspace((unsigned char) text[q])) ++q;
        if (q < text.size() && text[q] == '(') ++q;
        size_t e = q;
        while (e < text.size() && isalpha((unsigned char) text[e])) ++e;
        std::string w = text.substr(q, e - q);
        if (e < text.size() && text[e] == ')') ++e;
        else {                              // at the end of the text (but for blanks), or before punctuation
            size_t x = e; while (x < text.size() && isspace((unsigned char) text[x])) ++x;
            if (x < text.size() && (x > e || isalnum((unsigned char) text[x]) || text[x] == '_')) continue;
        }
        for (auto& z : ZONES) if (z.first == upper(w)) {
            if (!o.s.c[TZ]) known(o.s, TZ, z.second);
            if (o.end && !o.e.c[TZ]) known(o.e, TZ, z.second);
            o.len = (long) e - o.index;
            o.tags |= 1u << T_ZONE;
            break;
        }
    }
    return out;
}
static std::optional<std::string> renderOne(const Comp& c, bool zone) {
    Moment m = written(c);
    if (zone) m = plusSec(m, -60 * c.v[TZ]);
    if (!m.ok()) return {};
    static const char* const N[] = {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"};
    DT t = dtOf(m);
    return fmt("%04d-%s-%02d %02d:%02d:%02d", t.y, N[t.m - 1], t.d, t.H, t.M, t.S);
}
std::optional<std::string> modelRender(const Obs& o) {
    bool zone = o.tags >> T_ZONE & 1;
    auto a = renderOne(o.s, zone);
    if (!a || !o.end) return a;
    auto b = renderOne(o.e, zone);
    if (!b) return b;
    return *a + " - " + *b;
}
const std::string INVALID_LINE = "[???] -- Invalid date\n";
std::string modelLine(const std::vector<Obs>& v) {
    if (v.empty()) return INVALID_LINE;
    auto r = modelRender(v[0]);
    return r ? "Date:\t" + *r + "\n" : INVALID_LINE;
}
Obs obsOf(const Meaning& m, long index, long len, int tag) {
    Obs o; o.index = index; o.len = len; o.s = m.s; o.end = m.end; o.e = m.e;
    if (tag >= 0) o.tags = 1u << tag;
    return o;
}

// ---------- reference moments ----------
std::vector<DT> refsSmall() {
    return {{2018, 2, 13, 18, 16, 5}, {2020, 2, 29, 0, 0, 0}, {2019, 2, 28, 23, 59, 59}, {2019, 12, 31, 12, 30, 0}, {2020, 1, 1, 6, 0, 1},
            {2000, 3, 1, 0, 59, 59}, {1900, 2, 28, 7, 5, 9}, {2023, 10, 31, 1, 0, 0}, {2024, 6, 30, 22, 10, 40}, {1999, 12, 26, 11, 59, 0},
            {1400, 1, 1, 0, 0, 0}, {9999, 12, 31, 23, 59, 59}};
}
std::vector<DT> refsEdges() {
    std::vector<DT> r;
    static const int days[][3] = {{1400, 1, 1}, {1400, 1, 2}, {1400, 12, 31}, {1401, 1, 1}, {1899, 12, 31}, {1900, 2, 28}, {1900, 3, 1},
        {1969, 12, 31}, {1970, 1, 1}, {1999, 12, 31}, {2000, 1, 1}, {2000, 2, 28}, {2000, 2, 29}, {2000, 3, 1}, {2018, 2, 13}, {2019, 1, 31},
        {2019, 2, 28}, {2019, 3, 31}, {2019, 4, 30}, {2019, 5, 31}, {2019, 7, 4}, {2019, 8, 30}, {2019, 10, 31}, {2019, 11, 30}, {2019, 12, 31},
        {2020, 2, 28}, {2020, 2, 29}, {2020, 3, 1}, {2020, 6, 7}, {2020, 6, 13}, {2021, 2, 28}, {2024, 2, 29}, {2038, 1, 19}, {2100, 2, 28},
        {2100, 3, 1}, {2400, 2, 29}, {9998, 12, 31}, {9999, 1, 1}, {9999, 12, 30}, {9999, 12, 31}};
    static const int times[][3] = {{0, 0, 0}, {18, 16, 5}, {23, 59, 59}, {0, 59, 59}, {6, 30, 0}};
    int k = 0;
    for (auto& d : days) {
        r.push_back({d[0], d[1], d[2], times[k % 5][0], times[k % 5][1], times[k % 5][2]});
        if (k % 2 == 0) r.push_back({d[0], d[1], d[2], times[(k + 2) % 5][0], times[(k + 2) % 5][1], times[(k + 2) % 5][2]});
        ++k;
    }
    return r;
}
std::vector<DT> refsDays(const std::vector<int>& years, const std::vector<int>& secs) {
    std::vector<DT> r;
    for (int y : years) for (int m = 1; m <= 12; m++) for (int d = 1; d <= monthLen(y, m); d++)
        for (int s : secs) r.push_back({y, m, d, s / 3600, s / 60 % 60, s % 60});
    return r;
}

// ---------- expression forms ----------
static const int FAMTAG[NFAM] = {T_CTIME, T_DEADLINE, T_DOW, T_CDATE, T_MME, T_LATER, T_MONTH, T_AGO, T_TIME, T_ISO, T_HOLIDAY, -1, T_RELATIVE};
Expr makeExpr(int fam, const std::string& text, std::function<Allowed(const DT&)> mean) { return Expr{text, fam, mean, FAMTAG[fam]}; }
std::vector<std::pair<std::string, Amount>> amounts(int fam, bool all) {   // count words with unit
    std::vector<std::pair<std::string, Amount>> r;
    const auto& units = fam == F_DEADLINE ? UNIT_DEADLINE : fam == F_RELATIVE ? UNIT_RELATIVE : UNIT_AGO;
    std::vector<std::pair<std::string, long long>> counts;
    std::vector<std::string> halves;
    if (all) for (auto& n : NUMBER_WORDS) counts.push_back({n.first, n.second});
    else { counts.push_back({"two", 2}); counts.push_back({"eleven", 11}); }
    for (long long n : all ? std::vector<long long>{1, 2, 3, 5, 7, 10, 12, 24, 29, 30, 31, 59, 60, 61, 99, 100, 365, 366} : std::vector<long long>{5, 45})
        counts.push_back({std::to_string(n), n});
    if (fam == F_RELATIVE) { counts.push_back({"few", 3}); counts.push_back({"", 1}); halves = {"half", "half a", "half an"}; }
    else { counts.push_back({"a", 1}); if (all) counts.push_back({"an", 1}); counts.push_back({"a few", 3}); halves = {"half a", "half an", "half"}; }
    if (!all) halves.resize(1);
    for (auto& u : units) {
        if (!all && u.first != "days" && u.first != "hours" && u.first != "minute" && u.first != "weeks" && u.first != "month" && u.first != "years") continue;
        for (auto& c : counts) r.push_back({c.first + (c.first.empty() ? "" : " ") + u.first, Amount{(Unit) u.second, c.second, false}});
        for (auto& h : halves) r.push_back({h + " " + u.first, Amount{(Unit) u.second, 1, true}});
    }
    return r;
}
const char* const AGO_WORDS[3] = {"ago", "before", "earlier"};
const char* const LATER_WORDS[6] = {"later", "after", "from now", "henceforth", "forward", "out"};
std::string isoText(const Iso& i, int digits, const std::string& off) {
    std::string s = digits == 2 ? fmt("%04d-%02d-%02d", i.y, i.m, i.d) : fmt("%04d-%d-%d", i.y, i.m, i.d);
    if (i.time) { s += digits == 2 ? fmt("t%02d:%02d", i.h, i.mi) : fmt("t%d:%d", i.h, i.mi); if (i.hasSec) s += digits == 2 ? fmt(":%02d", i.s) : fmt(":%d", i.s); s += off; }
    return s;
}
std::string clockText(const Clock& c, const std::string& mer, int style) {   // 0 h:mm 1 h.mm 2 h only 3 hh:mm
    std::string s = style == 2 ? fmt("%d", c.h) : fmt(style == 1 ? "%d.%02d" : style == 3 ? "%02d:%02d" : "%d:%02d", c.h, c.mi);
    if (c.s >= 0) s += fmt(":%02d", c.s);
    return s + mer;
}
std::vector<Expr> formsOf(int fam, bool all) {
    std::vector<Expr> r;
    auto add = [&](const std::string& t, std::function<Allowed(const DT&)> f) { r.push_back(makeExpr(fam, t, f)); };
    switch (fam) {
        case F_CTIME:
            for (std::string w : {"morning", "afternoon", "evening", "night", "noon"})
                for (std::string pre : {"", "this ", "this  "}) {
                    if (!all && pre == "this  ") continue;
                    add(pre + w, [w](const DT& t) { return meanCasualTime(w, t); });
                }
            break;
        case F_CDATE:
            for (std::string w : {"now", "today", "tonight", "tomorrow", "tmr", "yesterday", "last night"}) add(w, [w](const DT& t) { return meanCasualDate(w, t); });
            if (all) add("last  night", [](const DT& t) { return meanCasualDate("last night", t); });
            break;
        case F_DOW:
            for (auto& w : WEEKDAYS) {
                if (!all && w.first != "friday" && w.first != "tue" && w.first != "sunday") continue;
                int wd = w.second; const std::string& n = w.first;
                struct M { const char *pre, *post; int mod, timing; };
                static const M ms[] = {{"", "", 0, 0}, {"this ", "", 0, 0}, {"last ", "", -1, 0}, {"next ", "", 1, 0}, {"", " this week", 0, 0}, {"", " last week", -1, 0},
                    {"", " next week", 1, 0}, {"", " this", 0, 0}, {"", " last", -1, 0}, {"", " next", 1, 0}, {"early last ", "", -1, 1}, {"early next ", "", 1, 1},
                    {"earlier last ", "", -1, 1}, {"earlier next ", "", 1, 1}, {"late last ", "", -1, 2}, {"late next ", "", 1, 2}, {"early this ", "", 0, 1}, {"late this ", "", 0, 2}, {"earlier this ", "", 0, 1}, {"", " this  week", 0, 0}, {"", "  last week", -1, 0}, {"next  ", "", 1, 0}};
                int k = 0;
                for (auto& m : ms) {
                    if (!all && k++ > 5 && std::string(m.pre) != "late next ") continue;
                    int mod = m.mod, ti = m.timing;
                    add(m.pre + n + m.post, [wd, mod, ti](const DT& t) { return meanWeekday(wd, mod, ti, t); });
                }
            }
            break;
        case F_DEADLINE:
            for (auto& a : amounts(fam, all)) for (std::string pre : {"in ", "within "}) {
                if (!all && pre == "within " && a.second.n != 5) continue;
                Amount m = a.second; add(pre + a.first, [m](const DT& t) { return meanDeadline(m, t); });
            }
            break;
        case F_AGO: case F_LATER: {
            int sign = fam == F_AGO ? -1 : 1;
            int nw = fam == F_AGO ? 3 : 6;
            for (auto& a : amounts(fam, all)) for (int w = 0; w < nw; w++) {
                if (!all && w && a.second.n != 5) continue;
                if (a.second.n == 0) continue;
                Amount m = a.second;
                add(a.first + " " + (fam == F_AGO ? AGO_WORDS[w] : LATER_WORDS[w]), [m, sign](const DT& t) { return meanAgoLater({m}, sign, t); });
            }
            // two amounts
            std::vector<std::pair<std::string, Amount>> two{{"1 day", {U_DAY, 1, false}}, {"3 hours", {U_HOUR, 3, false}}, {"40 minutes", {U_MIN, 40, false}},
                {"2 weeks", {U_WEEK, 2, false}}, {"a month", {U_MONTH, 1, false}}, {"one year", {U_YEAR, 1, false}}, {"50 sec", {U_SEC, 50, false}}};
            for (auto& a : two) for (auto& b : two) {
                if (a.second.u <= b.second.u) continue;
                if (!all && !(a.second.u == U_DAY && b.second.u == U_HOUR)) continue;
                Amount x = a.second, y = b.second;
                add(a.first + " " + b.first + " " + (fam == F_AGO ? "ago" : "later"), [x, y, sign](const DT& t) { return meanAgoLater({x, y}, sign, t); });
            }
            break;
        }
        case F_RELATIVE: {
            for (auto& a : amounts(fam, all)) for (std::string pre : {"next ", "last ", "past "}) {
                Amount m = a.second; int sign = pre == "next " ? 1 : -1;
                add(pre + a.first, [m, sign](const DT& t) { return meanRelative(m, sign, t); });
            }
            for (auto u : {std::pair<std::string, Unit>{"week", U_WEEK}, {"month", U_MONTH}, {"year", U_YEAR}}) {
                Unit x = u.second; add("this " + u.first, [x](const DT& t) { return meanThis(x, t); });
            }
            break;
        }
        case F_WEEK:
            for (int sign : {-1, 1}) {
                std::string pre = sign < 0 ? "last " : "next ";
                add(pre + "week", [sign](const DT& t) { return meanWeek(sign, t); });
                std::vector<std::pair<std::string, long long>> c;
                for (auto& w : NUMBER_WORDS) if (all || w.second == 4) c.push_back({w.first, w.second});
                for (long long n : all ? std::vector<long long>{1, 2, 3, 10, 52, 53, 100, 1000} : std::vector<long long>{3}) c.push_back({std::to_string(n), n});
                for (auto& x : c) { long long n = sign * x.second; for (std::string u : {" weeks", " week"}) { if (!all && u == " week") continue; add(pre + x.first + u, [n](const DT& t) { return meanWeek(n, t); }); } }
            }
            add("this week", [](const DT& t) { return meanWeek(0, t); });
            break;
        case F_ISO: {
            struct O { const char* t; int off; bool has; };
            std::vector<O> offs{{"", 0, true}, {"z", 0, true}, {"+00:00", 0, true}, {"-05:00", -300, true}, {"+05:30", 330, true}, {"-0330", -210, true}, {"+0845", 525, true}, {"-00:30", -30, true}, {"+14", 840, true}, {"-11:59", -719, true}};
            for (int digits : {2, 1}) for (Iso i : {Iso{2018, 2, 3, false}, Iso{2020, 2, 29, false}, Iso{1999, 12, 31, false}}) {
                add(isoText(i, digits, ""), [i](const DT&) { return meanIso(i); });
                for (auto& o : offs) for (int sec = -1; sec < 60; sec += 31) {
                    if (!all && (digits == 1 || (sec >= 0 && o.off != -300))) continue;
                    Iso k = i; k.time = true; k.h = 9; k.mi = 5; k.hasSec = sec >= 0; k.s = sec; k.hasOff = true; k.off = o.off;
                    add(isoText(k, digits, o.t), [k](const DT&) { return meanIso(k); });
                    if (all && sec >= 0) add(isoText(k, digits, std::string(".123") + o.t), [k](const DT&) { return meanIso(k); });
                }
            }
            break;
        }
        case F_MONTH:
            for (auto& m : MONTHS) {
                if (!all && m.first != "february" && m.first != "sept" && m.first != "may" && m.first != "dec.") continue;
                int mo = m.second;
                add(m.first, [mo](const DT& t) { return meanMonth(mo, -1, t); });
                struct Yr { const char* t; int y; };
                std::vector<Yr> ys{{" 2012", 2012}, {", 2019", 2019}, {" 1999", 1999}, {" 2555 be", 2012}, {" 2012 ad", 2012}, {"-2020", 2020}, {" 0018", 2018}};
                if (!all) ys.resize(1);
                for (auto& y : ys) { int yy = y.y; add(m.first + y.t, [mo, yy](const DT& t) { return meanMonth(mo, yy, t); }); }
            }
            break;
        case F_MME: {
            struct Yr { const char* t; int y; };
            std::vector<Yr> ys{{"", -1}, {" 2012", 2012}, {", 2019", 2019}, {" 2555 be", 2012}, {" 2012 ad", 2012}, {"/2020", 2020}};
            if (!all) ys.resize(2);
            for (auto& m : MONTHS) {
                if (!all && m.first != "july" && m.first != "feb" && m.first != "sept.") continue;
                int mo = m.second;
                std::vector<std::pair<std::string, int>> ds{{"5", 5}, {"12th", 12}, {"31", 31}, {"3rd", 3}, {"01", 1}, {"first", 1}, {"second", 2}, {"twenty ninth", 29}, {"twenty-second", 22}};
                if (!all) ds.resize(2);
                for (auto& d : ds) for (auto& y : ys) for (std::string sep : {" ", "-", "/", ", "}) {
                    if (!all && sep != " ") continue;
                    if (all && sep != " " && (y.y != -1 && y.y != 2012)) continue;
                    int dd = d.second, yy = y.y;
                    add(m.first + sep + d.first + y.t, [mo, dd, yy](const DT& t) { return meanMonthDay(mo, dd, yy, -1, -1, t); });
                }
                add("friday " + m.first + " 24", [mo](const DT& t) { return meanMonthDay(mo, 24, -1, 5, -1, t); });
                add(m.first + " 24 - 27", [mo](const DT& t) { return meanMonthDay(mo, 24, -1, -1, 27, t); });
                add(m.first + " first to third", [mo](const DT& t) { return meanMonthDay(mo, 1, -1, -1, 3, t); });
                add(m.first + " 24 to 27, 2012", [mo](const DT& t) { return meanMonthDay(mo, 24, 2012, -1, 27, t); });
            }
            break;
        }
        case F_TIME: {
            struct C { const char* t; Clock c; };
            std::vector<C> cs{{"5:30pm", {5, 30, -1, M_PM}}, {"at 5pm", {5, 0, -1, M_PM}}, {"12am", {12, 0, -1, M_AM}}, {"14:05", {14, 5, -1, M_NONE}}, {"midnight", {0, 0, -1, M_NONE}},
                {"at noon", {12, 0, -1, M_NONE}}, {"8 o'clock", {8, 0, -1, M_OCLOCK}}, {"6:05:09 am", {6, 5, 9, M_AM}}, {"7.45 p.m.", {7, 45, -1, M_PM}}, {"1630", {16, 30, -1, M_NONE}}, {"at 7", {7, 0, -1, M_NONE}}};
            for (auto& x : cs) { Clock k = x.c; add(x.t, [k](const DT& t) { return meanClock(k, t); }); }
            struct Rg { const char* t; Clock a, b; };
            std::vector<Rg> rs{{"5 to 7pm", {5, 0, -1, M_NONE}, {7, 0, -1, M_PM}}, {"9:15am - 11:45", {9, 15, -1, M_AM}, {11, 45, -1, M_NONE}}, {"from 10pm to 2am", {10, 0, -1, M_PM}, {2, 0, -1, M_AM}},
                {"8:00-9:30", {8, 0, -1, M_NONE}, {9, 30, -1, M_NONE}}, {"1:30 pm to 3", {1, 30, -1, M_PM}, {3, 0, -1, M_NONE}}};
            for (auto& x : rs) { Clock a = x.a, b = x.b; add(x.t, [a, b](const DT& t) { return meanClockRange(a, b, t); }); }
            break;
        }
        case F_HOLIDAY:
            for (auto& h : HOLIDAYS) for (std::string post : {"", " day"}) {
                Holiday k = h.second;
                if (!all && post == "" && k != THANKSGIVING && k != CHRISTMAS && k != BLACKFRIDAY) continue;
                if (!all && post == " day" && k != LABOR && k != MLK && k != MEMORIAL && k != NEWYEAR) continue;
                add(h.first + post, [k](const DT& t) { return meanHoliday(k, t); });
            }
            break;
    }
    return r;
}
const std::vector<Expr>& sampleExprs() {
    static const std::vector<Expr> v = [] {
        std::vector<Expr> r;
        for (int f = 0; f < NFAM; f++) if (f != F_RELATIVE) for (auto& e : formsOf(f, false)) r.push_back(e.text == "noon" ? makeExpr(F_TIME, "noon", [](const DT& t) { return meanClock({12, 0, -1, M_NONE}, t); }) : e);
        return r;
    }();
    return v;
}
}
