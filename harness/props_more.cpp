// C01 (no crash, no hang, one answer), C02 (no history), C04 (several expressions of one family).
#include "model.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
namespace mcx {

// ---------- C01 ----------
static bool wellFormedMoment(const std::string& s) {
    static const char* const N[] = {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"};
    int y, d, h, m, sec, n = 0; char mon[4] = {0};
    if (s.size() != 20 || sscanf(s.c_str(), "%4d-%3[A-Za-z]-%2d %2d:%2d:%2d%n", &y, mon, &d, &h, &m, &sec, &n) != 6 || n != 20) return false;
    for (int i = 0; i < 12; i++) if (!strcmp(N[i], mon)) return dateExists(y, i + 1, d) && h < 24 && m < 60 && sec < 60 && h >= 0 && m >= 0 && sec >= 0 && refArg({y, i + 1, d, h, m, sec}).substr(11) == s.substr(12);
    return false;
}
static std::string answer(Ctx& c, const std::string& text, const DT& ref) {
    CliOut o = runCli({text, refArg(ref)});
    c.ops(1); c.outcome(hashStr(o.out));
    if (!o.error.empty()) return o.error;
    if (o.status) return fmt("exit status %d", o.status);
    if (o.out == INVALID_LINE) return "";
    if (o.out.compare(0, 6, "Date:\t") || o.out.back() != '\n') return "prints " + showText(o.out);
    std::string b = o.out.substr(6, o.out.size() - 7);
    if (wellFormedMoment(b)) return "";
    if (b.size() == 43 && b.substr(20, 3) == " - " && wellFormedMoment(b.substr(0, 20)) && wellFormedMoment(b.substr(23))) return "";
    return "prints " + showText(o.out);
}
static void any(Ctx& c, const std::string& text, const DT& ref) { c.test([&] { return "program on " + showText(text) + " reference " + show(ref); }, [&] { return answer(c, text, ref); }); }
static const std::vector<std::string> TOKENS{"5", "31", "99999999999999999999", "february", "sept.", "friday", "last", "next", "this", "weeks", "days", "months", "years", "hour", "ago", "later", "in", "at", "to", "-", "pm", "30", "2400", "2147483648",
    "0", "12", "24", "29", "60", "99", "1130", "9999", "1399", "early", "late", "week", "seconds", "half a", "a few", "one", "thirty-first", "from now", "within", "from", "and", "through", ":", "/", ",", ".", "am", "o'clock", "est", "(pst)", "z", "noon", "midnight", "now", "tonight", "tomorrow",
    "last night", "morning", "thanksgiving", "labor", "day", "be", "bc", "2018-02-13", "2018-02-30", "9999-12-31", "t10:00", "+05:30", "-0500", "~", "\xe2\x80\x93", "\n", "\x80\xff", "(", "'", "foo", "5:60", "23:59:59", "dec 31", "feb 29", "new year's eve", "4294967297", "past", "few"};
static const std::vector<DT> LIMITS{{2018, 2, 13, 18, 16, 5}, {9999, 12, 31, 23, 59, 59}, {1400, 1, 1, 0, 0, 0}, {2020, 2, 29, 0, 30, 0}, {2019, 12, 31, 23, 59, 59}, {9999, 12, 25, 0, 0, 0}, {1400, 1, 31, 12, 0, 0}};
static void explore01(Ctx& c, bool sanitized) {
    const size_t n = TOKENS.size(); const bool deep = c.thorough;
    c.info("tokens", n);
    for (auto& r : LIMITS) { any(c, "", r); for (auto& t : TOKENS) any(c, t, r); }
    size_t k2 = sanitized && !deep ? 40 : n, k3 = sanitized ? (deep ? 40 : 8) : (deep ? n : 24), k4 = sanitized ? (deep ? 12 : 0) : (deep ? 24 : 8);
    auto text = [](std::initializer_list<size_t> l, const char* sep) { std::string s; for (size_t i : l) { if (!s.empty()) s += sep; s += TOKENS[i]; } return s; };
    for (size_t a = 0; a < k2; a++) for (size_t b = 0; b < k2; b++) {
        any(c, text({a, b}, " "), LIMITS[(a + b) % 3]);
        if (!sanitized || deep) { any(c, text({a, b}, ""), LIMITS[(a + b + 1) % 3]); if (deep) for (auto& r : LIMITS) any(c, text({a, b}, " "), r); }
    }
    for (size_t a = 0; a < k3; a++) for (size_t b = 0; b < k3; b++) for (size_t d = 0; d < k3; d++) any(c, text({a, b, d}, (a + b + d) % 5 == 4 ? "" : " "), LIMITS[(a + b + d) % LIMITS.size()]);
    for (size_t a = 0; a < k4; a++) for (size_t b = 0; b < k4; b++) for (size_t d = 0; d < k4; d++) for (size_t e = 0; e < k4; e++) any(c, text({a, b, d, e}, " "), LIMITS[(a + b + d + e) % LIMITS.size()]);
    // bytes
    for (int b = 1; b < 256; b++) any(c, std::string(1, (char) b), LIMITS[0]);
    static const unsigned char special[] = {1, 9, 10, 13, 27, 32, '"', '\'', '(', ')', '*', '+', ',', '-', '.', '/', '0', '9', ':', ';', '?', '@', 'T', 'Z', '[', '\\', ']', '^', '_', 'a', '{', '|', '~', 127, 128, 0xc2, 0xe2, 0x93, 0xf0, 255};
    for (unsigned char a : special) for (unsigned char b : special) { if (sanitized && !deep && (a * 7 + b) % 4) continue; std::string s{(char) a, (char) b}; any(c, s, LIMITS[1]); if (!sanitized || deep) { any(c, "5" + s + "pm", LIMITS[0]); any(c, "feb" + s + "29" , LIMITS[2]); } }
    // every single edit of expressions
    static const char* const bases[] = {"5:30pm", "feb 29, 2019", "in 5 days", "next friday", "2018-02-13t10:00:00-05:00", "5 days ago", "july 24 - 27", "9 to 11:30 am est", "last 3 weeks", "tomorrow at 5"};
    static const unsigned char ed[] = {' ', '9', '0', ':', '-', 'a', 't', ',', '.', '(', '\n', 0xe2};
    for (size_t b = 0; b < sizeof bases / sizeof *bases; b++) {
        if (sanitized && !deep && b % 3) continue;
        std::string s = bases[b];
        for (size_t p = 0; p <= s.size(); p++) {
            for (unsigned char ch : ed) { std::string t = s; t.insert(p, 1, (char) ch); any(c, t, LIMITS[p % 3]); if (p < s.size()) { t = s; t[p] = (char) ch; any(c, t, LIMITS[p % 3]); } }
            if (p < s.size()) { std::string t = s; t.erase(p, 1); any(c, t, LIMITS[0]); any(c, s.substr(0, p), LIMITS[0]); any(c, s.substr(p), LIMITS[1]); }
        }
    }
    // long texts
    for (size_t len : sanitized ? std::vector<size_t>{2000} : std::vector<size_t>{200, 1000, 1999, 2000}) for (auto& t : TOKENS) for (std::string sep : {"", " "}) {
        if (sanitized && !deep && (t.size() + t[0] + sep.size()) % 4) continue;
        if (!sanitized && !deep && len > 200 && len != (sep == "" ? 1999 : 2000)) continue;
        std::string s; while (s.size() + t.size() + sep.size() <= len) { s += t; s += sep; } any(c, s, LIMITS[s.size() % 3]);
    }
    for (std::string pre : {"5", "in 5", "friday", "feb 29", "at 5pm", "last", "2018-02-13"}) for (std::string post : {"days ago", "days", "last week", "2019", "est", "friday", "t10:00"}) for (size_t len : {100, 1980}) any(c, pre + std::string(len - pre.size() - post.size(), ' ') + post, LIMITS[0]);
    // numbers at every limit in every numeric place
    for (std::string s : {"0", "1", "12", "13", "24", "25", "31", "32", "59", "60", "61", "99", "366", "999", "1400", "2359", "7980", "8600", "9999", "10000", "32768", "65536", "95759", "415000", "3140000", "99999999", "2147483647", "2147483648", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "18446744073709551616", "1e5", "007", "-5", "5.5"}) {
        for (auto& r : LIMITS) {
            if (sanitized && !deep && &r - &LIMITS[0] != (long) s.size() % 3) continue;
            for (std::string u : {"seconds", "minutes", "hours", "days", "weeks", "months", "years"}) { any(c, "in " + s + " " + u, r); any(c, s + " " + u + " ago", r); any(c, s + " " + u + " from now", r); }
            for (std::string f : {"next %s weeks", "last %s weeks", "feb %s", "feb 29, %s", "april 5 - %s", "december %s", "feb 28 %s be", "feb 3 %s bc", "march %s ad", "%s:30", "5:%s", "5:05:%s", "%s pm", "%s", "5 to %s", "%s to 5pm", "5:00 - %s:30", "%s-12-31", "2019-%s-31", "2019-12-%s", "2019-12-31t%s:00", "2019-12-31t10:%s", "2019-12-31t10:00:%s", "2019-12-31t10:00+%s", "9999-12-31t23:59-%s", "0:15 utc+%s"}) {
                size_t p = f.find("%s"); any(c, f.substr(0, p) + s + f.substr(p + 2), r);
            }
        }
    }
    // every form of every family at the ends of the calendar
    for (int f = 0; f < NFAM; f++) { size_t k = 0; for (auto& e : formsOf(f, true)) { ++k; if (sanitized && !deep && k % 25) continue; if (!deep && !sanitized && k % 3) continue; for (size_t i = 1; i < (deep ? LIMITS.size() : 3); i++) any(c, e.text, LIMITS[i]); } }
    for (auto& z : ZONES) for (auto& r : LIMITS) { if (sanitized && !deep && z.first[0] % 4) continue; any(c, "12:01am " + z.first, r); any(c, "11:59pm (" + z.first + ")", r); any(c, "today 0:10 to 23:50 " + z.first, r); }
}
PROPERTY(C01, "program on: all texts of 0-2 tokens out of 88 with and without blank, of 3 out of 24 (thorough: 88), of 4 out of 8 (24); all 1-byte texts, byte pairs of 40 special bytes alone and inside expressions; every single-byte insertion, replacement, deletion, prefix and suffix of 10 expressions; repeated-token texts up to 2000 bytes; 37 limit numbers in 47 numeric places; all forms of all families; 7 reference moments at the calendar ends. A second pass over a smaller space with address, undefined-behaviour and container checks",
         "exit status 0, exactly one well-formed existing date (or range) line or the invalid-date notice, no exception, no crash, no hang") { explore01(c, false); }
PROPERTY(C01S, "the C01 space with 40 tokens in pairs, 8 (thorough: 40) in triples, and fewer contexts, under AddressSanitizer, arithmetic and bounds checks of UBSan and library assertions", "as C01; any sanitizer report ends the process") { explore01(c, true); }

// ---------- C02 ----------
struct Op02 { int kind; int fam; std::string text; DT ref; bool fresh; };       // kind 0 parser, 1 refiner, 2 program
static std::string lower(std::string s) { for (auto& ch : s) ch = (char) tolower((unsigned char) ch); return s; }
static std::vector<Obs> fixedList(int which) {
    std::vector<Obs> v; Obs a, b; a.index = 0; a.len = 4; b.index = 8; b.len = 5;
    putDate(a.s, {2019, 3, 4}, true); known(b.s, H, 9); known(b.s, MI, 1); putDate(b.s, {2018, 2, 1}, which >= R_RANGE); b.tags = 1u << T_TIME; a.tags = 1u << T_MME;
    if (which == R_OVERLAP) b.index = 2;
    v = {a, b}; return v;
}
static std::string exec02(const Op02& o) {
    if (o.kind == 1) { Refined r = runRefiner(o.fam, fixedList(o.fam), o.text); return r.error + show(r.r); }
    if (o.kind == 2) { CliOut r = runCli({o.text, refArg(o.ref)}); return r.error + fmt("%d ", r.status) + r.out; }
    Parsed p = runParser(o.fam, o.text, o.ref, o.fresh);
    std::string s = p.error + show(p.r);
    bool textOk = p.text.size() == o.text.size();
    for (size_t i = 0; textOk && i < p.text.size(); i++) textOk = p.text[i] == o.text[i] || p.text[i] == lower(o.text)[i];
    if (!textOk) s += " TEXT CHANGED to " + showText(p.text);
    if (show(p.ref) != show(o.ref)) s += " REFERENCE CHANGED to " + show(p.ref);
    return s;
}
static std::string show(const Op02& o) {
    if (o.kind == 1) return fmt("refiner %d on ", o.fam) + showText(o.text);
    if (o.kind == 2) return "program on " + showText(o.text) + " at " + show(o.ref);
    return fmt("%s parser %s on ", o.fresh ? "new" : "reused", FAM_NAME[o.fam]) + showText(o.text) + " at " + show(o.ref);
}
static const size_t OUTLEN = 3000;
struct Out02 { volatile int state; char text[OUTLEN]; };
static void put(Out02& o, const std::string& s) { snprintf(o.text, OUTLEN, "%s", s.c_str()); o.state = 1; }
static void inChild(std::function<void()> f) {
    pid_t p = fork();
    if (p == 0) { f(); _exit(0); }
    int st; while (waitpid(p, &st, 0) < 0) {}
}
static std::vector<Op02> ops02() {
    std::vector<Op02> v;
    const DT r1{2018, 2, 13, 18, 16, 5}, r2{2020, 2, 29, 0, 30, 0};
    static const char* const texts[NFAM][4] = {{"This Morning", "noon foo evening", "night", "nothing here"}, {"in 5 days", "within half an hour", "in 99999999999999999999 days", "in a few Minutes foo in two years"}, {"Next Friday", "tue last week", "early next sat", "sunday foo this mon"},
        {"Tomorrow", "last night", "now", "yesterday, today"}, {"July 24 - 27", "friday feb 29, 2019", "sept. twenty-second 2012 BC", "Dec 31 foo mar 3rd"}, {"2 weeks later", "1 day 3 hours from now", "a few minutes out", "half a year after"}, {"September 2012", "may", "jan. 2555 be", "February, 0018"},
        {"5 days ago", "one month 40 sec ago", "half an hour earlier", "4294967297 years ago"}, {"at 5:30 PM", "10pm to 2am", "25:00", "noon foo 6:07:08 foo 1630"}, {"2018-02-03T09:05:30-05:00", "2018-02-30", "2020-2-29t9:5z", "1999-12-31 foo 2000-01-01"}, {"Thanksgiving", "new year's eve", "labor day", "mlk day foo christmas"},
        {"last 3 weeks", "this week", "next weeks", "next busy weeks"}, {"next 3 months", "this month", "last half year", "past few hours"}};
    for (int f = 0; f < NFAM; f++) for (int t = 0; t < 4; t++) { v.push_back({0, f, texts[f][t], r1, false}); if (t != 3) v.push_back({0, f, texts[f][t], r2, t == 0}); if (t == 0) v.push_back({0, f, texts[f][t], r1, true}); if (t == 1) v.push_back({0, f, texts[f][t], DT{9999, 12, 31, 23, 59, 59}, false}); }
    for (int r = 0; r < NREF; r++) { v.push_back({1, r, "abcd to efghi EST", r1, true}); v.push_back({1, r, "abcd foo efghi", r1, true}); }
    for (std::string t : {"Tomorrow at 5pm", "5pm PST", "july 5 to july 9", "next friday 10pm to 2am", "5 days ago", "nothing", "feb 30", "2018-02-03T09:05-05:00"}) { v.push_back({2, 0, t, r1, true}); v.push_back({2, 0, t, r2, true}); }
    return v;
}
PROPERTY(C02, "all ordered pairs of 160 operations (13 parsers, new and reused objects, 4 texts and up to 3 reference moments each; 4 refiners; the program), all ordered triples of 50 (thorough: all) of them, each result against the same operation in a process of its own; per operation 1100 (thorough: 20000) repetitions (the program and the month-day parser 260, thorough: 1100), and one long history alternating it with every other operation; every form of every family at three reference moments in six orders of the references",
         "the operation alone in a fresh process; text unchanged but for case, reference moment unchanged") {
    auto ops = ops02();
    c.info("operations", ops.size());
    const size_t n = ops.size();
    static Out02 *base = nullptr, *got = nullptr;
    base = (Out02*) mmap(nullptr, n * sizeof(Out02), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    got = (Out02*) mmap(nullptr, n * sizeof(Out02), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    bool ready = false;
    auto need = [&] { if (!ready) for (size_t i = 0; i < n; i++) inChild([&] { put(base[i], exec02(ops[i])); }); ready = true; };   // this process itself never runs the code under test
    auto judge = [&](size_t i, const Out02& o) -> std::string {
        if (!base[i].state) return "ends the process: " + show(ops[i]);
        if (strstr(base[i].text, " TEXT CHANGED to ") || strstr(base[i].text, " REFERENCE CHANGED to ")) return show(ops[i]) + ": " + base[i].text;
        if (!o.state) return "then " + show(ops[i]) + " ends the process";
        if (strcmp(o.text, base[i].text)) return "then " + show(ops[i]) + " answers " + showText(o.text) + ", alone it answers " + showText(base[i].text);
        return "";
    };
    auto fan = [&](const std::vector<size_t>& history, const std::vector<size_t>& last) -> std::string {
        need();
        for (size_t i : last) got[i].state = 0;
        inChild([&] { for (size_t h : history) exec02(ops[h]); for (size_t i : last) inChild([&] { put(got[i], exec02(ops[i])); }); });
        c.ops(history.size() + last.size());
        for (size_t i : last) { std::string bad = judge(i, got[i]); if (!bad.empty()) return bad; c.outcome(hashStr(got[i].text)); }
        return "";
    };
    std::vector<size_t> everything; for (size_t i = 0; i < n; i++) everything.push_back(i);
    for (size_t a = 0; a < n; a++) c.test([&] { return "first " + show(ops[a]) + "; then each other operation"; }, [&] { return fan({a}, everything); });
    std::vector<size_t> some; for (size_t i = 0; i < n; i += c.thorough ? 1 : 3) some.push_back(i);
    for (size_t a : some) for (size_t b : some) c.test([&] { return "first " + show(ops[a]) + "; " + show(ops[b]) + "; then each of the chosen operations"; }, [&] { return fan({a, b}, some); });
    // every form of every family at three references in six orders: all answers agree whatever came before
    const std::vector<DT> rs{{2018, 2, 13, 18, 16, 5}, {2020, 2, 29, 0, 30, 0}, {2015, 12, 31, 23, 59, 59}};
    static const int ORDERS[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
    for (int f = 0; f < NFAM; f++) {
        std::vector<std::string> forms; { auto all = formsOf(f, true); size_t step = c.thorough ? 1 : f == F_MME ? 13 : f == F_MONTH ? 3 : 1; for (size_t i = 0; i < all.size(); i += step) forms.push_back(all[i].text); }
        const size_t CH = 60;
        for (size_t at = 0; at < forms.size(); at += CH) c.test([&] { return fmt("parser %s: forms %zu.. (", FAM_NAME[f], at) + forms[at] + " ...) at three references in every order of the references"; }, [&]() -> std::string {
            size_t m = std::min(CH, forms.size() - at);
            static u64* h = nullptr; if (!h) h = (u64*) mmap(nullptr, 6 * 3 * CH * sizeof(u64), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
            for (size_t i = 0; i < 18 * CH; i++) h[i] = 0;
            for (int o = 0; o < 6; o++) inChild([&] { for (int k = 0; k < 3; k++) for (size_t i = 0; i < m; i++) { size_t j = o % 2 ? m - 1 - i : i; h[(o * 3 + ORDERS[o][k]) * CH + j] = hashStr(exec02({0, f, forms[at + j], rs[ORDERS[o][k]], o >= 3})) | 1; } });
            c.ops(18 * m);
            for (int k = 0; k < 3; k++) for (size_t j = 0; j < m; j++) for (int o = 0; o < 6; o++) { u64 v = h[(o * 3 + k) * CH + j];
                if (!v) return "a history ends the process at " + showText(forms[at + j]);
                if (v != h[k * CH + j]) return showText(forms[at + j]) + " at " + show(rs[k]) + fmt(" is answered differently in history %d than in history 0", o);
                if (!o) c.outcome(v); }
            return "";
        });
    }
    auto times = [&](size_t a) { const Op02& o = ops[a]; bool slow = o.kind == 2 || (o.kind == 0 && o.fam == F_MME); return slow ? (c.thorough ? 1100 : 260) : c.thorough ? 20000 : 1100; };
    for (size_t a = 0; a < n; a++) c.test([&] { return fmt("%d times ", times(a)) + show(ops[a]); }, [&]() -> std::string {
        need(); c.ops(times(a));
        Out02& o = got[0]; o.state = 0;
        inChild([&] { for (int i = 0; i < times(a); i++) { if (i % 50 == 0) c.alive(); put(o, exec02(ops[a])); if (strcmp(o.text, base[a].text)) break; } });
        return judge(a, o);
    });
    for (size_t a = 0; a < n; a++) c.test([&] { return "one history alternating " + show(ops[a]) + " with every other operation"; }, [&]() -> std::string {
        need(); c.ops(2 * n);
        Out02& o = got[0]; o.state = 0; static volatile size_t* at = nullptr;
        if (!at) at = (volatile size_t*) mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        inChild([&] { for (size_t b = 0; b < n; b++) for (size_t i : {a, (a + b) % n}) { *at = i; o.state = 0; put(o, exec02(ops[i])); if (strcmp(o.text, base[i].text)) return; } });
        return judge(*at, o);
    });
}

// ---------- C04 ----------
// texts of a family that look like its expressions but denote nothing
static const std::vector<std::string>& impossible(int fam) {
    static const std::vector<std::string> v[NFAM] = {{"this", "nights"}, {"in 9999 years", "in 99999999999 weeks", "within 3000000000 days"}, {"next fridays", "sundry"}, {"nowhere", "todays"}, {"feb 30", "june 31st", "february twenty-ninth, 2019"}, {"9000 years later", "99999999999 days from now"}, {"may 0018 bc", "march 1200 ad"},
        {"9000 years ago", "99999999999 hours ago"}, {"at 25:00", "at 77", "at 9:75", "at 13:30 pm"}, {"2012-13-40", "2019-02-29", "2012-01-01t25:00", "2012-02-30t10:00:00"}, {"christmassy", "black sunday"}, {"next busy weeks", "last 99999999999 weeks", "next 999999 weeks"}, {"this 3 weeks", "next 9999 years", "last 99999999999 days"}};
    return v[fam];
}
static std::string filler(size_t n) { std::string s; for (size_t i = 0; s.size() < n; i++) s += i % 3 == 0 ? "we see the blue river " : i % 3 == 1 ? "foo, " : "hello; please "; s.resize(n); if (n && s[0] == ' ') s[0] = 'x'; if (n) s.back() = ' '; return s; }
static void inText(Ctx& c, int fam, const std::vector<const Expr*>& es, const std::string& pre, const std::string& sep, const std::string& post, const DT& ref) {
    c.test([&] { std::string t = pre; for (size_t i = 0; i < es.size(); i++) t += (i ? sep : "") + es[i]->text; return fmt("parser %s on ", FAM_NAME[fam]) + showText(t + post) + " reference " + show(ref); }, [&]() -> std::string {
        std::string t = pre; std::vector<size_t> at;
        for (size_t i = 0; i < es.size(); i++) { if (i) t += sep; at.push_back(t.size()); t += es[i]->text; }
        t += post;
        std::vector<Allowed> want; std::vector<size_t> pos, len;
        for (size_t i = 0; i < es.size(); i++) { Allowed a = es[i]->mean(ref); if (!a[0].present) return ""; want.push_back(a); pos.push_back(at[i]); len.push_back(es[i]->text.size()); }
        Parsed p = runParser(fam, t, ref); c.ops(1); c.outcome(hashObs(p.r));
        if (!p.error.empty()) return p.error;
        if (p.r.size() != want.size()) return fmt("reports %zu results instead of %zu: ", p.r.size(), want.size()) + show(p.r);
        long end = 0;
        for (size_t i = 0; i < want.size(); i++) {
            const Obs& o = p.r[i]; bool ok = false;
            for (auto& m : want[i]) ok = ok || (o.s == m.s && o.end == m.end && (!o.end || o.e == m.e));
            if (!ok) return fmt("result %zu is ", i) + show(o) + ", the expression alone means " + show(want[i][0]);
            if (o.index < end) return fmt("result %zu overlaps the one before: ", i) + show(p.r);
            end = o.index + o.len;
            if (o.index > (long) pos[i] || end < (long) (pos[i] + len[i]) || end > (long) t.size()) return fmt("result %zu spans %ld..%ld, its expression %zu..%zu", i, o.index, end, pos[i], pos[i] + len[i]);
            for (long k = o.index; k < end; k++) if ((k < (long) pos[i] || k >= (long) (pos[i] + len[i])) && !isspace((unsigned char) t[k]) && !(fam == F_MONTH && t[k] == '.' && k == (long) (pos[i] + len[i])) /* an abbreviation's dot */) return fmt("result %zu spans %ld..%ld, more than its expression %zu..%zu and blanks", i, o.index, end, pos[i], pos[i] + len[i]);
        }
        return "";
    });
}
PROPERTY(C04, "13 parsers: all sequences of 1..3 expressions (thorough: 4) out of up to 10 per family x 8 separators x 4 surroundings; sequences of 5..12 and of 13..100 expressions (texts up to 2000 bytes); every sample form alone at 12 offsets; expressions at and gaps of 21 lengths up to 1900 bytes; 2-4 impossible look-alike expressions per family before, between and after every pair",
         "one result per expression, in order, disjoint, meaning as alone, span = expression plus adjacent blanks") {
    const std::vector<DT> refs{{2018, 2, 13, 18, 16, 5}, {2020, 2, 29, 0, 30, 0}, {2019, 12, 31, 23, 59, 59}};
    std::string longSep = " foo"; while (longSep.size() < 150) longSep += " we see the blue river"; longSep += "  ";
    const std::vector<std::string> seps{" foo ", ", ", "; ", ". ", "  we go  ", " (see) ", "\nzz\n", longSep};
    const std::vector<std::pair<std::string, std::string>> around{{"", ""}, {"hello ", ""}, {"", " please"}, {"we see  ", "."}};
    for (int f = 0; f < NFAM; f++) {
        auto forms = formsOf(f, false);
        std::vector<Expr> es; size_t want = f == F_MME || f == F_MONTH ? 6 : 9;
        size_t step = std::max<size_t>(1, (forms.size() + want - 1) / want);
        for (size_t i = 0; i < forms.size(); i += step) es.push_back(forms[i]);
        if (es.back().text != forms.back().text) es.push_back(forms.back());
        size_t k = 0;
        for (auto& e : forms) for (int off = 0; off < 12; off++) { std::string pre; while ((int) pre.size() < off) pre += pre.size() % 3 == 2 ? ' ' : 'x'; if (off) pre.back() = ' '; inText(c, f, {&e}, pre, "", off % 2 ? "" : " x", refs[off % 3]); }
        for (auto& a : es) for (size_t w = 0; w < around.size(); w++) inText(c, f, {&a}, around[w].first, "", around[w].second, refs[w % 3]);
        for (auto& a : es) for (auto& b : es) for (size_t s = 0; s < seps.size(); s++) for (size_t w = 0; w < around.size(); w++) { ++k; inText(c, f, {&a, &b}, around[w].first, seps[s], around[w].second, refs[k % 3]); }
        for (auto& a : es) for (auto& b : es) for (auto& d : es) { ++k; for (size_t s = 0; s < seps.size(); s++) { if (!c.thorough && s != k % seps.size() && s) continue; inText(c, f, {&a, &b, &d}, around[k % 4].first, seps[s], around[k % 4].second, refs[k % 3]); } }
        if (c.thorough) for (auto& a : es) for (auto& b : es) for (auto& d : es) for (auto& g : es) { ++k; inText(c, f, {&a, &b, &d, &g}, around[k % 4].first, seps[k % seps.size()], around[k % 4].second, refs[k % 3]); }
        // far into a text of up to 2000 bytes: positions around powers of two
        for (auto& a : es) for (size_t at : {100, 126, 127, 128, 129, 200, 254, 255, 256, 257, 300, 400, 511, 512, 513, 700, 1023, 1024, 1025, 1500, 1900}) {
            ++k; const std::string far = filler(at);
            inText(c, f, {&a}, far, "", k % 2 ? "" : " please", refs[k % 3]);
            if (at <= 1025) inText(c, f, {&a, &es[k % es.size()]}, k % 3 ? "" : "we ", " " + far, "", refs[k % 3]);
            if (at <= 513) inText(c, f, {&a, &es[k % es.size()], &a}, "we ", " " + far, " ok", refs[k % 3]);
        }
        // impossible ones before, between and after them
        for (auto& bad : impossible(f)) for (auto& a : es) for (auto& b : es) for (size_t s = 0; s < 3; s++) { ++k;
            inText(c, f, {&a, &b}, around[k % 2].first, seps[s] + bad + seps[s], around[k % 4].second, refs[k % 3]);
            inText(c, f, {&a, &b}, bad + seps[s], seps[(s + 1) % 3], "", refs[k % 3]);
            if (s == 0 || c.thorough) { inText(c, f, {&a, &b, &a}, "", seps[s] + bad + seps[(s + 2) % 3], seps[s] + bad, refs[k % 3]); inText(c, f, {&a, &b}, bad + seps[s] + bad + seps[s], " foo ", "", refs[k % 3]); }
        }
        for (size_t n = 5; n <= 12; n++) for (size_t s = 0; s < seps.size(); s++) for (size_t first = 0; first < es.size(); first++) { std::vector<const Expr*> v; for (size_t i = 0; i < n; i++) v.push_back(&es[(first + i * (1 + s % 3)) % es.size()]); inText(c, f, v, around[s % 4].first, seps[s], around[s % 4].second, refs[n % 3]); }
        // no number of them is too many
        for (size_t n : {13, 15, 16, 17, 18, 20, 24, 31, 32, 33, 40, 50, 64, 65, 100}) for (size_t first = 0; first < es.size(); first++) {
            if (n > 33 && !c.thorough && first % 3) continue;
            std::vector<const Expr*> v; size_t len = 0; for (size_t i = 0; i < n && len < 1900; i++) { v.push_back(&es[n % 2 ? first : (first + i) % es.size()]); len += v.back()->text.size() + 5; }
            inText(c, f, v, around[n % 4].first, seps[n % 3], around[n % 4].second, refs[n % 3]);
        }
    }
}
}
