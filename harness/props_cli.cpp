// C03, C24, C27: the program as a whole against the rendering of the reference meanings.
#include "model.h"
namespace mcx {

static std::string cased(const std::string& s, int how) {       // 0 upper, 1 title, 2 aLtErNaTe, 3 AlTeRnAtE
    std::string r; bool start = true;
    for (size_t i = 0; i < s.size(); i++) {
        unsigned char ch = s[i];
        bool up = how == 0 || (how == 1 && start) || (how == 2 && i % 2) || (how == 3 && i % 2 == 0);
        r += (char) (up ? toupper(ch) : ch); start = ch == ' ';
    }
    return r;
}
static std::string program(Ctx& c, const std::string& text, const DT& ref, const std::vector<std::string>& want) {
    CliOut o = runCli({text, refArg(ref)});
    c.ops(1); c.outcome(hashStr(o.out));
    if (!o.error.empty()) return o.error;
    if (o.status) return fmt("exit status %d", o.status);
    for (auto& w : want) if (o.out == w) return "";
    return "prints " + showText(o.out) + ", expected " + showText(want.empty() ? "" : want[0]) + (want.size() > 1 ? " or " + showText(want[1]) : "");
}
static std::vector<std::string> lines(const Expr& e, const DT& ref) {
    std::vector<std::string> w;
    for (auto& m : e.mean(ref)) w.push_back(m.present ? modelLine({obsOf(m, 0, 1, e.tag)}) : INVALID_LINE);
    return w;
}
// an expression that denotes no date in the calendar is no expression of the text: not a case of these properties
static void line(Ctx& c, const std::string& text, const Expr& e, const DT& ref) {
    for (auto& m : e.mean(ref)) if (!m.present) return;
    c.test([&] { return "program on " + showText(text) + " reference " + show(ref); }, [&] { return program(c, text, ref, lines(e, ref)); });
}
static const char* const NEUTRAL[] = {"the", "we", "meet", "hello", "dog", "please", "call", "report", "project", "john", "lunch", "okay", "with", "our", "team", "is", "was", "it", "see", "you", "will", "have",
    "dinner", "returned", "party", "home", "blue", "river", "x", "zz", "tomato", "yesteryear's", "nightingale", "knowing", "decide", "marching", "mayor", "agog", "insider", "atlas", "noonday's", "weakly"};
// ordinary words that begin with, end with or contain an expression's word
static const char* const LOOKALIKE[] = {"nowhere", "nowadays", "know", "knowledge", "noontide", "marches", "sunrise", "sunny", "friedrich", "monk", "month", "maya", "maybe", "decade", "octopus", "junior", "mare", "apricot", "augustine", "satisfy", "wedding", "weekday", "lasting", "nexus", "afternoons", "evenings", "goodnight", "fortnight", "agony", "outlaw", "laterally", "minute", "hour", "inner", "thirty", "twelve", "few", "half", "a", "amber", "pmx", "sundial", "fridays", "saturated", "janitor", "septic", "decimal", "mayhem", "wednes", "thursty", "christmassy", "laborer", "memorials", "veterinary", "presidents", "eve", "black", "martin", "king"};

// ---------- several expressions in one text ----------
static std::vector<std::string> pipeline(const std::vector<const Expr*>& es, const std::vector<size_t>& at, const std::string& text, const DT& ref) {
    std::vector<std::string> out; std::vector<std::vector<Obs>> worlds{{}};
    for (size_t i = 0; i < es.size(); i++) {
        std::vector<std::vector<Obs>> next;
        for (auto& w : worlds) for (auto& m : es[i]->mean(ref)) { auto v = w; if (m.present) v.push_back(obsOf(m, (long) at[i], (long) es[i]->text.size(), es[i]->tag)); next.push_back(v); }
        worlds = next;
    }
    for (auto& w : worlds) { std::string l = modelLine(modelRange(modelDateTime(modelZone(modelOverlap(w), text)), text)); if (std::find(out.begin(), out.end(), l) == out.end()) out.push_back(l); }
    return out;
}
static void several(Ctx& c, const std::vector<const Expr*>& es, const std::vector<std::string>& seps, const DT& ref) {
    std::string text; std::vector<size_t> at;
    for (size_t i = 0; i < es.size(); i++) { if (i) text += seps[i - 1]; at.push_back(text.size()); text += es[i]->text; }
    std::string lower; for (char ch : text) lower += (char) tolower((unsigned char) ch);
    c.test([&] { return "program on " + showText(text) + " reference " + show(ref); }, [&] { return program(c, text, ref, pipeline(es, at, lower, ref)); });
}
// together the two are (or hold) another expression
static bool hasYear(const Expr& e) { size_t n = 0; for (char ch : e.text) n = isdigit((unsigned char) ch) ? n + 1 : n >= 4 ? n : 0; return n >= 4; }
static bool glued(const Expr& a, const std::string& sep, const Expr& b) {
    std::string w; for (char ch : sep) if (!isspace((unsigned char) ch)) w += (char) tolower((unsigned char) ch);
    bool digit = isdigit((unsigned char) b.text[0]), dash = w == "-" || w == "to";
    auto starts = [&](const char* x) { return b.text.compare(0, strlen(x), x) == 0; };
    if (digit && b.fam != F_TIME && w == "at") return true;                                                     // at 2018
    if (digit && (a.fam == F_MME || (a.fam == F_MONTH && !hasYear(a))) && (w.empty() || dash || w == ",")) return true;          // july 5 2018, february 1
    if (digit && dash && (a.fam == F_TIME || isdigit((unsigned char) a.text.back()))) return true;              // noon to 5, 2012 - 2018
    if (b.fam == F_MONTH && w.empty() && isdigit((unsigned char) a.text.back())) return true;                   // 27 sept
    const bool friday = a.fam == F_DOW || a.text == "black friday";
    if (a.fam == F_TIME && w.empty() && (starts("a ") || starts("an "))) return true;                           // at 7 a
    if (a.fam == F_AGO && w.empty() && b.fam == F_DOW && a.text.size() > 7 && a.text.compare(a.text.size() - 7, 7, "earlier") == 0) return true;   // earlier next friday
    if (friday && w.empty() && (starts("last") || starts("next") || starts("this") || starts("week") || b.fam == F_MME)) return true;   // friday last, friday feb 24
    if (friday && w == "," && b.fam == F_MME) return true;
    if ((a.fam == F_DEADLINE || a.fam == F_WEEK || a.fam == F_LATER || a.fam == F_AGO) && w.empty() && (b.fam == F_AGO || b.fam == F_LATER)) return true;  // in 5 days 5 days ago
    return false;
}
static std::vector<Expr> mixed() {     // one or more of every wired family
    std::vector<Expr> es;
    for (auto& e : sampleExprs()) for (std::string t : {"this morning", "evening", "today", "tomorrow", "last night", "now", "friday", "last tue", "next sunday", "in 5 days", "in half a minute", "within 5 hours", "eleven weeks ago", "5 days ago", "1 day 3 hours ago", "two years later", "45 minute from now", "half a month later",
            "next week", "last 3 weeks", "this week", "2018-02-03", "2020-02-29t09:05z", "1999-12-31t09:05:30-05:00", "february", "sept 2012", "july 5", "sept. 12th, 2019", "feb 24 - 27", "5:30pm", "at noon", "from 10pm to 2am", "thanksgiving", "christmas", "labor day", "new year's day"}) if (e.text == t) es.push_back(e);
    return es;
}
// ---------- C03 ----------
PROPERTY(C03, "every sample form of every wired family (all families, all notations) x 4 case patterns; x every subset of upper-case letters for forms up to 9 letters; x 42 neutral words before, after and around; capitals at 6 distances up to 1000 bytes into the text; x every context of 9 prefixes x 16 suffixes; every single, pair (thorough: triple) of neutral words and punctuation with no expression; 57 words that contain an expression word, alone and next to expressions; every one-word expression glued to 4 letter groups on either side; ranges and date-times of all ordered pairs of 34 expressions x 6 connectives x 4 case patterns (quick: one pair in three)",
         "rendering of the meaning the expression has in the reference model") {
    const auto& es = sampleExprs();
    const std::vector<DT> refs{{2018, 2, 13, 18, 16, 5}, {2020, 2, 29, 0, 30, 0}, {2019, 12, 31, 23, 59, 59}};
    c.info("expressions", es.size());
    size_t k = 0;
    for (auto& e : es) for (int how = 0; how < 4; how++) for (size_t i = 0; i < refs.size(); i++) if (c.thorough || i == how % refs.size()) line(c, cased(e.text, how), e, refs[i]);
    for (auto& e : es) {
        std::vector<size_t> letters; for (size_t i = 0; i < e.text.size(); i++) if (isalpha((unsigned char) e.text[i])) letters.push_back(i);
        if (letters.size() > (c.thorough ? 11u : 7u)) continue;
        for (unsigned mask = 1; mask < 1u << letters.size(); mask++) { std::string t = e.text; for (size_t b = 0; b < letters.size(); b++) if (mask >> b & 1) t[letters[b]] = (char) toupper((unsigned char) t[letters[b]]); line(c, t, e, refs[mask % 3]); }
    }
    const std::vector<std::string> pre{"", "hello ", "we meet ", "please call us  ", "\t", "   ", "ok\n", "(see below) ", "The project, "};
    const std::vector<std::string> post{"", ".", "!", "?", ",", ";", ":", "...", " please", " we go home", ", please", ". hello", "\n", "\t\tzz", "   ", "!?"};
    for (auto& e : es) {
        ++k;
        for (size_t a = 0; a < pre.size(); a++) for (size_t b = 0; b < post.size(); b++) {
            if (!c.thorough && (a + b + k) % 4 && a && b) continue;
            line(c, pre[a] + e.text + post[b], e, refs[(a + b + k) % 3]);
        }
        size_t w = 0;
        for (std::string n : NEUTRAL) {
            ++w;
            for (int where = 0; where < 3; where++) {
                if (!c.thorough && (w + where + k) % 3) continue;
                line(c, (where != 1 ? n + " " : "") + e.text + (where != 0 ? " " + n : ""), e, refs[(w + k) % 3]);
            }
            if (c.thorough) for (std::string m : NEUTRAL) line(c, n + " " + m + " " + e.text, e, refs[(w + k) % 3]);
        }
        // far inside a long text
        for (size_t far : {40, 300}) { std::string f; while (f.size() < far) f += std::string(NEUTRAL[f.size() % 25]) + " "; line(c, f + e.text + " " + f, e, refs[k % 3]); line(c, f + cased(e.text, (int) (k + far) % 4) + " " + f, e, refs[(k + 1) % 3]); }
        for (size_t far : {126, 254, 510, 1000}) { std::string f; while (f.size() < far) f += std::string(NEUTRAL[(f.size() + k) % 25]) + " "; if (c.thorough || (k + far / 2) % 2) line(c, f + cased(e.text, (int) k % 4), e, refs[k % 3]); }
    }
    auto none = [&](const std::string& t) { c.test([&] { return "program on " + showText(t) + ", which holds no expression"; }, [&] { return program(c, t, refs[t.size() % 3], {INVALID_LINE}); }); };
    {   // ranges and date-times in every case pattern
        const auto ms = mixed();
        for (auto& a : ms) for (auto& b : ms) for (std::string sep : {" to ", " and ", " through ", " - ", " at ", " "}) for (int how = 0; how < 4; how++) {
            ++k; if (glued(a, sep, b) || (!c.thorough && k % 3)) continue;
            std::string low = a.text + sep + b.text; const DT& r = refs[k / 3 % 3];
            c.test([&] { return "program on " + showText(cased(low, how)) + " reference " + show(r); }, [&] { return program(c, cased(low, how), r, pipeline({&a, &b}, {0, a.text.size() + sep.size()}, low, r)); });
        }
    }
    for (auto& e : es) {        // an expression of one word is not found inside a longer word
        bool letters = true; for (char ch : e.text) letters = letters && isalpha((unsigned char) ch);
        if (letters) for (std::string g : {"zq", "x", "kka", "_"}) for (std::string f : {"", "see ", "the big "}) { none(f + e.text + g); none(f + g + e.text); none(f + g + e.text + g + " please"); none(f + e.text + g + e.text); }
    }
    for (std::string a : LOOKALIKE) { none(a); none(a + "."); none("see " + a + " please"); for (std::string b : NEUTRAL) { if (c.thorough || (a.size() + b.size()) % 3 == 0) none(a + " " + b); none(b + " " + a); } }
    { size_t w = 0; for (auto& e : es) for (std::string a : LOOKALIKE) { ++w; if (!c.thorough && w % 7) continue; line(c, a + " we " + e.text, e, refs[w % 3]); line(c, e.text + ", " + a, e, refs[w % 3]); } }
    for (std::string p : {"", ".", "!", " ", "  \t\n", "?!", ",,,", "-", "()", "\"quoted\""}) none(p);
    for (std::string a : NEUTRAL) { none(a); none(a + "."); none(" " + a + " "); for (std::string b : NEUTRAL) { none(a + " " + b); none(a + ", " + b + "!"); if (c.thorough) for (std::string d : NEUTRAL) none(a + " " + b + "  " + d + "."); } }
}

// ---------- C24 ----------
PROPERTY(C24, "every form of every wired family x 1 (thorough: 3) reference moments through the program; all ordered pairs of 34 expressions over all families x 3 separators x 2 (3) moments and x 11 joins (blanks, to, and, -, through, at, on, capitals); all ordered triples of 14 (34) expressions, and with joins (quick: one in 11); all pairs of all 319 sample notations (quick: one in five); texts of 4..40 (80) expressions; joins that make another expression are skipped",
         "rendering of the reference meaning; for several expressions the reference zone, date-time and range merging over the expressions in text order, then the first") {
    const std::vector<DT> refs{{2018, 2, 13, 18, 16, 5}, {2020, 2, 29, 0, 30, 0}, {2019, 12, 31, 23, 59, 59}};
    for (int f = 0; f < NFAM; f++) { if (f == F_RELATIVE) continue; size_t k = 0; for (auto& e : formsOf(f, true)) { ++k; for (size_t i = 0; i < refs.size(); i++) {
        if (!c.thorough && i != k % 3) continue;
        if (e.text == "noon") { line(c, e.text, makeExpr(F_TIME, "noon", [](const DT& t) { return meanClock({12, 0, -1, M_NONE}, t); }), refs[i]); continue; }
        line(c, e.text, e, refs[i]); } } }
    const std::vector<Expr> es = mixed();
    c.info("expressions in pairs", es.size());
    const std::vector<std::string> seps{" foo ", ", ", " we go; then "};
    for (auto& a : es) for (auto& b : es) for (size_t s = 0; s < seps.size(); s++) for (size_t i = 0; i < (c.thorough ? 3u : 2u); i++) { if (glued(a, seps[s], b)) continue; several(c, {&a, &b}, {seps[s]}, refs[(i + s) % 3]); }
    // joined by the words that make ranges and date-times, also in capitals
    const std::vector<std::string> joins{" ", "  ", " to ", " and ", " - ", " through ", " at ", " on ", " TO ", " And ", " Through "};
    for (auto& a : es) for (auto& b : es) for (size_t s = 0; s < joins.size(); s++) for (size_t i = 0; i < (c.thorough ? 3u : 1u); i++) { if (glued(a, joins[s], b)) continue; several(c, {&a, &b}, {joins[s]}, refs[(i + s + a.text.size()) % 3]); }
    for (size_t i = 0; i < es.size(); i++) for (size_t j = 0; j < es.size(); j++) for (size_t k = 0; k < es.size(); k++) for (size_t s = 0; s < 3; s++) {
        if (!c.thorough && (i + 2 * j + 3 * k + s) % 11) continue;
        const std::string s1 = s == 1 ? joins[2 + (i + k) % 6] : " ", s2 = s == 0 ? joins[2 + (i + j) % 6] : s == 1 ? " " : joins[2 + (j + k) % 6];
        if (glued(es[i], s1, es[j]) || glued(es[j], s2, es[k])) continue;
        several(c, {&es[i], &es[j], &es[k]}, {s1, s2}, refs[(i + j + k) % 3]);
    }
    { size_t k = 0; const auto& all = sampleExprs();      // every pair of all notations, side by side
      for (auto& a : all) for (auto& b : all) { if (glued(a, " ", b)) continue; ++k; if (c.thorough || k % 5 == 0) several(c, {&a, &b}, {" "}, refs[k % 3]); } }
    // many expressions: the first one is the first whatever their number
    const Expr noon = makeExpr(F_TIME, "noon", [](const DT& t) { return meanClock({12, 0, -1, M_NONE}, t); });     // two families read it
    for (size_t i = 0; i <= es.size(); i++) for (size_t n = 4; n <= (c.thorough ? 80u : 40u); n += n < 20 ? 1 : 5) for (size_t step : {1, 7, 11}) {
        std::vector<const Expr*> v{i < es.size() ? &es[i] : &noon}; std::vector<std::string> sp;
        for (size_t j = 1; j < n; j++) { v.push_back(&es[(i + j * step) % es.size()]); sp.push_back(j % 2 ? " foo " : " we go; then "); }
        several(c, v, sp, refs[n % 3]);
    }
    // far into the text, and two far apart
    for (size_t i = 0; i < es.size(); i++) for (size_t j = 0; j < es.size(); j += 3) for (size_t at : {126, 250, 254, 255, 256, 510, 1022, 1800}) {
        std::string far = " "; while (far.size() < at) far += "we see the blue river "; far.resize(at); far.back() = ' ';
        if (at <= 1022) several(c, {&es[i], &es[(i + j) % es.size()]}, {far}, refs[(i + j) % 3]);
        if (j < 3) line(c, far.substr(1) + es[i].text + (j ? " please" : ""), es[i], refs[i % 3]);
    }
    for (size_t i = 0; i < es.size(); i++) for (size_t j = 0; j < es.size(); j++) for (size_t k = 0; k < es.size(); k++) {
        if (!c.thorough && (i % 5 != 1 || j % 3 != 1 || k % 3 != 2)) continue;
        if (glued(es[i], seps[(i + j) % 3], es[j])) continue;
        several(c, {&es[i], &es[j], &es[k]}, {seps[(i + j) % 3], seps[0]}, refs[(i + j + k) % 3]);
    }
}

// ---------- C30 ----------
// every result of the assembled library, not only the one the program prints
static std::string wholeList(Ctx& c, const std::vector<const Expr*>& es, const std::vector<size_t>& at, const std::string& text, const std::string& lower, const DT& ref) {
    std::vector<std::vector<Obs>> worlds{{}};
    for (size_t i = 0; i < es.size(); i++) {
        std::vector<std::vector<Obs>> next; Allowed ms = es[i]->mean(ref); std::vector<Meaning> seen;
        for (auto& m : ms) {
            if (std::find(seen.begin(), seen.end(), m) != seen.end()) continue;
            seen.push_back(m);
            for (auto& w : worlds) { auto v = w; if (m.present) v.push_back(obsOf(m, (long) at[i], (long) es[i]->text.size(), es[i]->tag)); next.push_back(v); }
        }
        worlds = next;
        if (worlds.size() > 64) return "";
    }
    std::vector<std::string> rendered; Refined got = runPipeline(text, ref, &rendered);
    c.ops(12 + 4); c.outcome(hashObs(got.r));
    if (!got.error.empty()) return got.error;
    std::string first;
    for (auto& w : worlds) {
        auto want = modelRange(modelDateTime(modelZone(modelOverlap(w), lower)), lower);
        if (first.empty()) first = show(want);
        bool same = got.r.size() == want.size(); long end = 0;
        for (size_t i = 0; same && i < want.size(); i++) {
            const Obs &g = got.r[i], &x = want[i];
            same = g.s == x.s && g.end == x.end && (!g.end || g.e == x.e) && g.tags == x.tags && g.index >= end && g.index <= x.index && g.index + g.len >= x.index + x.len && g.index + g.len <= (long) text.size();
            end = g.index + g.len;
            std::string lead;       // at most adjacent blanks, an abbreviation's dot, the at/on/from of a clock time
            for (long k = g.index; same && k < x.index; k++) if (!isspace((unsigned char) text[k])) lead += lower[k];
            same = same && (lead.empty() || ((x.tags >> T_TIME & 1) && (lead == "at" || lead == "on" || lead == "from")));
            for (long k = x.index + x.len; same && k < end; k++) same = isspace((unsigned char) text[k]) || (text[k] == '.' && k == x.index + x.len);
        }
        if (!same) continue;
        for (size_t i = 0; i < want.size(); i++) { auto r = modelRender(want[i]); if (rendered[i] != (r ? *r : "")) return fmt("result %zu renders as ", i) + showText(rendered[i]) + ", expected " + showText(r ? *r : ""); }
        return "";
    }
    return "gives " + show(got.r) + ", expected " + first;
}
static void whole(Ctx& c, const std::vector<const Expr*>& es, const std::vector<std::string>& seps, const DT& ref) {     // seps: before, between, after
    std::string text = seps[0]; std::vector<size_t> at;
    for (size_t i = 0; i < es.size(); i++) { at.push_back(text.size()); text += es[i]->text + seps[i + 1]; if (i && glued(*es[i - 1], seps[i], *es[i])) return; }
    std::string lower; for (char ch : text) lower += (char) tolower((unsigned char) ch);
    if (text.size() % 3 == 0) text = cased(text, (int) text.size() / 3 % 4);
    c.test([&] { return "all parsers and refiners on " + showText(text) + " reference " + show(ref); }, [&] { return wholeList(c, es, at, text, lower, ref); });
}
PROPERTY(C30, "all parsers the program wires in, then all refiners, on: every one of the sample notations x 3 moments x 3 x 4 surroundings, and x 4 fractions of a second; all ordered pairs of 36 expressions of all families x 17 joins (words, punctuation, merging words, capitals, look-alike words) x 1 (thorough: 3) moments; all pairs of all notations (quick: one in 4); all ordered triples of 36 expressions (quick: one in 2, thorough: x 6 joins); all quadruples of 10 expressions x 1 (9) join patterns; texts of 5..40 (120) expressions; 4 case patterns",
         "the complete list - order, spans, every part with its certainty, ends, marks, rendering - computed from the meanings the expressions have alone by the reference overlap, zone, date-time and range rules") {
    const std::vector<DT> refs{{2018, 2, 13, 18, 16, 5}, {2020, 2, 29, 0, 30, 0}, {2019, 12, 31, 23, 59, 59}};
    std::vector<Expr> es = mixed(); const auto& all = sampleExprs();
    es.push_back(makeExpr(F_TIME, "noon", [](const DT& t) { return meanClock({12, 0, -1, M_NONE}, t); }));
    c.info("expressions", es.size());
    size_t k = 0;
    for (auto& e : all) for (auto& r : refs) for (std::string a : {"", "see you ", "(the project) "}) for (std::string b : {"", ".", " please", ", we go home"}) whole(c, {&e}, {a, b}, r);
    // a reference read off a clock has a fraction of a second: it is dropped
    for (auto& e : all) for (DT r : refs) for (int us : {1, 499999, 500000, 999999}) { r.us = us; whole(c, {&e}, {"", ""}, r); }
    const std::vector<std::string> joins{" foo ", ", ", " we go; then ", " ", "  ", " to ", " and ", " - ", " through ", " at ", " on ", " TO ", " And ", " marching ", " (knowing) ", "\n", ". Maybe "};
    for (auto& a : es) for (auto& b : es) for (auto& j : joins) for (size_t i = 0; i < (c.thorough ? 3u : 1u); i++) { ++k; whole(c, {&a, &b}, {"", j, k % 2 ? "" : " okay."}, refs[(i + k) % 3]); }
    for (auto& a : all) for (auto& b : all) { ++k; if (c.thorough || k % 4 == 0) whole(c, {&a, &b}, {"", joins[k / 4 % 4], ""}, refs[k % 3]); }
    for (auto& x : es) for (auto& y : es) for (auto& z : es) for (size_t s = 0; s < (c.thorough ? 6u : 1u); s++) {
        ++k; if (!c.thorough && k % 2) continue;
        whole(c, {&x, &y, &z}, {"", joins[(k + s) % joins.size()], joins[(k / 17 + 3 * s) % joins.size()], k % 3 ? "" : "!"}, refs[(k + s) % 3]);
    }
    // four in a row: every pattern of neighbours merging and not merging
    std::vector<const Expr*> four; for (auto& e : es) for (std::string t : {"today", "friday", "5:30pm", "at noon", "july 5", "feb 24 - 27", "from 10pm to 2am", "in 5 days", "next week", "2020-02-29t09:05z"}) if (e.text == t) four.push_back(&e);
    for (auto w : four) for (auto x : four) for (auto y : four) for (auto z : four) for (size_t s = 0; s < (c.thorough ? 9u : 1u); s++) { ++k; auto j = [&](size_t n) { return joins[(k * 7 + n * s + k / 11 * n) % 9]; }; whole(c, {w, x, y, z}, {"", j(1), j(2), j(3), ""}, refs[k % 3]); }
    // many expressions, more than any small list holds
    for (size_t i = 0; i < es.size(); i++) for (size_t n = 5; n <= (c.thorough ? 120u : 40u); n += n < 20 ? 1 : 5) for (size_t step : {1, 7, 11}) {
        std::vector<const Expr*> v; std::vector<std::string> sp{""};
        for (size_t j = 0; j < n; j++) { v.push_back(&es[(i + j * step) % es.size()]); sp.push_back(j % 2 ? " foo " : " we go; then "); }
        whole(c, v, sp, refs[n % 3]);
    }
}

// ---------- C31 ----------
struct Around { const char* tz; long long clock; int locale; };
static std::string inSurroundings(const Around& a, const std::function<std::string()>& f) {
    setSurroundings(a.tz, a.clock, a.locale);
    std::string r;
    try { r = f(); } catch (...) { resetSurroundings(); throw; }
    resetSurroundings();
    return r;
}
PROPERTY(C31, "12 time zone settings (fixed, daylight saving north and south, at night and at midnight, half-hour steps, a day apart) x 7 wall clocks x 2 global locales (plain; grouped digits and decimal comma), each with: every sample notation of every family at 5 reference moments, through the program and through all parsers and refiners; 14 expressions at every half hour (thorough: every 10 minutes) of the 10 days around which clocks are set forward or back, and written clock times on those days, 24:00 on the day before included; pairs joined to ranges and date-times. Quick: surroundings rotate over the cases; thorough: all surroundings for every case",
         "the reference meaning, which knows no surroundings") {
    static const char* const ZONES_[] = {"EST5EDT,M3.2.0,M11.1.0", "CET-1CEST,M3.5.0,M10.5.0/3", "UTC0", "<+14>-14", "<-12>12", "IST-5:30", "<+1030>-10:30<+11>-11,M10.1.0,M4.1.0", "AEST-10AEDT,M10.1.0,M4.1.0/3", "<-03>3<-02>,M3.5.0/-2,M10.5.0/-1", "XST-24XDT,J60,J300", "PST8PDT,M4.1.0,M10.5.0", "<-03>3<-02>,M11.1.0/0,M2.3.0/0" /* midnight is skipped */};
    static const long long CLOCKS[] = {1518545765LL /* 2018-02-13 18:16:05Z */, 1520751600LL /* 2018-03-11 07:00Z, the gap in New York */, 0LL, 1582934399LL, 4102444799LL, 951868799LL, 1541309400LL};
    std::vector<Around> around;
    for (auto z : ZONES_) for (auto k : CLOCKS) for (int l = 0; l < 2; l++) around.push_back({z, k, l});
    c.info("surroundings", around.size());
    size_t turn = 0;
    auto each = [&](const std::function<void(const Around&)>& f) {       // 53 is prime to the number of surroundings
        if (c.thorough) { for (auto& a : around) f(a); return; }
        for (int i = 0; i < 2; i++) f(around[(turn += 53) % around.size()]);
    };
    auto name = [](const Around& a) { return fmt(" with TZ=%s, clock %lld, locale %d", a.tz, a.clock, a.locale); };
    auto both = [&](const std::vector<const Expr*>& es, const std::vector<std::string>& seps, const DT& ref) {
        for (size_t i = 0; i + 1 < es.size(); i++) if (glued(*es[i], seps[i], *es[i + 1])) return;
        std::string text; std::vector<size_t> at;
        for (size_t i = 0; i < es.size(); i++) { if (i) text += seps[i - 1]; at.push_back(text.size()); text += es[i]->text; }
        for (auto e : es) for (auto& m : e->mean(ref)) if (!m.present) return;
        each([&](const Around& a) {
            c.test([&] { return "program on " + showText(text) + " reference " + show(ref) + name(a); }, [&] { return inSurroundings(a, [&] { return program(c, text, ref, pipeline(es, at, text, ref)); }); });
            c.test([&] { return "all parsers and refiners on " + showText(text) + " reference " + show(ref) + name(a); }, [&] { return inSurroundings(a, [&] { return wholeList(c, es, at, text, text, ref); }); });
        });
    };
    const auto& all = sampleExprs();
    const std::vector<DT> refs{{2018, 2, 13, 18, 16, 5}, {2020, 2, 29, 0, 30, 0}, {2018, 3, 11, 2, 30, 0}, {2018, 11, 4, 1, 30, 0}, {2019, 10, 6, 2, 15, 0}};
    for (auto& e : all) for (auto& r : refs) both({&e}, {}, r);
    // the days on which some local clock skips or repeats an hour
    std::vector<Expr> es; for (auto& e : all) for (std::string t : {"now", "this morning", "yesterday", "tomorrow", "within 5 hours", "in half a minute", "45 minute from now", "1 day 3 hours ago", "in 5 days", "5 days ago", "last 3 weeks", "friday", "at noon", "next sunday"}) if (e.text == t) es.push_back(e);
    const Date days[] = {{2018, 3, 11}, {2018, 11, 4}, {2018, 3, 25}, {2018, 10, 28}, {2019, 4, 7}, {2019, 10, 6}, {2018, 10, 27}, {2017, 3, 1}, {2018, 2, 18}, {2018, 2, 17}};
    for (auto& d : days) for (int m = 0; m < 1440; m += c.thorough ? 10 : 30) {
        const DT r{d.y, d.m, d.d, m / 60, m % 60, 5};
        for (auto& e : es) both({&e}, {}, r);
        const int h = m / 60, mi = m % 60;
        const Expr clock = makeExpr(F_TIME, fmt("at %d:%02d", h, mi), [=](const DT& t) { return meanClock({h, mi, -1, M_NONE}, t); });
        both({&clock}, {}, r);
        const Expr iso = makeExpr(F_ISO, fmt("%04d-%02d-%02dt%02d:%02d:07z", d.y, d.m, d.d, h, mi), [=](const DT&) { return meanIso({d.y, d.m, d.d, true, h, mi, true, 7, true, 0}); });
        both({&iso}, {}, r);
        for (auto& e : es) if (e.text == "tomorrow" || e.text == "yesterday" || e.text == "friday") { both({&e, &clock}, {" "}, r); both({&e, &iso}, {" to "}, r); }
    }
    {   // midnight at the end of a day, as 24 o'clock
        const Expr late = makeExpr(F_TIME, "at 24:00", [=](const DT& t) { return meanClock({24, 0, -1, M_NONE}, t); });
        for (auto& d : days) for (int back : {0, 1}) { Date b = dateOf(dayNo(d.y, d.m, d.d) - back); for (int i = 0; i < 24; i++) both({&late}, {}, {b.y, b.m, b.d, i, 0, 0}); for (auto& e : es) if (e.text == "tomorrow" || e.text == "yesterday" || e.text == "friday") for (int h : {0, 1, 12, 23}) both({&e, &late}, {" "}, {b.y, b.m, b.d, h, 0, 0}); }
    }
    const auto ms = mixed();
    size_t k = 0;
    for (auto& a : ms) for (auto& b : ms) for (std::string sep : {" ", " to "}) { ++k; if (c.thorough ? k % 7 == 0 : k % 3 == 0) both({&a, &b}, {sep}, refs[k / 3 % 5]); }
}

// ---------- C27 ----------
static std::string localClock(long long unixSeconds) { DT t = dtOf(plusSec(Moment{0, 0}, unixSeconds)); return refArg(t); }
PROPERTY(C27, "0..6 arguments; every reference moment of 60 edge moments, every day of 3 years and every minute of a day (thorough: every second, 20 years) given explicitly; the default reference at every one of those moments, with the local clock of 5 zones answering that moment; 260 malformed reference arguments",
         "usage text; 'now' and relative expressions rendered from the reference moment") {
    const std::string usage = "Usage: ./main [test string] [reference date] (last argument is optional) \nIf reference date is provided, format should be YYYY-MM-DD HH:MM:SS\n";
    auto isUsage = [](const CliOut& o) -> std::string {
        if (!o.error.empty()) return o.error;
        if (o.status) return fmt("exit status %d", o.status);
        if (o.out.compare(0, 6, "Usage:") || o.out.find("Date:") != std::string::npos || o.out.find("[???]") != std::string::npos || o.out.find("YYYY-MM-DD HH:MM:SS") == std::string::npos) return "prints " + showText(o.out) + " instead of the usage text";
        return "";
    };
    (void) usage;
    for (std::vector<std::string> args : std::vector<std::vector<std::string>>{{}, {"tomorrow", "2018-02-13 18:16:05", "x"}, {"tomorrow", "2018-02-13 18:16:05", ""}, {"", "", ""}, {"now", "2018-02-13", "18:16:05"}, {"a", "b", "c", "d"}, {"today", "today", "today", "today", "today"}, {"next", "friday", "at", "5", "pm", "x"}})
        c.test([&] { std::string s; for (auto& a : args) s += " " + showText(a); return fmt("%zu arguments", args.size()) + s; }, [&] { c.ops(1); return isUsage(runCli(args)); });
    std::vector<Expr> es{makeExpr(F_CDATE, "now", [](const DT& t) { return meanCasualDate("now", t); }), makeExpr(F_CDATE, "yesterday", [](const DT& t) { return meanCasualDate("yesterday", t); }),
        makeExpr(F_DEADLINE, "in 45 seconds", [](const DT& t) { return meanDeadline({U_SEC, 45, false}, t); }), makeExpr(F_AGO, "3 months ago", [](const DT& t) { return meanAgoLater({{U_MONTH, 3, false}}, -1, t); }), makeExpr(F_DOW, "next friday", [](const DT& t) { return meanWeekday(5, 1, 0, t); }), makeExpr(F_TIME, "at 5pm", [](const DT& t) { return meanClock({5, 0, -1, M_PM}, t); })};
    auto both = [&](const Expr& e, const DT& r, bool expl, bool clock) {
        if (expl) line(c, e.text, e, r);
        long long local = momentOf(r).day * 86400 + momentOf(r).sec;
        static const int zones[] = {0, 330, -480, 840, -720}; int zone = zones[(r.y + r.m + r.d + r.H + r.M) % 5];
        if (clock) c.test([&] { return "program on " + showText(e.text) + " without reference, the local clock reading " + show(r) + fmt(" at %d min from UTC", zone); }, [&]() -> std::string {
            setClock(true, local, zone);
            CliOut o = runCli({e.text}); c.ops(1); c.outcome(hashStr(o.out));
            setClock(false, 0);
            if (!o.error.empty()) return o.error;
            if (o.status) return fmt("exit status %d", o.status);
            auto w = lines(e, r);
            for (auto& x : w) if (x == o.out) return "";
            return "prints " + showText(o.out) + ", expected " + showText(w[0]);
        });
    };
    // the clock must be readable as a C time: stay within what gmtime and the calendar share
    for (auto& r : refsEdges()) for (auto& e : es) both(e, r, true, r.y >= 1900);
    for (auto& r : refsDays(c.thorough ? std::vector<int>{1899, 1900, 1970, 1999, 2000, 2001, 2018, 2019, 2020, 2021, 2037, 2038, 2039, 2099, 2100, 2101, 2400, 9998} : std::vector<int>{2000, 2019, 2038}, {0, 45296, 86399})) { const Expr& e = es[(r.d + r.m) % es.size()]; both(es[0], r, r.H > 0, r.y >= 1900); both(e, r, r.H == 0, r.y >= 1900 && r.H != 0); }
    for (int s = 0; s < 86400; s += c.thorough ? 7 : 60) { DT r{2019, 12, 31, s / 3600, s / 60 % 60, s % 60}; r.S = c.thorough ? r.S : (s / 60 * 7) % 60; both(es[0], r, s % 120 == 0 || c.thorough, s % 120 != 0 || c.thorough); both(es[2], r, s % 360 == 0, s % 360 == 180); }
    // the reference is read at every run, not once
    for (int step : {1, 60, 3600, 86400, -86400, 31536000}) c.test([&] { return fmt("twelve runs while the clock moves by %d s", step); }, [&]() -> std::string {
        for (int i = 0; i < 12; i++) { setClock(true, 1577836799LL + (long long) i * step); CliOut o = runCli({"now"}); c.ops(1); setClock(false, 0);
            DT r = dtOf(plusSec(Moment{0, 0}, 1577836799LL + (long long) i * step)); auto w = lines(es[0], r);
            if (o.out != w[0]) return fmt("run %d prints ", i) + showText(o.out) + ", expected " + showText(w[0]); }
        return ""; });
    std::vector<std::string> bad{"", " ", "x", "tomorrow", "2018", "2018-02", "2018-02-13T18:16:05", "13", "-", "--", "2018--13 10:00:00", "2018-02- 10:00:00", "-02-13 10:00:00", "abcd-ef-gh ij:kl:mn", "2018-xx-13 10:00:00", "18:16:05", "18:16:05 2018-02-13",
        "99999999999999999999-01-01 00:00:00", "2018-99999999999-01 00:00:00", "2018-01-99999999999999999999 00:00:00", "\xff\xfe", "2018-02-13x 10:00:00", "not a date at all", "2018 02 13 10 00 00", "%s%n", "now"};
    for (int y : {0, 1399, 10000, 99999}) bad.push_back(fmt("%d-01-01 00:00:00", y));
    for (int y : {1400, 1900, 2018, 2019, 2100, 9999}) for (int m = 0; m <= 14; m++) for (int d : {0, 29, 30, 31, 32, 99}) if (!dateExists(y, m, d)) bad.push_back(fmt("%04d-%02d-%02d 10:00:00", y, m, d));
    for (auto& b : bad) for (std::string t : {"tomorrow", "5pm"}) c.test([&] { return "program on " + showText(t) + " with the reference argument " + showText(b); }, [&] { c.ops(1); return isUsage(runCli({t, b})); });
}
}
