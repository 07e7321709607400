#include "adapter_int.h"
#include "core.h"
#include <locale>
#include <sys/mman.h>
#include <fcntl.h>
#include <unistd.h>
#include <time.h>
#include <sys/time.h>
#include <sys/syscall.h>
namespace mcx {

const char* const TAG_NAME[NTAGS] = {"casual-time", "casual-date", "deadline", "weekday", "month-day", "later", "month", "ago", "iso", "clock", "holiday", "relative", "MERGED-RANGE", "MERGED-DATETIME", "ZONE"};
const char* const FAM_NAME[NFAM] = {"casual-time", "deadline", "weekday", "casual-date", "month-day", "later", "month", "ago", "clock", "iso", "holiday", "week", "relative"};

utils::Modifiers modOf(int t) {
    switch (t) {
        case T_CTIME: return utils::ENCasualTimeParser; case T_CDATE: return utils::ENCasualDateParser;
        case T_DEADLINE: return utils::ENDeadlineFormatParser; case T_DOW: return utils::ENDayOfTheWeekParser;
        case T_MME: return utils::ENMonthNameMiddleEndianParser; case T_LATER: return utils::ENTimeLaterParser;
        case T_MONTH: return utils::ENMonthNameParser; case T_AGO: return utils::ENTimeAgoFormatParser;
        case T_ISO: return utils::ENISOFormatParser; case T_TIME: return utils::ENTimeExpressionParser;
        case T_HOLIDAY: return utils::ENUSHolidaysParser; case T_RELATIVE: return utils::ENRelativeDateFormatParser;
        case T_RANGE: return utils::ENMergeDateRangeRefiner; case T_DATETIME: return utils::ENMergeDateAndTimeRefiner;
        default: return utils::ExtractTimeZoneAbbreviation;
    }
}
static const char* const PART[NPART] = {"year", "month", "mday", "wday", "hour", "min", "sec", "tzoffset"};
Comp readComp(parse::ParsedComponents& p) {
    Comp c;
    c.v[Y] = p.getYear(); c.v[MO] = p.getMonth(); c.v[D] = p.get_mDay(); c.v[WD] = p.get_wDay();
    c.v[H] = p.getHour(); c.v[MI] = p.getMinute(); c.v[S] = p.getSeconds(); c.v[TZ] = p.getTimeZoneOffset();
    for (int i = 0; i < NPART; i++) c.c[i] = p.isCertain(PART[i]);
    return c;
}
Obs readObs(parse::ParsedResult r) {
    Obs o;
    o.index = r.getIndex(); o.len = r.textLength(); o.end = r.end();
    o.s = readComp(r.startDate);
    if (o.end) o.e = readComp(r.endDate);
    for (int t = 0; t < NTAGS; t++) if (r.getTag(modOf(t))) o.tags |= 1u << t;
    return o;
}
std::vector<Obs> readAll(const Result& r) { std::vector<Obs> v; for (auto& x : r) v.push_back(readObs(x)); return v; }
void writeComp(parse::ParsedComponents& p, const Comp& c) {
    for (int i = 0; i < NPART; i++) {
        if (!c.c[i]) { if (c.v[i]) p.implyComponent(PART[i], c.v[i]); continue; }
        switch (i) {
            case Y: p.setYear(c.v[i]); break; case MO: p.setMonth(c.v[i]); break; case D: p.set_mDay(c.v[i]); break;
            case WD: p.set_wDay(c.v[i]); break; case H: p.setHour(c.v[i]); break; case MI: p.setMinute(c.v[i]); break;
            case S: p.setSeconds(c.v[i]); break; case TZ: p.setTimeZoneOffset(c.v[i]); break;
        }
    }
}
parse::ParsedResult makeResult(const Obs& o, const std::string& text) {
    static const posix_time::ptime anchor{gregorian::date(2018, 2, 13)};
    parse::ParsedResult r(anchor, o.index, text.substr(o.index, o.len));
    writeComp(r.startDate, o.s);
    if (o.end) { writeComp(r.endDate, o.e); r.makeEndDateValid(); }
    for (int t = 0; t < NTAGS; t++) if (o.tags >> t & 1) r.setTag(modOf(t));
    return r;
}

Parsed runParser(int fam, const std::string& in, const DT& ref, bool fresh) {
    Parsed p; p.text = in;
    posix_time::ptime t = toPtime(ref);
    Result r;
    try {
        switch (fam) {
#define C(N) case N: r = execFam_##N(p.text, t, fresh); break;
            C(0) C(1) C(2) C(3) C(4) C(5) C(6) C(7) C(8) C(9) C(10) C(11) C(12)
        }
        p.r = readAll(r);
        p.ref = fromPtime(t);
    }
    catch (std::exception& e) { p.error = std::string("exception escaped from execute: ") + e.what(); }
    return p;
}
Refined runRefiner(int which, const std::vector<Obs>& in, const std::string& text) {
    Refined o;
    try {
        Result r;
        for (auto& x : in) r.push_back(makeResult(x, text));
        o.r = readAll(refineWith(which, r, text));
    }
    catch (std::exception& e) { o.error = std::string("exception escaped from refine: ") + e.what(); }
    return o;
}
Refined runParserRefiner(int fam, int which, const std::string& in, const DT& ref, std::vector<std::string>* rendered) {
    Refined o; Parsed p; std::string& text = p.text; text = in;
    posix_time::ptime t = toPtime(ref);
    try {
        Result r; const bool fresh = true;
        switch (fam) { C(0) C(1) C(2) C(3) C(4) C(5) C(6) C(7) C(8) C(9) C(10) C(11) C(12) }
#undef C
        r = refineWith(which, r, text);
        o.r = readAll(r);
        if (rendered) for (auto& x : r) rendered->push_back(x.toDate());
    }
    catch (std::exception& e) { o.error = std::string("exception escaped: ") + e.what(); }
    return o;
}

// what the program does between its argument and its answer line, on objects of its own
Refined runPipeline(const std::string& in, const DT& ref, std::vector<std::string>* rendered) {
    Refined o;
    try {
        std::string text = in; posix_time::ptime t = toPtime(ref); Result all;
        for (int f : {F_DEADLINE, F_DOW, F_CDATE, F_MME, F_LATER, F_MONTH, F_AGO, F_TIME, F_CTIME, F_ISO, F_HOLIDAY, F_WEEK}) {
            Result r; const bool fresh = true;
            switch (f) {
#define C(N) case N: r = execFam_##N(text, t, fresh); break;
                C(0) C(1) C(2) C(3) C(4) C(5) C(6) C(7) C(8) C(9) C(10) C(11) C(12)
#undef C
            }
            all.insert(all.end(), r.begin(), r.end());
        }
        std::stable_sort(all.begin(), all.end(), [](parse::ParsedResult a, parse::ParsedResult b) { return a.getIndex() < b.getIndex(); });
        for (int w : {R_OVERLAP, R_ZONE, R_DATETIME, R_RANGE}) all = refineWith(w, all, text);
        o.r = readAll(all);
        if (rendered) for (auto& x : all) { try { rendered->push_back(x.toDate()); } catch (std::out_of_range&) { rendered->push_back(""); } }
    }
    catch (std::exception& e) { o.error = std::string("exception escaped: ") + e.what(); }
    return o;
}
std::string runAll(const std::string& in, const DT& ref) {
    std::vector<std::string> r; Refined o = runPipeline(in, ref, &r);
    if (!o.error.empty()) return o.error;
    std::string s = show(o.r);
    for (auto& x : r) s += " | " + x;
    return s;
}

}
int chrono_cli_main(int, char**);
namespace mcx {
unsigned long long clockReads = 0;
static bool clockOn = false; static long long clockValue = 0;
void setClock(bool on, long long v, int offsetMinutes) {     // local time is offsetMinutes ahead of UTC
    clockOn = on; clockValue = v - 60LL * offsetMinutes;
    std::string tz = offsetMinutes ? fmt("XYZ%c%d:%02d", offsetMinutes > 0 ? '-' : '+', abs(offsetMinutes) / 60, abs(offsetMinutes) % 60) : "UTC0";
    setenv("TZ", tz.c_str(), 1); tzset();
}
struct Grouping : std::numpunct<char> { char do_thousands_sep() const override { return '.'; } char do_decimal_point() const override { return ','; } std::string do_grouping() const override { return "\3\2"; } std::string do_truename() const override { return "wahr"; } };
void setSurroundings(const std::string& tz, long long unixSeconds, int locale) {
    clockOn = true; clockValue = unixSeconds;
    setenv("TZ", tz.c_str(), 1); tzset();
    static const std::locale grouped(std::locale::classic(), new Grouping);
    std::locale::global(locale == 1 ? grouped : std::locale::classic());
}
void resetSurroundings() { clockOn = false; setenv("TZ", "UTC0", 1); tzset(); std::locale::global(std::locale::classic()); }
static void readClock(int which, struct timespec* ts) {      // the wall clock is ours, the others are the system's
    if (which == CLOCK_REALTIME || which == CLOCK_REALTIME_COARSE) {
        ++clockReads;
        if (clockOn) { ts->tv_sec = clockValue; ts->tv_nsec = 0; return; }
    }
    syscall(SYS_clock_gettime, which, ts);
}
}
extern "C" time_t time(time_t* out) { struct timespec ts; mcx::readClock(CLOCK_REALTIME, &ts); if (out) *out = ts.tv_sec; return ts.tv_sec; }
extern "C" int clock_gettime(clockid_t which, struct timespec* ts) { mcx::readClock(which, ts); return 0; }
extern "C" int gettimeofday(struct timeval* tv, void*) { struct timespec ts; mcx::readClock(CLOCK_REALTIME, &ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0; }
namespace mcx {

CliOut runCli(const std::vector<std::string>& args) {
    static int mem = -1;
    if (mem < 0) { mem = memfd_create("cli", 0); }
    fflush(stdout); std::cout.flush();
    static int saved = -1;
    if (saved < 0) saved = dup(1);
    if (ftruncate(mem, 0)) {}
    lseek(mem, 0, SEEK_SET);
    dup2(mem, 1);
    CliOut o; o.status = -1;
    std::vector<std::string> copy = args; copy.insert(copy.begin(), "time");
    std::vector<char*> argv; for (auto& a : copy) argv.push_back(&a[0]); argv.push_back(nullptr);
    try { o.status = chrono_cli_main((int) copy.size(), argv.data()); }
    catch (std::exception& e) { o.error = std::string("exception escaped from main: ") + e.what(); }
    std::cout.flush(); std::cout.clear(); fflush(stdout);
    dup2(saved, 1);
    off_t n = lseek(mem, 0, SEEK_END);
    if (n > 0) { o.out.resize(n); if (pread(mem, &o.out[0], n, 0) != n) o.error = "lost output"; }
    return o;
}
std::string refArg(const DT& t) { return fmt("%04d-%02d-%02d %02d:%02d:%02d", t.y, t.m, t.d, t.H, t.M, t.S); }
std::string show(const DT& t) { return refArg(t) + (t.us ? fmt(".%06d", t.us) : ""); }
std::string show(const Comp& c) {
    static const char* const N[NPART] = {"y", "mon", "d", "wd", "h", "min", "s", "tz"};
    std::string r;
    for (int i = 0; i < NPART; i++) if (c.c[i] || c.v[i]) r += fmt("%s%s=%d%s", r.empty() ? "" : " ", N[i], c.v[i], c.c[i] ? "!" : "");
    return "{" + r + "}";
}
std::string show(const Obs& o) {
    std::string r = fmt("[%ld+%ld ", o.index, o.len) + show(o.s);
    if (o.end) r += " -> " + show(o.e);
    for (int t = 0; t < NTAGS; t++) if (o.tags >> t & 1) r += std::string(" #") + TAG_NAME[t];
    return r + "]";
}
std::string show(const std::vector<Obs>& v) {
    if (v.empty()) return "nothing";
    std::string r; for (auto& o : v) r += (r.empty() ? "" : " ") + show(o); return r;
}
unsigned long long hashObs(const std::vector<Obs>& v) {
    u64 h = v.size();
    for (auto& o : v) {
        h = hashMix(h, o.index); h = hashMix(h, o.len); h = hashMix(h, o.end); h = hashMix(h, o.tags);
        for (int i = 0; i < NPART; i++) { h = hashMix(h, o.s.v[i] * 2 + o.s.c[i]); if (o.end) h = hashMix(h, o.e.v[i] * 2 + o.e.c[i]); }
    }
    return h;
}
}
