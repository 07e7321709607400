// Reference model: what the statements in properties.jsonl say, written without any code of the
// repository (own calendar, own vocabulary).  Everything is computed from days since 1970-01-01.
#pragma once
#include "adapter.h"
#include "core.h"
#include <optional>
#include <algorithm>
namespace mcx {

// ---------- calendar ----------
inline bool leap(int y) { return y % 4 == 0 && (y % 100 != 0 || y % 400 == 0); }
inline int monthLen(int y, int m) { static const int L[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}; return m == 2 && leap(y) ? 29 : L[m - 1]; }
inline long long dayNo(int y, int m, int d) {            // days since 1970-01-01 by counting
    long long n = 0;
    long long yy = y - 1;
    n = yy * 365 + yy / 4 - yy / 100 + yy / 400;           // y >= 1
    for (int i = 1; i < m; i++) n += monthLen(y, i);
    return n + d - 1 - 719162;
}
struct Date { int y, m, d; bool operator==(const Date& o) const { return y == o.y && m == o.m && d == o.d; } };
inline Date dateOf(long long n) {
    int y = (int) (1970 + n / 366) - 2;                    // never past the answer by construction below
    if (n < 0) y = (int) (1970 + n / 365) - 2;
    while (dayNo(y + 1, 1, 1) <= n) ++y;
    while (dayNo(y, 1, 1) > n) --y;
    int m = 1; long long r = n - dayNo(y, 1, 1);
    while (r >= monthLen(y, m)) { r -= monthLen(y, m); ++m; }
    return {y, m, (int) r + 1};
}
inline int weekday(long long n) { return (int) (((n + 4) % 7 + 7) % 7); }   // 0 = Sunday; 1970-01-01 was a Thursday
const int MINY = 1400, MAXY = 9999;
inline long long minDay() { static const long long v = dayNo(MINY, 1, 1); return v; }
inline long long maxDay() { static const long long v = dayNo(MAXY, 12, 31); return v; }
inline bool inCal(long long day) { return day >= minDay() && day <= maxDay(); }

struct Moment {                                           // a moment as day number and second of day
    long long day; int sec;
    bool ok() const { return inCal(day); }
    Date date() const { return dateOf(day); }
};
inline Moment momentOf(const DT& t) { return {dayNo(t.y, t.m, t.d), t.H * 3600 + t.M * 60 + t.S}; }
inline Moment plusSec(Moment m, __int128 s) {
    __int128 t = (__int128) m.day * 86400 + m.sec + s;
    __int128 d = t / 86400; int r = (int) (t % 86400);
    if (r < 0) { r += 86400; --d; }
    if (d > 100000000) d = 100000000; if (d < -100000000) d = -100000000;   // far outside the calendar
    return {(long long) d, r};
}
inline DT dtOf(const Moment& m) { Date d = m.date(); return {d.y, d.m, d.d, m.sec / 3600, m.sec / 60 % 60, m.sec % 60}; }
// month steps: a last day of a month stays a last day, other days are cut to the shorter month
inline std::optional<Moment> plusMonths(Moment m, long long n) {
    Date d = m.date();
    long long k = (long long) d.y * 12 + d.m - 1 + n;
    long long y = k / 12; int mo = (int) (k % 12);
    if (mo < 0) { mo += 12; --y; }
    if (y < MINY || y > MAXY) return {};
    int len = monthLen((int) y, mo + 1);
    int dd = d.d == monthLen(d.y, d.m) ? len : std::min(d.d, len);
    return Moment{dayNo((int) y, mo + 1, dd), m.sec};
}
inline bool dateExists(int y, int m, int d) { return y >= MINY && y <= MAXY && m >= 1 && m <= 12 && d >= 1 && d <= monthLen(y, m); }
inline bool timeExists(int h, int mi, int s) { return h >= 0 && h <= 24 && mi >= 0 && mi <= 59 && s >= 0 && s <= 59; }

// ---------- meanings ----------
struct Meaning {            // what an expression means: nothing, a moment or a range
    bool present = false;
    Comp s; bool end = false; Comp e;
    bool operator==(const Meaning& o) const { return present == o.present && (!present || (s == o.s && end == o.end && (!end || e == o.e))); }
};
std::string show(const Meaning&);
inline Meaning nothing() { return {}; }
inline void known(Comp& c, int part, int v) { c.v[part] = v; c.c[part] = true; }
inline void implied(Comp& c, int part, int v) { c.v[part] = v; c.c[part] = false; }
inline void putDate(Comp& c, Date d, bool certain) { for (auto p : {std::pair<int, int>{Y, d.y}, {MO, d.m}, {D, d.d}}) certain ? known(c, p.first, p.second) : implied(c, p.first, p.second); }
inline bool existing(const Comp& c) {
    if (!dateExists(c.v[Y], c.v[MO], c.v[D]) || !timeExists(c.v[H], c.v[MI], c.v[S])) return false;
    return !(c.v[H] == 24 && c.v[Y] == MAXY && c.v[MO] == 12 && c.v[D] == 31);
}
inline Meaning reported(Meaning m) { if (m.present && (!existing(m.s) || (m.end && !existing(m.e)))) return nothing(); return m; }
typedef std::vector<Meaning> Allowed;       // every element is acceptable

// An expression: its text (lower case), family, and what it may mean at a reference moment.
struct Expr {
    std::string text; int fam;
    std::function<Allowed(const DT&)> mean;
    int tag;                                // Tag or -1
};

Allowed meanCasualDate(const std::string& word, const DT& ref);
Allowed meanCasualTime(const std::string& word, const DT& ref);
Allowed meanWeekday(int wd, int mod /* -1 last, 0 this/none, 1 next */, int timing /* 0, 1 early, 2 late */, const DT& ref);
enum Unit { U_SEC, U_MIN, U_HOUR, U_DAY, U_WEEK, U_MONTH, U_YEAR, NUNIT };
struct Amount { Unit u; long long n; bool half; };        // half => half a unit
std::optional<Moment> shift(Moment m, const Amount& a, int sign);
Allowed meanDeadline(const Amount&, const DT&);
Allowed meanAgoLater(const std::vector<Amount>&, int sign, const DT&);
Allowed meanRelative(const Amount&, int sign, const DT&);
Allowed meanThis(Unit, const DT&);
Allowed meanWeek(long long n, const DT&);
struct Iso { int y, m, d; bool time; int h, mi; bool hasSec; int s; bool hasOff; int off; };
Allowed meanIso(const Iso&);
Allowed meanMonth(int month, int year /* -1 none */, const DT&);
Allowed meanMonthDay(int month, int day, int year, int wd /* -1 */, int endDay /* -1 */, const DT&);
enum Mer { M_NONE, M_AM, M_PM, M_OCLOCK };
struct Clock { int h, mi, s /* -1 none */; Mer mer; };
bool clockValid(const Clock&);
Allowed meanClock(const Clock&, const DT&);
Allowed meanClockRange(const Clock& a, const Clock& b, const DT&);
enum Holiday { INDEPENDENCE, NEWYEAR, NEWYEARSEVE, VETERANS, CHRISTMAS, CHRISTMASEVE, MLK, PRESIDENTS, MEMORIAL, LABOR, COLUMBUS, THANKSGIVING, BLACKFRIDAY };
Allowed meanHoliday(Holiday, const DT&);

// ---------- vocabulary ----------
extern const std::vector<std::pair<std::string, int>> NUMBER_WORDS, ORDINALS, MONTHS, WEEKDAYS, ZONES, UNIT_DEADLINE, UNIT_AGO, UNIT_RELATIVE;
extern const std::vector<std::pair<std::string, Holiday>> HOLIDAYS;

// ---------- reference refiners ----------
std::vector<Obs> modelOverlap(const std::vector<Obs>&);
std::vector<Obs> modelDateTime(const std::vector<Obs>&);
std::vector<Obs> modelRange(const std::vector<Obs>&, const std::string& text);
std::vector<Obs> modelZone(const std::vector<Obs>&, const std::string& text);
std::optional<std::string> modelRender(const Obs&);       // none: outside the calendar
extern const std::string INVALID_LINE;
std::string modelLine(const std::vector<Obs>&);           // whole output of the program
Obs obsOf(const Meaning& m, long index, long len, int tag);

// ---------- reference moments ----------
std::vector<DT> refsSmall();                              // ~12 edge moments
std::vector<DT> refsEdges();                              // ~60: month/year/leap/century/calendar ends
std::vector<DT> refsDays(const std::vector<int>& years, const std::vector<int>& secondsOfDay);
const std::vector<Expr>& sampleExprs();                   // a few forms of every family the program wires in
std::vector<Expr> formsOf(int fam, bool all);             // expression forms of one family

Expr makeExpr(int fam, const std::string& text, std::function<Allowed(const DT&)> mean);
std::vector<std::pair<std::string, Amount>> amounts(int fam, bool all);   // counts with units of a family
extern const char* const AGO_WORDS[3]; extern const char* const LATER_WORDS[6];
std::string isoText(const Iso&, int digits, const std::string& off);
std::string clockText(const Clock&, const std::string& mer, int style);
std::string checkMeaning(const Parsed& p, const Allowed& want);   // one expression: result count and parts
}
