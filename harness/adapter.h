// The only door to the code under test: public parsers, refiners and the program's main.
#pragma once
#include <string>
#include <vector>
namespace mcx {

struct DT { int y = 0, m = 0, d = 0, H = 0, M = 0, S = 0; int us = 0; };     // us: microseconds, for the library only
enum { Y, MO, D, WD, H, MI, S, TZ, NPART };

struct Comp {
    int v[NPART] = {0, 0, 0, 0, 0, 0, 0, 0};
    bool c[NPART] = {false, false, false, false, false, false, false, false};
    bool operator==(const Comp& o) const { for (int i = 0; i < NPART; i++) if (v[i] != o.v[i] || c[i] != o.c[i]) return false; return true; }
    bool operator!=(const Comp& o) const { return !(*this == o); }
};

// what a result shows through its accessors
struct Obs {
    long index = 0, len = 0;
    bool end = false;
    Comp s, e;          // e is meaningful only with end
    unsigned tags = 0;  // bit per Tag
};

enum Tag { T_CTIME, T_CDATE, T_DEADLINE, T_DOW, T_MME, T_LATER, T_MONTH, T_AGO, T_ISO, T_TIME, T_HOLIDAY, T_RELATIVE,
           T_RANGE, T_DATETIME, T_ZONE, NTAGS };
extern const char* const TAG_NAME[NTAGS];

enum Fam { F_CTIME, F_DEADLINE, F_DOW, F_CDATE, F_MME, F_LATER, F_MONTH, F_AGO, F_TIME, F_ISO, F_HOLIDAY, F_WEEK, F_RELATIVE, NFAM };
extern const char* const FAM_NAME[NFAM];
enum Ref_ { R_OVERLAP, R_ZONE, R_DATETIME, R_RANGE, NREF };

struct Parsed {
    std::vector<Obs> r;
    std::string text;     // the caller's text afterwards
    DT ref;               // the caller's reference moment afterwards
    std::string error;    // exception that escaped, if any
};

// fresh=true uses a parser object made for this call, else one object per family for the life of the process
Parsed runParser(int fam, const std::string& text, const DT& ref, bool fresh = true);
struct Refined { std::vector<Obs> r; std::string error; };
// builds results with these parts (text spans index..index+len of text) and refines them
Refined runRefiner(int which, const std::vector<Obs>& in, const std::string& text);
// parse with one family, then refine; toDate of every result
Refined runParserRefiner(int fam, int which, const std::string& text, const DT& ref, std::vector<std::string>* rendered);

// all wired parsers, all refiners and the rendering, on objects made for this call
std::string runAll(const std::string& text, const DT& ref);
Refined runPipeline(const std::string& text, const DT& ref, std::vector<std::string>* rendered);

struct CliOut { int status; std::string out; std::string error; };
CliOut runCli(const std::vector<std::string>& args);   // in-process; stdout captured
void setClock(bool on, long long localSeconds, int offsetMinutes = 0);   // what the wall clock answers
// the surroundings: a POSIX TZ setting, the wall clock (unix seconds), the global C++ locale (0 classic, 1 grouped digits and a decimal comma)
void setSurroundings(const std::string& tz, long long unixSeconds, int locale);
void resetSurroundings();
extern unsigned long long clockReads;
std::string refArg(const DT&);

std::string show(const Comp&);
std::string show(const Obs&);
std::string show(const std::vector<Obs>&);
std::string show(const DT&);
unsigned long long hashObs(const std::vector<Obs>&);
}
