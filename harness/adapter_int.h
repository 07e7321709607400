#pragma once
#include "adapter.h"
#include "src/parsers/parsers.hpp"
namespace mcx {
inline posix_time::ptime toPtime(const DT& t) { return posix_time::ptime(gregorian::date(t.y, t.m, t.d), posix_time::time_duration(t.H, t.M, t.S) + posix_time::microseconds(t.us)); }
inline DT fromPtime(const posix_time::ptime& p) {
    DT t; t.y = p.date().year(); t.m = p.date().month(); t.d = p.date().day();
    t.H = p.time_of_day().hours(); t.M = p.time_of_day().minutes(); t.S = p.time_of_day().seconds(); t.us = (int) (p.time_of_day().total_microseconds() % 1000000); return t;
}
Comp readComp(parse::ParsedComponents& p);
Obs readObs(parse::ParsedResult r);
std::vector<Obs> readAll(const Result& r);
parse::ParsedResult makeResult(const Obs& o, const std::string& text);
void writeComp(parse::ParsedComponents& p, const Comp& c);
utils::Modifiers modOf(int tag);
template <class P> Result execFam(const std::string& in, std::string& text, posix_time::ptime& t, bool fresh) {
    (void) in;
    if (fresh) { P p; return p.execute(text, t); }
    static P shared; return shared.execute(text, t);
}
#define FAMDECL(N) Result execFam_##N(std::string& text, posix_time::ptime& t, bool fresh)
#define FAMFN(N) Result mcx::execFam_##N(std::string& text, posix_time::ptime& t, bool fresh)
FAMDECL(0); FAMDECL(1); FAMDECL(2); FAMDECL(3); FAMDECL(4); FAMDECL(5); FAMDECL(6); FAMDECL(7); FAMDECL(8); FAMDECL(9); FAMDECL(10); FAMDECL(11); FAMDECL(12);
Result refineWith(int which, Result r, const std::string& text);
}
