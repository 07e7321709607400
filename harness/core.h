// Exploration framework: deterministic enumeration, sharded over forked workers, with
// crash/hang containment and replay of single cases.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <string>
#include <vector>
#include <map>
#include <set>
namespace mcx {

typedef unsigned long long u64;

inline u64 hashMix(u64 h, u64 v) { h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2); return h * 0xff51afd7ed558ccdULL; }
inline u64 hashStr(const std::string& s) { u64 h = 1469598103934665603ULL; for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; } return h; }

struct Shared;   // counters in shared memory

struct Ctx {
    bool thorough = false;
    unsigned workers = 1, me = 0;
    long long only = -1;          // replay: run just this case
    long long from = 0, upto = -1; // resume / prefix replay of a shard
    long long index = -1;
    bool describing = false;
    Shared* sh = nullptr;
    std::string lastDesc;

    // one case of the enumerated space: runs body on the real code if it belongs to this worker.
    // body returns "" if the property holds, else what is wrong.
    template <class D, class B> void test(D describe, B body) {
        if (!take()) return;
        if (only >= 0) { lastDesc = describe(); publishDesc(lastDesc); }
        std::string bad;
        try { bad = body(); }
        catch (std::exception& e) { bad = std::string("exception escaped: ") + e.what(); }
        catch (...) { bad = "exception of unknown type escaped"; }
        if (!bad.empty()) fail(describe(), bad); else done();
        if (wantSample()) sample(describe());
    }
    bool take();
    void done();
    void fail(const std::string& desc, const std::string& what);
    void outcome(u64 h);          // an observed behaviour, for the count of distinct ones
    void ops(u64 n);              // steps executed on the real code
    void alive();                 // a long case goes on
    bool stopped() const;
    void publishDesc(const std::string&);
    bool wantSample();
    void sample(const std::string&);
    void info(const std::string& key, u64 value);   // extra coverage number (max over workers)
};

typedef void (*PropFn)(Ctx&);
struct Prop { const char* id; PropFn fn; const char* bounds; const char* oracle; };
std::map<std::string, Prop>& props();
struct Reg { Reg(const char* id, PropFn fn, const char* bounds, const char* oracle) { props()[id] = Prop{id, fn, bounds, oracle}; } };
#define PROPERTY(ID, BOUNDS, ORACLE) static void prop_##ID(Ctx& c); static Reg reg_##ID(#ID, prop_##ID, BOUNDS, ORACLE); static void prop_##ID(Ctx& c)

std::string showText(const std::string& s);       // printable form
template <class... A> std::string fmt(const char* f, A... a) { char b[4096]; snprintf(b, sizeof b, f, a...); return b; }
}
