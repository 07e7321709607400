#include "core.h"
#include <chrono>
#include <csignal>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>
#include <unordered_set>
#include <algorithm>
namespace mcx {

static const unsigned MAXW = 64;
struct Slot {
    volatile long long current;    // case being executed, -1 between cases
    volatile u64 seq;              // progress counter
    volatile bool finished;
    u64 cases, ops;
    char sample[3][600]; unsigned samples;
    struct Bad { long long index; char desc[1500]; char what[1500]; bool sure; } bad[4]; unsigned bads;
    struct Info { char key[40]; u64 v; } info[12]; unsigned infos;
    char desc[3000];
};
struct Shared { volatile bool stop; Slot slot[MAXW]; };
// distinct observed behaviours over all workers: hash set in shared memory
static const u64 SEEN = 1u << 22;
static u64* seen = nullptr; static u64* seenCount = nullptr;

std::map<std::string, Prop>& props() { static std::map<std::string, Prop> p; return p; }

std::string showText(const std::string& s) {
    std::string r = "'";
    size_t n = 0;
    for (unsigned char c : s) {
        if (++n > 300) { r += fmt("'...(%zu bytes)", s.size()); return r; }
        if (c == '\n') r += "\\n"; else if (c == '\t') r += "\\t"; else if (c == '\r') r += "\\r";
        else if (c < 32 || c == 127) r += fmt("\\x%02x", c); else r += (char) c;
    }
    return r + "'";
}

bool Ctx::take() {
    ++index;
    if (only >= 0) return index == only;
    if (index % workers != me) return false;
    if (index < from || (upto >= 0 && index > upto)) return false;
    if (sh->stop) return false;
    Slot& s = sh->slot[me];
    s.current = index; s.seq = s.seq + 1;
    return true;
}
void Ctx::done() { if (sh) { Slot& s = sh->slot[me]; ++s.cases; s.current = -1; } }
void Ctx::fail(const std::string& desc, const std::string& what) {
    Slot& s = sh->slot[me];
    ++s.cases;
    static const char* list = getenv("MC_LIST");          // development aid: write every mismatch there and go on
    if (list && only < 0) { if (FILE* f = fopen(list, "a")) { fprintf(f, "%s\n    %s\n", desc.c_str(), what.c_str()); fclose(f); } s.current = -1; return; }
    if (s.bads < 4) {
        auto& b = s.bad[s.bads];
        b.index = index; snprintf(b.desc, sizeof b.desc, "%s", desc.c_str()); snprintf(b.what, sizeof b.what, "%s", what.c_str());
        ++s.bads;
    }
    s.current = -1;
    if (s.bads >= 2) sh->stop = true;
}
void Ctx::outcome(u64 h) {
    if (!h) h = 1;
    if (*seenCount > SEEN / 8 * 7) return;
    for (u64 i = h * 0x9e3779b97f4a7c15ULL >> 42;; i = (i + 1) % SEEN) {
        u64 was = __atomic_load_n(&seen[i], __ATOMIC_RELAXED);
        if (was == h) return;
        if (!was) { if (__atomic_compare_exchange_n(&seen[i], &was, h, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) { __atomic_fetch_add(seenCount, 1, __ATOMIC_RELAXED); return; } if (was == h) return; }
    }
}
void Ctx::ops(u64 n) { sh->slot[me].ops += n; }
void Ctx::alive() { ++sh->slot[me].seq; }
bool Ctx::stopped() const { return sh->stop; }
void Ctx::publishDesc(const std::string& d) { snprintf(sh->slot[me].desc, sizeof sh->slot[me].desc, "%s", d.c_str()); }
bool Ctx::wantSample() { Slot& s = sh->slot[me]; return s.samples < 3 && (s.cases == 1 || s.cases == 97 || s.cases == 1009); }
void Ctx::sample(const std::string& d) { Slot& s = sh->slot[me]; snprintf(s.sample[s.samples], 600, "%s", d.c_str()); ++s.samples; }
void Ctx::info(const std::string& k, u64 v) {
    Slot& s = sh->slot[me];
    for (unsigned i = 0; i < s.infos; i++) if (k == s.info[i].key) { s.info[i].v = v; return; }
    if (s.infos < 12) { snprintf(s.info[s.infos].key, 40, "%s", k.c_str()); s.info[s.infos].v = v; ++s.infos; }
}

static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

static pid_t spawnChild(Ctx proto, PropFn fn) {
    fflush(stdout); fflush(stderr);
    pid_t p = fork();
    if (p) return p;
    setpgid(0, 0);
    int nul = open("/dev/null", O_RDWR);
    dup2(nul, 0);
    if (!getenv("MC_KEEP_STDERR")) dup2(nul, 2);
    struct rlimit rl{0, 0}; setrlimit(RLIMIT_CORE, &rl);
#ifndef __SANITIZE_ADDRESS__
    rl.rlim_cur = rl.rlim_max = 3ULL << 30; setrlimit(RLIMIT_AS, &rl);
#endif
    fn(proto);
    proto.sh->slot[proto.me].finished = true;
    proto.sh->slot[proto.me].current = -1;
    _exit(0);
}

static std::string jsonEsc(const std::string& s) {
    std::string r;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += (char) c; }
        else if (c == '\n') r += "\\n";
        else if (c < 32 || c >= 127) r += fmt("\\u%04x", c);
        else r += (char) c;
    }
    return r;
}

struct Verdict { bool bad; std::string desc, what; bool hang; };

// runs one case (or the shard prefix up to it) in a fresh process
static Verdict alone(const Ctx& base, Shared* sh, PropFn fn, long long idx, bool prefix, unsigned me, double limit) {
    memset((void*) sh, 0, sizeof *sh);
    Ctx c = base; c.sh = sh;
    if (prefix) { c.me = me; c.upto = idx; } else { c.only = idx; c.me = 0; c.workers = 1; }
    Slot& s = sh->slot[c.me];
    pid_t p = spawnChild(c, fn);
    double t0 = now(), tp = t0; u64 seq = 0; int st = 0; bool hang = false;
    while (true) {
        pid_t r = waitpid(p, &st, WNOHANG);
        if (r == p) break;
        if (s.seq != seq) { seq = s.seq; tp = now(); }
        if (now() - (prefix ? tp : t0) > limit) { kill(-p, SIGKILL); kill(p, SIGKILL); waitpid(p, &st, 0); hang = true; break; }
        usleep(2000);
    }
    if (hang) return {true, s.desc, fmt("does not terminate within %.0f s", limit), true};
    for (unsigned i = 0; i < s.bads; i++) if (s.bad[i].index == idx) return {true, s.bad[i].desc, s.bad[i].what, false};
    if (!s.finished) {
        if (WIFSIGNALED(st)) return {true, s.desc, fmt("the process is killed by signal %d", WTERMSIG(st)), false};
        return {true, s.desc, fmt("the process ends with status %d in the middle of the call", WEXITSTATUS(st)), false};
    }
    return {false, s.desc, "", false};
}

static int run(int argc, char** argv) {
    std::string id, out; Ctx base; long long replay = -1; bool list = false;
    base.workers = 8;
    double hangLimit = 20, budget = 0; std::string prefixSpec;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        if (a == "--tier") base.thorough = std::string(argv[++i]) == "thorough";
        else if (a == "--out") out = argv[++i];
        else if (a == "--case") replay = atoll(argv[++i]);
        else if (a == "--prefix") prefixSpec = argv[++i];
        else if (a == "--workers") base.workers = atoi(argv[++i]);
        else if (a == "--budget") budget = atof(argv[++i]);
        else if (a == "--list") list = true;
        else id = a;
    }
    if (list) { for (auto& p : props()) printf("%s\n", p.first.c_str()); return 0; }
    if (!props().count(id)) { fprintf(stderr, "unknown property %s\n", id.c_str()); return 2; }
    PropFn fn = props()[id].fn;
    Shared* sh = (Shared*) mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    Shared* sh2 = (Shared*) mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    seen = (u64*) mmap(nullptr, (SEEN + 8) * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); seenCount = seen + SEEN;
    if (replay >= 0) {
        bool prefix = !prefixSpec.empty();
        unsigned me = 0; if (prefix) sscanf(prefixSpec.c_str(), "%u/%u", &me, &base.workers);
        Verdict v = alone(base, sh2, fn, replay, prefix, me, 120);
        printf("case %lld: %s\n%s%s\n", replay, v.desc.c_str(), v.bad ? "VIOLATED: " : "holds", v.what.c_str());
        return v.bad ? 1 : 0;
    }
    double t0 = now();
    memset((void*) sh, 0, sizeof *sh);
    struct W { pid_t pid; u64 seq; double tp; bool live; };
    std::vector<W> w(base.workers);
    auto start = [&](unsigned k, long long from) {
        Ctx c = base; c.sh = sh; c.me = k; c.from = from;
        w[k] = {spawnChild(c, fn), sh->slot[k].seq, now(), true};
    };
    for (unsigned k = 0; k < base.workers; k++) start(k, 0);
    std::vector<std::pair<long long, unsigned>> suspects; bool timeout = false;
    unsigned alive = base.workers;
    while (alive) {
        usleep(3000);
        for (unsigned k = 0; k < base.workers; k++) {
            if (!w[k].live) continue;
            Slot& s = sh->slot[k];
            int st; pid_t r = waitpid(w[k].pid, &st, WNOHANG);
            bool dead = r == w[k].pid;
            if (!dead) {
                if (s.seq != w[k].seq || s.current < 0) { w[k].seq = s.seq; w[k].tp = now(); }
                else if (now() - w[k].tp > (sh->stop ? 5 : hangLimit)) { kill(-w[k].pid, SIGKILL); kill(w[k].pid, SIGKILL); waitpid(w[k].pid, &st, 0); dead = true; }
                if (!dead) continue;
            }
            w[k].live = false; --alive;
            if (s.finished) continue;
            long long cur = s.current;
            if (cur < 0) { fprintf(stderr, "worker %u ended between cases (status %d)\n", k, st); cur = s.bads ? -1 : -1; }
            if (cur >= 0 && sh->stop) continue;            // already decided elsewhere
            if (cur >= 0) {
                suspects.push_back({cur, k});
                if (suspects.size() >= 40) { sh->stop = true; continue; }
                // decide it now, alone; go on with the next case of the shard
                Verdict v = alone(base, sh2, fn, cur, false, 0, 60);
                if (v.bad) {
                    if (s.bads < 4) { auto& b = s.bad[s.bads]; b.index = cur; snprintf(b.desc, sizeof b.desc, "%s", v.desc.c_str()); snprintf(b.what, sizeof b.what, "%s", v.what.c_str()); b.sure = true; ++s.bads; }
                    sh->stop = true; continue;
                }
                ++s.cases;
                start(k, cur + 1); ++alive;
            } else { fprintf(stderr, "machinery error: worker lost\n"); return 2; }
        }
        if (budget > 0 && now() - t0 > budget) { timeout = true; sh->stop = true; }
    }
    u64 cases = 0, ops = 0, distinct = *seenCount; std::map<std::string, u64> info; std::vector<std::string> samples;
    std::vector<std::pair<long long, unsigned>> bads;
    for (unsigned k = 0; k < base.workers; k++) {
        Slot& s = sh->slot[k];
        cases += s.cases; ops += s.ops;
        for (unsigned i = 0; i < s.infos; i++) info[s.info[i].key] = std::max(info[s.info[i].key], s.info[i].v);
        for (unsigned i = 0; i < s.samples && samples.size() < 8; i++) samples.push_back(s.sample[i]);
        for (unsigned i = 0; i < s.bads; i++) bads.push_back({s.bad[i].index, k});
    }
    std::sort(bads.begin(), bads.end());
    FILE* f = fopen(out.c_str(), "w");
    if (!f) { perror(out.c_str()); return 2; }
    fprintf(f, "{\"property\":\"%s\",\"cases\":%llu,\"ops\":%llu,\"distinct\":%llu,\"suspects\":%zu,\"budget_hit\":%s,\"wall\":%.2f,\n",
            id.c_str(), cases, ops, distinct, suspects.size(), timeout ? "true" : "false", now() - t0);
    fprintf(f, "\"bounds\":\"%s\",\"oracle\":\"%s\",\n\"info\":{", jsonEsc(props()[id].bounds).c_str(), jsonEsc(props()[id].oracle).c_str());
    bool first = true;
    for (auto& i : info) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", jsonEsc(i.first).c_str(), i.second); first = false; }
    fprintf(f, "},\n\"samples\":[");
    for (size_t i = 0; i < samples.size(); i++) fprintf(f, "%s\"%s\"", i ? "," : "", jsonEsc(samples[i]).c_str());
    fprintf(f, "],\n\"violations\":[");
    first = true; int n = 0;
    for (auto& b : bads) {
        if (n >= 3) break;
        Slot& s = sh->slot[b.second];
        std::string d, what;
        for (unsigned i = 0; i < s.bads; i++) if (s.bad[i].index == b.first) { d = s.bad[i].desc; what = s.bad[i].what; }
        std::string mode = "alone"; bool sure = false;
        for (unsigned i = 0; i < s.bads; i++) if (s.bad[i].index == b.first) sure = s.bad[i].sure;
        Verdict v{true, d, what, false};
        if (!sure) {
            v = alone(base, sh2, fn, b.first, false, 0, 60);
            if (!v.bad) { v = alone(base, sh2, fn, b.first, true, b.second, 60); mode = fmt("prefix %u/%u", b.second, base.workers); }
        }
        if (!v.bad) mode = "unconfirmed"; else ++n;
        fprintf(f, "%s{\"case\":%lld,\"mode\":\"%s\",\"desc\":\"%s\",\"what\":\"%s\"}", first ? "" : ",\n", b.first, mode.c_str(),
                jsonEsc(v.bad && !v.desc.empty() && mode == "alone" ? v.desc : d).c_str(), jsonEsc(v.bad ? v.what : what).c_str());
        first = false;
    }
    fprintf(f, "]}\n"); fclose(f);
    return 0;
}
}
int main(int argc, char** argv) { return mcx::run(argc, argv); }
