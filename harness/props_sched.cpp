// C29: every schedule of threads that use the library at the same time. Only in the variant "sched".
#include "core.h"
#include "model.h"
#include "adapter_int.h"
#include "sched_rt.h"
#include <climits>
#include <chrono>
#include <dlfcn.h>
#include <locale>
#include <set>
#include <deque>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
namespace mcx {
static std::string lower(std::string s) { for (char& ch : s) ch = (char) tolower((unsigned char) ch); return s; }
struct Job { int fam; std::string text; DT ref; };                 // fam -1: everything the program does between argument and answer
static std::string exec29(const Job& j) {
    if (j.fam < 0) return runAll(j.text, j.ref);
    Parsed p = runParser(j.fam, j.text, j.ref, true);
    return p.error + show(p.r) + (show(p.ref) == show(j.ref) ? "" : " REFERENCE CHANGED to " + show(p.ref)) + (lower(p.text) == lower(j.text) ? "" : " TEXT CHANGED to " + showText(p.text));
}
static std::string show(const Job& j) { return j.fam < 0 ? "the whole pipeline on " + showText(j.text) + " at " + show(j.ref) : fmt("parser %s on ", FAM_NAME[j.fam]) + showText(j.text) + " at " + show(j.ref); }
static const size_t ANSWER = 3000;
struct Board { sched::Out out; u64 runs, points, cut; volatile int ended; char found[ANSWER]; struct { volatile int state; char text[ANSWER]; } a[sched::MAXT]; };
static Board* board = nullptr;
static void put(int t, const std::string& s) { snprintf(board->a[t].text, ANSWER, "%s", s.c_str()); board->a[t].state = 1; }
static int inChild(std::function<void()> f) {
    pid_t p = fork();
    if (p == 0) { alarm(60); f(); _exit(0); }
    int st; while (waitpid(p, &st, 0) < 0) {}
    return st;
}
static std::map<std::string, std::string> aloneAnswers;
static std::string alone(const Job& j) {
    std::string key = fmt("%d %s %s", j.fam, show(j.ref).c_str(), j.text.c_str());
    auto it = aloneAnswers.find(key); if (it != aloneAnswers.end()) return it->second;
    board->a[0].state = 0;
    inChild([&] { put(0, exec29(j)); });
    return aloneAnswers[key] = board->a[0].state ? board->a[0].text : "ENDS THE PROCESS";
}
struct Plan { int first; std::vector<sched::Switch> sw; };
static std::string show(const Plan& p) {
    std::string s = fmt("thread %d first", p.first); for (auto& w : p.sw) s += fmt(", at point %u to thread %d", w.at, w.to); return s;
}
static std::string where(unsigned long a) { Dl_info d{}; return dladdr((void*) a, &d) && d.dli_fbase ? fmt("global+%lx", a - (unsigned long) d.dli_fbase) : fmt("%lx", a); }
static std::string codeAt(unsigned long pc) {
    Dl_info d{}; if (!dladdr((void*) pc, &d) || !d.dli_fbase) return "?";
    std::string s; char buf[400];
    if (FILE* f = popen(fmt("addr2line -Cfe /proc/%d/exe %lx", (int) getpid(), pc - 1 - (unsigned long) d.dli_fbase).c_str(), "r")) { if (fgets(buf, sizeof buf, f)) s = buf; pclose(f); }
    while (!s.empty() && s.back() == '\n') s.pop_back();
    return s.empty() ? "?" : "in " + s;
}
static u64 totalRuns = 0, totalPoints = 0, totalPlaces = 0, totalCut = 0, mostRuns = 0;
static std::string search(const std::vector<Job>& jobs, const std::vector<std::string>& want, const std::string& before, unsigned k, u64 cap) {
    sched::Out& o = board->out; int restarts = 0; std::string raced;   // a wrong answer says more: go on after a race
    while (true) {
        std::deque<Plan> todo; for (size_t t = 0; t < jobs.size(); t++) todo.push_back({(int) t, {}});
        bool again = false;
        while (!todo.empty() && !again) {
            Plan p = todo.front(); todo.pop_front();
            if (board->runs >= cap) { board->cut = 1; break; }
            ++board->runs;
            for (auto& a : board->a) a.state = 0;
            o.state = 0; o.points = 0; o.grew = false;
            int st = inChild([&] {
                std::vector<std::function<void()>> fs;
                for (size_t t = 0; t < jobs.size(); t++) fs.push_back([&, t] { put((int) t, exec29(jobs[t])); });
                sched::execute(fs, p.first, p.sw, &o);
            });
            std::string how = before + show(p) + ": ";
            if (WIFSIGNALED(st)) return how + (WTERMSIG(st) == SIGALRM ? "does not end" : fmt("the process is killed by signal %d", WTERMSIG(st)));
            if (o.state == 2) return how + "the threads wait for each other for ever";
            if (o.state == 3) return how + "a thread does not end";
            if (o.state != 1) return how + fmt("the process ends with status %d", WEXITSTATUS(st));
            for (size_t t = 0; t < jobs.size(); t++) {
                if (!board->a[t].state) return how + fmt("thread %zu has no answer", t);
                if (want[t] != board->a[t].text) return how + fmt("thread %zu answers ", t) + board->a[t].text + ", alone it answers " + want[t];
            }
            board->points += o.points;
            if (o.race && raced.empty()) raced = how + fmt("thread %d %s memory at %s (%s) that thread %d uses without synchronisation between them", o.raceBy, o.raceWrite ? "writes" : "reads", where(o.raceAt).c_str(), codeAt(o.racePc).c_str(), o.raceWith);
            if (o.grew && restarts < 12) { again = true; ++restarts; break; }
            if (p.sw.size() < k) for (unsigned at = p.sw.empty() ? 0 : p.sw.back().at + 1; at < o.points && at < 65536; at++)
                for (int to = 0; to < (int) jobs.size(); to++) if (to != (int) o.pointThread[at]) { Plan q = p; q.sw.push_back({at, to}); todo.push_back(q); }
        }
        if (!again) return raced;
    }
}
// every schedule of these jobs, one thread each, with up to k switches that are not forced
static std::string explore(Ctx& c, const std::vector<Job>& jobs, bool warm, unsigned k, u64 cap) {
    if (!board) {
        board = (Board*) mmap(nullptr, sizeof(Board), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        auto& ct = std::use_facet<std::ctype<char>>(std::locale());          // the character tables of the C++ runtime fill on first use
        for (int ch = 0; ch < 256; ch++) { ct.narrow((char) ch, '\0'); ct.widen((char) ch); }
        sched::prepare();
    }
    std::vector<std::string> want; for (auto& j : jobs) want.push_back(alone(j));
    // code with many places of interaction in every case: the whole run must still end in time; what is cut off is counted
    static const auto begin = std::chrono::steady_clock::now();
    double spent = std::chrono::duration<double>(std::chrono::steady_clock::now() - begin).count(), slow = c.thorough ? 5 : 1;
    if (spent > 100 * slow) cap = std::min<u64>(cap, spent > 200 * slow ? 4 : 16);
    sched::Out& o = board->out; o.nplaces = 0; o.full = false;
    board->runs = board->points = board->cut = 0; board->found[0] = 0; board->ended = 0;
    int st = inChild([&] {
        if (warm) for (auto& j : jobs) exec29(j);
        snprintf(board->found, ANSWER, "%s", search(jobs, want, warm ? "after one use each, " : "from the start, ", k, cap).c_str());
        board->ended = 1;
    });
    if (getenv("MC_KEEP_STDERR")) fprintf(stderr, "runs %llu points %llu places %u accesses %lu full %d cut %llu\n", board->runs, board->points, o.nplaces, o.accesses, (int) o.full, board->cut);
    if (getenv("MC_KEEP_STDERR")) for (unsigned i = 0; i < o.nplaces && i < 12; i++) { Dl_info d{}; void* a = (void*) (o.places[i].key & ~(1ul << 63)); dladdr(a, &d); fprintf(stderr, "  place %lx%s bytes %02x: %s %s+%ld\n", (unsigned long) a, o.places[i].key >> 63 ? " sync" : "", o.places[i].mask, d.dli_fname ? d.dli_fname : "", d.dli_sname ? d.dli_sname : "", (long) ((char*) a - (char*) (d.dli_saddr ? d.dli_saddr : d.dli_fbase))); }
    if (!board->ended) return fmt("the search ends with status %d", st);
    c.ops(board->runs * jobs.size()); totalRuns += board->runs; totalPoints += board->points; totalCut += board->cut;
    totalPlaces = std::max<u64>(totalPlaces, o.nplaces); mostRuns = std::max(mostRuns, board->runs);
    for (auto& w : want) c.outcome(hashStr(w));
    c.info("schedules executed per worker", totalRuns); c.info("points of interaction per worker", totalPoints); c.info("most places of interaction", totalPlaces); c.info("most schedules of one case", mostRuns); c.info("cases cut off at the limit", totalCut);
    return board->found;
}
PROPERTY(C29, "two threads, each with its own objects: all unordered pairs of 60 jobs (13 parsers x 4 texts, 8 whole pipelines), with everything used before and from a fresh process (fresh process in the quick tier: of pairs with a pipeline a fixed quarter); every form of every family beside another form of its family at another moment (quick: a fixed third to 46th); three threads for every family. Per case every schedule with at most 2 (different families, forms, three threads in the quick tier: 1) unforced switches, over all points at which one thread's memory access or synchronisation can influence the other (none found: one schedule per order stands for all)",
         "the answer of the same job alone in a process of its own; no crash, deadlock or endless loop") {
    const DT r1{2018, 2, 13, 18, 16, 5}, r2{2020, 2, 29, 0, 30, 0};
    static const char* const texts[NFAM][4] = {{"This Morning", "noon foo evening", "night", "nothing here"}, {"in 5 days", "within half an hour", "in 99999999999999999999 days", "in a few Minutes foo in two years"}, {"Next Friday", "tue last week", "early next sat", "sunday foo this mon"},
        {"Tomorrow", "last night", "now", "yesterday, today"}, {"July 24 - 27", "friday feb 29, 2019", "sept. twenty-second 2012 BC", "Dec 31 foo mar 3rd"}, {"2 weeks later", "1 day 3 hours from now", "a few minutes out", "half a year after"}, {"September 2012", "may", "jan. 2555 be", "February, 0018"},
        {"5 days ago", "one month 40 sec ago", "half an hour earlier", "4294967297 years ago"}, {"at 5:30 PM", "10pm to 2am", "25:00", "noon foo 6:07:08 foo 1630"}, {"2018-02-03T09:05:30-05:00", "2018-02-30", "2020-2-29t9:5z", "1999-12-31 foo 2000-01-01"}, {"Thanksgiving", "new year's eve", "labor day", "mlk day foo christmas"},
        {"last 3 weeks", "this week", "next weeks", "next busy weeks"}, {"next 3 months", "this month", "last half year", "past few hours"}};
    std::vector<Job> jobs;
    for (int f = 0; f < NFAM; f++) for (int t = 0; t < 4; t++) jobs.push_back({f, texts[f][t], t % 2 ? r2 : r1});
    for (std::string t : {"Tomorrow at 5pm", "5pm PST foo 7am (est)", "july 5 to july 9", "next friday 10pm to 2am", "5 days ago", "feb 30", "2018-02-03T09:05-05:00", "christmas and thanksgiving, noon"}) jobs.push_back({-1, t, jobs.size() % 2 ? r1 : r2});
    const u64 cap = c.thorough ? 3000 : 300;
    for (size_t a = 0; a < jobs.size(); a++) for (size_t b = a; b < jobs.size(); b++) for (bool warm : {true, false}) {
        if (!warm && !c.thorough && jobs[b].fam < 0 && (jobs[a].fam < 0 ? b - a > 1 : (a + b) % 4)) continue;      // slow
        c.test([&] { return (warm ? "two threads, everything used before: " : "two threads in a fresh process: ") + show(jobs[a]) + "; " + show(jobs[b]); }, [&] { return explore(c, {jobs[a], jobs[b]}, warm, c.thorough || (jobs[a].fam == jobs[b].fam && jobs[a].fam >= 0) ? 2 : 1, cap); });
    }
    for (int f = 0; f < NFAM; f++) {
        auto forms = formsOf(f, true); size_t step = c.thorough ? 1 : f == F_MME ? 46 : f == F_MONTH ? 10 : 3;
        for (size_t i = 0; i < forms.size(); i += step) for (bool warm : {true, false}) { if (!warm && !c.thorough && i / step % 4) continue; Job a{f, forms[i].text, r1}, b{f, forms[(i * 7 + 3) % forms.size()].text, r2};
            c.test([&] { return (warm ? "two threads, everything used before: " : "two threads in a fresh process: ") + show(a) + "; " + show(b); }, [&] { return explore(c, {a, b}, warm, 1, 60); }); }
        for (bool warm : {true, false}) for (int t = 0; t < 4; t++) { std::vector<Job> v{{f, texts[f][t], r1}, {f, texts[f][(t + 1) % 4], r2}, {t % 2 ? f : (f + 1) % NFAM, texts[t % 2 ? f : (f + 1) % NFAM][(t + 2) % 4], r1}};
            c.test([&] { return (warm ? "three threads, everything used before: " : "three threads in a fresh process: ") + show(v[0]) + "; " + show(v[1]) + "; " + show(v[2]); }, [&] { return explore(c, v, warm, c.thorough ? 2 : 1, cap); }); }
    }
}
}
