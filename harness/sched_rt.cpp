// Runtime behind -fsanitize=thread instrumentation: instead of detecting races in one accidental schedule, every memory
// access and every synchronisation of the library code comes here and the schedule is ours. Exactly one thread runs at a
// time. Never compiled with the instrumentation itself.
#include "sched_rt.h"
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <cerrno>
#include <ctime>
#include <pthread.h>
#include <link.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <unistd.h>
typedef unsigned long ul;
typedef unsigned char u8;
extern "C" { void* __libc_malloc(size_t); void __libc_free(void*); void* __libc_calloc(size_t, size_t); void* __libc_realloc(void*, size_t); void* __libc_memalign(size_t, size_t); }
namespace sched {
static const ul ARENA = 64ul << 20, STACK = 16ul << 20, ROOM = MAXT * (ARENA + STACK), CELLS = 1ul << 18;
struct Th { int id; bool done; const void* waits; u8 *stack, *arena; ul used; sem_t sem; uint32_t vc[MAXT]; pthread_t p; const std::function<void()>* f; unsigned spin; void* pc; };
// who touched eight bytes, when, and which of them; the bytes touched earlier are kept with the later time (can only make two accesses look concurrent)
struct Touch { uint32_t w[MAXT], r[MAXT]; u8 wb[MAXT], rb[MAXT], inexact; };
struct Cell { ul key; Touch t; };
struct Obj { ul key; uint32_t rel[MAXT]; u8 syncR, syncW; int owner; int readers; };
static Th th[MAXT]; static int nth = 0;
static Cell* cells; static Out* out; static const Switch* sw; static unsigned nsw, nextSw; static ul budget;
static sem_t over;
static thread_local Th* me __attribute__((tls_model("local-exec"))) = nullptr;
static u8* base = nullptr;

static ul hashOf(ul k) { return (k * 0x9e3779b97f4a7c15ul) >> 40; }
static Touch* shadow;                                             // of the threads' own memory
static Touch* cell(ul key) {
    if (key - (ul) base < ROOM) return &shadow[(key - (ul) base) / 8];
    for (ul i = (hashOf(key >> 9) * 64 + (key >> 3) % 64) % CELLS, n = 0; n < CELLS / 2;   /* neighbours stay neighbours: fewer pages */ i = (i + 1) % CELLS, n++) {
        if (cells[i].key == key) return &cells[i].t;
        if (!cells[i].key) { cells[i].key = key; return &cells[i].t; }
    }
    out->full = true; return nullptr;
}
static Obj objs[4096];
static Obj* obj(ul key) {
    for (ul i = hashOf(key) % 4096, n = 0; n < 4096; i = (i + 1) % 4096, n++) {
        if (objs[i].key == key) return &objs[i];
        if (!objs[i].key) { objs[i].key = key; objs[i].owner = -1; return &objs[i]; }
    }
    return nullptr;
}
static struct { ul key; u8 mask; } places[2 * MAXR];              // open hash of out->places
static u8* placeOf(ul key) { for (ul i = hashOf(key) % (2 * MAXR);; i = (i + 1) % (2 * MAXR)) { if (places[i].key == key) return &places[i].mask; if (!places[i].key) return nullptr; } }
static void addPlace(ul key, u8 mask, bool isNew) {
    ul i = hashOf(key) % (2 * MAXR);
    for (;; i = (i + 1) % (2 * MAXR)) { if (places[i].key == key) break; if (!places[i].key) { if (isNew && out->nplaces >= MAXR - 1) { out->full = true; return; } places[i].key = key; break; } }
    if (!isNew) { places[i].mask |= mask; return; }
    if ((places[i].mask & mask) == mask) return;
    // takes effect in the next execution: the points of this one stay what its schedule was made for
    for (unsigned j = 0; j < out->nplaces; j++) if (out->places[j].key == key) { if ((out->places[j].mask & mask) != mask) { out->places[j].mask |= mask; out->grew = true; } return; }
    out->places[out->nplaces].key = key; out->places[out->nplaces].mask = mask; ++out->nplaces; out->grew = true;
}
[[noreturn]] static void stop(int why) { out->state = why; _exit(0); }
static void pass(int to) { Th* m = me; sem_post(&th[to].sem); while (sem_wait(&m->sem)) {} }
static bool runnable(int i) { return !th[i].done && !th[i].waits; }
static void giveUp() {                                            // the running thread can not go on
    for (int k = 1; k < nth; k++) { int i = (me->id + k) % nth; if (runnable(i)) { pass(i); return; } }
    stop(2);
}
static void point() {
    unsigned n = out->points++;
    if (n < 65536) out->pointThread[n] = me->id;
    while (nextSw < nsw && sw[nextSw].at < n) ++nextSw;
    if (nextSw < nsw && sw[nextSw].at == n) { int to = sw[nextSw++].to; if (to != me->id && runnable(to)) { me->spin = 0; pass(to); } }
}
// locks and counters of the shared libraries themselves: held only inside uninstrumented code, so never across a switch
static struct { ul from, to; } libs[32]; static int nlibs = 0;
static int module(struct dl_phdr_info* i, size_t, void*) {
    if (!i->dlpi_name || !i->dlpi_name[0]) return 0;               // the program
    ul lo = ~0ul, hi = 0;
    for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_LOAD) { ul a = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr; if (a < lo) lo = a; if (a + i->dlpi_phdr[k].p_memsz > hi) hi = a + i->dlpi_phdr[k].p_memsz; }
    if (nlibs < 32) { libs[nlibs].from = lo; libs[nlibs++].to = hi; }
    return 0;
}
static bool inLibrary(const void* p) { for (int i = 0; i < nlibs; i++) if ((ul) p >= libs[i].from && (ul) p < libs[i].to) return true; return false; }
static void tick() { if (++out->accesses > budget) stop(3); }
static void access(const void* p, ul size, bool write) {
    ul a = (ul) p;
    if (a - (ul) me->stack < STACK) return;
    me->spin = 0; tick();
    while (size) {
        ul key = a & ~7ul; unsigned from = a & 7, n = 8 - from < size ? 8 - from : (unsigned) size; u8 mask = (u8) (((1u << n) - 1) << from);
        u8* m = placeOf(key); if (m && (*m & mask)) point();
        if (Touch* c = cell(key)) {
            int t = me->id, with = 0; u8 bad = 0;
            for (int u = 0; u < nth; u++) if (u != t) { u8 b = 0; if (c->w[u] > me->vc[u]) b |= c->wb[u] & mask; if (write && c->r[u] > me->vc[u]) b |= c->rb[u] & mask; if (b) { bad |= b; with = u; } }
            if (write) { if (c->w[t] != me->vc[t]) c->inexact |= c->wb[t] & ~mask; c->w[t] = me->vc[t]; c->wb[t] |= mask; } else { if (c->r[t] != me->vc[t]) c->inexact |= c->rb[t] & ~mask; c->r[t] = me->vc[t]; c->rb[t] |= mask; }
            if ((bad & ~c->inexact) && !out->race && !inLibrary(me->pc)) { out->raceAt = a; out->racePc = (ul) me->pc; out->raceWrite = write; out->raceBy = t; out->raceWith = with; out->race = 1; }
            if (bad) addPlace(key, bad, true);
        }
        a += n; size -= n;
    }
}
// synchronisation objects
static Obj* sync(const void* p, bool write) {
    tick();
    ul key = ((ul) p) | (1ul << 63);
    if (placeOf(key)) point();
    Obj* c = obj(key); if (!c) stop(4);
    (write ? c->syncW : c->syncR) |= (u8) (1u << me->id);
    u8 any = c->syncR | c->syncW;
    if (c->syncW && (any & (any - 1))) addPlace(key, 255, true);
    return c;
}
static void acquire(Obj* c) { for (int u = 0; u < nth; u++) if (c->rel[u] > me->vc[u]) me->vc[u] = c->rel[u]; }
static void release(Obj* c) { for (int u = 0; u < nth; u++) if (me->vc[u] > c->rel[u]) c->rel[u] = me->vc[u]; ++me->vc[me->id]; }
// adding to a counter on the heap or in the C++ runtime (a reference count): additions commute as long as none reaches zero
extern "C" char __data_start, _end;
static void count(const void* p, bool toZero) { if (toZero || ((const char*) p >= &__data_start && (const char*) p < &_end)) { Obj* c = sync(p, true); if (toZero) { acquire(c); release(c); } } else { tick(); if (Obj* c = obj((ul) p | (1ul << 63))) c->syncR |= (u8) (1u << me->id); } }
static void wait(const void* p) { me->waits = p; giveUp(); }
static void wake(const void* p) { for (int i = 0; i < nth; i++) if (th[i].waits == p) th[i].waits = nullptr; }
static void spin() { if (++me->spin > 2000) { me->spin = 0; for (int k = 1; k < nth; k++) { int i = (me->id + k) % nth; if (runnable(i)) { pass(i); return; } } } }

void prepare() {
    if (base) return;
    dl_iterate_phdr(module, nullptr);
    ul total = ROOM;
    base = (u8*) mmap(nullptr, total, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    cells = (Cell*) mmap(nullptr, CELLS * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    shadow = (Touch*) mmap(nullptr, ROOM / 8 * sizeof(Touch), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (shadow == MAP_FAILED || base == MAP_FAILED || cells == MAP_FAILED) { perror("mmap"); _exit(2); }
    for (int i = 0; i < MAXT; i++) { th[i].stack = base + i * (ARENA + STACK); th[i].arena = th[i].stack + STACK; }
}
static void* body(void* a) {
    Th* t = (Th*) a;
    while (sem_wait(&t->sem)) {}
    me = t;
    (*t->f)();
    me = nullptr;
    t->done = true; wake(t);
    for (int k = 1; k < nth; k++) { int i = (t->id + k) % nth; if (runnable(i)) { sem_post(&th[i].sem); return nullptr; } }
    for (int i = 0; i < nth; i++) if (!th[i].done) stop(2);
    sem_post(&over);
    return nullptr;
}
void execute(const std::vector<std::function<void()>>& threads, int first, const std::vector<Switch>& switches, Out* o) {
    prepare();
    out = o; nth = (int) threads.size(); sw = switches.data(); nsw = (unsigned) switches.size(); nextSw = 0; budget = 400000000ul;
    out->state = 0; out->points = 0; out->grew = false; out->accesses = 0; out->race = 0;
    for (unsigned i = 0; i < out->nplaces; i++) addPlace(out->places[i].key, out->places[i].mask, false);
    sem_init(&over, 0, 0);
    for (int i = 0; i < nth; i++) {
        Th& t = th[i]; t.id = i; t.done = false; t.waits = nullptr; t.used = 0; t.f = &threads[i]; t.spin = 0;
        for (int u = 0; u < MAXT; u++) t.vc[u] = u == i;
        sem_init(&t.sem, 0, 0);
        pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstack(&at, t.stack, STACK);
        if (pthread_create(&t.p, &at, body, &t)) { perror("pthread_create"); _exit(2); }
    }
    sem_post(&th[first].sem);
    while (sem_wait(&over)) {}
    for (int i = 0; i < nth; i++) pthread_join(th[i].p, nullptr);
    out->state = 1;
}
static void* bump(ul n, ul align) {
    if (align < 16) align = 16;
    ul at = (me->used + 16 + align - 1) / align * align;
    if (at + n + 64 > ARENA) return nullptr;
    me->used = at + n;
    *(ul*) (me->arena + at - 8) = n;
    return me->arena + at;
}
static bool inArena(const void* p) { return base && (ul) p - (ul) base < ROOM; }
}
using namespace sched;

// ---------- memory: what a thread allocates is never given to another one, so that equal addresses mean the same object ----------
#define PC me->pc = __builtin_return_address(0);
#define PLAIN __attribute__((optimize("no-tree-loop-distribute-patterns")))
extern "C" {
void* malloc(size_t n) { return me ? bump(n, 16) : __libc_malloc(n); }
void free(void* p) { if (p && !inArena(p)) __libc_free(p); }
void* calloc(size_t a, size_t b) { return me ? bump(a * b, 16) : __libc_calloc(a, b); }    // fresh pages are zero and never reused
void* memalign(size_t al, size_t n) { return me ? bump(n, al) : __libc_memalign(al, n); }
void* aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
int posix_memalign(void** out, size_t al, size_t n) { *out = memalign(al, n); return *out ? 0 : ENOMEM; }
void* realloc(void* p, size_t n) {
    if (!me && !inArena(p)) return __libc_realloc(p, n);
    void* q = malloc(n); if (!q) return nullptr;
    if (p) { size_t old = inArena(p) ? ((size_t*) p)[-1] : n; __builtin_memcpy(q, p, old < n ? old : n); free(p); }
    return q;
}
static void copyBytes(void* d, const void* s, size_t n) { __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory"); }
void* memcpy(void* d, const void* s, size_t n) { if (me && n) { PC access(s, n, false); access(d, n, true); } copyBytes(d, s, n); return d; }
PLAIN void* memmove(void* d, const void* s, size_t n) {
    if (me && n) { PC access(s, n, false); access(d, n, true); }
    if ((ul) d - (ul) s >= n) copyBytes(d, s, n);
    else { volatile u8* e = (volatile u8*) d; const volatile u8* f = (const volatile u8*) s; while (n--) e[n] = f[n]; }
    return d;
}
void* memset(void* d, int v, size_t n) { if (me && n) { PC access(d, n, true); } void* p = d; __asm__ volatile("rep stosb" : "+D"(p), "+c"(n) : "a"(v) : "memory"); return d; }

// ---------- plain accesses ----------
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(N) void __tsan_read##N(void* p) { if (me) { PC access(p, N, false); } } void __tsan_write##N(void* p) { if (me) { PC access(p, N, true); } } \
    void __tsan_unaligned_read##N(void* p) { if (me) { PC access(p, N, false); } } void __tsan_unaligned_write##N(void* p) { if (me) { PC access(p, N, true); } } \
    void __tsan_volatile_read##N(void* p) { if (me) { PC access(p, N, false); } } void __tsan_volatile_write##N(void* p) { if (me) { PC access(p, N, true); } }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, ul n) { if (me && n) { PC access(p, n, false); } }
void __tsan_write_range(void* p, ul n) { if (me && n) { PC access(p, n, true); } }
void __tsan_vptr_update(void** p, void*) { if (me) { PC access(p, 8, true); } }
void __tsan_vptr_read(void** p) { if (me) { PC access(p, 8, false); } }

// ---------- atomics: one thread runs at a time, so plain operations are atomic ----------
#define ATOMIC(B, T) \
    T __tsan_atomic##B##_load(const volatile T* p, int) { if (me) { acquire(sync((const void*) p, false)); spin(); } return *p; } \
    void __tsan_atomic##B##_store(volatile T* p, T v, int) { if (me) release(sync((const void*) p, true)); *p = v; } \
    T __tsan_atomic##B##_exchange(volatile T* p, T v, int) { if (me) { Obj* c = sync((const void*) p, true); acquire(c); release(c); spin(); } T o = *p; *p = v; return o; } \
    T __tsan_atomic##B##_fetch_add(volatile T* p, T v, int) { if (me) count((const void*) p, false); T o = *p; *p = o + v; return o; } \
    T __tsan_atomic##B##_fetch_sub(volatile T* p, T v, int) { if (me) count((const void*) p, *p == v); T o = *p; *p = o - v; return o; } \
    T __tsan_atomic##B##_fetch_and(volatile T* p, T v, int) { if (me) sync((const void*) p, true); T o = *p; *p = o & v; return o; } \
    T __tsan_atomic##B##_fetch_or(volatile T* p, T v, int) { if (me) sync((const void*) p, true); T o = *p; *p = o | v; return o; } \
    T __tsan_atomic##B##_fetch_xor(volatile T* p, T v, int) { if (me) sync((const void*) p, true); T o = *p; *p = o ^ v; return o; } \
    T __tsan_atomic##B##_fetch_nand(volatile T* p, T v, int) { if (me) sync((const void*) p, true); T o = *p; *p = ~(o & v); return o; } \
    int __tsan_atomic##B##_compare_exchange_strong(volatile T* p, T* e, T v, int, int) { if (me) { Obj* c = sync((const void*) p, true); acquire(c); release(c); spin(); } if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
    int __tsan_atomic##B##_compare_exchange_weak(volatile T* p, T* e, T v, int a, int b) { return __tsan_atomic##B##_compare_exchange_strong(p, e, v, a, b); } \
    T __tsan_atomic##B##_compare_exchange_val(volatile T* p, T e, T v, int a, int b) { __tsan_atomic##B##_compare_exchange_strong(p, &e, v, a, b); return e; }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

// ---------- initialisation of local statics ----------
int __cxa_guard_acquire(volatile u8* g) {
    if (!me) { if (g[0]) return 0; g[1] = 1; return 1; }
    while (true) {
        Obj* c = sync((const void*) g, true);
        if (g[0]) { acquire(c); return 0; }
        if (!g[1]) { g[1] = 1; return 1; }
        wait((const void*) g);
    }
}
void __cxa_guard_release(volatile u8* g) { Obj* c = me ? sync((const void*) g, true) : nullptr; g[1] = 0; g[0] = 1; if (me) { release(c); wake((const void*) g); } }
void __cxa_guard_abort(volatile u8* g) { Obj* c = me ? sync((const void*) g, true) : nullptr; g[1] = 0; if (me) { release(c); wake((const void*) g); } }

// ---------- locks ----------
static int lockIt(const void* m, bool shared, bool tryOnly) {
    if (!me || inLibrary(m)) return 0;
    while (true) {
        Obj* c = sync(m, true);
        if (c->owner == me->id && !shared) { ++c->readers; return 0; }             // recursive
        if (c->owner < 0 && (shared || !c->readers)) { if (shared) ++c->readers; else c->owner = me->id; acquire(c); return 0; }
        if (tryOnly) return EBUSY;
        wait(m);
    }
}
static int unlockIt(const void* m) {
    if (!me || inLibrary(m)) return 0;
    Obj* c = sync(m, true);
    if (c->owner == me->id) { if (c->readers) { --c->readers; return 0; } c->owner = -1; } else if (c->readers) --c->readers;
    release(c); wake(m);
    return 0;
}
int pthread_mutex_lock(pthread_mutex_t* m) { return lockIt(m, false, false); }
int pthread_mutex_trylock(pthread_mutex_t* m) { return lockIt(m, false, true); }
int pthread_mutex_unlock(pthread_mutex_t* m) { return unlockIt(m); }
int pthread_rwlock_rdlock(pthread_rwlock_t* m) { return lockIt(m, true, false); }
int pthread_rwlock_wrlock(pthread_rwlock_t* m) { return lockIt(m, false, false); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* m) { return lockIt(m, true, true); }
int pthread_rwlock_trywrlock(pthread_rwlock_t* m) { return lockIt(m, false, true); }
int pthread_rwlock_unlock(pthread_rwlock_t* m) { return unlockIt(m); }
int pthread_spin_lock(pthread_spinlock_t* m) { return lockIt((const void*) m, false, false); }
int pthread_spin_unlock(pthread_spinlock_t* m) { return unlockIt((const void*) m); }
int pthread_once(pthread_once_t* o, void (*f)()) {
    volatile int* s = (volatile int*) o;
    if (!me || inLibrary(o)) { if (!(*s & 2)) { f(); *s = 2; } return 0; }
    while (true) {
        Obj* c = sync(o, true);
        if (*s & 2) { acquire(c); return 0; }
        if (!(*s & 1)) { *s = 1; f(); c = sync(o, true); *s = 2; release(c); wake(o); return 0; }
        wait(o);
    }
}
int sched_yield() { if (me) { me->spin = 3000; spin(); } return 0; }

// ---------- functions of the C library that answer in memory shared by all threads ----------
static struct tm clockBuf; static char textBuf[64]; static char* tokenAt;
struct tm* localtime(const time_t* t) { if (me) { PC access(&clockBuf, sizeof clockBuf, true); } return localtime_r(t, &clockBuf); }
struct tm* gmtime(const time_t* t) { if (me) { PC access(&clockBuf, sizeof clockBuf, true); } return gmtime_r(t, &clockBuf); }
char* asctime(const struct tm* t) { if (me) { PC access(textBuf, sizeof textBuf, true); } return asctime_r(t, textBuf); }
char* ctime(const time_t* t) { if (me) { PC access(textBuf, sizeof textBuf, true); } return ctime_r(t, textBuf); }
char* strtok(char* s, const char* d) { if (me) { PC access(&tokenAt, sizeof tokenAt, true); } return strtok_r(s, d, &tokenAt); }
}
