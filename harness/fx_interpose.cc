// Observes which locks are held when netCDF or udunits is entered.  The functions here stand in front of those of the
// libraries and pass every call on unchanged.
#include "fx_interpose.h"
#include <atomic>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <pthread.h>
#include <unistd.h>

namespace fxi {
std::atomic<int> on{0};
static std::atomic_flag guard = ATOMIC_FLAG_INIT;
struct G { G() { while (guard.test_and_set(std::memory_order_acquire)) ; } ~G() { guard.clear(std::memory_order_release); } };

const int MAXH = 32, MAXL = 64, MAXC = 512;
static void* lockName[MAXL];
static int nLocks = 0;
// per thread
static thread_local void* held[MAXH];
static thread_local int nHeld = 0, depth = 0;

struct Call { int lib; unsigned long long locks; long n; const char* first; };
static Call calls[MAXC];
static int nCalls = 0;
static unsigned long long edges[MAXL]; // edges[a] has bit b: b was taken while a was held
static int selfLock = 0;

static int lockId(void* p)
{
    for (int i = 0; i < nLocks; ++i) if (lockName[i] == p) return i;
    if (nLocks == MAXL) { abort(); }
    lockName[nLocks] = p;
    return nLocks++;
}
static void acquiring(void* p, bool willBlock)
{
    if (!on) return;
    G g;
    const int b = lockId(p);
    for (int i = 0; i < nHeld; ++i) {
        if (held[i] == p && willBlock) selfLock += 1;
        else edges[lockId(held[i])] |= 1ull << b;
    }
}
static void acquired(void* p) { if (nHeld < MAXH) held[nHeld++] = p; }
static void released(void* p)
{
    for (int i = nHeld - 1; i >= 0; --i)
        if (held[i] == p) { memmove(held + i, held + i + 1, sizeof(void*) * (nHeld - i - 1)); nHeld--; return; }
}
void enter(int lib, const char* name)
{
    if (depth++ > 0 || !on) return;
    G g;
    unsigned long long m = 0;
    for (int i = 0; i < nHeld; ++i) m |= 1ull << lockId(held[i]);
    for (int i = 0; i < nCalls; ++i) if (calls[i].lib == lib && calls[i].locks == m) { calls[i].n++; return; }
    if (nCalls < MAXC) { calls[nCalls++] = Call{lib, m, 1, name}; }
}
// mutexes inside the libraries are their own business
static bool watch() { return on && depth == 0; }
void leave() { depth--; }
int heldNow() { return nHeld; }
// the nth call of netCDF from now on fails (inquiries, answered from memory, and calls that cannot fail are left alone)
static std::atomic<long> failIn{0};
static std::atomic<int> failed{0};
void failAt(long n) { failed = 0; failIn = n; }
int wasHit() { failIn = 0; return failed; }
static bool fails(int lib, const char* name)
{
    if (lib != 0 || failIn <= 0 || depth != 1 || !strncmp(name, "nc_inq", 6)) return false;
    for (const char* x : {"nc_strerror", "nc_get_default_format", "nc_free_string"}) if (!strcmp(name, x)) return false;
    if (--failIn != 0) return false;
    failed = 1;
    return true;
}
void reset()
{
    G g;
    nCalls = 0; nLocks = 0; selfLock = 0;
    memset(edges, 0, sizeof edges);
}
Report report()
{
    G g;
    Report r;
    for (int i = 0; i < nCalls; ++i) {
        Report::C c;
        c.lib = calls[i].lib; c.n = calls[i].n; c.first = calls[i].first;
        for (int b = 0; b < nLocks; ++b) if (calls[i].locks >> b & 1) c.locks.push_back(b);
        r.calls.push_back(c);
    }
    for (int a = 0; a < nLocks; ++a) for (int b = 0; b < nLocks; ++b) if (edges[a] >> b & 1) r.edges.push_back({a, b});
    r.selfLock = selfLock;
    return r;
}
static void* next(const char* n) { void* p = dlsym(RTLD_NEXT, n); if (!p) { static const char m[] = "harness: no library function\n"; if (write(2, m, sizeof m)) {} _exit(3); } return p; }
} // namespace fxi

#define ARGS long a, long b, long c, long d, long e, long f, double x, double y, long s1, long s2, long s3, long s4
#define PASS a, b, c, d, e, f, x, y, s1, s2, s3, s4
#define WRAP(RET, LIB, name) \
    extern "C" __attribute__((visibility("default"))) RET name(ARGS) \
    { \
        typedef RET (*F)(ARGS); \
        static F real = (F)fxi::next(#name); \
        fxi::enter(LIB, #name); \
        RET r = fxi::fails(LIB, #name) ? -101 : real(PASS); \
        fxi::leave(); \
        return r; \
    }
#define NC(name) WRAP(long, 0, name)
#define UT(name) WRAP(long, 1, name)
#define UTD(name) WRAP(double, 1, name)
#include "fx_interpose.inc"

// locks
#define LOCKFN(name) \
    extern "C" __attribute__((visibility("default"))) void name(void* p) \
    { \
        typedef void (*F)(void*); \
        static F real = (F)fxi::next(#name); \
        fxi::acquiring(p, true); \
        real(p); \
        fxi::acquired(p); \
    }
#define UNLOCKFN(name) \
    extern "C" __attribute__((visibility("default"))) void name(void* p) \
    { \
        typedef void (*F)(void*); \
        static F real = (F)fxi::next(#name); \
        fxi::released(p); \
        real(p); \
    }
LOCKFN(omp_set_lock)
UNLOCKFN(omp_unset_lock)
LOCKFN(omp_set_nest_lock)
UNLOCKFN(omp_unset_nest_lock)
LOCKFN(GOMP_critical_name_start)
UNLOCKFN(GOMP_critical_name_end)
static char anonymousCritical;
extern "C" __attribute__((visibility("default"))) void GOMP_critical_start(void)
{
    static void (*real)() = (void (*)())fxi::next("GOMP_critical_start");
    fxi::acquiring(&anonymousCritical, true);
    real();
    fxi::acquired(&anonymousCritical);
}
extern "C" __attribute__((visibility("default"))) void GOMP_critical_end(void)
{
    static void (*real)() = (void (*)())fxi::next("GOMP_critical_end");
    fxi::released(&anonymousCritical);
    real();
}
extern "C" __attribute__((visibility("default"))) int omp_test_lock(void* p)
{
    typedef int (*F)(void*);
    static F real = (F)fxi::next("omp_test_lock");
    int r = real(p);
    if (r) { fxi::acquiring(p, false); fxi::acquired(p); }
    return r;
}
// mutexes that fimex itself takes; those of the libraries below it (PROJ, log4cpp) are their own business
static bool fromFimex(void* pc)
{
    Dl_info i;
    return dladdr(pc, &i) && i.dli_fname && strstr(i.dli_fname, "libfimex");
}
extern "C" __attribute__((visibility("default"))) int pthread_mutex_lock(pthread_mutex_t* m)
{
    typedef int (*F)(pthread_mutex_t*);
    static F real = (F)fxi::next("pthread_mutex_lock");
    const int r = real(m);
    if (fxi::watch() && r == 0 && fromFimex(__builtin_return_address(0))) { fxi::acquiring(m, false); fxi::acquired(m); }
    return r;
}
extern "C" __attribute__((visibility("default"))) int pthread_mutex_unlock(pthread_mutex_t* m)
{
    typedef int (*F)(pthread_mutex_t*);
    static F real = (F)fxi::next("pthread_mutex_unlock");
    if (fxi::watch() && fromFimex(__builtin_return_address(0))) fxi::released(m);
    return real(m);
}
