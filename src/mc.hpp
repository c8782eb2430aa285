// Explorer core shared by every harness.
//
// A harness enumerates a bounded space of behaviours ("cases") of the real slsm
// code in a fixed order and runs an oracle on every one of them.  The space is
// partitioned over forked workers by case index; nothing is sampled and nothing
// is cut off: if a cap were ever hit the run is reported as an error.
//
//   states       distinct canonical states of the code under test (64-bit hashes
//                kept in a table shared by all workers)
//   transitions  calls into the code under test
//   traces       cases whose complete observable outcome was compared with the
//                reference model / invariant
//   outcomes     distinct observed outcomes (guards against vacuous exploration)
#ifndef MC_HPP
#define MC_HPP
#include <algorithm>
#include <cmath>
#include <csetjmp>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <limits>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <ctime>
#include <fcntl.h>
#include <malloc.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

extern "C" void __real_exit(int) __attribute__((noreturn));

namespace mc
{
typedef uint64_t u64;

inline u64 mix(u64 h, u64 v)
{
    h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdULL;
    h ^= h >> 32;
    return h;
}
struct Hash
{
    u64 h;
    Hash() : h(0x1234567) {}
    Hash& u(u64 v) { h = mix(h, v); return *this; }
    // Doubles are canonicalised to 1e-9 so that the count does not depend on
    // rounding noise.
    Hash& d(double v)
    {
        if (v != v) return u(0xdeadULL);
        if (std::abs(v) > 1e8) { u64 b; memcpy(&b, &v, 8); return u(b); }
        return u((u64)(int64_t)std::llround(v * 1e9));
    }
    Hash& v(const std::vector<double>& a) { for (size_t i = 0; i < a.size(); i++) d(a[i]); return *this; }
    Hash& s(const std::string& a) { for (size_t i = 0; i < a.size(); i++) u((unsigned char)a[i]); return u(a.size()); }
};

inline std::string fmt(const char* f, ...)
{
    char b[4096];
    va_list ap;
    va_start(ap, f);
    vsnprintf(b, sizeof b, f, ap);
    va_end(ap);
    return b;
}
inline std::string str(const std::vector<double>& v)
{
    std::string s = "[";
    for (size_t i = 0; i < v.size(); i++) s += fmt(i ? ",%.10g" : "%.10g", v[i]);
    return s + "]";
}
inline std::string str(const std::vector<int>& v)
{
    std::string s = "[";
    for (size_t i = 0; i < v.size(); i++) s += fmt(i ? ",%d" : "%d", v[i]);
    return s + "]";
}

// ---------------------------------------------------------------- shared memory
struct Table
{
    u64* t; u64 mask; u64* count; u64* full;
    void init(unsigned bits)
    {
        u64 n = 1ULL << bits;
        t = (u64*)mmap(0, n * 8 + 128, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (t == MAP_FAILED) { perror("mmap"); _exit(3); }
        mask = n - 1; count = t + n; full = t + n + 8;
    }
    bool add(u64 h)
    {
        if (!h) h = 1;
        u64 i = (h * 0x9e3779b97f4a7c15ULL) & mask;
        for (u64 probes = 0; probes <= mask; probes++, i = (i + 1) & mask)
        {
            u64 c = __atomic_load_n(&t[i], __ATOMIC_RELAXED);
            if (c == h) return false;
            if (!c)
            {
                if (*count > mask - (mask >> 3)) { *full = 1; return false; }
                u64 z = 0;
                if (__atomic_compare_exchange_n(&t[i], &z, h, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED))
                {
                    __atomic_fetch_add(count, 1, __ATOMIC_RELAXED);
                    return true;
                }
                if (z == h) return false;
            }
        }
        *full = 1;
        return false;
    }
};

enum { MAXW = 64, DESC = 3072, MAXV = 6000 };
struct WState
{
    volatile u64 current;       // index of the case being executed, ~0 if none
    volatile u64 done;          // cases executed
    volatile double started;    // wall clock at which current began
    volatile u64 transitions, traces, nvac;
    volatile int finished;
    char key[512];
    char desc[DESC];
};
struct Violation { u64 index; int worker; char key[512]; char msg[1500]; };
struct Shared
{
    WState w[MAXW];
    volatile u64 nviol;
    volatile u64 total;         // number of cases in the enumeration (from worker 0)
    Violation v[MAXV];
    u64 counters[32];           // named counters
    char cname[32][64];
    volatile int ncounters;
    char sample[16][DESC];
    volatile int nsample;
};

inline double now()
{
    struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + 1e-9 * ts.tv_nsec;
}

// ---------------------------------------------------------------- "refused" observation
// slsm reports refusal by exit(EXIT_FAILURE).  The harness links with
// --wrap=exit and turns that into an observable outcome.
extern sigjmp_buf g_jb;
extern volatile int g_armed;
extern volatile int g_code;
extern int g_errfd;

template <class F> bool refused(F f)       // true if f() ended in exit(non-zero) or an exception
{
    g_armed = 1; g_code = 0;
    if (sigsetjmp(g_jb, 0) == 0)
    {
        try { f(); } catch (...) { g_armed = 0; return true; }
        g_armed = 0;
        return false;
    }
    g_armed = 0;
    return true;
}

class Explorer
{
public:
    Shared* sh; Table states, outcomes;
    std::string prop, tier;
    bool thorough;
    u64 seed;
    int nw, wid;
    u64 idx;            // index of next case
    u64 resume;         // first index this worker still has to run
    int64_t only;       // replay: run only this index
    u64 upto;           // replay: last index
    WState* me;
    bool failedCase;
    u64 nfailCase;

    // Is the next case ours?  Counts the case in the enumeration either way.
    bool take()
    {
        u64 i = idx++;
        if (only >= 0) { if ((u64)only != i) return false; }
        else
        {
            if ((int)((i * 2654435761ULL >> 7) % nw) != wid) return false;
            if (i < resume || i > upto) return false;
        }
        me->started = now();
        me->current = i;
        me->key[0] = 0; me->desc[0] = 0;
        failedCase = false;
        return true;
    }
    // Describe the case (key is stable: it is what known_findings.json names).
    void describe(const std::string& key, const std::string& d = "")
    {
        snprintf(me->key, sizeof me->key, "%s", key.c_str());
        snprintf(me->desc, sizeof me->desc, "%s%s%s", key.c_str(), d.empty() ? "" : " :: ", d.c_str());
        u64 n = me->done;
        if ((n == 0 || n == 37 || n == 411) && sh->nsample < 12)
        {
            int k = __atomic_fetch_add(&sh->nsample, 1, __ATOMIC_RELAXED);
            if (k < 16) memcpy(sh->sample[k], me->desc, DESC);
        }
        if (only >= 0) printf("CASE %llu %s\n", (unsigned long long)me->current, me->desc);
    }
    void t(u64 n = 1) { me->transitions += n; }                   // transitions
    void state(const Hash& h) { states.add(h.h); }
    bool newState(const Hash& h) { return states.add(h.h); }
    void outcome(const Hash& h) { outcomes.add(h.h); }
    void count(const char* name, u64 n = 1)
    {
        for (int i = 0; i < sh->ncounters; i++)
            if (!strcmp(sh->cname[i], name)) { __atomic_fetch_add(&sh->counters[i], n, __ATOMIC_RELAXED); return; }
        fprintf(stderr, "undeclared counter %s\n", name); _exit(3);
    }
    void counter(const char* name)                                // declare (before fork)
    {
        snprintf(sh->cname[sh->ncounters], 64, "%s", name); sh->counters[sh->ncounters] = 0; sh->ncounters++;
    }
    void fail(const std::string& msg) { fail(me->key, msg); }
    void fail(const std::string& key, const std::string& msg)
    {
        failedCase = true;
        if (only >= 0) printf("FAILED %s :: %s\n", key.c_str(), msg.c_str());
        u64 k = __atomic_fetch_add(&sh->nviol, 1, __ATOMIC_RELAXED);
        if (k < MAXV)
        {
            sh->v[k].index = me->current; sh->v[k].worker = wid;
            snprintf(sh->v[k].key, sizeof sh->v[k].key, "%s", key.c_str());
            snprintf(sh->v[k].msg, sizeof sh->v[k].msg, "%s", msg.c_str());
        }
    }
    // Oracle clause.  At most one failure is recorded per case.
    bool expect(bool c, const std::string& msg)
    {
        if (!c && !failedCase) fail(msg);
        return c;
    }
    void done(bool validated = true)
    {
        if (validated) me->traces++;
        me->done++;
        me->current = ~0ULL;
    }
};

typedef std::function<void(Explorer&)> Body;
struct Prop { const char* id; Body body; double caseLimit; };
int run(int argc, char** argv, std::vector<Prop> props, const std::vector<const char*>& counters = std::vector<const char*>());

inline bool close(double a, double b, double tol)
{
    if (a == b) return true;
    return std::abs(a - b) <= tol * (1.0 + std::max(std::abs(a), std::abs(b)));
}

// All words of length n over {0..k-1}: odometer increment; false when wrapped.
inline bool next(std::vector<int>& w, int k)
{
    for (size_t i = 0; i < w.size(); i++) { if (++w[i] < k) return true; w[i] = 0; }
    return false;
}
}
#endif
