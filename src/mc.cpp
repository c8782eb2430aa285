#include "mc.hpp"
namespace mc
{
sigjmp_buf g_jb;
volatile int g_armed = 0;
volatile int g_code = 0;
int g_errfd = -1;

static std::string jesc(const char* s)
{
    std::string o;
    for (; *s; s++)
    {
        unsigned char c = *s;
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c < 32 || c > 126) o += fmt("\\u%04x", c);
        else o += c;
    }
    return o;
}

static void worker(Explorer& e, const Prop& p, int w, u64 resume)
{
    e.wid = w; e.me = &e.sh->w[w]; e.idx = 0; e.resume = resume;
    e.me->current = ~0ULL;
    mallopt(M_PERTURB, 0x5a);
#ifndef __SANITIZE_ADDRESS__
    // A runaway allocation must fail here, not take the machine's memory.
    if (FILE* f = fopen("/proc/self/statm", "r"))
    {
        unsigned long pages = 0;
        if (fscanf(f, "%lu", &pages) == 1) { struct rlimit rl; rl.rlim_cur = rl.rlim_max = pages * 4096ul + (3ul << 30); setrlimit(RLIMIT_AS, &rl); }
        fclose(f);
    }
#endif
    p.body(e);
    if (w == 0) e.sh->total = e.idx;
    e.me->current = ~0ULL;
    e.me->finished = 1;
    fflush(stdout);
    _exit(0);
}

int run(int argc, char** argv, std::vector<Prop> props, const std::vector<const char*>& counters)
{
    std::string prop, tier = "quick", out;
    int64_t only = -1; int ws = 0, wn = 0; u64 upto = ~0ULL; int nw = 8; double limit = 60; unsigned bits = 0;
    u64 seed = 1;
    for (int i = 1; i < argc; i++)
    {
        std::string a = argv[i];
        auto nx = [&]() { return std::string(argv[++i]); };
        if (a == "--prop") prop = nx();
        else if (a == "--tier") tier = nx();
        else if (a == "--out") out = nx();
        else if (a == "--only") only = atoll(nx().c_str());
        else if (a == "--worker") { ws = atoi(nx().c_str()); wn = 1; }
        else if (a == "--upto") upto = strtoull(nx().c_str(), 0, 10);
        else if (a == "--jobs") nw = atoi(nx().c_str());
        else if (a == "--limit") limit = atof(nx().c_str());
        else if (a == "--seed") seed = strtoull(nx().c_str(), 0, 10);
        else if (a == "--bits") bits = atoi(nx().c_str());
    }
    const Prop* p = 0;
    for (size_t i = 0; i < props.size(); i++) if (prop == props[i].id) p = &props[i];
    if (!p) { fprintf(stderr, "no property %s\n", prop.c_str()); return 3; }
    if (p->caseLimit > limit) limit = p->caseLimit;
    if (!bits) bits = tier == "thorough" ? 27 : 24;
    if (nw > MAXW) nw = MAXW;
    Explorer e;
    e.sh = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    e.states.init(bits); e.outcomes.init(22);
    e.prop = prop; e.tier = tier; e.thorough = tier == "thorough"; e.nw = nw; e.only = only; e.upto = upto; e.seed = seed;
    for (size_t i = 0; i < counters.size(); i++) e.counter(counters[i]);
    // The library reports refusals on stderr; they are expected outcomes here.
    if (only < 0) { int fd = open("/dev/null", O_WRONLY); g_errfd = dup(2); if (!getenv("MC_STDERR")) dup2(fd, 2); }
    struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
    double t0 = now();
    std::vector<pid_t> pid(nw, 0);
    std::vector<int> restarts(nw, 0);
    int first = wn ? ws : 0, last = wn ? ws : nw - 1;
    if (only >= 0) { first = last = 0; }
    auto start = [&](int w, u64 resume) {
        fflush(stdout);
        e.sh->w[w].current = ~0ULL;
        pid_t c = fork();
        if (c == 0) worker(e, *p, w, resume);
        pid[w] = c;
    };
    auto record = [&](int w, const std::string& what) {
        WState& s = e.sh->w[w];
        u64 k = __atomic_fetch_add(&e.sh->nviol, 1, __ATOMIC_RELAXED);
        if (k < MAXV)
        {
            Violation& v = e.sh->v[k];
            v.index = s.current; v.worker = w;
            snprintf(v.key, sizeof v.key, "%s", s.key);
            snprintf(v.msg, sizeof v.msg, "%s", what.c_str());
        }
        if (only >= 0) printf("FAILED %s :: %s\n", s.key, what.c_str());
    };
    bool harnessError = false, giveUp = false;
    for (int w = first; w <= last; w++) start(w, 0);
    int live = last - first + 1;
    std::vector<std::pair<u64, double>> seen(nw, {~0ULL, 0});
    std::vector<double> waited(nw, 0);
    std::vector<char> hung(nw, 0);
    double polled = now();
    while (live > 0)
    {
        int st; pid_t c = waitpid(-1, &st, WNOHANG);
        if (c == 0)
        {
            // Time a case by the polls that saw it running, so that a paused or
            // overloaded machine cannot make it look stuck.
            usleep(3000);
            double t = now(), dt = std::min(t - polled, 0.05);
            polled = t;
            for (int w = first; w <= last; w++)
            {
                u64 c = e.sh->w[w].current; double s = e.sh->w[w].started;
                if (!pid[w] || c == ~0ULL || c != seen[w].first || s != seen[w].second) { seen[w] = {c, s}; waited[w] = 0; continue; }
                if ((waited[w] += dt) > limit) { waited[w] = -1e9; hung[w] = 1; kill(pid[w], SIGKILL); }
            }
            // Found something and slow: the verdict is settled, stop exploring.
            if (!giveUp && only < 0 && e.sh->nviol && t - t0 > 240)
            {
                giveUp = true;
                for (int k = first; k <= last; k++) if (pid[k]) kill(pid[k], SIGTERM);
            }
            continue;
        }
        if (c < 0) break;
        int w = -1;
        for (int k = first; k <= last; k++) if (pid[k] == c) w = k;
        if (w < 0) continue;
        pid[w] = 0; live--;
        if (e.sh->w[w].finished) continue;
        if (giveUp) continue;
        u64 cur = e.sh->w[w].current;
        if (cur == ~0ULL)
        {
            dprintf(g_errfd >= 0 ? g_errfd : 2, "worker %d died outside a case (status %d)\n", w, st);
            harnessError = true; continue;
        }
        std::string what;
        bool hang = hung[w]; hung[w] = 0;
        if (hang) what = fmt("the call did not return within %g s", limit);
        else if (WIFSIGNALED(st)) what = fmt("the process died with signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st)));
        else what = fmt("the process exited with status %d inside the library (abort, sanitizer report or unexpected exit())", WEXITSTATUS(st));
        record(w, what);
        restarts[w] += hang ? 20 : 1;
        if (restarts[w] < 40 && only < 0) { start(w, cur + 1); live++; }
        else if (only < 0)
        {
            // Forty abnormal deaths in one worker: the verdict is settled, stop exploring.
            giveUp = true;
            for (int k = first; k <= last; k++) if (pid[k]) kill(pid[k], SIGTERM);
        }
    }
    double wall = now() - t0;
    u64 tr = 0, tc = 0, dn = 0;
    for (int w = 0; w < nw; w++) { tr += e.sh->w[w].transitions; tc += e.sh->w[w].traces; dn += e.sh->w[w].done; }
    bool full = *e.states.full;
    u64 nv = std::min<u64>((u64)e.sh->nviol, (u64)MAXV);
    std::sort(e.sh->v, e.sh->v + nv, [](const Violation& a, const Violation& b) { return a.index < b.index; });
    if (!out.empty())
    {
        FILE* f = fopen(out.c_str(), "w");
        fprintf(f, "{\"prop\":\"%s\",\"tier\":\"%s\",\"seed\":%llu,\"workers\":%d,\"states\":%llu,\"transitions\":%llu,\"traces\":%llu,\"cases\":%llu,\"cases_total\":%llu,\"outcomes\":%llu,\"table_full\":%s,\"harness_error\":%s,\"wall_s\":%.3f,\"nviol\":%llu,\n",
                prop.c_str(), tier.c_str(), (unsigned long long)seed, nw, (unsigned long long)*e.states.count, (unsigned long long)tr,
                (unsigned long long)tc, (unsigned long long)dn, (unsigned long long)e.sh->total, (unsigned long long)*e.outcomes.count,
                full ? "true" : "false", harnessError ? "true" : "false", wall, (unsigned long long)e.sh->nviol);
        fprintf(f, "\"counters\":{");
        for (int i = 0; i < e.sh->ncounters; i++) fprintf(f, "%s\"%s\":%llu", i ? "," : "", e.sh->cname[i], (unsigned long long)e.sh->counters[i]);
        fprintf(f, "},\n\"samples\":[");
        int ns = std::min<int>((int)e.sh->nsample, 12);
        for (int i = 0; i < ns; i++) fprintf(f, "%s\"%s\"", i ? "," : "", jesc(e.sh->sample[i]).c_str());
        fprintf(f, "],\n\"violations\":[");
        for (u64 i = 0; i < nv; i++)
            fprintf(f, "%s{\"index\":%llu,\"worker\":%d,\"key\":\"%s\",\"msg\":\"%s\"}", i ? ",\n" : "",
                    (unsigned long long)e.sh->v[i].index, e.sh->v[i].worker, jesc(e.sh->v[i].key).c_str(), jesc(e.sh->v[i].msg).c_str());
        fprintf(f, "]}\n");
        fclose(f);
    }
    if (only >= 0) printf("%s\n", nv ? "REPRODUCED" : "no violation");
    fflush(stdout);
    return harnessError ? 3 : (nv ? 1 : 0);
}
}

extern "C" void __wrap_exit(int code)
{
    if (mc::g_armed && code != 0) { mc::g_code = code; mc::g_armed = 0; siglongjmp(mc::g_jb, 1); }
    // An exit() the harness did not expect: leave at once; the parent reports the case.
    _exit(code == 0 ? 99 : code);
}
int mc_main(int, char**);
int main(int argc, char** argv) { _exit(mc_main(argc, argv)); }
