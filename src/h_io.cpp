// C22 save/load round trips, C23 damaged files, C24 exports, C25 failing file systems.
#include <sys/syscall.h>
#include <sys/uio.h>
#include "mc.hpp"
#include "slsm_all.hpp"
#include "snap.hpp"
#include "fields.hpp"
#include <cfloat>
#include <memory>
#include <dirent.h>
#include <sys/stat.h>
using namespace mc;
using namespace slsm;

// ---------------------------------------------------------------- fopen interposition (C25)
extern "C" FILE* __real_fopen(const char*, const char*);
namespace
{
struct Sink { std::string data; int writes, failAt; bool failClose, sticky; size_t cap, pos; };
Sink* g_sink = 0;
ssize_t sinkWrite(void* c, const char* p, size_t n)
{
    Sink* s = (Sink*)c; int k = s->writes++;
    if (s->failAt >= 0 && (k == s->failAt || (s->sticky && k > s->failAt))) { errno = ENOSPC; return 0; }
    if (s->data.size() < s->pos + n) s->data.resize(s->pos + n);
    s->data.replace(s->pos, n, p, n); s->pos += n;
    return n;
}
ssize_t sinkRead(void* c, char* p, size_t n)
{
    Sink* s = (Sink*)c; if (s->pos >= s->data.size()) return 0;
    n = std::min(n, s->data.size() - s->pos); memcpy(p, s->data.data() + s->pos, n); s->pos += n; return n;
}
int sinkSeek(void* c, off64_t* o, int whence)
{
    Sink* s = (Sink*)c; long long b = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? (long long)s->pos : (long long)s->data.size();
    if (b + *o < 0) { errno = EINVAL; return -1; }
    s->pos = b + *o; *o = s->pos; return 0;
}
int sinkClose(void* c) { if (((Sink*)c)->failClose) { errno = EIO; return EOF; } return 0; }
char g_buf[256];
}
// Faults of the write system calls themselves (the C++ streams use them directly).
namespace { struct Raw { bool armed; int calls, at, kind; size_t bytes; } g_raw = {false, 0, -1, 0, 0}; }
enum { RAW_ENOSPC, RAW_EIO_FOR_GOOD, RAW_SHORT, RAW_EINTR, RAW_KINDS };
static bool rawFault(size_t n, ssize_t& r, size_t& allow)
{
    int k = g_raw.calls++;
    allow = n;
    if (g_raw.at < 0 || !(k == g_raw.at || (k > g_raw.at && g_raw.kind == RAW_EIO_FOR_GOOD))) return false;
    if (g_raw.kind == RAW_SHORT) { allow = n > 1 ? n / 2 : n; return false; }
    errno = g_raw.kind == RAW_ENOSPC ? ENOSPC : g_raw.kind == RAW_EINTR ? EINTR : EIO; r = -1;
    return true;
}
extern "C" ssize_t write(int fd, const void* b, size_t n)
{
    ssize_t r; size_t m = n;
    if (g_raw.armed && fd > 2 && rawFault(n, r, m)) return r;
    return syscall(SYS_write, fd, b, m);
}
extern "C" ssize_t writev(int fd, const struct iovec* v, int c)
{
    if (!g_raw.armed || fd <= 2) return syscall(SYS_writev, fd, v, c);
    size_t n = 0, m; ssize_t r; for (int i = 0; i < c; i++) n += v[i].iov_len;
    if (rawFault(n, r, m)) return r;
    std::string all; for (int i = 0; i < c; i++) all.append((const char*)v[i].iov_base, v[i].iov_len);
    return syscall(SYS_write, fd, all.data(), m);
}
extern "C" FILE* __wrap_fopen(const char* p, const char* m)
{
    if (!g_sink || !strchr(m, 'w')) return __real_fopen(p, m);
    cookie_io_functions_t f = {sinkRead, sinkWrite, sinkSeek, sinkClose};
    FILE* s = fopencookie(g_sink, m, f);
    if (s) setvbuf(s, g_buf, _IOFBF, g_sink->cap);
    return s;
}

namespace
{
std::string g_base;                 // scratch directory of the whole run
std::string dir(Explorer& e)        // scratch directory of this worker
{
    static std::string d;
    if (d.empty()) { d = g_base + fmt("/w%d", e.wid); mkdir(d.c_str(), 0700); if (chdir(d.c_str())) _exit(3); }
    return d;
}
std::string slurp(const std::string& p)
{
    std::string s; FILE* f = __real_fopen(p.c_str(), "r"); if (!f) return "<absent>";
    char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n);
    fclose(f); return s;
}
void spit(const std::string& p, const std::string& s)
{
    FILE* f = __real_fopen(p.c_str(), "w"); if (!f) _exit(3);
    if (fwrite(s.data(), 1, s.size(), f) != s.size()) _exit(3);
    fclose(f);
}
std::vector<std::string> ls(const std::string& p)
{
    std::vector<std::string> r; DIR* d = opendir(p.c_str()); if (!d) return r;
    while (dirent* x = readdir(d)) if (x->d_name[0] != '.') r.push_back(x->d_name);
    closedir(d); std::sort(r.begin(), r.end()); return r;
}
// refused(), and give back the descriptors that the abandoned call had open
template <class F> bool refusedIO(F f)
{
    int a = dup(2); close(a);
    bool r = refused(f);
    if (r) for (int k = a; k < a + 4; k++) close(k);
    return r;
}
typedef std::pair<int,int> Sz;
LevelSet* make(int w, int h, const std::vector<double>& sd, double v0 = 0.25)
{
    LevelSet* l = new LevelSet(w, h, std::vector<Hole>(1, Hole(0.37 * w, 0.61 * h, 0.3 * std::min(w, h))), 0.5, 1000, false);
    for (unsigned i = 0; i < l->mesh.nNodes; i++)
    {
        if (i < sd.size()) l->signedDistance[i] = sd[i];
        l->velocity[i] = v0 + 1000 + i * 1.25; l->gradient[i] = -(v0 + 2000 + i * 0.5);
    }
    return l;
}
const double INF = std::numeric_limits<double>::infinity();
std::vector<double> alphabet()
{
    return {0.0, -0.0, 1.0, -1.0, 0.5, 1e-7, -4.9e-7, 5.1e-7, -5.1e-7, 0.1, -1.0 / 3, 2.0 / 3, 123456.789012, -99999.999999, 1e8 + 0.3, 1e15 + 0.5,
            -1e22, DBL_MAX, -DBL_MAX, DBL_MIN, -4.9406564584124654e-324, DBL_EPSILON, nextafter(1.0, 2.0), std::nan("1"), -std::nan("77"), INF, -INF};
}
bool printed(double in, double out)     // out is in, to the six printed decimals
{
    if (in == out) return true;
    return std::abs(in - out) <= 5.0000001e-7 + std::abs(in) * 4e-16;
}

// ---------------------------------------------------------------- C22
enum Mode { BIN, TXT, XY };
const char* modeName[] = {"binary", "text", "text+xy"};
void save(Mode m, const std::string& f, const LevelSet& l)
{
    InputOutput io;
    if (m == BIN) io.saveLevelSetBIN(f, l); else io.saveLevelSetTXT(f, l, m == XY);
}
void load(Mode m, const std::string& f, LevelSet& l)
{
    InputOutput io;
    if (m == BIN) io.loadLevelSetBIN(f, l); else io.loadLevelSetTXT(f, l, m == XY);
}
void saveN(Mode m, unsigned n, const std::string& d, const LevelSet& l)
{
    InputOutput io;
    if (m == BIN) io.saveLevelSetBIN(n, l, d); else io.saveLevelSetTXT(n, l, d, m == XY);
}
void loadN(Mode m, unsigned n, const std::string& d, LevelSet& l)
{
    InputOutput io;
    if (m == BIN) io.loadLevelSetBIN(n, l, d); else io.loadLevelSetTXT(n, l, d, m == XY);
}
// one save/load round trip of l's distance into o
void roundTrip(Explorer& e, Mode m, LevelSet& l, LevelSet& o, int numbered, unsigned dp)
{
    std::string d = dir(e), f = d + "/rt";
    std::string before = snap::all(l), other = snap::all(o, false);
    std::vector<double> keep = o.signedDistance;
    bool finite = true;
    for (double v : l.signedDistance) finite &= std::isfinite(v);
    std::string od = numbered == 2 ? d : "";
    e.t(2);
    bool r1 = refusedIO([&] { if (numbered) saveN(m, dp, od, l); else save(m, f, l); });
    e.expect(!r1, "saving a level set was refused");
    e.expect(snap::all(l) == before, "saving changed the level set");
    if (m == XY && !r1)
    {
        // the two leading columns are the coordinates of the node
        std::istringstream in(slurp(numbered ? d + fmt("/level-set_%04u.txt", dp) : f));
        std::string line; unsigned w1 = l.mesh.width + 1;
        for (size_t i = 0; i < l.signedDistance.size() && std::getline(in, line); i++)
        {
            double x = -1, y = -1;
            if (!e.expect(sscanf(line.c_str(), "%lf %lf", &x, &y) == 2 && std::abs(x - i % w1) < 1e-6 && std::abs(y - i / w1) < 1e-6, fmt("node %zu is saved with coordinates %g, %g", i, x, y))) break;
        }
    }
    bool r2 = refusedIO([&] { if (numbered) loadN(m, dp, od, o); else load(m, f, o); });
    if (numbered) unlink((d + fmt("/level-set_%04u.%s", dp, m == BIN ? "bin" : "txt")).c_str());
    if (m == BIN || finite) e.expect(!r2, "loading what was saved was refused");
    if (!r2 && !e.failedCase)
    {
        e.expect(snap::all(o, false) == other, "loading changed something other than the signed distance");
        e.expect(o.signedDistance.size() == l.signedDistance.size(), "size of the signed distance changed");
        for (size_t i = 0; i < l.signedDistance.size() && !e.failedCase; i++)
        {
            double a = l.signedDistance[i], b = o.signedDistance[i];
            if (m == BIN) e.expect(!memcmp(&a, &b, 8), fmt("node %zu: saved %.17g, loaded %.17g (bits differ)", i, a, b));
            else if (std::isnan(a)) e.expect(std::isnan(b), fmt("node %zu: saved %g, loaded %g", i, a, b));
            else e.expect(printed(a, b), fmt("node %zu: saved %.17g, loaded %.17g", i, a, b));
        }
    }
    Hash s; s.u(m); s.v(l.signedDistance); s.u(l.mesh.width); e.state(s);
    Hash q; q.v(o.signedDistance); q.u(r2); e.outcome(q);
    (void)keep;
}
void lossless(Explorer& e)
{
    std::vector<double> A = alphabet();
    std::vector<Sz> sz = {{1, 1}, {2, 1}, {1, 3}, {3, 2}, {2, 4}, {5, 4}, {13, 1}, {1, 13}, {17, 30}, {60, 20}};
    if (e.thorough) { sz.push_back({7, 7}); sz.push_back({3, 200}); sz.push_back({100, 90}); }
    // every value at every node position (large meshes: at the first, last and middle node)
    for (Sz z : sz) for (int m = 0; m < 3; m++) for (size_t a = 0; a < A.size(); a++) for (int pass = 0; pass < 3; pass++)
    {
        if (!e.take()) continue;
        e.describe(fmt("mesh %dx%d %s value %zu (%.9g) other values %d", z.first, z.second, modeName[m], a, A[a], pass));
        int N = (z.first + 1) * (z.second + 1);
        std::vector<int> at;
        if (N <= 40) for (int i = 0; i < N; i++) at.push_back(i); else at = {0, 1, z.first, z.first + 1, N / 2, N - 2, N - 1};
        std::vector<double> sd(N);
        for (int i = 0; i < N; i++) sd[i] = pass == 0 ? (i % 2 ? -1 : 1) * fields::mag(1, i) : pass == 1 ? i + 0.125 : A[(i * 7 + 3) % A.size()];
        std::unique_ptr<LevelSet> l(make(z.first, z.second, sd)), o(make(z.first, z.second, {}, 0.75));
        for (int i : at)
        {
            l->signedDistance = sd; l->signedDistance[i] = A[a];
            for (double& x : o->signedDistance) x = -12345;
            roundTrip(e, (Mode)m, *l, *o, (i + a) % 3, (unsigned)(i * 37 + a));
            if (e.failedCase) break;
        }
        e.done();
    }
    // every word of values on the smallest mesh
    int K = A.size();
    for (int m = 0; m < 3; m++)
    {
        std::vector<int> w(4, 0);
        long k = 0, chunk = e.thorough ? 1 : 13;
        do
        {
            if (k++ % chunk) continue;
            if (!e.take()) continue;
            e.describe(fmt("mesh 1x1 %s word %s", modeName[m], str(w).c_str()));
            std::vector<double> sd; for (int x : w) sd.push_back(A[x]);
            static LevelSet* l = make(1, 1, {}), *o = make(1, 1, {}, 0.75);
            l->signedDistance = sd; for (double& x : o->signedDistance) x = -12345;
            roundTrip(e, (Mode)m, *l, *o, 0, 0);
            e.done();
        } while (next(w, K));
    }
    // large meshes: every value somewhere, each mode, named and numbered
    std::vector<Sz> big = {{270, 260}, {23000, 2}, {2, 23000}, {300, 1}, {1, 300}, {127, 127}, {128, 128}};
    if (e.thorough) { big.push_back({70000, 1}); big.push_back({1, 70000}); big.push_back({500, 500}); }
    for (Sz z : big) for (int m = 0; m < 3; m++) for (int pass = 0; pass < 3; pass++)
    {
        if (!e.take()) continue;
        e.describe(fmt("large mesh %dx%d %s values %d", z.first, z.second, modeName[m], pass));
        int N = (z.first + 1) * (z.second + 1);
        std::vector<double> sd(N);
        for (int i = 0; i < N; i++) sd[i] = pass == 0 ? (i % 2 ? -1 : 1) * (i + 0.125) : pass == 1 ? (i % 3 ? -1 : 1) * fields::mag(1, i) : 0;
        if (pass == 2) for (int i = 0, k = 0; i < N; i++) { double x; do x = A[k++ % A.size()]; while (!std::isfinite(x) && m != BIN); sd[i] = x; }
        std::unique_ptr<LevelSet> l(make(z.first, z.second, sd)), o(make(z.first, z.second, {}, 0.75));
        for (double& x : o->signedDistance) x = -12345;
        roundTrip(e, (Mode)m, *l, *o, pass % 3, (unsigned)(pass * 4321));
        e.done();
    }
    // load over several earlier states, save again: the second file is the same
    for (Sz z : sz) for (int m = 0; m < 3; m++) for (int hist = 0; hist < 6; hist++)
    {
        if (!e.take()) continue;
        e.describe(fmt("mesh %dx%d %s resave %d", z.first, z.second, modeName[m], hist));
        int N = (z.first + 1) * (z.second + 1);
        std::vector<double> sd(N); for (int i = 0; i < N; i++) sd[i] = (i % 3 ? -1 : 1) * fields::mag(1 + hist % 3, i) * (hist > 2 ? 1e3 : 1);
        std::unique_ptr<LevelSet> l(make(z.first, z.second, sd)), o(make(z.first, z.second, {}));
        if (hist & 1) { l->reinitialise(); e.t(); }
        std::string d = dir(e); e.t(3);
        bool r = refusedIO([&] { save((Mode)m, d + "/a", *l); load((Mode)m, d + "/a", *o); save((Mode)m, d + "/b", *o); });
        e.expect(!r, "refused");
        if (m == BIN) e.expect(slurp(d + "/a") == slurp(d + "/b"), "second binary file differs from the first");
        else
        {
            std::unique_ptr<LevelSet> p(make(z.first, z.second, {}));
            bool r3 = refusedIO([&] { load((Mode)m, d + "/b", *p); }); e.t();
            e.expect(!r3 && p->signedDistance == o->signedDistance, "text files lose more on every round trip");
        }
        Hash s; s.v(o->signedDistance); e.state(s); e.outcome(s);
        e.done();
    }
}

// ---------------------------------------------------------------- C23
// The text format, as documented by the save functions: one line per node, each holding
// [x y] distance velocity gradient as decimal numbers.
enum Verdict { MUST_REFUSE, MUST_LOAD, EITHER };
bool number(const std::string& t, double& v, bool& soft)
{
    size_t i = 0, n = t.size(), dg = 0;
    std::string low; for (char c : t) low += (char)tolower((unsigned char)c);
    if (i < n && (t[i] == '+' || t[i] == '-')) i++;
    std::string rest = low.substr(i);
    v = strtod(t.c_str(), 0);
    if (rest == "nan" || rest.compare(0, 4, "nan(") == 0 || rest == "inf" || rest == "infinity") { soft = true; return true; }
    while (i < n && isdigit((unsigned char)t[i])) { i++; dg++; }
    if (i < n && t[i] == '.') { i++; while (i < n && isdigit((unsigned char)t[i])) { i++; dg++; } }
    if (!dg) return false;
    if (i < n && (t[i] == 'e' || t[i] == 'E'))
    {
        i++;
        if (i < n && (t[i] == '+' || t[i] == '-')) i++;
        size_t k = i; while (i < n && isdigit((unsigned char)t[i])) i++;
        if (i == k) return false;
        if (!std::isfinite(v) || v == 0) soft = true;      // overflow / underflow: refusing is fine, too
    }
    return i == n;
}
Verdict judgeText(const std::string& s, unsigned nNodes, bool xy, std::vector<double>& sd)
{
    std::vector<std::string> lines; std::string cur;
    for (char c : s) { if (c == '\n') { lines.push_back(cur); cur.clear(); } else cur += c; }
    if (!cur.empty()) lines.push_back(cur);
    bool soft = false, bad = false;
    sd.clear();
    auto blank = [](const std::string& l) { for (char c : l) if (!isspace((unsigned char)c)) return false; return true; };
    while (lines.size() > nNodes && blank(lines.back())) { lines.pop_back(); soft = true; }    // trailing blank lines
    if (lines.size() != nNodes) return MUST_REFUSE;
    for (const std::string& l : lines)
    {
        std::vector<double> v; std::string t;
        for (size_t i = 0; i <= l.size(); i++)
        {
            char c = i < l.size() ? l[i] : ' ';
            if (c == '\r' || c == '\v' || c == '\f') soft = true;
            if (isspace((unsigned char)c))
            {
                if (!t.empty()) { double x; if (!number(t, x, soft)) bad = true; v.push_back(x); t.clear(); }
            }
            else t += c;
        }
        if (v.size() != (xy ? 5u : 3u)) return MUST_REFUSE;
        sd.push_back(v[xy ? 2 : 0]);
    }
    if (bad) return MUST_REFUSE;
    return soft ? EITHER : MUST_LOAD;
}
Verdict judgeBin(const std::string& s, unsigned nNodes, std::vector<double>& sd)
{
    sd.assign(nNodes, 0);
    if (s.size() != nNodes * 8) return MUST_REFUSE;
    memcpy(&sd[0], s.data(), s.size());
    return MUST_LOAD;
}
struct Target { Sz z; LevelSet* l; std::vector<double> orig; std::string rest; };
void feed(Explorer& e, Target& T, Mode m, const std::string& bytes, bool count = true)
{
    std::string f = dir(e) + "/x";
    spit(f, bytes);
    T.l->signedDistance = T.orig;
    std::vector<double> want;
    Verdict v = m == BIN ? judgeBin(bytes, T.l->mesh.nNodes, want) : judgeText(bytes, T.l->mesh.nNodes, m == XY, want);
    e.t();
    bool r = refusedIO([&] { load(m, f, *T.l); });
    if (v == MUST_REFUSE) e.expect(r, "a damaged file was accepted");
    if (v == MUST_LOAD) e.expect(!r, "a well-formed file was refused");
    if (!r)
    {
        e.expect(T.l->signedDistance.size() == T.orig.size(), "the signed distance changed its size");
        for (size_t i = 0; i < want.size() && !e.failedCase && v != MUST_REFUSE; i++)
        {
            double a = want[i], b = T.l->signedDistance[i];
            e.expect(m == BIN ? !memcmp(&a, &b, 8) : (a == b || (a != a && b != b)), fmt("node %zu holds %.17g, the file %.17g", i, b, a));
        }
    }
    e.expect(snap::all(*T.l, false) == T.rest, "loading changed something other than the signed distance");
    if (r) e.expect(T.l->signedDistance.size() == T.orig.size(), "refused, but the signed distance changed its size");
    if (count) e.count(v == MUST_REFUSE ? "must be refused" : v == MUST_LOAD ? "must load" : "either");
    Hash s; s.u(m); s.s(bytes); s.u(T.l->mesh.width); e.state(s);
    Hash o; o.u(r); if (!r) o.v(T.l->signedDistance); else o.s(bytes); e.outcome(o);
}
void damaged(Explorer& e)
{
    std::vector<Sz> sz = {{1, 1}, {2, 1}, {1, 2}};
    if (e.thorough) { sz.push_back({2, 2}); sz.push_back({3, 2}); }
    // large files: intact, cut, longer, and rearranged
    std::vector<Sz> big = {{270, 260}, {23000, 2}, {2, 23000}, {255, 1}, {1, 127}, {60, 31}};
    for (Sz z : big) for (int m = 0; m < 3; m++)
    {
        int N = (z.first + 1) * (z.second + 1);
        std::string good; Target T; T.l = 0;
        auto ready = [&] {
            if (T.l) return;
            std::vector<double> sd(N); for (int i = 0; i < N; i++) sd[i] = (i % 2 ? -1 : 1) * (i + 0.25);
            T.z = z; T.l = make(z.first, z.second, sd);
            for (int i = 0; i < N; i++) { T.l->velocity[i] = 0.5 * i; T.l->gradient[i] = -1 - i; }
            std::string f = dir(e) + "/base";
            if (refusedIO([&] { save((Mode)m, f, *T.l); })) e.fail("saving refused");
            good = slurp(f); T.orig.assign(N, -12345.0); T.rest = snap::all(*T.l, false);
        };
        std::vector<size_t> pos;                          // in thousandths of the file
        for (int k = 0; k <= 1000; k += e.thorough ? 50 : 250) pos.push_back(k);
        for (int what = 0; what < 10; what++) for (size_t k : pos)
        {
            if (what > 4 && k) continue;
            if (!e.take()) continue;
            e.describe(fmt("large mesh %dx%d %s damage %d at %zu/1000", z.first, z.second, modeName[m], what, k));
            ready();
            size_t at = good.size() * k / 1000; if (at >= good.size()) at = good.size() - 1;
            size_t line = m == BIN ? at / 8 * 8 : at ? good.rfind('\n', at - 1) + 1 : 0;       // npos + 1 == 0
            size_t next = m == BIN ? line + 8 : good.find('\n', line) + 1;
            std::string s;
            if (what == 0) s = good.substr(0, at);
            if (what == 1) s = good.substr(0, at) + good.substr(at + 1);
            if (what == 2) s = good.substr(0, line) + good.substr(next);
            if (what == 3) s = good.substr(0, next) + good.substr(line);
            if (what == 4) s = good.substr(0, at) + "x" + good.substr(at + (m == BIN ? 0 : 1));
            if (what == 5) s = good;
            if (what == 6) s = good + good;
            if (what == 7) s = good + (m == BIN ? std::string(8 * 65536, 'a') : [&] { std::string q; for (int i = 0; i < 65536; i++) q += m == XY ? "1 2 3 4 5\n" : "3 4 5\n"; return q; }());
            if (what == 8) s = good.substr(next) + good.substr(0, next);
            if (what == 9) s = good + std::string(1 << 20, m == BIN ? '\0' : '\n');
            feed(e, T, (Mode)m, s);
            e.done();
        }
        delete T.l;
    }
    const std::string C = std::string("\0 \n\t\r-+.,exnI09a%\xff", 18);
    for (Sz z : sz) for (int m = 0; m < 3; m++) for (int dat = 0; dat < 3; dat++)
    {
        if (!e.thorough && dat == 2 && z.first + z.second > 2) continue;
        // velocity and gradient zero / same length / large: all fields are told apart by the layout only
        int N = (z.first + 1) * (z.second + 1);
        std::vector<double> sd(N); for (int i = 0; i < N; i++) sd[i] = (i % 2 ? -1 : 1) * (dat == 1 ? 100.5 + i : fields::mag(1, i + dat));
        Target T; T.z = z; T.l = make(z.first, z.second, sd);
        if (dat == 0) for (int i = 0; i < N; i++) T.l->velocity[i] = T.l->gradient[i] = 0;
        std::string f = dir(e) + "/base";
        if (refusedIO([&] { save((Mode)m, f, *T.l); })) { if (e.take()) { e.fail("saving refused"); e.done(); } continue; }
        std::string good = slurp(f);
        T.orig.assign(N, -12345.0); T.rest = snap::all(*T.l, false);
        auto one = [&](const std::string& key, const std::string& bytes) {
            if (!e.take()) return;
            e.describe(fmt("mesh %dx%d %s data %d %s", z.first, z.second, modeName[m], dat, key.c_str()));
            feed(e, T, (Mode)m, bytes);
            e.done();
        };
        one("intact", good);
        for (size_t k = 0; k < good.size(); k++) one(fmt("cut at %zu", k), good.substr(0, k));
        for (size_t k = 0; k < good.size(); k++) one(fmt("without byte %zu", k), good.substr(0, k) + good.substr(k + 1));
        for (size_t k = 0; k <= good.size(); k++) for (size_t c = 0; c < C.size(); c++)
        {
            if (m == BIN && c > 2) continue;
            one(fmt("insert 0x%02x at %zu", (unsigned char)C[c], k), good.substr(0, k) + C[c] + good.substr(k));
            if (k < good.size() && good[k] != C[c])
                one(fmt("byte %zu := 0x%02x", k, (unsigned char)C[c]), good.substr(0, k) + C[c] + good.substr(k + 1));
        }
        for (int k = 1; k <= 40; k++) for (char c : {'\0', '0', '\n', ' '}) one(fmt("append %d x 0x%02x", k, c), good + std::string(k, c));
        for (int k = 1; k <= 12; k++) { std::string s; for (int j = 0; j < k; j++) s += good; one(fmt("%d copies", k + 1), good + s); }
        if (m != BIN)
        {
            std::vector<std::string> L; { std::string c; for (char x : good) { c += x; if (x == '\n') { L.push_back(c); c.clear(); } } }
            auto join = [](const std::vector<std::string>& v) { std::string s; for (auto& x : v) s += x; return s; };
            for (int i = 0; i < N; i++) for (int j = 0; j < N; j++)
            {
                std::vector<std::string> q = L;
                if (i != j) { std::swap(q[i], q[j]); one(fmt("swap lines %d %d", i, j), join(q)); q = L; }
                q.insert(q.begin() + j, L[i]); one(fmt("duplicate line %d at %d", i, j), join(q));
                q = L; q[i] = q[i].substr(0, q[i].size() - 1) + " 1.5 2.5\n"; one(fmt("two values more on line %d (%d)", i, j), join(q));
                // values move from one line to another: same totals, wrong layout
                if (i != j)
                {
                    q = L; std::string a = q[i].substr(0, q[i].size() - 1); size_t b = a.find_last_of(' ');
                    q[i] = a.substr(0, b) + "\n"; q[j] = q[j].substr(0, q[j].size() - 1) + a.substr(b) + "\n";
                    one(fmt("last value of line %d moved to line %d", i, j), join(q));
                    q = L; q[i] = "\n"; q[j] = L[j].substr(0, L[j].size() - 1) + " " + L[i];
                    one(fmt("line %d joined to line %d", i, j), join(q));
                }
            }
            // every single value dropped, doubled, or replaced by a word
            for (size_t p = 0; p < good.size(); p++)
            {
                if (isspace((unsigned char)good[p]) || (p && !isspace((unsigned char)good[p - 1]))) continue;
                size_t q = p; while (q < good.size() && !isspace((unsigned char)good[q])) q++;
                one(fmt("value at %zu dropped", p), good.substr(0, p) + good.substr(q));
                one(fmt("value at %zu doubled", p), good.substr(0, q) + " " + good.substr(p));
                for (const char* s : {"x", "nan", "inf", "-inf", "1e5", "1e400", "1e-400", "1,5", "1.5.2", "0x10", "--1", "1-2", "+3", ".5", "5.", ".", "e5", "1e", "1e+", "true", "123456789012345678901234567890", "1d5", "nan(1)", "\"1\""})
                    one(fmt("value at %zu := %s", p, s), good.substr(0, p) + s + good.substr(q));
            }
        }
        delete T.l;
    }
    // files of every other mesh and layout
    int M = e.thorough ? 5 : 4;
    for (int w = 1; w <= M; w++) for (int h = 1; h <= M; h++) for (int m = 0; m < 3; m++) for (int w2 = 1; w2 <= M; w2++) for (int h2 = 1; h2 <= M; h2++) for (int m2 = 0; m2 < 4; m2++)
    {
        if (!e.take()) continue;
        e.describe(fmt("file of mesh %dx%d as %s into mesh %dx%d as %s", w, h, m2 < 3 ? modeName[m2] : "vtk", w2, h2, modeName[m]));
        std::vector<double> sd((w + 1) * (h + 1)); for (size_t i = 0; i < sd.size(); i++) sd[i] = (i % 2 ? -1 : 1) * fields::mag(1, i);
        std::unique_ptr<LevelSet> l(make(w, h, sd)), o(make(w2, h2, {}));
        std::string f = dir(e) + "/base"; e.t();
        bool r = refusedIO([&] { if (m2 < 3) save((Mode)m2, f, *l); else { InputOutput io; io.saveLevelSetVTK(f, *l, true, true); } });
        e.expect(!r, "saving refused");
        Target T; T.l = o.get(); T.orig.assign(o->mesh.nNodes, -12345.0); T.rest = snap::all(*o, false);
        feed(e, T, (Mode)m, slurp(f));
        e.done();
    }
    // targets that are not regular files or do not exist
    for (int m = 0; m < 3; m++) for (int k = 0; k < 9; k++)
    {
        if (!e.take()) continue;
        e.describe(fmt("%s from odd path %d", modeName[m], k));
        std::string d = dir(e);
        std::string p = k == 0 ? d + "/missing" : k == 1 ? d : k == 2 ? "" : k == 3 ? "/dev/null" : k == 4 ? d + "/missing/deeper" : k == 5 ? d + "/" + std::string(300, 'n') : k == 6 ? d + "/empty" : k == 7 ? d + "/dangling" : d + "/base/below";
        if (k == 6) spit(p, "");
        if (k == 7 && symlink("nowhere", p.c_str())) {}
        if (k == 8) spit(d + "/base", "1 2 3\n");
        std::unique_ptr<LevelSet> o(make(1, 1, {}));
        std::vector<double> keep = o->signedDistance;
        bool r = refusedIO([&] { load((Mode)m, p, *o); }); e.t();
        e.expect(r, "loading from a file that is not there or not a level set was not refused");
        bool r2 = refusedIO([&] { loadN((Mode)m, 4711, k % 2 ? d : d + "/missing", *o); }); e.t();
        e.expect(r2, "loading a missing numbered file was not refused");
        e.expect(o->signedDistance == keep, "a refused load changed the level set");
        Hash s; s.u(m); s.u(k); e.state(s); e.outcome(s);
        e.done();
    }
}

// ---------------------------------------------------------------- C24, C25: every export
struct Ctx { LevelSet* l; Boundary* b; std::string name; };
const int NKIND = 13;
const char* kindName[NKIND] = {"VTK", "VTK+v", "VTK+g", "VTK+vg", "TXT", "TXT+xy", "BIN", "points", "segments", "areaVTK", "areaTXT", "areaTXT+xy", "?"};
void named(int k, const std::string& f, const Ctx& c)
{
    InputOutput io;
    if (k < 4) io.saveLevelSetVTK(f, *c.l, k & 1, k & 2);
    else if (k == 4) io.saveLevelSetTXT(f, *c.l);
    else if (k == 5) io.saveLevelSetTXT(f, *c.l, true);
    else if (k == 6) io.saveLevelSetBIN(f, *c.l);
    else if (k == 7) io.saveBoundaryPointsTXT(f, *c.b);
    else if (k == 8) io.saveBoundarySegmentsTXT(f, *c.b);
    else if (k == 9) io.saveAreaFractionsVTK(f, c.l->mesh);
    else if (k == 10) io.saveAreaFractionsTXT(f, c.l->mesh);
    else io.saveAreaFractionsTXT(f, c.l->mesh, true);
}
std::string numberedName(int k, unsigned n)
{
    const char* st = k < 7 ? "level-set" : k == 7 ? "boundary-points" : k == 8 ? "boundary-segments" : "area";
    const char* ex = k < 4 ? "vtk" : k < 6 ? "txt" : k == 6 ? "bin" : k < 9 ? "txt" : k == 9 ? "vtk" : "txt";
    return fmt("%s_%04u.%s", st, n, ex);
}
void numbered(int k, unsigned n, const std::string& d, const Ctx& c)
{
    InputOutput io;
    if (k < 4) io.saveLevelSetVTK(n, *c.l, k & 1, k & 2, d);
    else if (k == 4) io.saveLevelSetTXT(n, *c.l, d);
    else if (k == 5) io.saveLevelSetTXT(n, *c.l, d, true);
    else if (k == 6) io.saveLevelSetBIN(n, *c.l, d);
    else if (k == 7) io.saveBoundaryPointsTXT(n, *c.b, d);
    else if (k == 8) io.saveBoundarySegmentsTXT(n, *c.b, d);
    else if (k == 9) io.saveAreaFractionsVTK(n, c.l->mesh, d);
    else if (k == 10) io.saveAreaFractionsTXT(n, c.l->mesh, d);
    else io.saveAreaFractionsTXT(n, c.l->mesh, d, true);
}
// Reference reading of an export: lines of tokens; "" if it is what it should be.
typedef std::vector<std::vector<std::string>> Lines;
Lines split(const std::string& s)
{
    Lines r; std::istringstream in(s); std::string l, t;
    while (std::getline(in, l)) { r.push_back({}); std::istringstream q(l); while (q >> t) r.back().push_back(t); }
    return r;
}
bool same(const std::string& t, double v)
{
    char* end; double x = strtod(t.c_str(), &end);
    if (*end) return false;
    if (std::isnan(v)) return std::isnan(x);
    return x == v || printed(v, x);
}
struct Reader
{
    Lines L; size_t i; std::string err;
    Reader(const std::string& s) : L(split(s)), i(0) {}
    void skipBlank() { while (i < L.size() && L[i].empty()) i++; }
    bool words(const std::vector<std::string>& w)
    {
        skipBlank();
        if (err.empty() && (i >= L.size() || L[i] != w)) { std::string j; for (auto& x : w) j += x + " "; err = fmt("line %zu should read '%s'", i + 1, j.c_str()); }
        i++; return err.empty();
    }
    bool values(const std::vector<double>& v)
    {
        if (!err.empty()) return false;
        if (i >= L.size() || L[i].size() != v.size()) { err = fmt("line %zu should hold %zu values", i + 1, v.size()); return false; }
        for (size_t k = 0; k < v.size(); k++) if (!same(L[i][k], v[k])) { err = fmt("line %zu: value %zu is %s, should be %.9g", i + 1, k, L[i][k].c_str(), v[k]); return false; }
        i++; return true;
    }
    void end() { skipBlank(); if (err.empty() && i != L.size()) err = fmt("%zu lines, expected %zu", L.size(), i); }
};
void vtkHead(Reader& r, const Mesh& m)
{
    r.words({"#", "vtk", "DataFile", "Version", "3.0"});
    r.i++;                                              // title
    r.words({"ASCII"}); r.words({"DATASET", "RECTILINEAR_GRID"});
    r.words({"DIMENSIONS", fmt("%u", m.width + 1), fmt("%u", m.height + 1), "1"});
    std::vector<std::string> x, y;
    for (unsigned i = 0; i <= m.width; i++) x.push_back(fmt("%u", i));
    for (unsigned i = 0; i <= m.height; i++) y.push_back(fmt("%u", i));
    r.words({"X_COORDINATES", fmt("%u", m.width + 1), "int"}); r.words(x);
    r.words({"Y_COORDINATES", fmt("%u", m.height + 1), "int"}); r.words(y);
    r.words({"Z_COORDINATES", "1", "int"}); r.words({"0"});
}
void vtkScalars(Reader& r, const char* n, const std::vector<double>& v)
{
    r.words({"SCALARS", n, "float", "1"}); r.words({"LOOKUP_TABLE", "default"});
    for (double x : v) if (!r.values({x})) return;
}
std::string judgeExport(int k, const std::string& s, const Ctx& c)
{
    const LevelSet& l = *c.l; const Boundary& b = *c.b; const Mesh& m = l.mesh;
    if (k == 6)
        return s.size() == m.nNodes * 8 && !memcmp(s.data(), &l.signedDistance[0], s.size()) ? "" : "binary file differs from the signed distance";
    Reader r(s);
    if (k < 4)
    {
        vtkHead(r, m); r.words({"POINT_DATA", fmt("%u", m.nNodes)});
        vtkScalars(r, "distance", l.signedDistance);
        if (k & 1) vtkScalars(r, "velocity", l.velocity);
        if (k & 2) vtkScalars(r, "gradient", l.gradient);
    }
    else if (k < 6)
        for (unsigned i = 0; i < m.nNodes; i++)
        {
            std::vector<double> v; if (k == 5) { v.push_back(i % (m.width + 1)); v.push_back(i / (m.width + 1)); }
            v.push_back(l.signedDistance[i]); v.push_back(l.velocity[i]); v.push_back(l.gradient[i]);
            if (!r.values(v)) break;
        }
    else if (k == 7) { for (const BoundaryPoint& p : b.points) if (!r.values({p.coord.x, p.coord.y, p.length})) break; }
    else if (k == 8)
        for (const BoundarySegment& g : b.segments)
        {
            const Coord& p = b.points[g.start].coord; const Coord& q = b.points[g.end].coord;
            if (!r.values({p.x, p.y}) || !r.values({q.x, q.y})) break;
            if (r.i < r.L.size() && !r.L[r.i].empty()) { r.err = fmt("line %zu should be blank", r.i + 1); break; }
            r.i++;
        }
    else
    {
        std::vector<double> a; for (const Element& x : m.elements) a.push_back(x.area);
        if (k == 9) { vtkHead(r, m); r.words({"CELL_DATA", fmt("%u", m.nElements)}); vtkScalars(r, "area", a); }
        else for (unsigned i = 0; i < m.nElements; i++)
        {
            std::vector<double> v; if (k == 11) { v.push_back(i % m.width + 0.5); v.push_back(i / m.width + 0.5); }
            v.push_back(a[i]); if (!r.values(v)) break;
        }
    }
    r.end();
    return r.err;
}
// Structures to export.
const std::vector<std::pair<Sz, int>>& ctxs(Explorer& e)
{
    static std::vector<std::pair<Sz, int>> v;
    if (v.empty())
    {
        std::vector<Sz> sz = {{1, 1}, {2, 1}, {1, 2}, {3, 2}, {2, 5}, {6, 6}, {11, 4}, {4, 13}, {30, 9}, {9, 30}};
        if (e.thorough) { sz.push_back({3, 3}); sz.push_back({50, 40}); sz.push_back({101, 2}); sz.push_back({1, 120}); }
        for (Sz z : sz) for (int p = 0; p < 9; p++) v.push_back({z, p});
    }
    return v;
}
Ctx context(Sz z, int p)
{
    int w = z.first, h = z.second;
    std::vector<double> sd((w + 1) * (h + 1));
    if (p == 0) sd = fields::line(w, h, 23, 0.1);
    else if (p == 1) sd = fields::circle(w, h, 0.5 * w, 0.5 * h, 0.36 * std::min(w, h));
    else if (p == 2) { for (size_t i = 0; i < sd.size(); i++) sd[i] = (i % 2 ? -1 : 1) * fields::mag(1, i); }
    else if (p == 3) { for (size_t i = 0; i < sd.size(); i++) sd[i] = (i % 3 == 1 ? -1 : 1) * fields::mag(2, i); }
    else if (p == 4) { for (size_t i = 0; i < sd.size(); i++) sd[i] = 1 + fields::mag(1, i); }
    else if (p == 5) { for (size_t i = 0; i < sd.size(); i++) sd[i] = -1 - fields::mag(1, i); }
    else if (p == 6) { for (size_t i = 0; i < sd.size(); i++) sd[i] = i % 4 == 2 ? 0 : (i % 4 ? -1 : 1) * fields::mag(3, i) * 1e4; }
    else if (p == 7) { for (size_t i = 0; i < sd.size(); i++) sd[i] = (i % 5 ? 1 : -1) * fields::mag(1, i) * 1e-4; }
    else { for (size_t i = 0; i < sd.size(); i++) sd[i] = i % 6 == 0 ? -0.0 : (i % 2 ? 1 : -1) * 12345678.9 * fields::mag(1, i); }
    Ctx c; c.l = make(w, h, sd);
    for (unsigned i = 0; i < c.l->mesh.nNodes; i++)
    {
        c.l->velocity[i] = (i % 2 ? -1 : 1) * (300 + i) * 0.123457; c.l->gradient[i] = 7 + 0.001 * i;
        if (p == 8 && i == 1) { c.l->velocity[i] = INF; c.l->gradient[i] = std::nan(""); }
    }
    c.b = new Boundary(); c.b->discretise(*c.l);
    c.name = fmt("mesh %dx%d structure %d", w, h, p);
    return c;
}
void exports(Explorer& e)
{
    std::vector<unsigned> num = {0, 1, 7, 9, 10, 42, 99, 100, 101, 999, 1000, 9999, 10000, 12345, 99999, 100000, 1234567, 2147483647u, 2147483648u, 4294967295u};
    for (auto& z : ctxs(e))
    {
        // one context per (structure), all kinds and numbers are cases of it
        Ctx c; bool made = false;
        for (int k = 0; k < 12; k++) for (int dm = 0; dm < 3; dm++) for (unsigned n : num)
        {
            if (!e.take()) continue;
            if (!made) { c = context(z.first, z.second); made = true; }
            e.describe(c.name + fmt(" export %s number %u directory mode %d", kindName[k], n, dm));
            std::string d = dir(e), f = d + "/named", sub = d + "/out";
            mkdir(sub.c_str(), 0700);
            if (chdir(dm == 0 ? sub.c_str() : d.c_str())) _exit(3);
            std::string before = snap::all(*c.l) + snap::boundary(*c.b);
            std::string want = numberedName(k, n), at = sub + "/" + want;
            if (n % 2) { spit(f, std::string(50000, '7')); spit(at, std::string(50000, '8')); }     // overwriting longer files
            e.t(2);
            bool r = refusedIO([&] { named(k, f, c); });
            std::string a = slurp(f); unlink(f.c_str());
            e.expect(!r, "export was refused");
            std::string err = r ? "" : judgeExport(k, a, c);
            e.expect(err.empty(), err);
            r = refusedIO([&] { numbered(k, n, dm == 0 ? "" : dm == 1 ? sub : "out", c); });
            e.expect(!r, "numbered export was refused");
            std::vector<std::string> got = ls(sub);
            std::string g; for (auto& x : got) g += x + " ";
            e.expect(got.size() == 1 && got[0] == want, "numbered export wrote [ " + g + "] instead of " + want);
            if (!e.failedCase) e.expect(slurp(at) == a, "numbered and named export differ");
            for (auto& x : got) unlink((sub + "/" + x).c_str());
            std::vector<std::string> rest = ls(d);
            for (auto& x : rest) if (x != "out") { e.expect(false, "stray file " + x); unlink((d + "/" + x).c_str()); }
            e.expect(snap::all(*c.l) + snap::boundary(*c.b) == before, "exporting changed the exported objects");
            if (chdir(d.c_str())) _exit(3);
            Hash s; s.s(c.name); s.u(k); s.u(n); s.u(dm); e.state(s);
            Hash o; o.s(a); o.s(want); e.outcome(o);
            e.done();
        }
        if (made) { delete c.l; delete c.b; }
    }
    // large structures, every kind of file
    std::vector<std::pair<Sz, int>> big = {{{270, 260}, 1}, {{23000, 2}, 2}, {{2, 23000}, 2}, {{300, 1}, 3}, {{1, 300}, 3}, {{128, 130}, 2}, {{150, 150}, 0}};
    for (auto& z : big)
    {
        Ctx c; bool made = false;
        for (int k = 0; k < 12; k++)
        {
            if (!e.take()) continue;
            if (!made) { c = context(z.first, z.second); made = true; }
            e.describe("large " + c.name + fmt(" export %s", kindName[k]));
            std::string d = dir(e), f = d + "/named";
            std::string before = snap::all(*c.l) + snap::boundary(*c.b);
            e.t();
            bool r = refusedIO([&] { named(k, f, c); });
            std::string a = slurp(f); unlink(f.c_str());
            e.expect(!r, "export was refused");
            std::string err = r ? "" : judgeExport(k, a, c);
            e.expect(err.empty(), err);
            e.expect(snap::all(*c.l) + snap::boundary(*c.b) == before, "exporting changed the exported objects");
            Hash s; s.s(c.name); s.u(k); s.u(~0u); e.state(s);
            Hash o; o.s(a); e.outcome(o);
            e.done();
        }
        if (made) { delete c.l; delete c.b; }
    }
}

void faults(Explorer& e)
{
    signal(SIGXFSZ, SIG_IGN); signal(SIGPIPE, SIG_IGN);
    std::vector<std::pair<Sz, int>> cs = {{{1, 1}, 2}, {{3, 2}, 3}, {{6, 6}, 1}, {{20, 14}, 2}};
    if (e.thorough) { cs.push_back({{5, 9}, 6}); cs.push_back({{41, 40}, 3}); }
    for (auto& z : cs)
    {
        Ctx c = context(z.first, z.second);
        std::string d = dir(e), f = d + "/x";
        for (int k = 0; k < 12; k++)
        {
            bool r0 = refusedIO([&] { named(k, f, c); });
            std::string good = slurp(f); unlink(f.c_str());
            // every position of the first refused byte
            size_t S = good.size();
            for (size_t L = 0; L <= S + 1; L++)
            {
                if (!e.take()) continue;
                e.describe(c.name + fmt(" export %s file size limit %zu of %zu", kindName[k], L, S));
                e.expect(!r0, "export refused without a fault");
                bool num = L % 2; std::string at = num ? d + "/" + numberedName(k, 3) : f;
                struct rlimit old, lim; getrlimit(RLIMIT_FSIZE, &old); lim = old; lim.rlim_cur = L; setrlimit(RLIMIT_FSIZE, &lim);
                bool r = refusedIO([&] { if (num) numbered(k, 3, d, c); else named(k, f, c); }); e.t();
                setrlimit(RLIMIT_FSIZE, &old);
                std::string got = slurp(at); unlink(at.c_str());
                if (L < S) e.expect(r, fmt("only %zu of %zu bytes were written, but the save returned normally", got.size(), S));
                else e.expect(!r && got == good, "complete write refused or wrong");
                e.count(L < S ? "failing writes" : "complete writes");
                Hash s; s.s(c.name); s.u(k); s.u(L); e.state(s);
                Hash o; o.u(r); o.s(got); e.outcome(o);
                e.done();
            }
            // streams whose n-th flush fails once or for good, or whose close fails
            for (size_t cap : {(size_t)16, (size_t)64, (size_t)256}) for (int sticky = 0; sticky < 2; sticky++)
            {
                int n = (int)(S / cap) + 3;
                for (int at = -1; at < n; at++) for (int cl = 0; cl < 2; cl++)
                {
                    if (!e.take()) continue;
                    e.describe(c.name + fmt(" export %s buffer %zu flush %d fails (%s) close %s", kindName[k], cap, at, sticky ? "for good" : "once", cl ? "fails" : "works"));
                    Sink s; s.writes = 0; s.failAt = at; s.failClose = cl; s.sticky = sticky; s.cap = cap; s.pos = 0;
                    g_sink = &s;
                    bool r = refusedIO([&] { named(k, f, c); }); e.t();
                    g_sink = 0;
                    bool used = s.writes > 0 || s.data.size();
                    struct stat st; if (!stat(f.c_str(), &st)) { s.data = slurp(f); used = s.failClose = false; unlink(f.c_str()); }
                    if (!r) e.expect(s.data == good, fmt("a failed flush went unnoticed: %zu of %zu bytes are there", s.data.size(), S));
                    if (!r && used) e.expect(!s.failClose, "closing the file failed, but the save returned normally");
                    if ((at < 0 || at >= s.writes) && !s.failClose) e.expect(!r, "refused although nothing failed");
                    e.count(r ? "failing streams" : "working streams");
                    Hash h; h.s(c.name); h.u(k); h.u(cap); h.u(at + 1); h.u(cl); h.u(sticky); e.state(h);
                    Hash o; o.u(r); o.s(s.data); e.outcome(o);
                    e.done();
                }
            }
            // the n-th write system call fails, is interrupted, or takes only half of the bytes
            for (int kind = 0; kind < RAW_KINDS; kind++) for (int at = 0; at < 5; at++)
            {
                if (!e.take()) continue;
                e.describe(c.name + fmt(" export %s system call %d fault %d", kindName[k], at, kind));
                g_raw = {true, 0, at, kind, 0};
                bool r = refusedIO([&] { named(k, f, c); }); e.t();
                g_raw.armed = false;
                bool hit = g_raw.calls > at;
                std::string got = slurp(f); unlink(f.c_str());
                if (!r) e.expect(got == good, fmt("a failed write went unnoticed: %zu of %zu bytes are there", got.size(), S));
                if (!hit) e.expect(!r, "refused although nothing failed");
                e.count(!hit ? "complete writes" : r ? "failing system calls" : "recovered system calls");
                Hash h; h.s(c.name); h.u(k); h.u(kind); h.u(at); h.u(99); e.state(h);
                Hash o; o.u(r); o.u(hit); o.s(got); e.outcome(o);
                e.done();
            }
            // targets that cannot be written
            for (int t = 0; t < 9; t++)
            {
                if (!e.take()) continue;
                e.describe(c.name + fmt(" export %s unwritable target %d", kindName[k], t));
                int pfd[2] = {-1, -1}; std::string p;
                if (t == 0) p = "/dev/full";
                if (t == 1) p = d;
                if (t == 2) p = d + "/missing/x";
                if (t == 3) p = "";
                if (t == 4) p = d + "/" + std::string(300, 'n');
                if (t == 5) { spit(d + "/plain", "1"); p = d + "/plain/x"; }
                if (t == 6) { if (pipe(pfd)) _exit(3); close(pfd[0]); p = fmt("/dev/fd/%d", pfd[1]); if (access(p.c_str(), F_OK)) p = fmt("/proc/self/fd/%d", pfd[1]); }
                if (t == 7) { if (symlink("loop", (d + "/loop").c_str())) {} p = d + "/loop"; }
                if (t == 8) { if (symlink("/dev/full", (d + "/" + numberedName(k, 8)).c_str())) {} }
                bool r;
                if (S == 0 && (t == 0 || t == 6 || t == 8)) r = true;       // nothing to write, nothing can fail
                else { r = refusedIO([&] { if (t == 8) numbered(k, 8, d, c); else named(k, p, c); }); e.t(); }
                e.expect(r, "nothing could be written, but the save returned normally");
                if (t != 8) { bool r2 = refusedIO([&] { numbered(k, 5, t == 5 ? d + "/plain" : d + "/missing", c); }); e.t(); e.expect(r2, "saving into a directory that is not there returned normally"); }
                if (pfd[1] >= 0) close(pfd[1]);
                unlink((d + "/loop").c_str()); unlink((d + "/plain").c_str()); unlink((d + "/" + numberedName(k, 8)).c_str());
                Hash s; s.s(c.name); s.u(k); s.u(1000 + t); e.state(s);
                Hash o; o.u(r); o.u(t); e.outcome(o);
                e.done();
            }
        }
        delete c.l; delete c.b;
    }
}
}

int mc_main(int argc, char** argv)
{
    char t[] = "/tmp/slsm_io.XXXXXX";
    if (!mkdtemp(t)) { perror("mkdtemp"); return 3; }
    g_base = t;
    struct rlimit rl; getrlimit(RLIMIT_NOFILE, &rl); rl.rlim_cur = rl.rlim_max; setrlimit(RLIMIT_NOFILE, &rl);
    std::string cwd; { char b[4096]; if (getcwd(b, sizeof b)) cwd = b; }
    int rc = run(argc, argv, {{"C22", lossless, 60}, {"C23", damaged, 60}, {"C24", exports, 60}, {"C25", faults, 60}},
                 {"must be refused", "must load", "either", "failing writes", "complete writes", "failing streams", "working streams", "failing system calls", "recovered system calls"});
    if (!cwd.empty() && chdir(cwd.c_str())) {}
    std::string cmd = "rm -rf " + g_base;
    if (g_base.compare(0, 13, "/tmp/slsm_io.") == 0 && system(cmd.c_str())) {}
    return rc;
}
