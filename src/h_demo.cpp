// C40 the shipped demonstration programs: what they compute from a shape (sensitivities, mismatch, weighted
// lengths, centre of mass, bias, acceptance), C++ and Python, and the umbrella sampling program as a whole.
#include <bits/stdc++.h>
#include <dirent.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include "mc.hpp"
#include "demo_api.hpp"
#include "fields.hpp"
using namespace mc;
// The seed that the programs draw for themselves is one of the environment's answers.
static unsigned g_seed = 0;
extern "C" unsigned __wrap__ZNSt13random_device9_M_getvalEv(void*) { return g_seed; }
// The exponents of the acceptance test, as the umbrella sampling program computes them (in the child, read by its parent).
struct Exponents { int n; double v[64]; double time; };
static Exponents* g_exp = nullptr;
extern "C" double __real_exp(double);
extern "C" double __wrap_exp(double x) { if (g_exp) { if (g_exp->n < 64) g_exp->v[g_exp->n] = x; g_exp->n++; } return __real_exp(x); }
// The time that the program lets the level set evolve for.
extern "C" bool __real__ZN4slsm8LevelSet6updateEd(slsm::LevelSet*, double);
extern "C" bool __wrap__ZN4slsm8LevelSet6updateEd(slsm::LevelSet* l, double dt) { if (g_exp) g_exp->time += dt; return __real__ZN4slsm8LevelSet6updateEd(l, dt); }
namespace nlopt { std::function<result(Problem&, std::vector<double>&, double&)> g_optimize; }

namespace demos
{
bool get_shape_match(Api&);
bool get_bimodal(Api&);
bool get_bimodal_brolly(Api&);
bool get_dumbbell(Api&);
bool get_minimise_area(Api&);
bool get_minimise_perimeter(Api&);
bool get_minimise_perimeter_constrained(Api&);
std::vector<Api> all()
{
    std::vector<Api> v;
    for (auto f : {get_shape_match, get_bimodal, get_bimodal_brolly, get_dumbbell, get_minimise_area, get_minimise_perimeter, get_minimise_perimeter_constrained})
    {
        Api a;
        if (f(a)) v.push_back(a);
    }
    return v;
}
}

namespace
{
using demos::Api;
S g_base, g_repo;
const double NaN = std::numeric_limits<double>::quiet_NaN();
S dir(Explorer& e) { S d = g_base + fmt("/w%d", e.wid); mkdir(d.c_str(), 0700); return d; }

// ---------------------------------------------------------------- oracles
double clip(double m) { return m <= -1 ? -1 : m >= 1 ? 1 : m; }
double sensitivity(const slsm::Mesh& m, unsigned node, double x, double y, const V& diff)
{
    double dx = node % (m.width + 1) - x, dy = node / (m.width + 1) - y;
    if (dx * dx + dy * dy < 1e-6) return clip(diff[node]);
    double s = 0, w = 0; int cx = node % (m.width + 1), cy = node / (m.width + 1);
    const int ox[5] = {0, -1, 1, 0, 0}, oy[5] = {0, 0, 0, -1, 1};
    for (int k = 0; k < 5; k++)
    {
        int X = cx + ox[k], Y = cy + oy[k];
        if (X < 0 || Y < 0 || X > (int)m.width || Y > (int)m.height) continue;
        double r = (X - x) * (X - x) + (Y - y) * (Y - y);
        s += diff[Y * (m.width + 1) + X] / r; w += 1 / r;
    }
    return clip(s / w);
}
double weightAt(double y, double up, double lo, double red) { return y > up ? 1 : y < lo ? red : 1 - (up - y) / (up - lo) * (1 - red); }
double segment(double x1, double y1, double x2, double y2, double up, double lo, double red)
{
    double s = 0, len = std::hypot(x2 - x1, y2 - y1);
    for (int j = 0; j < 10; j++) s += weightAt(y1 + (j + 0.5) / 10 * (y2 - y1), up, lo, red) * len / 10;
    return s;
}
double pointLength(const std::vector<BP>& all, const BP& p, double up, double lo, double red)
{
    double s = 0;
    for (unsigned i = 0; i < p.nNeighbours; i++) { const BP& q = all[p.neighbours[i]]; s += segment(p.coord.x, p.coord.y, q.coord.x, q.coord.y, up, lo, red); }
    return s;
}
void gather(const std::vector<BP>& all, double up, double lo, double red, double& len, double& x, double& y)
{
    len = x = y = 0;
    for (const BP& p : all) { double l = 0.5 * pointLength(all, p, up, lo, red); len += l; x += p.coord.x * l; y += p.coord.y * l; }
    x /= len; y /= len;
}
bool near(double a, double b) { return std::abs(a - b) <= 1e-9 * (1 + std::abs(b)); }

// ---------------------------------------------------------------- python side
// One process per batch: the functions of the script are run on the described objects.
S g_python = "/usr/bin/env python3 ";
bool batch(Explorer& e, const S& script, const S& text, std::vector<S>& out)
{
    S in = dir(e) + "/cases", o = dir(e) + "/values";
    FILE* f = fopen(in.c_str(), "w"); if (!f) return false; fputs(text.c_str(), f); fclose(f);
    S cmd = g_python + getenv("SLSM_PYDEMO") + " " + g_repo + "/python/" + script + " " + in + " > " + o + " 2>" + dir(e) + "/errors";
    int rc = system(cmd.c_str());
    out.clear(); std::ifstream r(o); S line; while (std::getline(r, line)) out.push_back(line);
    return rc == 0;
}
S num(double d) { return d != d ? "nan" : fmt("%.17g", d); }
S join(const V& v) { S s; for (double d : v) s += " " + num(d); return s; }

// ---------------------------------------------------------------- functions
typedef std::unique_ptr<slsm::LevelSet> Ptr;
Ptr level(int w, int h)
{
    std::vector<slsm::Hole> a, b; a.push_back(slsm::Hole(0.5 * w, 0.5 * h, 0.3)); b.push_back(slsm::Hole(0.5 * w, 0.5 * h, 0.4));
    return Ptr(new slsm::LevelSet(w, h, a, b, 0.5, 3, true));
}
const V OFF = {0, 4e-4, 3e-3, 0.21, 0.5, 0.68, 0.997, 0.9996, 1};
S meshText(const slsm::Mesh& m)
{
    S s = fmt("M %u %u", m.nNodes, m.nElements);
    for (unsigned i = 0; i < m.nNodes; i++) s += fmt(" %.17g %.17g %u %u %u %u", m.nodes[i].coord.x, m.nodes[i].coord.y, m.nodes[i].neighbours[0], m.nodes[i].neighbours[1], m.nodes[i].neighbours[2], m.nodes[i].neighbours[3]);
    for (unsigned i = 0; i < m.nElements; i++) s += " " + num(m.elements[i].area);
    return s + "\n";
}
void sensitivities(Explorer& e, const std::vector<Api>& apis, const std::vector<S>& scripts)
{
    const int dims[6][2] = {{1, 1}, {2, 1}, {1, 3}, {2, 2}, {3, 2}, {4, 3}};
    const double alpha[3] = {-1.6, 0.3, 1.1};
    for (int d = 0; d < (e.thorough ? 6 : 5); d++) for (size_t k = 0; k < apis.size() + scripts.size(); k++) for (int cy = 0; cy < dims[d][1]; cy++) for (int cx = 0; cx < dims[d][0]; cx++)
    {
        int w = dims[d][0], h = dims[d][1];
        bool py = k >= apis.size();
        S name = py ? scripts[k - apis.size()] : apis[k].name + ".cpp";
        if (!py && !apis[k].sensitivity) continue;
        for (double ox : OFF) for (double oy : OFF)
        {
            if (py && (ox != OFF[0] || oy != OFF[0])) continue;      // the whole cell is one batch
            if (!e.take()) continue;
            e.describe(fmt("%s sensitivity on %dx%d, cell (%d,%d)", name.c_str(), w, h, cx, cy) + (py ? "" : fmt(" offset (%g,%g)", ox, oy)));
            Ptr l = level(w, h); Hash o, st; st.u(d).u(k).u(cx).u(cy).d(ox).d(oy);
            S text = meshText(l->mesh); V want;
            for (double ax : py ? OFF : V(1, ox)) for (double ay : py ? OFF : V(1, oy))
            {
                if (py && !e.thorough && std::lround((ax + 2 * ay) * 1000) % 3 == 1) continue;
                slsm::Coord c(cx + ax, cy + ay);
                unsigned node = l->mesh.getClosestNode(c); int nx = node % (w + 1), ny = node / (w + 1);
                int at[5] = {(int)node, nx > 0 ? (int)node - 1 : -1, nx < w ? (int)node + 1 : -1, ny > 0 ? (int)node - w - 1 : -1, ny < h ? (int)node + w + 1 : -1};
                std::vector<int> a(5, 0); int word = 0;
                do
                {
                    word++;
                    bool skip = py && !e.thorough && word % 4;
                    for (int i = 0; i < 5; i++) if (at[i] < 0 && a[i]) skip = true;
                    if (skip) continue;
                    // every node that does not count is poisoned
                    l->target.assign(l->mesh.nNodes, NaN); l->signedDistance.assign(l->mesh.nNodes, NaN); V diff(l->mesh.nNodes, NaN);
                    for (int i = 0; i < 5; i++) if (at[i] >= 0) { double s = word % 2 ? 0.4 * i - 0.7 : -1.3; diff[at[i]] = alpha[a[i]] + 0.011 * i; l->signedDistance[at[i]] = s; l->target[at[i]] = s + diff[at[i]]; }
                    double r = sensitivity(l->mesh, node, c.x, c.y, diff);
                    if (py) { text += fmt("S %u %.17g %.17g", node, c.x, c.y) + join(l->target) + join(l->signedDistance) + "\n"; want.push_back(r); }
                    else
                    {
                        double g = NaN; bool no = refused([&] { g = apis[k].sensitivity(c, *l); }); e.t();
                        e.expect(!no && near(g, r), no ? "refused" : fmt("at (%.17g,%.17g) target - distance %s: %.12g, expected %.12g", c.x, c.y, mc::str(diff).c_str(), g, r));
                        o.d(g);
                    }
                } while (next(a, 3));
            }
            if (py)
            {
                std::vector<S> got;
                if (e.expect(batch(e, name, text, got), "the functions of the script could not be run") && !(got.size() == 1 && got[0] == "MISSING"))
                {
                    e.expect(got.size() == want.size(), fmt("%zu answers for %zu cases", got.size(), want.size()));
                    for (size_t i = 0; i < std::min(got.size(), want.size()) && !e.failedCase; i++)
                    {
                        char* q; double g = strtod(got[i].c_str(), &q); e.t(); o.d(g);
                        if (q == got[i].c_str() || !near(g, want[i])) { size_t at = 0; for (size_t n = 0; n <= i; n++) at = text.find('\n', at) + 1; e.fail("case " + text.substr(at, text.find('\n', at) - at) + ": " + got[i] + ", expected " + num(want[i])); }
                    }
                }
            }
            e.state(st); e.outcome(o); e.done();
        }
    }
}
// closed polygons and broken lines as boundaries, and boundaries the library discretised
std::vector<std::pair<S, std::vector<BP>>> chains(Explorer& e)
{
    std::vector<std::pair<S, std::vector<BP>>> v;
    auto link = [](std::vector<BP>& p, int a, int b) { p[a].neighbours[p[a].nNeighbours++] = b; p[b].neighbours[p[b].nNeighbours++] = a; };
    const V ys = {1.2, 3, 4.7, 7, 8.5};
    for (int a = 0; a < 5; a++) for (int b = 0; b < 5; b++) for (int c = 0; c < 5; c++) for (int closed = 0; closed < 2; closed++)
    {
        std::vector<BP> p(3); const double xs[3] = {1, 2.7, 0.4};
        int y[3] = {a, b, c};
        for (int i = 0; i < 3; i++) { p[i].coord = slsm::Coord(xs[i], ys[y[i]]); p[i].nNeighbours = 0; }
        link(p, 0, 1); link(p, 1, 2); if (closed) link(p, 2, 0);
        v.push_back({fmt("chain %d%d%d closed %d", a, b, c, closed), p});
    }
    for (double r : {1.3, 2.6, 4.1}) for (double ox : {0.0, 0.37}) for (int two = 0; two < 2; two++)
    {
        std::vector<slsm::Hole> q; q.push_back(slsm::Hole(5 + ox, 5.2 - ox, r)); if (two) q.push_back(slsm::Hole(13.1, 5.6, 2.2));
        slsm::LevelSet l(two ? 18 : 10, 10, q, 0.5, 3, true); l.reinitialise(); slsm::Boundary B; B.discretise(l);
        v.push_back({fmt("hole radius %g at %g, two %d", r, 5 + ox, two), B.points});
    }
    (void)e; return v;
}
void measures(Explorer& e, const std::vector<Api>& apis, const std::vector<S>& scripts)
{
    auto shapes = chains(e);
    const double cut[5][3] = {{7, 3, 0.5}, {8, 2, 0.02}, {4.7, 1.2, 1}, {20, 10, 0.3}, {0.9, 0.2, 0.7}};
    for (size_t k = 0; k < apis.size() + scripts.size(); k++) for (int c = 0; c < 5; c++)
    {
        bool py = k >= apis.size();
        S name = py ? scripts[k - apis.size()] : apis[k].name + ".cpp"; double up = cut[c][0], lo = cut[c][1], red = cut[c][2];
        std::vector<S> got; S text; V want; std::vector<S> what; Hash o;
        if (!py && (!apis[k].globals || !apis[k].globals(0, up, lo, red))) continue;
        if (py)
        {
            if (!e.take()) continue;
            e.describe(fmt("%s measures, cut-offs %g and %g, reduced to %g", name.c_str(), up, lo, red));
            text = fmt("G %.17g %.17g %.17g\n", up, lo, red);
        }
        for (double y = lo - 2; y <= up + 2; y += 0.125)
        {
            double r = weightAt(y, up, lo, red);
            if (py) { text += "W " + num(y) + "\n"; want.push_back(r); what.push_back("weight at " + num(y)); continue; }
            if (!apis[k].weight || !e.take()) continue;
            e.describe(fmt("%s weight, cut-offs %g and %g, reduced to %g, y %g", name.c_str(), up, lo, red, y));
            double g = NaN; bool no = refused([&] { g = apis[k].weight(y); }); e.t();
            e.expect(!no && near(g, r), fmt("weight %.12g, expected %.12g", g, r));
            e.state(Hash().u(k).u(c).d(y)); e.outcome(Hash().d(g)); e.done();
        }
        for (auto& s : shapes)
        {
            double len, x, y; gather(s.second, up, lo, red, len, x, y);
            if (py)
            {
                text += fmt("B %zu", s.second.size());
                for (const BP& p : s.second) { text += fmt(" %.17g %.17g %u", p.coord.x, p.coord.y, p.nNeighbours); for (unsigned i = 0; i < p.nNeighbours; i++) text += fmt(" %u", p.neighbours[i]); }
                text += "\nL\nC\n"; want.push_back(len); want.push_back(x); want.push_back(y); for (const char* q : {"perimeter of ", "centre x of ", "centre y of "}) what.push_back(q + s.first);
                for (size_t i = 0; i < s.second.size(); i++) { text += fmt("P %zu\n", i); want.push_back(pointLength(s.second, s.second[i], up, lo, red)); what.push_back(fmt("length of point %zu of ", i) + s.first); }
                continue;
            }
            if (!e.take()) continue;
            e.describe(fmt("%s measures, cut-offs %g and %g, reduced to %g, %s", name.c_str(), up, lo, red, s.first.c_str()));
            std::vector<BP> p = s.second; apis[k].globals(&p, up, lo, red); Hash q; double g;
            if (apis[k].pointLength) for (size_t i = 0; i < p.size(); i++) for (int moved = 0; moved < 3; moved++)
            {
                BP t = p[i]; if (moved) { t.coord.x += moved == 1 ? 1e-4 : 0; t.coord.y -= moved == 2 ? 0.3 : 0; }
                g = apis[k].pointLength(t); e.t(); double r = pointLength(p, t, up, lo, red); q.d(g);
                e.expect(near(g, r), fmt("length of point %zu (moved %d) %.12g, expected %.12g", i, moved, g, r));
            }
            if (apis[k].perimeter) { g = apis[k].perimeter(p); e.t(); q.d(g); e.expect(near(g, len), fmt("perimeter %.12g, expected %.12g", g, len)); }
            if (apis[k].centre) { double gx = NaN, gy = NaN; apis[k].centre(p, gx, gy); e.t(); q.d(gx).d(gy); e.expect(near(gx, x) && near(gy, y), fmt("centre (%.12g,%.12g), expected (%.12g,%.12g)", gx, gy, x, y)); }
            for (size_t i = 0; i < p.size(); i++) e.expect(p[i].coord.x == s.second[i].coord.x && p[i].coord.y == s.second[i].coord.y, "the points were changed");
            e.state(Hash().u(k).u(c).s(s.first)); e.outcome(q); e.done();
        }
        if (py)
        {
            if (e.expect(batch(e, name, text, got), "the functions of the script could not be run"))
            {
                e.expect(got.size() == want.size(), fmt("%zu answers for %zu questions", got.size(), want.size()));
                for (size_t i = 0; i < std::min(got.size(), want.size()) && !e.failedCase; i++)
                {
                    if (got[i] == "MISSING") continue;
                    char* q; double g = strtod(got[i].c_str(), &q); e.t(); o.d(g);
                    e.expect(q != got[i].c_str() && near(g, want[i]), what[i] + ": " + got[i] + ", expected " + num(want[i]));
                }
            }
            e.state(Hash().u(k).u(c)); e.outcome(o); e.done();
        }
    }
    // mismatch of areas
    const double alpha[4] = {0, 0.3, 1, 0.85};
    for (size_t k = 0; k < apis.size() + scripts.size(); k++) for (int d = 0; d < 3; d++)
    {
        bool py = k >= apis.size();
        if (!py && !apis[k].mismatch) continue;
        int w = d == 0 ? 1 : 2, h = d == 2 ? 2 : 1; unsigned n = w * h;
        S name = py ? scripts[k - apis.size()] : apis[k].name + ".cpp"; V want; S text; Hash o;
        if (!e.take()) continue;
        e.describe(fmt("%s area mismatch on %dx%d", name.c_str(), w, h));
        Ptr l = level(w, h); std::vector<int> a(2 * n, 0); int word = 0;
        do
        {
            if (++word % (d == 2 ? (py ? 97 : 5) : 1)) continue;
            V t(n); double r = 0;
            for (unsigned i = 0; i < n; i++) { l->mesh.elements[i].area = alpha[a[i]]; t[i] = alpha[a[n + i]]; r += std::abs(alpha[a[i]] - t[i]); }
            if (py) { text += meshText(l->mesh) + "A" + join(t) + "\n"; want.push_back(r); continue; }
            double g = apis[k].mismatch(l->mesh, t); e.t(); o.d(g);
            e.expect(near(g, r), fmt("mismatch %.12g, expected %.12g", g, r));
        } while (next(a, 4));
        if (py)
        {
            std::vector<S> got;
            if (e.expect(batch(e, name, text, got) && got.size() == want.size(), "the functions of the script could not be run"))
                for (size_t i = 0; i < want.size() && !e.failedCase; i++) { if (got[i] == "MISSING") continue; double g = atof(got[i].c_str()); e.t(); o.d(g); e.expect(near(g, want[i]), "mismatch " + got[i] + ", expected " + num(want[i])); }
        }
        e.state(Hash().u(k).u(d).u(77)); e.outcome(o); e.done();
    }
    // bias and acceptance
    for (size_t k = 0; k < apis.size(); k++)
    {
        if (apis[k].bias) for (double x = -3; x <= 3; x += 0.5) for (double c : {-2.0, 0.0, 10.0}) for (double s : {0.0, 0.2, 5.0})
        {
            if (!e.take()) continue;
            e.describe(fmt("%s bias at %g about %g, spring %g", apis[k].name.c_str(), x, c, s));
            double g = apis[k].bias(x, c, s); e.t(); e.expect(near(g, 0.5 * s * (x - c) * (x - c)), fmt("bias %.12g", g));
            e.state(Hash().d(x).d(c).d(s)); e.outcome(Hash().d(g)); e.done();
        }
        if (apis[k].accepted) for (double now : {0.0, 0.1, 1.0, 3.0, 400.0}) for (double was : {0.0, 0.1, 1.0, 3.0, 400.0}) for (double beta : {0.0, 0.5, 1.0, 20.0})
        {
            if (!e.take()) continue;
            e.describe(fmt("%s acceptance of bias %g after %g at inverse temperature %g", apis[k].name.c_str(), now, was, beta));
            slsm::MersenneTwister r, m; unsigned yes = 0; r.setSeed(5); m.setSeed(5);
            for (int i = 0; i < 400; i++)
            {
                bool g = apis[k].accepted(now, was, beta, r); e.t(); double u = m(), p = std::exp(-beta * (now - was));
                if (std::abs(u - p) > 1e-12) e.expect(g == (u < p), fmt("draw %d: number %.12g, probability %.12g, accepted %d", i, u, p, g));
                yes += g;
            }
            e.state(Hash().d(now).d(was).d(beta)); e.outcome(Hash().u(yes)); e.done();
        }
    }
}
// ---------------------------------------------------------------- programs
struct Run { int rc; bool signalled; S out, err; };
S slurp(const S& n) { std::ifstream f(n, std::ios::binary); std::stringstream s; s << f.rdbuf(); return s.str(); }
bool exists(const S& n) { struct stat q; return !stat(n.c_str(), &q); }
void clear(const S& d)
{
    if (DIR* D = opendir(d.c_str())) { while (dirent* x = readdir(D)) if (x->d_name[0] != '.') { S p = d + "/" + x->d_name; struct stat q; if (!lstat(p.c_str(), &q) && S_ISDIR(q.st_mode)) { clear(p); rmdir(p.c_str()); } else unlink(p.c_str()); } closedir(D); }
}
// The inner optimiser: the best of a grid of shares of the bounds; leaves the program after `stop` calls (0: never).
nlopt::result choose(nlopt::Problem& p, V& x, double& f)
{
    int n = p.n, G = n == 1 ? 40 : 12; V best = x, g; double bestF = 1e300, bestV = 1e300; std::vector<int> d(n, 0);
    do
    {
        V t(n); for (int i = 0; i < n; i++) t[i] = p.lb[i] + (p.ub[i] - p.lb[i]) * d[i] / G;
        double v = p.obj(t, g, p.objData), bad = 0;
        for (auto& c : p.con) { double q = c.f(t, g, c.d); bad = std::max(bad, c.equality ? std::abs(q) : q); }
        if (p.isMax) v = -v;
        if (bad < 1e-7) bad = 0;
        if (t[0] != 0 && (bad < bestV - 1e-12 || (bad <= bestV + 1e-12 && v < bestF))) { best = t; bestF = v; bestV = bad; }
    } while (next(d, G + 1));
    x = best; f = p.isMax ? -bestF : bestF; return nlopt::SUCCESS;
}
Run launch(const Api& a, const S& d, std::vector<S> args, int stop)
{
    pid_t pid = fork();
    if (!pid)
    {
        alarm(300);
        if (chdir(d.c_str())) _exit(120);
        int o = open("stdout", O_CREAT | O_TRUNC | O_WRONLY, 0600), r = open("stderr", O_CREAT | O_TRUNC | O_WRONLY, 0600);
        dup2(o, 1); dup2(r, 2); setvbuf(stdout, 0, _IONBF, 0);
        static int left; left = stop;
        nlopt::g_optimize = [](nlopt::Problem& p, V& x, double& f) { if (left && !--left) { fflush(0); _exit(77); } return choose(p, x, f); };
        static std::vector<S> keep; keep = args; keep.insert(keep.begin(), a.name);
        std::vector<char*> v; for (S& s : keep) v.push_back(&s[0]); v.push_back(0);
        int rc = 121;
        try { rc = a.prog((int)keep.size(), v.data()); } catch (...) { rc = 122; }
        std::cout.flush(); fflush(0); _exit(rc);
    }
    int s = 0; waitpid(pid, &s, 0);
    Run r; r.signalled = WIFSIGNALED(s); r.rc = r.signalled ? 256 + WTERMSIG(s) : WEXITSTATUS(s);
    if (r.rc == 99) r.rc = 0;                  // exit(0) as seen through the wrapper
    r.out = slurp(d + "/stdout"); r.err = slurp(d + "/stderr"); return r;
}
bool crashed(const Run& r) { return r.signalled || r.rc == 86 || r.rc == 87 || r.rc >= 120; }
S gist(const S& s) { size_t k = s.find("ERROR:"); S t = k == S::npos ? s.substr(0, 300) : s.substr(k, 300); for (char& c : t) if (c == '\n') c = ' '; return t; }
// weighted length and centre of a saved set of segments
bool shape(const S& file, double red, double& len, double& x)
{
    std::ifstream f(file); double a, b, c, d; len = x = 0;
    while (f >> a >> b >> c >> d) { double l = segment(a, b, c, d, 51, 11, red); len += l; x += l * (a + c) / 2; }
    if (!(len > 0)) return false;
    x /= len; return true;
}
// mismatch of a saved field with the program's target, as a fraction of the domain
struct Target
{
    std::unique_ptr<slsm::LevelSet> l; slsm::Boundary b; V area;
    Target()
    {
        std::vector<slsm::Hole> a, t; a.push_back(slsm::Hole(35, 15, 10)); t.push_back(slsm::Hole(45, 31, 20)); t.push_back(slsm::Hole(25, 30, 20));
        l.reset(new slsm::LevelSet(70, 60, a, t, 0.05, 6, true)); l->reinitialise(); b.discretise(*l, true); area = areas();
    }
    V areas() { l->computeAreaFractions(b); V v; for (unsigned i = 0; i < l->mesh.nElements; i++) v.push_back(l->mesh.elements[i].area); return v; }
    double mismatch(const S& bin)
    {
        slsm::InputOutput io; io.loadLevelSetBIN(bin, *l);
        for (unsigned i = 0; i < l->mesh.nNodes; i++) l->mesh.nodes[i].isActive = true;
        b.discretise(*l); V v = areas(); double m = 0;
        for (size_t i = 0; i < v.size(); i++) m += std::abs(v[i] - area[i]);
        return m / (70 * 60);
    }
};
void umbrella(Explorer& e, const Api& a)
{
    Target target;
    S d = dir(e) + "/run"; mkdir(d.c_str(), 0700);
    g_exp = (Exponents*)mmap(0, sizeof(Exponents), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    struct Cfg { double t, g, c, s, ui; int si, n; bool b; };
    std::vector<Cfg> cfg;
    for (double c : {-25.0, -10.0, 0.0, 10.0, 20.0, 40.0}) for (double s : {0.0, 0.2, 5.0}) for (double t : {0.01, 0.05, 2.0}) for (double g : {0.02, 0.6})
    {
        cfg.push_back({t, g, c, s, 0, 1, 1, false});
        if (s == 0.2) cfg.push_back({t, g, c, s, 0, 3, 2, true});
        if (s != 0.2 || t == 0.05) if (g < 0.1 || e.thorough) { cfg.push_back({t, g, c, s, 0.06, 2, 2, true}); if (e.thorough) cfg.push_back({t, g, c, s, t > 1 ? 0.05 : 0.5, t > 1 ? 2 : 5, 3, false}); }
        // single trials, so that every row tells whether its trial was accepted
        if (g < 0.1 && (c == 0 || c == 10) && (e.thorough || t == 0.05 || s > 1)) cfg.push_back({t, g, c, s, 0.06, 1, e.thorough ? (t > 1 ? 6 : 12) : 4, true});
    }
    for (auto& q : cfg) for (int longer = 0; longer < 2; longer++) for (g_seed = 1; g_seed <= (q.ui == 0 || longer ? 1u : e.thorough ? 4u : 2u); g_seed++)
    {
        if (longer && (q.ui == 0 || (q.si == 1 && !e.thorough))) continue;
        if (!e.take()) continue;
        e.describe(fmt("umbrella sampling, temperature %g gravity %g centre %g spring %g interval %g, %d trials x %d samples%s", q.t, q.g, q.c, q.s, q.ui, q.si, q.n, longer ? ", restarted" : "") + fmt(", seed %u", g_seed));
        clear(d);
        std::vector<S> args = {"-t", fmt("%g", q.t), "-g", fmt("%g", q.g), "-c", fmt("%g", q.c), "-s", fmt("%g", q.s), "-ui", fmt("%g", q.ui), "-si", fmt("%d", q.si), "-n", fmt("%d", q.n)};
        if (q.b) args.push_back("-b");
        g_exp->n = 0; g_exp->time = 0;
        Run r = launch(a, d, args, 0); e.t();
        const Exponents ex = *g_exp;
        S log = d + fmt("/brolly_%.2f.txt", q.c), seg = d + fmt("/boundary-segments_%.2f.txt", q.c), bin = d + fmt("/level-set_%.2f.bin", q.c);
        auto judge = [&](const char* which, int n, bool still, double start) -> double {
            double last = NaN;
            if (!e.expect(r.rc == 0, fmt("%s ends with code %d: ", which, r.rc) + gist(r.err))) return last;
            std::ifstream f(log); S line; int rows = 0; double before = -1, lastX = NaN, lastLen = NaN, lastAcc = 0;
            while (std::getline(f, line) && !e.failedCase)
            {
                double T, x, L, m, acc;
                if (!e.expect(sscanf(line.c_str(), "%lf %lf %lf %lf %lf", &T, &x, &L, &m, &acc) == 5, "row " + line)) break;
                rows++; last = x;
                int trials = rows * q.si;
                e.expect(still ? T == 0 : T >= trials * q.ui * (1 - 1e-5) && T > before, fmt("%s row %d: time %g", which, rows, T)); before = T;
                // the time of a sample is the time that the level set has evolved for
                if (rows == n && n == q.n && !still && ex.time > 0) { e.count("times"); e.expect(std::abs(T - ex.time) < 1e-5 * (T + ex.time), fmt("%s row %d: time %g, the steps taken last %g", which, rows, T, ex.time)); }
                e.expect(std::abs(acc * trials - std::lround(acc * trials)) < 1e-4 * trials && acc <= 1 && acc >= 0, fmt("%s row %d: %g of the trials accepted", which, rows, acc));
                if (still) e.expect(acc == 1, fmt("%s row %d: only %g of the trials that change nothing are accepted", which, rows, acc));
                e.expect(m >= 0 && m <= 1, fmt("%s row %d: mismatch %g", which, rows, m));
                double sl, sx; S file = q.b && n == q.n ? d + fmt("/boundary-segments_%04d.txt", rows) : rows == n ? seg : "";
                if (file.size() && e.expect(shape(file, 1 - q.g, sl, sx), which + fmt(" row %d: no boundary saved", rows)))
                {
                    e.expect(std::abs(L - sl) < 1e-3, fmt("%s row %d: length %g, the saved boundary has %g", which, rows, L, sl));
                    e.expect(std::abs(x - (sx - 35)) < (still || (q.si == 1 && acc * rows > lastAcc + 0.5) ? 1e-4 : 0.05), fmt("%s row %d: centre of mass %g, the saved boundary has %g", which, rows, x, sx - 35));
                    // a single trial that was rejected leaves the shape of the sample before
                    if (q.si == 1 && q.b && rows > 1 && !still && acc * rows < lastAcc + 0.5)
                    {
                        e.count("rejected");
                        e.expect(x == lastX && std::abs(L - lastLen) < 0.015 * lastLen, fmt("%s row %d: rejected, yet centre of mass %g and length %g follow %g and %g", which, rows, x, L, lastX, lastLen));
                    }
                    // the acceptance test weighs the trial against the sample it would replace (one exponent per trial)
                    if (q.si == 1 && q.b && rows > 1 && !still && ex.n == n && n <= 64 && n == q.n && acc * rows > lastAcc + 0.5 && a.bias)
                    {
                        e.count("exponents");
                        double w = (a.bias(x, q.c, q.s) - a.bias(lastX, q.c, q.s)) / q.t, tol = 1e-5 * (1 + q.s * (std::abs(x - q.c) + std::abs(lastX - q.c)) / q.t);
                        e.expect(std::abs(std::abs(ex.v[rows - 1]) - std::abs(w)) < tol, fmt("%s row %d: accepted with exponent %g, the bias of the samples gives %g", which, rows, ex.v[rows - 1], -w));
                    }
                    lastX = x; lastLen = sl; lastAcc = acc * rows;
                }
                if (rows == n && !e.failedCase)
                {
                    double w = target.mismatch(bin);
                    e.expect(std::abs(m - w) < 1e-5, fmt("%s row %d: mismatch %g, the saved level set has %g", which, rows, m, w));
                }
                if (rows == 1 && still && start == start) e.expect(std::abs(x - start) < 0.02, fmt("%s: starts at %g, the restart file was saved at %g", which, x, start));
            }
            e.expect(rows == n, fmt("%s: %d rows for %d samples", which, rows, n));
            return last;
        };
        double x = judge("run", q.n, q.ui == 0, NaN);
        if (longer && !e.failedCase)
        {
            S from = d + "/saved.bin";
            e.expect(!rename(bin.c_str(), from.c_str()), "no restart file was written");
            double sl, sx; shape(seg, 1 - q.g, sl, sx); x = sx - 35;
            std::vector<S> again = {"-r", "saved.bin", "-t", fmt("%g", q.t), "-g", fmt("%g", q.g), "-c", fmt("%g", q.c), "-s", fmt("%g", q.s), "-ui", "0", "-si", fmt("%d", q.si), "-n", "1"};
            r = launch(a, d, again, 0); e.t();
            judge("restarted run", 1, true, x);
        }
        Hash o; o.s(slurp(log)); e.state(o); e.outcome(o); e.done();
    }
}
void commandLine(Explorer& e, const Api& a)
{
    S d = dir(e) + "/run"; mkdir(d.c_str(), 0700);
    struct Opt { const char *s, *l, *v, *shown; };
    const std::vector<Opt> o = {{"-t", "--temperature", "0.07", "temperature       = 0.07"}, {"-g", "--gravity", "0.31", "gravityMult       = 0.31"}, {"-c", "--centre", "-4.5", "centre            = -4.50"},
        {"-s", "--spring", "1.25", "spring            = 1.25"}, {"-ui", "--umbrella-interval", "0.75", "umbrellaInterval  = 0.75"}, {"-si", "--sample-interval", "7", "sampleInterval    = 7"},
        {"-n", "--number-samples", "0", "nSamples          = 0"}, {"-b", "--boundary-sample", 0, ""}};
    // every pair of options, short or long
    for (size_t i = 0; i < o.size(); i++) for (size_t j = 0; j < o.size(); j++) for (int form = 0; form < 4; form++)
    {
        if (!e.take()) continue;
        std::vector<S> args; bool n = false; S text;
        for (int k = 0; k < (i == j ? 1 : 2); k++) { const Opt& q = o[k ? j : i]; args.push_back(form >> k & 1 ? q.l : q.s); if (q.v) args.push_back(q.v); if (!strcmp(q.s, "-n")) n = true; }
        if (!n) { args.push_back("-n"); args.push_back("0"); }
        for (S& s : args) text += " " + s;
        e.describe("command line" + text);
        clear(d); Run r = launch(a, d, args, 1); e.t();
        e.expect(r.rc == 0, fmt("ends with code %d: ", r.rc) + gist(r.err));
        for (int k = 0; k < 2; k++) { const Opt& q = o[k ? j : i]; e.expect(r.out.find(q.shown) != S::npos, S(q.s) + " was not taken over"); }
        e.state(Hash().s(text)); e.outcome(Hash().s(r.out)); e.done();
    }
    // incomplete, unknown, help, restart files that do not exist
    struct Bad { std::vector<S> args; int kind; };
    std::vector<Bad> bad;
    for (auto& q : o) for (const char* f : {q.s, q.l}) { if (q.v) for (int before = 0; before < 2; before++) { std::vector<S> v; if (before) { v.push_back("-n"); v.push_back("0"); } v.push_back(f); bad.push_back({v, 1}); } }
    for (const char* f : {"-r", "--restart"}) { bad.push_back({{f}, 1}); bad.push_back({{"-n", "0", f}, 1}); for (int n : {1, 20, 98, 99, 100, 101, 140, 300, 5000}) bad.push_back({{"-n", "0", f, S(n, 'x')}, 2}); }
    for (const char* f : {"-x", "--restar", "t", "", "-", "--", "-tt", "0.5"}) bad.push_back({{"-n", "0", f}, 1});
    for (const char* f : {"-h", "--help"}) bad.push_back({{f}, 3});
    for (auto& q : bad)
    {
        if (!e.take()) continue;
        S text; for (const S& s : q.args) text += " " + s.substr(0, 40) + (s.size() > 40 ? fmt("...(%zu)", s.size()) : "");
        e.describe("command line" + text);
        clear(d); Run r = launch(a, d, q.args, 1); e.t();
        e.expect(!crashed(r), fmt("crashes (%d): ", r.rc) + gist(r.err));
        if (q.kind < 3) e.expect(r.rc != 0 && r.rc != 77 && !r.err.empty(), fmt("accepted, ends with code %d", r.rc));
        else { e.expect(r.rc == 0, fmt("ends with code %d", r.rc)); for (auto& p : o) e.expect(r.out.find(S(p.s) + "/" + p.l) != S::npos, S("help does not mention ") + p.l); }
        e.state(Hash().s(text)); e.outcome(Hash().u(r.rc)); e.done();
    }
}
void firstSteps(Explorer& e, const std::vector<Api>& apis)
{
    S d = dir(e) + "/run"; mkdir(d.c_str(), 0700);
    for (const Api& a : apis)
    {
        int nodes = 101 * 101;
        struct Start { S name; std::vector<S> args; int numbers; bool shapes, ok; };
        std::vector<Start> v;
        if (a.name == "bimodal_brolly") v = {{"", {"-n", "1", "-ui", "0.5"}, -1, false, true}};
        else if (a.name == "shape_match") { v = {{"without the shape file", {}, -1, false, false}, {"", {}, -1, true, true}}; }
        else v = {{"", {}, -1, false, true}, {"temperature 0", {"0"}, -1, false, true}};
        if (a.name == "dumbbell") for (int k : {0, 5, nodes - 1, nodes, nodes + 1, nodes + 2, nodes + 5000}) v.push_back({fmt("with a configuration of %d values", k), {"0.02", "0.65", "start.txt"}, k, false, true});
        for (auto& s : v)
        {
            if (!e.take()) continue;
            e.describe(a.name + " " + s.name);
            clear(d);
            if (s.numbers >= 0) { FILE* f = fopen((d + "/start.txt").c_str(), "w"); for (int i = 0; i < s.numbers; i++) fprintf(f, "%.6f\n", 15 - std::hypot(i % 101 - 50, (i / 101) % 101 - 69)); fclose(f); }
            if (s.shapes) { S link = d + "/demos"; if (symlink((g_repo + "/demos").c_str(), link.c_str())) {} }
            Run r = launch(a, d, s.args, e.thorough ? 12 : 3); e.t();
            e.expect(!crashed(r), fmt("crashes (%d): ", r.rc) + gist(r.err));
            if (s.numbers < 0 || s.numbers == nodes) e.expect(s.ok ? r.rc == 77 || r.rc == 0 : r.rc != 77 && r.rc != 0, fmt("ends with code %d: ", r.rc) + gist(r.err));
            clear(d);
            e.state(Hash().s(a.name + s.name)); e.outcome(Hash().u(r.rc)); e.done();
        }
    }
}
void body(Explorer& e)
{
    std::vector<Api> apis = demos::all(); std::vector<S> scripts;
    for (const char* s : {"shape_match.py", "bimodal.py", "dumbbell.py"}) if (exists(g_repo + "/python/" + s)) scripts.push_back(s);
    for (auto& a : apis) { e.count("functions_found", !e.wid * (!!a.sensitivity + !!a.mismatch + !!a.perimeter + !!a.pointLength + !!a.weight + !!a.centre + !!a.bias + !!a.accepted)); }
    sensitivities(e, apis, scripts);
    measures(e, apis, scripts);
    for (auto& a : apis) if (a.name == "bimodal_brolly") { commandLine(e, a); umbrella(e, a); }
    firstSteps(e, apis);
}
}
int mc_main(int argc, char** argv)
{
    char t[] = "/tmp/slsm_demo_XXXXXX";
    if (!mkdtemp(t)) { perror("mkdtemp"); return 3; }
    g_base = t; g_repo = getenv("SLSM_REPO") ? getenv("SLSM_REPO") : "/repo";
    int rc = run(argc, argv, {{"C40", body, 320}}, {"functions_found", "rejected", "exponents", "times"});
    if (g_base.compare(0, 15, "/tmp/slsm_demo_") == 0) { clear(g_base); rmdir(g_base.c_str()); }
    return rc;
}
