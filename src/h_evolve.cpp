// C07 velocity mapping, C11 update step, C12 upwind gradient, C20 thermal noise, C29 domain edge.
#include "mc.hpp"
#include "slsm_all.hpp"
#include "ref_fmm.hpp"
#include "fields.hpp"
#include <memory>
using namespace mc;
using namespace slsm;
using namespace fields;
typedef std::vector<Hole> Holes;

namespace
{
std::unique_ptr<LevelSet> fresh(Explorer& e, int w, int h, unsigned bw, bool fixed, double move = 0.5)
{
    LevelSet* p = 0;
    bool no = refused([&] { p = new LevelSet(w, h, Holes(1, Hole(0.5 * w, 0.5 * h, 0.4)), move, bw, fixed); });
    e.expect(!no, "constructor refused");
    return std::unique_ptr<LevelSet>(p);
}
bool hasContour(const std::vector<double>& p)
{
    bool pos = false, neg = false;
    for (double v : p) { if (v == 0) return true; (v > 0 ? pos : neg) = true; }
    return pos && neg;
}

// ------------------------------------------------------------ C12
struct Weno
{
    int w, h; const std::vector<double>& p;
    double at(int x, int y) const { return p[y * (w + 1) + x]; }
    double D(int x, int y, int ax, int i) const        // i-th difference along the axis through (x,y)
    {
        int n = ax ? h : w;
        i = std::max(0, std::min(n - 1, i));
        return ax ? at(x, i + 1) - at(x, i) : at(i + 1, y) - at(i, y);
    }
    static double side(double a, double b, double c, double d, double e)
    {
        // three quadratic reconstructions and their smoothness
        double q[3] = {a / 3 - 7 * b / 6 + 11 * c / 6, -b / 6 + 5 * c / 6 + d / 3, c / 3 + 5 * d / 6 - e / 6};
        auto sq = [](double z) { return z * z; };
        double s[3] = {13 * sq(a - 2 * b + c) / 12 + sq(a - 4 * b + 3 * c) / 4, 13 * sq(b - 2 * c + d) / 12 + sq(b - d) / 4, 13 * sq(c - 2 * d + e) / 12 + sq(3 * c - 4 * d + e) / 4};
        double g[3] = {0.1, 0.6, 0.3}, t = 0, r = 0;
        for (int k = 0; k < 3; k++) { double al = g[k] / sq(s[k] + 1e-6); t += al; r += al * q[k]; }
        return r / t;
    }
    // -1: on the edge of the corner rule
    double grad(int x, int y, double v) const
    {
        if ((x == 0 || x == w) && (y == 0 || y == h))
        {
            int ix = x ? x - 1 : 1, iy = y ? y - 1 : 1;
            double a = std::abs(at(ix, y) - at(x, y)), b = std::abs(at(x, iy) - at(x, y));
            if ((std::abs(a - 1e-6) < 1e-11 && b < 2e-6) || (std::abs(b - 1e-6) < 1e-11 && a < 2e-6)) return -1;
            if (a < 1e-6 && b < 1e-6) return std::sqrt(2.0) * std::abs(at(x, y) - at(ix, iy));
        }
        double s = v < 0 ? -1 : 1, r = 0;
        for (int ax = 0; ax < 2; ax++)
        {
            int c = ax ? y : x;
            double f = s * side(D(x, y, ax, c + 2), D(x, y, ax, c + 1), D(x, y, ax, c), D(x, y, ax, c - 1), D(x, y, ax, c - 2));
            double b = s * side(D(x, y, ax, c - 3), D(x, y, ax, c - 2), D(x, y, ax, c - 1), D(x, y, ax, c), D(x, y, ax, c + 1));
            if (b > 0) r += b * b;
            if (f < 0) r += f * f;
        }
        return std::sqrt(r);
    }
};
double velPat(int pat, int i)
{
    if (pat == 0) return 1.3;
    if (pat == 1) return -0.7;
    if (pat == 2) return 0;
    // only the sign of a velocity matters, however slow or fast it is
    const double mags[7] = {0.9, 1e-3, 1e-7, 40, 1e-12, 1, 1e-300};
    return ((i * 2654435761u >> 13) & 1 ? 1 : -1) * mags[i % 7];
}
void gradOne(Explorer& e, int w, int h, const std::vector<double>& phi, int pat, unsigned bw, const std::string& name, bool symm)
{
    e.describe(fmt("%dx%d vel=%d bw=%u %s", w, h, pat, bw, name.c_str()), show(phi, w));
    auto ls = fresh(e, w, h, bw, false);
    if (!ls) { e.done(); return; }
    ls->signedDistance = phi;
    std::vector<char> band(ls->mesh.nNodes, 0);
    for (unsigned i = 0; i < ls->nNarrowBand; i++) band[ls->narrowBand[i]] = 1;
    for (unsigned i = 0; i < ls->mesh.nNodes; i++) { ls->velocity[i] = velPat(pat, i); ls->gradient[i] = 123; }
    bool no = refused([&] { ls->computeGradients(); });
    e.t();
    if (!e.expect(!no, "computeGradients refused")) { e.done(); return; }
    e.expect(ls->signedDistance == phi, "computeGradients changed the level set");
    Weno W{w, h, phi};
    Hash o;
    std::vector<double> g = ls->gradient;
    for (unsigned i = 0; i < ls->mesh.nNodes; i++)
    {
        int x = i % (w + 1), y = i / (w + 1);
        double want = band[i] ? W.grad(x, y, velPat(pat, i)) : 0;
        o.d(g[i]);
        if (want < 0) { e.count("corner_rule_edge"); continue; }
        if (!e.expect(close(g[i], want, 1e-8), fmt("gradient at node (%d,%d) is %.12g, upwind WENO modulus %.12g", x, y, g[i], want))) break;
    }
    if (symm && bw > 100)
        for (int k = 1; k < 8 && !e.failedCase; k++)
        {
            int w2, h2;
            std::vector<double> p2 = sym(phi, w, h, k, w2, h2), v2(g.size()), want = sym(g, w, h, k, w2, h2);
            std::vector<double> vel(g.size()); for (size_t i = 0; i < vel.size(); i++) vel[i] = velPat(pat, (int)i);
            v2 = sym(vel, w, h, k, w2, h2);
            auto L = fresh(e, w2, h2, bw, false);
            L->signedDistance = p2; L->velocity = v2; L->computeGradients(); e.t();
            for (size_t i = 0; i < want.size(); i++)
                if (!e.expect(close(L->gradient[i], want[i], 1e-8), fmt("gradient not symmetric (mirror x=%d y=%d transpose=%d) at node %zu: %.12g vs %.12g", k & 1, k >> 1 & 1, k >> 2 & 1, i, L->gradient[i], want[i]))) break;
        }
    Hash s; s.u(w); s.u(pat); s.u(bw); s.v(phi); e.state(s); e.outcome(o);
    e.done();
}
void gradients(Explorer& e)
{
    bool T = e.thorough;
    const double L[3] = {0.0, 1.0, -1.7};
    // every word along one row / column inside a generic background
    struct M { int w, h; };
    for (M m : {M{7, 4}, M{6, 5}, M{5, 4}, M{4, 4}, M{3, 3}, M{2, 4}, M{9, 1}})
        for (int ax = 0; ax < 2; ax++)
            for (int row = 0; row <= (ax ? m.w : m.h); row++)
            {
                int n = (ax ? m.h : m.w) + 1;
                int step = T ? 1 : n >= 8 ? 5 : n == 7 ? 3 : 1, c = 0;
                std::vector<int> d(n, 0);
                do
                {
                    if (c++ % step) continue;
                    for (int pat = 0; pat < 4; pat++)
                    {
                        if (pat == 2 && !T) continue;
                        if (!e.take()) continue;
                        std::vector<double> p((m.w + 1) * (m.h + 1));
                        for (size_t i = 0; i < p.size(); i++) p[i] = mag(1, (int)i) * ((i * 7 + row) % 3 ? 1 : -1);
                        std::string s;
                        for (int k = 0; k < n; k++) { int x = ax ? row : k, y = ax ? k : row; p[y * (m.w + 1) + x] = L[d[k]]; s += "0+-"[d[k]]; }
                        gradOne(e, m.w, m.h, p, pat, 1000, fmt("axis=%d row=%d %s", ax, row, s.c_str()), c % 7 == 0);
                    }
                } while (next(d, 3));
            }
    // every word on tiny meshes
    for (M m : {M{1, 1}, M{2, 1}, M{1, 3}, M{2, 2}, M{3, 1}})
    {
        std::vector<int> d((m.w + 1) * (m.h + 1), 0);
        do
            for (int pat : {0, 1, 3})
            {
                if (!e.take()) continue;
                std::vector<double> p; std::string s;
                for (int k : d) { p.push_back(L[k]); s += "0+-"[k]; }
                gradOne(e, m.w, m.h, p, pat, 1000, s, true);
            }
        while (next(d, 3));
    }
    // corner rule: neighbours equal, nearly equal, different
    for (M m : {M{4, 4}, M{6, 4}, M{1, 1}, M{2, 3}})
        for (int c = 0; c < 4; c++)
            for (double a : {0.0, 5e-7, -9e-7, 2e-6, 0.4})
                for (double b : {0.0, 8e-7, 1.5e-6, -0.3})
                    for (double dg : {0.0, 0.7, -1.2})
                        for (int pat = 0; pat < 4; pat++)
                        {
                            if (!e.take()) continue;
                            std::vector<double> p((m.w + 1) * (m.h + 1));
                            for (size_t i = 0; i < p.size(); i++) p[i] = mag(1, (int)i);
                            int x = c & 1 ? m.w : 0, y = c & 2 ? m.h : 0, ix = x ? x - 1 : 1, iy = y ? y - 1 : 1, W = m.w + 1;
                            double v = 0.25;
                            p[y * W + x] = v; p[y * W + ix] = v + a; p[iy * W + x] = v + b; p[iy * W + ix] = v + dg;
                            gradOne(e, m.w, m.h, p, pat, 1000, fmt("corner=%d a=%g b=%g d=%g", c, a, b, dg), true);
                        }
    // linear fields are exact; real bands
    for (M m : {M{4, 4}, M{7, 5}, M{3, 6}, M{12, 9}})
        for (double ang = 0; ang < 360; ang += T ? 3.75 : 15)
            for (double off : {-2.1, -0.3, 0.0, 0.8})
                for (int pat = 0; pat < 4; pat++)
                    for (unsigned bw : {1000u, 3u})
                    {
                        if (!e.take()) continue;
                        std::vector<double> p = line(m.w, m.h, ang, off);
                        gradOne(e, m.w, m.h, p, pat, bw, fmt("line(%g,%g)", ang, off), true);
                        if (bw < 1000) continue;
                    }
    for (M m : {M{5, 5}, M{8, 4}})
        for (double ang = 0; ang < 360; ang += T ? 1.5 : 5)
            for (int pat = 0; pat < 4; pat++)
            {
                if (!e.take()) continue;
                std::vector<double> p = line(m.w, m.h, ang, 0.1);
                e.describe(fmt("exact for linear fields %dx%d angle=%g vel=%d", m.w, m.h, ang, pat), show(p, m.w));
                auto ls = fresh(e, m.w, m.h, 1000, false);
                ls->signedDistance = p;
                for (size_t i = 0; i < p.size(); i++) ls->velocity[i] = velPat(pat, (int)i);
                ls->computeGradients(); e.t();
                for (size_t i = 0; i < p.size(); i++) e.expect(std::abs(ls->gradient[i] - 1) < 1e-6, fmt("gradient of a unit-slope plane at node %zu is %.9g", i, ls->gradient[i]));
                Hash s; s.d(ang); s.u(pat); s.u(m.w); e.state(s);
                e.done();
            }
    // more nodes, and longer bands, than a 16-bit index can hold
    for (M m : {M{270, 260}, M{2, 23000}, M{23000, 2}, M{300, 4}, M{4, 300}})
        for (unsigned bw : {30000u, 6u})
            for (int k = 0; k < 2; k++)
            {
                if (!e.take()) continue;
                std::vector<double> p((m.w + 1) * (m.h + 1));
                for (size_t i = 0; i < p.size(); i++) p[i] = mag(1, (int)i) * ((i * 7) % 3 ? 1 : -1);
                if (k) p = line(m.w, m.h, m.w > m.h ? 0 : 90, 0.4 * std::max(m.w, m.h) + 0.3);
                gradOne(e, m.w, m.h, p, 3, bw, fmt("large %d", k), false);
            }
    // every small mesh size, and sizes around powers of two
    for (auto& sz : sizes(T ? 40 : 20, T))
        for (int k = 0; k < 3; k++)
            for (unsigned bw : {1000u, 3u, 6u})
            {
                if (!e.take()) continue;
                gradOne(e, sz.first, sz.second, waves(sz.first, sz.second, k), 3, bw, fmt("size, field %d", k), sz.first < 12);
            }
    // shapes
    for (M m : {M{10, 10}, M{13, 6}})
        for (double r : {1.1, 2.6, 4.2})
            for (double cx : {0.0, 3.3, 5.0})
                for (int sg : {-1, 1})
                    for (int pat = 0; pat < 4; pat++)
                        for (unsigned bw : {1000u, 3u, 4u})
                        {
                            if (!e.take()) continue;
                            gradOne(e, m.w, m.h, circle(m.w, m.h, cx, 0.5 * m.h, r, sg), pat, bw, fmt("circle(%g,%g,%d)", cx, r, sg), true);
                        }
}

// ------------------------------------------------------------ C07
struct Pt { double x, y, v; };
struct Mapped { std::vector<double> vel, wt; std::vector<char> amb; };
// Inverse squared distance mapping.  amb: a decision within rounding of the other outcome.
Mapped mapVel(const LevelSet& ls, const std::vector<BoundaryPoint>& pts)
{
    int w = ls.mesh.width, h = ls.mesh.height, W = w + 1, n = W * (h + 1);
    Mapped m; m.vel.assign(n, 0); m.wt.assign(n, 0); m.amb.assign(n, 0);
    std::vector<std::vector<int>> on(n);
    std::vector<double> num(n, 0), den(n, 0);
    for (size_t k = 0; k < pts.size(); k++)
    {
        double px = pts[k].coord.x, py = pts[k].coord.y;
        double fx = px - std::floor(px), fy = py - std::floor(py);
        int near = ls.mesh.getClosestNode(pts[k].coord);
        if (std::abs(fx - 0.5) > 1e-9 && std::abs(fy - 0.5) > 1e-9)
            near = std::min(h, (int)std::floor(py + 0.5)) * W + std::min(w, (int)std::floor(px + 0.5));
        int nx = near % W, ny = near / W;
        int c[5][2] = {{nx, ny}, {nx - 1, ny}, {nx + 1, ny}, {nx, ny - 1}, {nx, ny + 1}};
        for (int j = 0; j < 5; j++)
        {
            int x = c[j][0], y = c[j][1];
            if (x < 0 || y < 0 || x > w || y > h) continue;
            int i = y * W + x;
            double r2 = (x - px) * (x - px) + (y - py) * (y - py);
            if (std::abs(r2 - 1e-6) < 1e-12 || (j && r2 != 1 && std::abs(r2 - 1) < 1e-9)) m.amb[i] = 1;
            if (r2 < 1e-6) on[i].push_back((int)k);
            else if (!j || r2 <= 1) { num[i] += pts[k].velocity / r2; den[i] += 1 / r2; }
        }
    }
    for (int i = 0; i < n; i++)
    {
        if (on[i].size())
        {
            m.vel[i] = pts[on[i][0]].velocity; m.wt[i] = 1;
            for (int k : on[i]) if (pts[k].velocity != m.vel[i]) m.amb[i] = 1;
        }
        else if (den[i] > 0) { m.vel[i] = num[i] / den[i]; m.wt[i] = den[i]; }
    }
    return m;
}
void checkMap(Explorer& e, const std::vector<double>& got, const Mapped& m, const std::string& when)
{
    for (size_t i = 0; i < got.size(); i++)
    {
        if (m.amb[i]) { e.count("undecided_node"); continue; }
        if (!e.expect(close(got[i], m.vel[i], 1e-9), when + fmt("velocity mapped to node %zu is %.12g, weighted mean %.12g", i, got[i], m.vel[i]))) return;
    }
}
void mapPoints(Explorer& e, int w, int h, const std::vector<Pt>& ps, int mode)
{
    std::string s; for (auto& p : ps) s += fmt("(%.6g,%.6g v=%g)", p.x, p.y, p.v);
    e.describe(fmt("%dx%d mode=%d points %s", w, h, mode, s.c_str()));
    auto ls = fresh(e, w, h, 1000, mode == 1);
    if (!ls) { e.done(); return; }
    ls->signedDistance = fill(w, h, [&](double x, double) { return x - 0.37; });
    std::vector<BoundaryPoint> pts;
    for (auto& p : ps) { BoundaryPoint b; b.coord = Coord(p.x, p.y); b.velocity = p.v; b.length = 1; pts.push_back(b); }
    // with no active node the extension leaves the mapped values alone
    for (size_t i = 0; i < ls->mesh.nodes.size(); i++) { ls->mesh.nodes[i].isActive = false; if (mode == 2) ls->mesh.nodes[i].isMasked = i % 2; ls->velocity[i] = 55; }
    bool no = refused([&] { ls->computeVelocities(pts); });
    e.t();
    if (!e.expect(!no, "computeVelocities refused")) { e.done(); return; }
    checkMap(e, ls->velocity, mapVel(*ls, pts), "");
    Hash q; q.u(w).u(mode); for (auto& p : ps) q.d(p.x).d(p.y).d(p.v);
    e.state(q); Hash o; o.v(ls->velocity); e.outcome(o);
    e.done();
}
// contour of a field, velocities by pattern, mapping, extension
double ptVel(int pat, int i, const BoundaryPoint& p)
{
    if (pat == 0) return 1.0;
    if (pat == 1) return -2.0;
    if (pat == 2) return -1 + 2 * std::fmod((i + 1) * 0.6180339887498949, 1.0);
    if (pat == 4) return i % 3 ? 1.0 : 0.0;                                        // some points at rest
    if (pat == 5) return (i % 2 ? 1.0 : -1.0) * std::pow(10.0, i % 7 - 6);           // from crawling to fast
    return 0.3 * p.coord.x - 0.2 * p.coord.y;
}
void mapContour(Explorer& e, int w, int h, const std::vector<double>& phi, const std::string& name, unsigned bw, bool fixed, int pat, bool reinit, int mask)
{
    e.describe(fmt("%dx%d %s bw=%u fixed=%d vel=%d reinit=%d mask=%d", w, h, name.c_str(), bw, fixed, pat, reinit, mask), show(phi, w));
    auto ls = fresh(e, w, h, bw, fixed);
    if (!ls) { e.done(); return; }
    ls->signedDistance = phi;
    bool no = refused([&] { if (mask) { std::vector<Coord> r = {Coord(1.5, 1.5), Coord(3.5, 2.6)}; ls->mask(r); } else if (reinit) ls->reinitialise(); });
    if (no) { e.count("no_contour"); e.done(); return; }
    std::vector<double> keep = ls->signedDistance;
    Boundary B;
    no = refused([&] { B.discretise(*ls); });
    if (!e.expect(!no, "discretise refused")) { e.done(); return; }
    if (!hasContour(keep)) { e.count("no_contour"); e.done(); return; }
    for (size_t i = 0; i < B.points.size(); i++) B.points[i].velocity = ptVel(pat, (int)i, B.points[i]);
    Mapped m = mapVel(*ls, B.points);
    int n = ls->mesh.nNodes;
    std::vector<char> act(n);
    for (int i = 0; i < n; i++) act[i] = ls->mesh.nodes[i].isActive;
    // the mapping itself
    LevelSet copy(*ls);
    for (auto& q : copy.mesh.nodes) q.isActive = false;
    no = refused([&] { copy.computeVelocities(B.points); });
    e.t();
    if (!e.expect(!no, "computeVelocities refused")) { e.done(); return; }
    checkMap(e, copy.velocity, m, "");
    // mapping and extension
    no = refused([&] { ls->computeVelocities(B.points); });
    e.t();
    if (!e.expect(!no, "computeVelocities refused")) { e.done(); return; }
    e.expect(ls->signedDistance == keep, "computeVelocities changed the level set");
    std::vector<double> mv = copy.velocity;
    RefFMM r(w, h, keep); r.isVel = true; r.vel = mv; r.active = act; r.march();
    bool strict = robustFMM(r, w, h, keep, &mv, &act);
    bool covered = true;
    double lo = 1e300, hi = -1e300;
    for (int i = 0; i < n; i++) if (r.border[i]) { if (!(m.wt[i] > 0)) covered = false; lo = std::min(lo, mv[i]); hi = std::max(hi, mv[i]); }
    if (!covered) e.count("contour_node_without_point");
    for (int i = 0; i < n && !e.failedCase; i++)
    {
        bool reached = r.st[i] == RefFMM::FROZEN && !r.border[i] && act[i];
        if (!reached) { e.expect(ls->velocity[i] == mv[i], fmt("velocity of node %d changed by the extension: %g -> %g", i, mv[i], ls->velocity[i])); continue; }
        e.expect(ls->velocity[i] >= lo - 1e-9 && ls->velocity[i] <= hi + 1e-9, fmt("velocity at node %d (%g) outside the range of the contour's [%g,%g]", i, ls->velocity[i], lo, hi));
        if (strict) e.expect(close(ls->velocity[i], r.vel[i], 1e-7), fmt("velocity at node %d is %.12g, extension gives %.12g", i, ls->velocity[i], r.vel[i]));
        if (covered && pat < 2) e.expect(close(ls->velocity[i], pat == 0 ? 1.0 : -2.0, 1e-9), fmt("uniform boundary velocity gives %.12g at band node %d", ls->velocity[i], i));
    }
    Hash q; q.u(w).u(bw).u(fixed).u(pat).u(mask).v(keep); e.state(q); Hash o; o.v(ls->velocity); e.outcome(o);
    e.done();
}
std::vector<Named> shapes(int w, int h, bool T)
{
    std::vector<Named> f;
    for (double a : {0.0, 30.0, 45.0, 90.0, 137.0, 180.0, 270.0, 301.0}) for (double o : {-1.5, -0.3, 0.0, 0.5, 1.2}) { if (!T && o == -1.5) continue; f.push_back({fmt("line(%g,%g)", a, o), w, h, line(w, h, a, o)}); }
    for (double cx : {0.5 * w, 2.0, 0.3}) for (double r : {0.6, 1.7, 2.0, 3.3}) for (int g : {-1, 1})
        f.push_back({fmt("circle(%g,%g,%d)", cx, r, g), w, h, circle(w, h, cx, 0.45 * h, r, g)});
    for (double t : {0.4, 1.0}) f.push_back({fmt("strip(%g)", t), w, h, fill(w, h, [=](double x, double) { return t - std::abs(x - 3); })});
    f.push_back({"two", w, h, fill(w, h, [=](double x, double y) { return std::min(std::hypot(x - 2, y - 3) - 1.3, std::hypot(x - 5.6, y - 3.4) - 1.6); })});
    return f;
}
void mapping(Explorer& e)
{
    bool T = e.thorough;
    const double V[3] = {1, -2, 0.5};
    struct M { int w, h; std::vector<double> off; };
    std::vector<M> ms = {{2, 2, {0, 0.0004, 0.3, 0.5, 0.83}}, {1, 2, {0, 0.0004, 0.002, 0.25, 0.5, 0.75}}, {4, 1, {0, 0.41, 0.9995}}, {1, 1, {0, 0.0009, 0.0011, 0.0028, 0.3, 0.6, 0.997, 0.9988}}};
    for (M& m : ms)
    {
        std::vector<std::pair<double, double>> pos;
        for (int cy = 0; cy <= m.h; cy++) for (double fy : m.off) for (int cx = 0; cx <= m.w; cx++) for (double fx : m.off)
            if (cx + fx <= m.w && cy + fy <= m.h) pos.push_back({cx + fx, cy + fy});
        int n = (int)pos.size();
        for (int mode = 0; mode < 3; mode++)
        {
            for (int a = 0; a < n; a++) { if (!e.take()) continue; mapPoints(e, m.w, m.h, {{pos[a].first, pos[a].second, -2}}, mode); }
            for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) { if (!e.take()) continue; mapPoints(e, m.w, m.h, {{pos[a].first, pos[a].second, V[0]}, {pos[b].first, pos[b].second, V[1]}}, mode); }
            for (int a = 0; a < n; a++) for (int b = a % 3; b < n; b += 3) { if (!e.take()) continue; mapPoints(e, m.w, m.h, {{pos[a].first, pos[a].second, 0}, {pos[b].first, pos[b].second, 1e-7}}, mode); }
        }
        int st = T ? 2 : 5;
        for (int a = 0; a < n; a += st) for (int b = a % 2; b < n; b += st) for (int c = (a + b) % 3; c < n; c += st)
            { if (!e.take()) continue; mapPoints(e, m.w, m.h, {{pos[a].first, pos[a].second, V[0]}, {pos[b].first, pos[b].second, V[1]}, {pos[c].first, pos[c].second, V[2]}}, 0); }
    }
    for (auto s : {std::make_pair(7, 7), std::make_pair(9, 5), std::make_pair(4, 8)})
        for (auto& f : shapes(s.first, s.second, T))
            for (unsigned bw : {3u, 6u, 1000u}) for (int fixed = 0; fixed < 2; fixed++) for (int pat = 0; pat < 6; pat++) for (int re = 0; re < 2; re++) for (int mask = 0; mask < 2; mask++)
            { if (mask && !re) continue; if (!e.take()) continue; mapContour(e, f.w, f.h, f.phi, f.name, bw, fixed, pat, re, mask); }
    // every small mesh size, and sizes around powers of two
    for (auto& sz : sizes(T ? 40 : 16, T))
        for (int k = 0; k < 3; k++)
            for (unsigned bw : {6u, 1000u})
            {
                if (!e.take()) continue;
                mapContour(e, sz.first, sz.second, waves(sz.first, sz.second, k), fmt("size, field %d", k), bw, false, 2, k == 1, 0);
            }
    // large and lopsided meshes
    for (auto s : {std::make_pair(1100, 1000), std::make_pair(1, 3000), std::make_pair(3000, 1)})
        for (int mode = 0; mode < 3; mode += 2)
        {
            if (!e.take()) continue;
            double x = s.first, y = s.second;
            mapPoints(e, s.first, s.second, {{0, 0.3, V[0]}, {x, y - 0.4, V[1]}, {0.5 * x + 0.2, 0.5 * y, V[2]}, {0.5 * x, 0.5 * y + 0.1, V[0]}, {x, 0.6, V[2]}}, mode);
        }
    // sign words
    for (auto s : {std::make_pair(2, 2), std::make_pair(3, 2)})
    {
        std::vector<int> d((s.first + 1) * (s.second + 1), 0); int c = 0;
        do for (int fixed = 0; fixed < 2; fixed++) for (int pat : {0, 2})
        {
            if (s.first == 3 && c++ % (T ? 7 : 41)) continue;
            if (!e.take()) continue;
            std::string str; for (int k : d) str += "+-0"[k];
            mapContour(e, s.first, s.second, signs(d, 1), "s1 " + str, 1000, fixed, pat, false, 0);
        }
        while (next(d, 3));
    }
}

// ------------------------------------------------------------ C11, C29
struct Op { double dt; int vel, grad; };
double vAt(int pat, int i, int x, int y, int w)
{
    if (pat == 0) return 1;
    if (pat == 1) return -1;
    if (pat == 2) return x < w / 2 ? 1.0 : -0.8;
    if (pat == 3) return -1 + 2 * std::fmod((i + 1) * 0.6180339887498949, 1.0);
    return 0;
}
double gAt(int pat, int i) { return pat == 0 ? 1 : pat == 1 ? 0.4 + 1.1 * std::fmod((i + 5) * 0.7548776662466927, 1.0) : 0; }
// one update on *ls judged against the stepped field; false if the history ends here
bool stepCheck(Explorer& e, LevelSet& ls, unsigned bw, bool fixed, double move, double dt, const std::string& when)
{
    int n = ls.mesh.nNodes, w = ls.mesh.width, h = ls.mesh.height;
    std::vector<double> was = ls.signedDistance, want = was;
    std::vector<unsigned> band(ls.narrowBand.begin(), ls.narrowBand.begin() + ls.nNarrowBand), mines(ls.mines.begin(), ls.mines.begin() + ls.nMines);
    std::vector<char> act(n), mine(n), masked(n);
    for (int i = 0; i < n; i++) { act[i] = ls.mesh.nodes[i].isActive; mine[i] = ls.mesh.nodes[i].isMine; masked[i] = ls.mesh.nodes[i].isMasked; }
    std::vector<double> vel = ls.velocity, gr = ls.gradient, tg = ls.target;
    for (unsigned i : band)
    {
        want[i] -= dt * gr[i] * vel[i];
        int x = i % (w + 1), y = i / (w + 1);
        if ((x == 0 || y == 0 || x == w || y == h) && want[i] > 0) want[i] = 0;
    }
    bool due = false, edge = false;
    for (unsigned i : mines) { if (std::abs(std::abs(want[i]) - 1) < 1e-9) edge = true; else if (std::abs(want[i]) < 1) due = true; }
    if (due) edge = false;
    bool r = false;
    bool no = refused([&] { r = ls.update(dt); });
    e.t();
    RefFMM ref(w, h, want); if (due || edge) ref.known();
    if (no)
    {
        e.count("contour_vanished");
        e.expect((due || edge) && ref.noContour, when + ": update refused");
        return false;
    }
    if (edge) { e.count("mine_on_the_edge"); due = r; }
    if (!e.expect(r == due, when + fmt(": update reported %d, a mine is%s within one grid spacing", r, due ? "" : " not"))) return false;
    if (r && !e.expect(!ref.noContour, when + ": reinitialised without a contour")) return false;
    if (!e.expect(ls.velocity == vel && ls.gradient == gr && ls.target == tg, when + ": update changed velocity, gradient or target")) return false;
    if (!r)
    {
        e.count("plain_step");
        for (int i = 0; i < n; i++)
            if (!e.expect(close(ls.signedDistance[i], want[i], 1e-12), when + fmt(": node %d stepped from %.12g to %.12g, expected %.12g", i, was[i], ls.signedDistance[i], want[i]))) return false;
        if (!e.expect(ls.nNarrowBand == band.size() && std::equal(band.begin(), band.end(), ls.narrowBand.begin()) && ls.nMines == mines.size() && std::equal(mines.begin(), mines.end(), ls.mines.begin()), when + ": band changed without reinitialisation")) return false;
        for (int i = 0; i < n; i++) if (!e.expect(ls.mesh.nodes[i].isActive == (bool)act[i] && ls.mesh.nodes[i].isMine == (bool)mine[i], when + fmt(": flags of node %d changed without reinitialisation", i))) return false;
    }
    else
    {
        e.count("reinitialised");
        auto f = fresh(e, w, h, bw, fixed, move);
        for (int i = 0; i < n; i++) f->mesh.nodes[i].isMasked = masked[i];
        f->signedDistance = want; f->reinitialise(); e.t();
        for (int i = 0; i < n; i++)
        {
            if (!e.expect(close(ls.signedDistance[i], f->signedDistance[i], 1e-9), when + fmt(": node %d is %.12g, a fresh reinitialisation gives %.12g", i, ls.signedDistance[i], f->signedDistance[i]))) return false;
            if (std::abs(std::abs(f->signedDistance[i]) - bw) < 1e-8 || std::abs(std::abs(f->signedDistance[i]) - bw + 1) < 1e-8) continue;
            if (!e.expect(ls.mesh.nodes[i].isActive == f->mesh.nodes[i].isActive && ls.mesh.nodes[i].isMine == f->mesh.nodes[i].isMine, when + fmt(": flags of node %d differ from a fresh reinitialisation", i))) return false;
        }
        if (ls.signedDistance == f->signedDistance)
            if (!e.expect(ls.nNarrowBand == f->nNarrowBand && ls.nMines == f->nMines && std::equal(ls.narrowBand.begin(), ls.narrowBand.begin() + ls.nNarrowBand, f->narrowBand.begin()) && std::equal(ls.mines.begin(), ls.mines.begin() + ls.nMines, f->mines.begin()), when + ": band differs from a fresh reinitialisation")) return false;
    }
    for (int i = 0; i < n; i++) if (!e.expect(ls.mesh.nodes[i].isMasked == (bool)masked[i], when + ": mask flag changed")) return false;
    return true;
}
void largeUpdates(Explorer& e);
void updates(Explorer& e)
{
    largeUpdates(e);
    bool T = e.thorough;
    std::vector<Op> ops = {{0.5, 0, 0}, {0.5, 1, 0}, {0.9, 2, 1}, {1.3, 3, 1}, {0.0, 3, 0}, {0.05, 1, 1}, {2.5, 1, 0}, {3e-9, 3, 1}, {17.0, 2, 1}};
    int depth = T ? 4 : 3, no = (int)ops.size(), nh = 1;
    for (int i = 0; i < depth; i++) nh *= no;
    for (auto s : {std::make_pair(8, 8), std::make_pair(12, 5)})
    {
        int w = s.first, h = s.second;
        auto all = shapes(w, h, T);
        std::vector<Named> fs;
        for (size_t i = 0; i < all.size(); i += T ? 2 : 5) fs.push_back(all[i]);
        for (auto& f : fs)
            for (unsigned bw : {3u, 4u, 6u})
                for (int fixed = 0; fixed < 2; fixed++)
                    for (int mask = 0; mask < 2; mask++)
                        for (int hist = 0; hist < nh; hist++)
                        {
                            if (T && mask && hist % 3) continue;
                            if (!e.take()) continue;
                            e.describe(fmt("%dx%d %s bw=%u fixed=%d mask=%d history=%d", w, h, f.name.c_str(), bw, fixed, mask, hist), show(f.phi, w));
                            auto ls = fresh(e, w, h, bw, fixed);
                            if (!ls) { e.done(); continue; }
                            ls->signedDistance = f.phi;
                            bool no_ = refused([&] { if (mask) ls->mask(Holes(1, Hole(3, 2.5, 1.2))); else ls->reinitialise(); });
                            if (no_) { e.count("no_contour"); e.done(); continue; }
                            int k = hist;
                            bool ok = true;
                            for (int st = 0; st < depth && ok; st++, k /= no)
                            {
                                Op o = ops[k % no];
                                for (unsigned i = 0; i < ls->mesh.nNodes; i++) { ls->velocity[i] = vAt(o.vel, i, i % (w + 1), i / (w + 1), w); ls->gradient[i] = gAt(o.grad, i); }
                                ok = stepCheck(e, *ls, bw, fixed, 0.5, o.dt, fmt("step %d", st + 1));
                                Hash q; q.u(bw).u(fixed).u(mask).v(ls->signedDistance); for (unsigned i = 0; i < ls->nMines; i++) q.u(ls->mines[i]); e.state(q);
                            }
                            Hash o; o.v(ls->signedDistance); e.outcome(o);
                            e.done();
                        }
    }
}
void largeUpdates(Explorer& e)
{
    // every small mesh size, and sizes around powers of two
    for (auto& sz : sizes(e.thorough ? 40 : 16, e.thorough))
        for (int k = 0; k < 3; k++)
            for (unsigned bw : {3u, 6u})
                for (int fixed = 0; fixed < 2; fixed++)
                {
                    if (!e.take()) continue;
                    int w = sz.first, h = sz.second;
                    e.describe(fmt("size %dx%d field %d bw=%u fixed=%d", w, h, k, bw, fixed));
                    auto ls = fresh(e, w, h, bw, fixed);
                    if (!ls) { e.done(); continue; }
                    ls->signedDistance = waves(w, h, k);
                    if (refused([&] { ls->reinitialise(); })) { e.count("no_contour"); e.done(); continue; }
                    bool ok = true;
                    for (int st = 0; st < 3 && ok; st++)
                    {
                        for (unsigned i = 0; i < ls->mesh.nNodes; i++) { ls->velocity[i] = vAt(st == 2 ? 2 : 3, i, i % (w + 1), i / (w + 1), w); ls->gradient[i] = gAt(1, i); }
                        ok = stepCheck(e, *ls, bw, fixed, 0.5, st == 1 ? 1.7 : 0.4, fmt("step %d", st + 1));
                        Hash q; q.u(bw).u(fixed).v(ls->signedDistance); e.state(q);
                    }
                    e.done();
                }
    for (auto s : {std::make_pair(270, 260), std::make_pair(2, 23000), std::make_pair(23000, 2)})
        for (unsigned bw : {3u, 6u, 40000u})
            for (int fixed = 0; fixed < 2; fixed++)
                for (int k = 0; k < 2; k++)
                {
                    if (!e.take()) continue;
                    int w = s.first, h = s.second;
                    e.describe(fmt("large %dx%d bw=%u fixed=%d %d", w, h, bw, fixed, k));
                    auto ls = fresh(e, w, h, bw, fixed);
                    if (!ls) { e.done(); continue; }
                    ls->signedDistance = k ? line(w, h, w > h ? 0 : 90, 0.45 * std::max(w, h) + 0.3) : circle(w, h, 0.5 * w, 0.5 * h, 0.31 * std::min(w, h) + 0.1, 1);
                    bool ok = e.expect(!refused([&] { ls->reinitialise(); }), "refused");
                    for (int st = 0; st < 3 && ok; st++)
                    {
                        for (unsigned i = 0; i < ls->mesh.nNodes; i++) { ls->velocity[i] = st == 0 ? vAt(3, i, i % (w + 1), i / (w + 1), w) : k ? -1 : 1; ls->gradient[i] = gAt(st == 0, i); }
                        ok = stepCheck(e, *ls, bw, fixed, 0.5, st == 2 ? 1.7 : 0.4, fmt("step %d", st + 1));
                        Hash q; q.u(bw).u(fixed).v(ls->signedDistance); e.state(q);
                    }
                    e.done();
                }
}
// the documented cycle; velocities given at the boundary points
void domainHistory(Explorer& e, int w, int h, const Holes& holes, unsigned bw, bool fixed, int hist, int depth)
{
    int W = w + 1, no = 5;
    LevelSet* p = 0;
    bool refusedC = refused([&] { p = new LevelSet(w, h, holes, 0.5, bw, fixed); });
    if (!e.expect(!refusedC, "constructor refused")) { e.done(); return; }
    std::unique_ptr<LevelSet> ls(p);
    auto rim = [&](int i) { int x = i % W, y = i / W; return x == 0 || y == 0 || x == w || y == h; };
    int n = ls->mesh.nNodes, k = hist;
    bool ok = true;
    for (int st = 0; st < depth && ok; st++, k /= no)
    {
        int op = k % no;
        std::string when = fmt("step %d (%c)", st + 1, "gsmfr"[op]);
        if (fixed) for (int i = 0; i < n; i++) if (rim(i)) ok = e.expect(!ls->mesh.nodes[i].isActive && !ls->mesh.nodes[i].isMine, when + fmt(": rim node %d is active", i)) && ok;
        std::vector<double> was = ls->signedDistance;
        bool re = false, upd = op != 4;
        bool rf = refused([&] {
            if (op == 4) { ls->reinitialise(); return; }
            Boundary B; B.discretise(*ls);
            for (unsigned i = 0; i < B.points.size(); i++)
                B.points[i].velocity = op == 0 ? -1 : op == 1 ? 1 : op == 2 ? (B.points[i].coord.x > 0.45 * w ? -1 : 0.7) : -3;
            ls->computeVelocities(B.points);
            ls->computeGradients();
            re = ls->update(op == 3 ? 0.9 : 0.5);
        });
        e.t();
        if (rf) { e.count("contour_vanished"); ok = e.expect(!hasContour(ls->signedDistance), when + ": refused") && false; break; }
        e.count(re ? "reinitialised" : "plain_step");
        for (int i = 0; i < n && ok; i++)
        {
            if (!rim(i)) continue;
            double v = ls->signedDistance[i];
            if (fixed && upd && !re) ok = e.expect(v == was[i], when + fmt(": fixed rim node %d moved from %.9g to %.9g", i, was[i], v));
            if (fixed && ok) ok = e.expect((v > 0) == (was[i] > 0) && (v < 0) == (was[i] < 0), when + fmt(": fixed rim node %d changed side, %.9g to %.9g", i, was[i], v));
            if (!fixed && ok) ok = e.expect(v <= 0, when + fmt(": material left the domain at rim node %d (%.9g)", i, v));
        }
        Hash q; q.u(bw).u(fixed).v(ls->signedDistance); e.state(q);
    }
    Hash o; o.v(ls->signedDistance); e.outcome(o);
    e.done();
}
void domain(Explorer& e)
{
    bool T = e.thorough;
    int depth = T ? 5 : 4, no = 5, nh = 1;
    for (int i = 0; i < depth; i++) nh *= no;
    // every small mesh size, and sizes around powers of two
    for (auto& sz : sizes(T ? 40 : 16, T))
        for (int fixed = 0; fixed < 2; fixed++)
            for (int hist : {0, 5 * 3 + 1, 25 * 4 + 5 * 2 + 1})
            {
                int w = sz.first, h = sz.second;
                if (w < 3 || h < 3) continue;
                if (!e.take()) continue;
                Holes hs;
                for (int i = 0; i < 1 + w * h / 60; i++) hs.push_back(Hole(w * mag(1, 3 * i) / 1.25, h * mag(1, 5 * i + 1) / 1.25, 1.1 + 0.2 * (i % 4)));
                e.describe(fmt("size %dx%d fixed=%d history %d", w, h, fixed, hist));
                domainHistory(e, w, h, hs, 6, fixed, hist, 3);
            }
    for (auto s : {std::make_pair(8, 8), std::make_pair(10, 5), std::make_pair(3, 6)})
    {
        int w = s.first, h = s.second, W = w + 1;
        std::vector<std::pair<std::string, Holes>> init = {
            {"plain", {}}, {"hole", {Hole(0.5 * w, 0.5 * h, 1.4)}}, {"edgehole", {Hole(0, 0.5 * h, 1.6)}}, {"cornerhole", {Hole(w, h, 2.2)}}, {"outside", {Hole(0.4 * w, -0.7, 1.9)}},
            {"nearedge", {Hole(1.6, 1.7, 1.1)}}};
        for (auto& in : init)
            for (unsigned bw : {3u, 6u})
                for (int fixed = 0; fixed < 2; fixed++)
                    for (int hist = 0; hist < nh; hist++)
                    {
                        if (!e.take()) continue;
                        std::string hs; { int k = hist; for (int i = 0; i < depth; i++, k /= no) hs += "gsmfr"[k % no]; }
                        e.describe(fmt("%dx%d %s bw=%u fixed=%d %s", w, h, in.first.c_str(), bw, fixed, hs.c_str()));
                        domainHistory(e, w, h, in.second, bw, fixed, hist, depth);
                    }
        // direct steps: arbitrary nodal speeds
        for (auto& f : shapes(w, h, T))
            for (unsigned bw : {3u, 1000u}) for (int fixed = 0; fixed < 2; fixed++) for (double dt : {0.3, 1.0, 4.0}) for (int vp = 0; vp < 4; vp++)
            {
                if (!e.take()) continue;
                e.describe(fmt("%dx%d %s bw=%u fixed=%d dt=%g vel=%d", w, h, f.name.c_str(), bw, fixed, dt, vp), show(f.phi, w));
                auto ls = fresh(e, w, h, bw, fixed);
                // a structure inside the domain: nothing positive on the rim (free domain)
                ls->signedDistance = f.phi;
                for (unsigned i = 0; i < ls->mesh.nNodes; i++) { int x = i % W, y = i / W; if (!fixed && (x == 0 || y == 0 || x == w || y == h)) ls->signedDistance[i] = std::min(0.0, ls->signedDistance[i]); }
                bool rf = refused([&] { ls->reinitialise(); });
                if (rf) { e.count("no_contour"); e.done(); continue; }
                for (unsigned i = 0; i < ls->mesh.nNodes; i++) { ls->velocity[i] = vAt(vp, i, i % W, i / W, w); ls->gradient[i] = gAt(1, i); }
                std::vector<double> was = ls->signedDistance;
                bool re = false;
                rf = refused([&] { re = ls->update(dt); });
                e.t();
                if (rf) { e.count("contour_vanished"); e.done(); continue; }
                for (unsigned i = 0; i < ls->mesh.nNodes && !e.failedCase; i++)
                {
                    int x = i % W, y = i / W; if (!(x == 0 || y == 0 || x == w || y == h)) continue;
                    double v = ls->signedDistance[i];
                    if (fixed && !re) e.expect(v == was[i], fmt("fixed rim node %u moved from %.9g to %.9g", i, was[i], v));
                    if (fixed) e.expect((v > 0) == (was[i] > 0) && (v < 0) == (was[i] < 0), fmt("fixed rim node %u changed side", i));
                    if (!fixed) e.expect(v <= 0, fmt("material left the domain at rim node %u (%.9g)", i, v));
                }
                Hash q; q.u(bw).u(fixed).u(vp).d(dt).v(was); e.state(q); Hash o; o.v(ls->signedDistance); e.outcome(o);
                e.done();
            }
    }
}

// ------------------------------------------------------------ C20
void noiseOne(Explorer& e, const Named& f, size_t fi, bool redist, double move, double temp, double dt0, unsigned seed, int rep)
{
    e.describe(fmt("%dx%d %s move=%g T=%g dt=%g seed=%u warm=%d", f.w, f.h, f.name.c_str(), move, temp, dt0, seed, rep), show(f.phi, f.w));
    auto ls = fresh(e, f.w, f.h, 4, false, move);
    ls->signedDistance = f.phi;
    Boundary B;
    bool rf = refused([&] { if (redist) ls->reinitialise(); B.discretise(*ls); });
    if (rf) { e.count("no_contour"); e.done(); return; }
    bool deg = false;
    for (size_t i = 0; i < B.points.size(); i++) { B.points[i].velocity = ptVel(2, (int)i, B.points[i]); if (!(B.points[i].length > 1e-12)) deg = true; }
    std::vector<BoundaryPoint> was = B.points;
    MersenneTwister rng, mirror; rng.setSeed(seed); mirror.setSeed(seed);
    if (rep) for (int i = 0; i < 3; i++) { rng.normal(0, 1); mirror.normal(0, 1); }
    double dt = dt0, scale = -1;
    rf = refused([&] { scale = ls->computeVelocities(B.points, dt, temp, rng); });
    e.t();
    if (!e.expect(!rf, "refused")) { e.done(); return; }
    if (deg)
    {
        e.count("zero_length_point");
        for (size_t i = 0; i < was.size(); i++)
        {
            e.expect(std::isfinite(B.points[i].velocity), fmt("velocity of point %zu of length %g is %g", i, was[i].length, B.points[i].velocity));
            if (temp == 0) e.expect(B.points[i].velocity == was[i].velocity, fmt("zero temperature changed the velocity of point %zu", i));
        }
        for (double v : ls->velocity) e.expect(std::isfinite(v), "a nodal velocity is not finite");
        e.done(); return;
    }
    bool limit = std::sqrt(2 * temp * dt0) > 0.5 * move, edge = std::abs(std::sqrt(2 * temp * dt0) - 0.5 * move) < 1e-9;
    double ws = limit ? 2 * temp * dt0 / (0.25 * move * move) : 1;
    if (limit) e.count("time_step_scaled");
    e.expect(close(scale, ws, 1e-9), fmt("scale factor %.12g, expected %.12g", scale, ws));
    if (!edge) e.expect(limit ? close(std::sqrt(2 * temp * dt), 0.5 * move, 1e-9) : dt == dt0, fmt("time step %.12g -> %.12g", dt0, dt));
    e.expect(close(dt * scale, dt0, 1e-9), "time step and scale factor disagree");
    for (size_t i = 0; i < was.size(); i++)
    {
        double v = was[i].velocity + std::sqrt(2 * temp / dt) / std::sqrt(was[i].length) * mirror.normal(0, 1);
        if (temp == 0) v = was[i].velocity;
        if (!e.expect(temp == 0 ? B.points[i].velocity == v : close(B.points[i].velocity, v, 1e-9), fmt("velocity of point %zu is %.12g, deterministic plus noise gives %.12g", i, B.points[i].velocity, v))) break;
        if (!e.expect(B.points[i].coord.x == was[i].coord.x && B.points[i].coord.y == was[i].coord.y && B.points[i].length == was[i].length, "a boundary point moved")) break;
    }
    e.expect(rng() == mirror(), "not exactly one normal draw per boundary point");
    // extension as in the deterministic case
    auto d = fresh(e, f.w, f.h, 4, false, move);
    d->signedDistance = f.phi; if (redist) d->reinitialise(); d->computeVelocities(B.points); e.t();
    for (size_t i = 0; i < d->velocity.size(); i++)
        if (!e.expect(close(ls->velocity[i], d->velocity[i], 1e-9), fmt("nodal velocity %zu is %.12g, deterministic extension gives %.12g", i, ls->velocity[i], d->velocity[i]))) break;
    Hash q; q.u(fi).u(f.w).d(move).d(temp).d(dt0).u(seed).u(rep); e.state(q);
    Hash o; o.d(scale); o.v(ls->velocity); e.outcome(o);
    e.done();
}
void noise(Explorer& e)
{
    bool T = e.thorough;
    // every small mesh size, and sizes around powers of two
    for (auto& sz : sizes(T ? 40 : 16, T))
        for (int k = 0; k < 3; k++)
        {
            if (!e.take()) continue;
            noiseOne(e, {fmt("size, field %d", k), sz.first, sz.second, waves(sz.first, sz.second, k)}, 1000 + k, true, 0.5, k ? 1.0 : 0.02, 0.25, 42 + k, k & 1);
        }
    // root mean square displacement in small steps through half the move limit
    for (double move : {0.05, 0.1, 0.3, 0.5, 0.9, 0.99})
        for (double temp : {1e-3, 0.02, 0.125, 1.0, 3.0})
            for (double r : {0.5, 0.7, 0.9, 0.95, 0.97, 0.99, 0.999, 0.999999, 1.000001, 1.001, 1.01, 1.03, 1.05, 1.1, 1.3, 1.5, 1.9, 2.1, 4.0})
            {
                if (!e.take()) continue;
                noiseOne(e, {fmt("wave, displacement %g of the most", r), 6, 5, waves(6, 5, 0)}, 2000, true, move, temp, r * r * 0.25 * move * move / (2 * temp), 7, 0);
            }
    for (auto s : {std::make_pair(7, 7), std::make_pair(9, 4)})
    {
        auto fs = shapes(s.first, s.second, T);
        // fields with an all but vanishing node, discretised as they are: points of zero length
        size_t nsh = fs.size();
        for (int k = 0; k < 3; k++)
        {
            auto f = fs[(k * 7) % nsh]; f.name = fmt("tiny node %d", k);
            for (size_t i = 0; i < f.phi.size(); i++) f.phi[i] = k == 1 ? -1 : 1;
            int c = (s.first + 1) * 2 + 3; f.phi[c] = k == 1 ? 3e-6 : -3e-6; if (k == 2) f.phi[c + 1] = -0.5;
            fs.push_back(f);
        }
        for (size_t fi = 0; fi < fs.size(); fi += T || fi + 1 >= nsh ? 1 : std::min<size_t>(3, nsh - fi))
            for (double move : {0.1, 0.5, 0.9})
                for (double temp : {0.0, 1e-8, 1e-3, 0.02, 0.125, 1.0, 40.0})
                    for (double dt0 : {1e-3, 0.25, 1.0, 7.0})
                        for (unsigned seed : {1u, 42u, 4000000000u})
                            for (int rep = 0; rep < 2; rep++)
                            {
                                if (!e.take()) continue;
                                noiseOne(e, fs[fi], fi, fi < nsh, move, temp, dt0, seed, rep);
                            }
    }
}
}
int mc_main(int argc, char** argv)
{
    return run(argc, argv, {{"C07", mapping, 60}, {"C11", updates, 60}, {"C12", gradients, 60}, {"C20", noise, 60}, {"C29", domain, 60}},
               {"corner_rule_edge", "undecided_node", "no_contour", "contour_node_without_point", "contour_vanished", "mine_on_the_edge", "plain_step", "reinitialised", "time_step_scaled", "zero_length_point"});
}
