// C27 limits, C28 dropped constraints: the real Optimise class around a stand-in for NLopt.
#include "mc.hpp"
#include "slsm_all.hpp"
#include "Optimise.h"
#include "snap.hpp"
#include <memory>
#include <sstream>
#include <fcntl.h>
#include <unistd.h>
#include <cstring>
using namespace mc;
using namespace slsm;
namespace nlopt { std::function<result(Problem&, std::vector<double>&, double&)> g_optimize; }

namespace
{
typedef std::vector<double> V;
struct Pt { V s; double len, neg; bool fixed, domain; };
struct Case
{
    std::vector<Pt> pts;
    V dist, lam0;           // constraint distances, initial lambdas
    std::vector<bool> eq;   // empty: all inequality
    double maxD; bool isMax;
    V answer;               // fractions of the bounds, one per original function
    int fault;              // 0 none, 1..3 round-off failures first, 4 invalid arguments, 5 as 1 but always without constraints
    int nf() const { return 1 + (int)dist.size(); }
    std::string show() const
    {
        std::string r = "points ";
        for (const Pt& p : pts) r += "{" + str(p.s) + fmt(" len %g neg %g%s%s} ", p.len, p.neg, p.fixed ? " fixed" : "", p.domain ? " domain" : "");
        r += "dist " + str(dist) + " eq ";
        for (bool b : eq) r += b ? '1' : '0';
        return r + " lam0 " + str(lam0) + fmt(" maxD %g max %d answer ", maxD, isMax) + str(answer) + fmt(" fault %d", fault);
    }
};
double eqTol(double a, double b, double scale) { return std::abs(a - b) <= 1e-9 * (1e-300 + scale); }

// Which constraints stay: the documented recursion, on unscaled quantities.
struct Model
{
    const Case& c; V maxS, target, extent; std::vector<int> act; bool tie;   // extent: size of the terms behind a rescaled target
    V disp(const V& lam) const      // lam: unscaled multipliers of all functions
    {
        V d(c.pts.size(), 0);
        for (size_t i = 0; i < c.pts.size(); i++)
        {
            if (c.pts[i].fixed) continue;
            for (int f = 0; f < c.nf(); f++) if (lam[f] != 0) d[i] += lam[f] * c.pts[i].s[f];
            if (c.pts[i].neg > -c.maxD && d[i] < c.pts[i].neg) d[i] = c.pts[i].neg;
        }
        return d;
    }
    double change(const V& d, int f) const
    {
        double s = 0; for (size_t i = 0; i < c.pts.size(); i++) if (!c.pts[i].fixed) s += d[i] * c.pts[i].s[f] * c.pts[i].len;
        return s;
    }
    double size(const V& lam, int f) const          // magnitude of the summed terms, for tolerances
    {
        double s = 0;
        for (size_t i = 0; i < c.pts.size(); i++) if (!c.pts[i].fixed)
        {
            double z = 0; for (int g = 0; g < c.nf(); g++) z += std::abs(lam[g] * c.pts[i].s[g]);
            s += z * std::abs(c.pts[i].s[f] * c.pts[i].len);
        }
        return s;
    }
    double bound(int f) const { return c.maxD / std::max(maxS[f], std::numeric_limits<double>::min()); }
    Model(const Case& q) : c(q), tie(false)
    {
        for (int f = 0; f < c.nf(); f++)
        {
            double m = 0; for (const Pt& p : c.pts) if (!p.fixed) m = std::max(m, std::abs(p.s[f]));
            maxS.push_back(m);
        }
        for (int f = 1; f < c.nf(); f++) act.push_back(f);
        target = V(c.nf(), 0); extent = target; for (int f = 1; f < c.nf(); f++) target[f] = c.dist[f - 1];
        for (bool again = !act.empty(); again;)
        {
            std::vector<int> keep;
            for (int f : act)
            {
                double lo = 0, hi = 0; bool first = true;
                int n = 1 + act.size();
                for (int b = 0; b < (1 << n); b++)
                {
                    V lam(c.nf(), 0);
                    for (int k = 0; k < n; k++) { int g = k ? act[k - 1] : 0; lam[g] = (b >> k & 1 ? 1 : -1) * bound(g); }
                    if (maxS[0] == 0) lam[0] = 0;
                    for (int g : act) if (maxS[g] == 0) lam[g] = 0;
                    double x = change(disp(lam), f);
                    if (first || x < lo) lo = x;
                    if (first || x > hi) hi = x;
                    first = false;
                }
                lo *= 0.99; hi *= 0.99;
                {
                    V lam(c.nf(), 0);
                    for (int g : act) lam[g] = bound(g);
                    lam[0] = bound(0);
                    for (int g = 0; g < c.nf(); g++) if (maxS[g] == 0) lam[g] = 0;
                    extent[f] = size(lam, f);
                }
                double t = c.dist[f - 1];
                bool e = !c.eq.empty() && c.eq[f - 1];
                if (t >= 0 && std::abs(t - hi) <= 1e-9 * (1e-12 + std::abs(t) + extent[f])) tie = true;
                if (t < 0) { if (t < lo) target[f] = lo; keep.push_back(f); }
                else if (t > hi) { if (e) { target[f] = hi; keep.push_back(f); } }
                else keep.push_back(f);
            }
            again = keep.size() < act.size() && !keep.empty();
            act = keep;
        }
    }
};

std::vector<BoundaryPoint> points(const Case& c)
{
    std::vector<BoundaryPoint> v(c.pts.size());
    for (size_t i = 0; i < v.size(); i++)
    {
        v[i].coord = Coord(1.5 + i, 2.25); v[i].normal = Coord(0, 1); v[i].length = c.pts[i].len; v[i].velocity = 77 + i;
        v[i].negativeLimit = c.pts[i].neg; v[i].positiveLimit = c.maxD; v[i].isFixed = c.pts[i].fixed; v[i].isDomain = c.pts[i].domain;
        v[i].sensitivities = c.pts[i].s;
    }
    return v;
}
void setPoints(std::vector<BoundaryPoint>& v, const Case& c) { std::vector<BoundaryPoint> n = points(c); v.swap(n); }
std::string exceptVelocity(std::vector<BoundaryPoint> v) { std::string s; for (auto& p : v) { p.velocity = 0; s += snap::point(p); } return s; }

// One solve of case c with object o (which works on pts, lam, dt), judged against the model.
void solve(Explorer& e, const Case& c, Optimise& o, std::vector<BoundaryPoint>& pts, V& lam, double& dt, Hash& out)
{
    Model m(c);
    if (m.tie) return;
    int n = 1 + m.act.size(), calls = 0;
    V scale(c.nf(), 1), real(c.nf(), 0);
    std::string why;
    auto bad = [&](const std::string& w) { if (why.empty()) why = w; };
    nlopt::g_optimize = [&](nlopt::Problem& p, V& x, double& f) -> nlopt::result {
        calls++;
        if ((int)p.n != n) { bad(fmt("%u variables instead of %d", p.n, n)); throw std::invalid_argument("x"); }
        if (!p.has || p.isMax != c.isMax) bad("objective missing or in the wrong direction");
        if (p.con.size() != m.act.size()) { bad(fmt("%zu constraints instead of %zu", p.con.size(), m.act.size())); throw std::invalid_argument("x"); }
        std::vector<int> fn(1, 0);
        for (int a : m.act) fn.push_back(a);
        for (int k = 0; k < n; k++)
        {
            if (!(p.ub[k] > 0) || p.lb[k] != -p.ub[k]) { bad(fmt("bounds of variable %d: %g %g", k, p.lb[k], p.ub[k])); return nlopt::SUCCESS; }
            scale[fn[k]] = m.bound(fn[k]) / p.ub[k];
            if (!(x[k] >= p.lb[k] * (1 + 1e-12) && x[k] <= p.ub[k] * (1 + 1e-12))) bad(fmt("initial value of variable %d out of bounds: %g not in [%g,%g]", k, x[k], p.lb[k], p.ub[k]));
            bool e_ = k && !c.eq.empty() && c.eq[fn[k] - 1];
            if (k && p.con[k - 1].equality != e_) bad(fmt("constraint %d registered with the wrong type", fn[k]));
            // the initial guess is the caller's, at most shrunk into the bounds
            double want = c.lam0[fn[k]];
            if (std::abs(want) <= m.bound(fn[k]) * 0.999 && !eqTol(x[k] * scale[fn[k]], want, std::abs(want)) && calls == 1) bad(fmt("initial value of variable %d is not the caller's: %g, not %g", k, x[k] * scale[fn[k]], want));
        }
        // probe the callbacks: origin, axes, corners, and the answer
        std::vector<V> probe(1, V(n, 0));
        V ans(n);
        for (int k = 0; k < n; k++) ans[k] = c.answer[fn[k]] * p.ub[k];
        probe.push_back(ans);
        for (int k = 0; k < n; k++) if (m.maxS[fn[k]] > 0) for (double s : {0.5, -0.25}) { V q(n, 0); q[k] = s * p.ub[k]; probe.push_back(q); }
        for (int b = 0; b < (1 << n); b++) { V q(n); for (int k = 0; k < n; k++) q[k] = m.maxS[fn[k]] > 0 ? (b >> k & 1 ? p.ub[k] : p.lb[k]) : 0; probe.push_back(q); }
        for (const V& q : probe)
        {
            V lamU(c.nf(), 0);
            for (int k = 0; k < n; k++) lamU[fn[k]] = q[k] * scale[fn[k]];
            V d = m.disp(lamU);
            for (int k = n - 1; k >= 0; k--)
            {
                V g(n, -99), none;
                double v = k ? p.con[k - 1].f(q, g, p.con[k - 1].d) : p.obj(q, g, p.objData); e.t();
                double v2 = k ? p.con[k - 1].f(q, none, p.con[k - 1].d) : p.obj(q, none, p.objData); e.t();
                if (v != v2 || !none.empty()) bad(fmt("function %d depends on whether its gradient is asked for", fn[k]));
                double want = scale[fn[k]] * m.change(d, fn[k]), sz = scale[fn[k]] * (m.size(lamU, fn[k]) + std::abs(m.target[fn[k]]) + m.extent[fn[k]]) + 1e-12;
                if (k && calls == 1) want -= scale[fn[k]] * m.target[fn[k]];
                if (k && calls > 1)
                {
                    // after a failure the targets are relaxed: between zero and the original one
                    double t = (want - v) / scale[fn[k]], T = m.target[fn[k]];
                    if (t * T < -1e-12 || std::abs(t) > std::abs(T) + 1e-9 * m.extent[fn[k]] + 1e-12) bad(fmt("relaxed target of constraint %d is %g (was %g)", fn[k], t, T));
                }
                else if (!eqTol(v, want, sz)) bad(fmt("function %d at %s is %.12g, should be %.12g", fn[k], str(q).c_str(), v, want));
                if ((int)g.size() != n) { bad(fmt("gradient of function %d has %zu entries", fn[k], g.size())); continue; }
                for (int j = 0; j < n; j++)
                {
                    double w = 0, z = 1e-300;
                    for (const Pt& pt : c.pts) if (!pt.fixed) { double a = pt.s[fn[k]] * pt.s[fn[j]] * pt.len * scale[fn[k]] * scale[fn[j]]; w += a; z += std::abs(a); }
                    if (!eqTol(g[j], w, z)) bad(fmt("derivative %d of function %d is %.12g, should be %.12g", fn[j], fn[k], g[j], w));
                }
            }
        }
        if (c.fault == 4) throw std::invalid_argument("nlopt invalid argument");
        x = ans;
        for (int k = 0; k < n; k++) real[fn[k]] = ans[k] * scale[fn[k]];
        V none; f = p.obj(x, none, p.objData);
        if (c.fault >= 1 && c.fault <= 3 && calls <= c.fault) throw nlopt::roundoff_limited();
        return calls % 2 ? nlopt::XTOL_REACHED : nlopt::SUCCESS;
    };
    std::string before = exceptVelocity(pts);
    double ret = 0;
    bool r = refused([&] { ret = o.solve(); }); e.t();
    if (!e.expect(!r, "solve() was refused")) return;
    if (!e.expect(why.empty(), why)) return;
    e.expect(calls >= 1, "the inner optimiser was never called");
    if (c.fault == 0 || c.fault == 4) e.expect(calls == 1, "a finished optimisation was repeated");
    if (c.fault >= 1 && c.fault <= 3) e.expect(calls == (n > 1 ? c.fault + 1 : 1), fmt("round-off failures: %d attempts", calls));
    e.expect((int)lam.size() == c.nf(), fmt("%zu multipliers returned for %d functions", lam.size(), c.nf()));
    if (e.failedCase) return;
    if (c.fault == 4)
    {
        // the caller's multipliers, shrunk into the bounds
        for (int f = 0; f < c.nf(); f++) real[f] = lam[f];
        for (int f : m.act) e.expect(lam[f] == 0 || lam[f] * c.lam0[f] > 0, "an unanswered solve invented multipliers");
    }
    // final rescaling to the CFL limit
    V d = m.disp(real); double mx = 0;
    for (double x : d) mx = std::max(mx, std::abs(x));
    if (c.fault != 4 && mx > c.maxD) { for (double& x : real) x *= c.maxD / mx; d = m.disp(real); }
    for (int f = 0; f < c.nf(); f++)
    {
        bool a = f == 0 || std::count(m.act.begin(), m.act.end(), f);
        if (!a) e.expect(lam[f] == 0, fmt("multiplier %d of a dropped constraint is %g", f, lam[f]));
        else e.expect(eqTol(lam[f], real[f], std::abs(real[f])), fmt("multiplier %d is %.12g, should be %.12g", f, lam[f], real[f]));
    }
    e.expect(eqTol(dt, std::abs(real[0]), std::abs(real[0])), fmt("time step %.12g, should be %.12g", dt, std::abs(real[0])));
    e.expect(exceptVelocity(pts) == before, "solving changed more than the velocities");
    double od = m.change(d, 0), oz = m.size(real, 0);
    e.expect(eqTol(ret, od, oz + 1e-12), fmt("objective change %.12g, should be %.12g", ret, od));
    for (size_t i = 0; i < pts.size() && !e.failedCase; i++)
    {
        double v = pts[i].velocity, disp = v * dt;
        if (dt > 0 && dt < 1e290)
        {
            if (c.pts[i].fixed) { e.expect(v == 0, fmt("fixed point %zu has velocity %g", i, v)); continue; }
            double z = 0; for (int f = 0; f < c.nf(); f++) z += std::abs(real[f] * c.pts[i].s[f]);
            e.expect(eqTol(disp, d[i], z + std::abs(d[i]) + 1e-12), fmt("point %zu moves by %.12g, should be %.12g", i, disp, d[i]));
            e.expect(std::abs(disp) <= c.maxD * (1 + 1e-9), fmt("point %zu moves by %.12g, beyond the CFL limit", i, disp));
            e.expect(disp >= std::min(c.pts[i].neg, 0.0) * (1 + 1e-9) - 1e-12 || c.pts[i].neg <= -c.maxD, fmt("point %zu moves by %.12g, its limit is %g", i, disp, c.pts[i].neg));
        }
        out.d(v);
    }
    out.u(n); out.d(ret); out.d(dt);
    e.count("solved");
    if (n < c.nf()) e.count("with dropped constraints");
    if (mx > c.maxD) e.count("rescaled");
    for (const Pt& p : c.pts) if (p.neg > -c.maxD && !p.fixed) { e.count("with side limits"); break; }
}
void one(Explorer& e, const Case& c, bool describeIt = true)
{
    std::vector<BoundaryPoint> pts = points(c);
    V lam = c.lam0; double dt = -1;
    Hash out;
    std::unique_ptr<Optimise> o;
    if (c.eq.empty()) o.reset(new Optimise(pts, c.dist, lam, dt, c.maxD, c.isMax)); else o.reset(new Optimise(pts, c.dist, lam, dt, c.maxD, c.isMax, c.eq));
    solve(e, c, *o, pts, lam, dt, out);
    Hash s; if (c.pts.size() > 1000) s.u(c.pts.size()).u(c.nf()); else s.s(c.show()); e.state(s); e.outcome(out);
}
Pt pt(const V& s, double len, int lim, double maxD)
{
    // lim: 0 free, 1 near (0.3 of the limit), 2 on the domain, 3 fixed, 4 fixed on the domain, 5 near by a hair, 6 masked neighbour
    Pt p; p.s = s; p.len = len; p.fixed = lim == 3 || lim == 4; p.domain = lim == 2 || lim == 4;
    p.neg = lim == 1 ? -0.3 * maxD : p.domain ? -0.0 : lim == 5 ? -0.999 * maxD : lim == 6 ? -0.6 * maxD : -maxD;
    return p;
}
void longBoundaries(Explorer& e);
void manyConstraints(Explorer& e);
void units(Explorer& e);
void limits(Explorer& e)
{
    longBoundaries(e);
    units(e);
    manyConstraints(e);
    // constructor
    for (int k = 0; k < 12; k++)
    {
        if (!e.take()) continue;
        e.describe(fmt("constructor %d", k));
        Case c; c.pts.push_back(pt({1, 1}, 1, 0, 0.5)); c.dist = {0.1}; c.lam0 = {0, 0}; c.maxD = 0.5; c.isMax = false;
        std::vector<BoundaryPoint> p = points(c); V lam = c.lam0, dist = c.dist; double dt = 0, mx = 0.5; bool want = true;
        if (k == 0) mx = 0; if (k == 1) mx = 1; if (k == 2) mx = -0.1; if (k == 3) mx = std::nan(""); if (k == 4) mx = 1.5;
        if (k == 5) p.clear(); if (k == 6) dist.clear(); if (k == 7) dist.push_back(1); if (k == 8) lam.push_back(0);
        if (k == 9) { want = false; } if (k == 10) { mx = 1e-9; want = false; } if (k == 11) { mx = 0.999; want = false; }
        bool r = refused([&] { Optimise o(p, dist, lam, dt, mx); }); e.t();
        e.expect(r == want, r ? "valid parameters refused" : "invalid parameters accepted");
        Hash s; s.u(k); e.state(s); e.outcome(s);
        e.done();
    }
    const V S = {1, -1, 0.4, -2.5, 0, 1e-3};
    const V A = {-1, -0.3, 0.4, 1, -1e-6};
    const int NL = 7;
    // objective only: every pair (triple) of points
    int np = e.thorough ? 3 : 2;
    for (int n = 1; n <= np; n++) for (double maxD : {0.5, 0.05}) for (int isMax = 0; isMax < 2; isMax++) for (int fault : {0, 1, 4})
    {
        std::vector<int> w(2 * n, 0);
        long kk = 0;
        // word: sensitivity and limit class of every point
        do
        {
            bool ok = true; for (int i = 0; i < n; i++) if (w[2 * i] >= (int)S.size()) ok = false;
            if (!ok) continue;
            if (n == 3 && (kk++ % 7)) continue;
            if (!e.take()) continue;
            Case c; c.maxD = maxD; c.isMax = isMax; c.fault = fault; bool any = false;
            for (int i = 0; i < n; i++) { c.pts.push_back(pt({S[w[2 * i]]}, i == 1 ? 0.35 : 1.2, w[2 * i + 1], maxD)); any |= !c.pts.back().fixed; }
            e.describe("objective " + str(w) + fmt(" maxD %g max %d fault %d", maxD, isMax, fault));
            for (double l0 : {0.0, -0.2, 9.0}) for (double a : A)
            {
                c.lam0 = {l0}; c.answer = {a};
                if (!e.failedCase) one(e, c);
            }
            e.done();
        } while (next(w, NL));
    }
    // objective and one or two constraints, two or three points: sensitivity words x limits x answers
    const V T = {1, -0.8, 0};
    for (int nf = 2; nf <= 3; nf++) for (int n = 2; n <= 3; n++)
    {
        if (nf == 3 && n == 3 && !e.thorough) continue;
        std::vector<int> w(nf * n, 0); long kk = 0;
        do
        {
            std::vector<int> L(n, 0);
            do
            {
                if (!e.thorough && nf * n == 6 && kk % 5) { kk++; continue; }
                if (e.thorough && nf * n == 9 && kk % 211) { kk++; continue; }
                kk++;
                if (!e.take()) continue;
                e.describe(fmt("nf %d n %d sens ", nf, n) + str(w) + " limits " + str(L));
                Case c; c.maxD = 0.5; c.isMax = kk % 2; c.fault = kk % 9 == 0 ? 2 : kk % 11 == 0 ? 4 : kk % 13 == 0 ? 3 : 0;
                for (int i = 0; i < n; i++)
                {
                    V s; for (int f = 0; f < nf; f++) s.push_back(T[w[i * nf + f]] * (1 + 0.3 * i) * (1 - 0.2 * f));
                    c.pts.push_back(pt(s, i == 1 ? 0.35 : 1.2, L[i], c.maxD));
                }
                std::vector<int> a(nf, 0), dd(nf - 1, 0);
                const V D = {-3, -0.02, 0.01, 3};
                do do
                {
                    c.dist.clear(); c.lam0.assign(nf, 0.1); c.answer.clear();
                    for (int f = 0; f < nf; f++) c.answer.push_back(A[a[f] * 2 % 5]);
                    for (int f = 1; f < nf; f++) c.dist.push_back(D[dd[f - 1]]);
                    if (!e.failedCase) one(e, c);
                } while (next(dd, 4)); while (next(a, nf == 2 ? 3 : 2));
                e.done();
            } while (next(L, n == 2 ? NL : 4));
        } while (next(w, 3));
    }
}

// boundaries of realistic and of large size: limits and sensitivities in fixed incommensurate patterns
void longBoundaries(Explorer& e)
{
    for (int n : {5, 12, 41, 300, 70000}) for (int nf = 1; nf <= 4; nf++) for (int set = 0; set < (n > 1000 ? 1 : e.thorough ? 24 : 8); set++) for (int lim = 0; lim < 3; lim++)
    {
        if (n > 1000 && (nf == 1 || nf == 4 || lim != 1)) continue;
        if (!e.take()) continue;
        Case c; c.maxD = set % 2 ? 0.5 : 0.07; c.isMax = set % 4 >= 2; c.fault = set % 5 == 4 ? 2 : 0;
        e.describe(fmt("boundary of %d points, %d functions, set %d limits %d", n, nf, set, lim));
        for (int i = 0; i < n; i++)
        {
            V s; for (int f = 0; f < nf; f++) { double x = std::fmod((i * 7 + f * 13 + set * 29 + 1) * 0.6180339887498949, 1.0) * 2 - 1; if (f == 1 && set % 3 == 0) x = 1; if ((i + f + set) % 11 == 0) x = 0; s.push_back(x * (f == 2 ? 30 : 1)); }
            c.pts.push_back(pt(s, 0.2 + std::fmod((i + 1) * 0.7548776662466927, 1.0), lim == 0 ? 0 : lim == 1 ? (i * 5 + set) % 7 : i % 3 ? 1 : 5, c.maxD));
        }
        for (double d : {-1.0, 0.05, 4.0}) for (double a : {-0.9, 0.3})
        {
            if (n > 1000 && (d != 0.05 || a != 0.3)) continue;
            c.dist.clear(); c.answer.clear(); c.lam0.assign(nf, 0.01);
            for (int f = 0; f < nf; f++) { c.answer.push_back((f % 2 ? -0.7 : 1) * a); if (f) c.dist.push_back(d * (f == 2 ? -1 : 1)); }
            if (!e.failedCase) one(e, c);
        }
        e.done();
    }
}
// functions measured in units of their own: each of them huge, tiny or ordinary
void units(Explorer& e)
{
    const V U = {1, 0x1p20, 0x1p-20};
    for (int nf = 1; nf <= 3; nf++) for (int set = 0; set < (e.thorough ? 24 : 8); set++) for (int lim = 0; lim < 3; lim++)
    {
        std::vector<int> u(nf, 0);
        do
        {
            if (!e.take()) continue;
            Case c; c.maxD = set % 2 ? 0.5 : 0.07; c.isMax = set % 4 >= 2; int n = 2 + set % 5;
            e.describe(fmt("%d functions, units ", nf) + str(u) + fmt(", set %d limits %d", set, lim));
            for (int i = 0; i < n; i++)
            {
                V s; for (int f = 0; f < nf; f++) { double x = std::fmod((i * 7 + f * 13 + set * 29 + 1) * 0.6180339887498949, 1.0) * 2 - 1; if (f == 1 && set % 3 == 0) x = 1; s.push_back(x * U[u[f]]); }
                c.pts.push_back(pt(s, 0.2 + std::fmod((i + 1) * 0.7548776662466927, 1.0), lim == 0 ? 0 : lim == 1 ? (i * 5 + set) % 7 : i % 3 ? 1 : 5, c.maxD));
            }
            for (double d : {-1.0, -0.02, 0.03, 4.0}) for (double a : {-0.9, 0.3})
            {
                c.dist.clear(); c.answer.clear(); c.lam0.clear();
                for (int f = 0; f < nf; f++) { c.lam0.push_back(0.01 / U[u[f]]); c.answer.push_back((f % 2 ? -0.7 : 1) * a); if (f) c.dist.push_back(d * (f == 2 ? -1 : 1) * U[u[f]]); }
                if (!e.failedCase) one(e, c);
            }
            e.done();
        } while (next(u, 3));
    }
}
// many constraints: distance classes and types in shifted patterns
void manyConstraints(Explorer& e)
{
    const V D = {-5, -0.03, 7, 0.02, 40, 0.3, 60};
    for (int nf : {5, 6, 7, 9, 11}) for (int set = 0; set < (e.thorough ? 36 : 9); set++) for (int rot = 0; rot < 7; rot++)
    {
        if (nf > 7 && (rot + set) % (nf > 9 ? 7 : 3)) continue;
        if (!e.take()) continue;
        Case c; c.maxD = set % 2 ? 0.5 : 0.2; c.isMax = rot % 2; c.fault = (set + rot) % 8 == 7 ? 2 : (set + rot) % 8 == 5 ? 4 : 0;
        e.describe(fmt("%d functions, set %d, pattern %d", nf, set, rot));
        int n = 3 + set % 4 * 3;
        for (int i = 0; i < n; i++)
        {
            V s;
            for (int f = 0; f < nf; f++)
            {
                double x = std::fmod((i * 7 + f * 13 + set * 29 + 1) * 0.6180339887498949, 1.0) * 2 - 1;
                if (set % 3 == 1 && f % 2) x = std::abs(x) * 0.1;
                if (set % 3 == 2 && (i + f) % 3 == 0) x = 0;
                s.push_back(x * (f % 4 == 2 ? 20 : 1));
            }
            c.pts.push_back(pt(s, 0.3 + 0.4 * ((i + set) % 3), (set + i) % 4 == 0 ? i % 7 : 0, c.maxD));
        }
        bool anyEq = false;
        for (int f = 1; f < nf; f++) { c.dist.push_back(D[(f * (1 + set / 3 % 3) + rot) % 7]); bool q = (f * 5 + set * 3 + rot) % 4 == 0 && set % 2; c.eq.push_back(q); anyEq |= q; }
        if (!anyEq) c.eq.clear();
        for (int f = 0; f < nf; f++) { c.answer.push_back((f + set) % 2 ? 0.37 : -0.81); c.lam0.push_back(f % 3 == 2 ? 0.0 : f % 3 ? 0.05 : -0.03); }
        std::vector<BoundaryPoint> pts = points(c);
        V lam = c.lam0; double dt = -1; Hash out;
        std::unique_ptr<Optimise> o;
        if (c.eq.empty()) o.reset(new Optimise(pts, c.dist, lam, dt, c.maxD, c.isMax)); else o.reset(new Optimise(pts, c.dist, lam, dt, c.maxD, c.isMax, c.eq));
        for (int k = 0; k < 3 && !e.failedCase; k++)
        {
            if (k) { for (double& a : c.answer) a *= -0.6; c.lam0 = lam; c.fault = 0; for (Pt& p : c.pts) for (double& s : p.s) s *= k == 1 ? 1.7 : 0.2; setPoints(pts, c); }
            if (Model(c).tie) break;
            solve(e, c, *o, pts, lam, dt, out);
            if (k) e.count("repeated solves");
        }
        Hash s; s.s(c.show()); e.state(s); e.outcome(out); e.done();
    }
}
void constraints(Explorer& e)
{
    longBoundaries(e);
    units(e);
    manyConstraints(e);
    // up to three constraints: every distance class x every type x sensitivity sets, then solved again
    // with the same object after the points, their number or the fixed ones changed.
    const V D = {-5, -0.03, 0, 0.02, 0.3, 7};
    int nsets = e.thorough ? 60 : 16;
    for (int nf = 1; nf <= 4; nf++) for (int set = 0; set < nsets; set++)
    {
        int n = 2 + set % 3;
        std::vector<Pt> P;
        for (int i = 0; i < n; i++)
        {
            V s;
            for (int f = 0; f < nf; f++)
            {
                double x = std::fmod((i * 7 + f * 13 + set * 29 + 1) * 0.6180339887498949, 1.0) * 2 - 1;
                if ((set / 3) % 3 == 1 && f == 1) x = std::abs(x) * 0.1;
                if ((set / 3) % 3 == 2 && (i + f) % 3 == 0) x = 0;
                s.push_back(x * (f == 2 ? 20 : 1));
            }
            P.push_back(pt(s, 0.3 + 0.4 * ((i + set) % 3), set % 5 == 4 ? i % 7 : set % 5 == 3 ? (i == 0 ? 3 : 0) : 0, 0.5));
        }
        std::vector<int> d(nf - 1, 0);
        do
        {
            std::vector<int> q(nf - 1, 0);
            do
            {
                for (int rep = 0; rep < 6; rep++)
                {
                    if (!e.take()) continue;
                    e.describe(fmt("functions %d set %d distances ", nf, set) + str(d) + " equality " + str(q) + fmt(" repeat mode %d", rep));
                    Case c; c.pts = P; c.maxD = 0.5; c.isMax = set % 2; c.fault = rep == 5 ? 2 : 0;
                    for (int x : d) c.dist.push_back(D[x]);
                    bool anyEq = false; for (int x : q) { c.eq.push_back(x); anyEq |= x; }
                    if (!anyEq && rep % 2) c.eq.clear();
                    c.lam0.assign(nf, 0.0); c.answer.clear();
                    for (int f = 0; f < nf; f++) { c.answer.push_back((f + set) % 2 ? 0.37 : -0.81); if (rep % 3) c.lam0[f] = f % 2 ? 0.05 : -0.03; }
                    std::vector<BoundaryPoint> pts = points(c);
                    V lam = c.lam0; double dt = -1;
                    Hash out;
                    std::unique_ptr<Optimise> o;
                    if (c.eq.empty()) o.reset(new Optimise(pts, c.dist, lam, dt, c.maxD, c.isMax)); else o.reset(new Optimise(pts, c.dist, lam, dt, c.maxD, c.isMax, c.eq));
                    int times = rep < 2 ? 1 : 3;
                    for (int k = 0; k < times && !e.failedCase; k++)
                    {
                        if (k && rep == 3) { for (size_t i = 0; i < c.pts.size(); i++) { bool fx = (int)i == k % (int)c.pts.size(); c.pts[i].fixed = fx; } setPoints(pts, c); }
                        if (k && rep == 4)
                        {
                            // the boundary was discretised anew: more points, then fewer, other sensitivities
                            c.pts = P; if (k == 1) { c.pts.push_back(P[0]); c.pts.back().s[nf - 1] *= -0.3; c.pts.back().fixed = true; } else if (c.pts.size() > 2) c.pts.pop_back();
                            for (Pt& p : c.pts) for (double& s : p.s) s *= k == 1 ? 1.7 : 0.2;
                            setPoints(pts, c);
                        }
                        if (k) { for (int f = 0; f < nf; f++) c.answer[f] = -c.answer[f] * 0.6; c.lam0 = lam; c.fault = 0; }
                        Model m(c); if (m.tie) break;
                        solve(e, c, *o, pts, lam, dt, out);
                        if (k) e.count("repeated solves");
                    }
                    Hash s; s.s(c.show()); s.u(rep); e.state(s); e.outcome(out);
                    e.done();
                }
            } while (next(q, 2));
        } while (next(d, (int)D.size()));
    }
}
}
namespace
{
// C37: the report names the reason for which the latest optimisation ended.
void report(Explorer& e)
{
    struct End { int code; const char* good; const char* word; };
    const std::vector<End> ends = {{1, "Success", "Generic success"}, {2, "Success", "stopval"}, {3, "Success", "ftol"}, {4, "Success", "xtol"}, {5, "Success", "maxeval"}, {6, "Success", "maxtime"},
        {-2, "Failed", "Invalid arguments"}, {-4, "Failed", "roundoff"}};
    const char* words[] = {"Generic success", "stopval", "ftol", "xtol", "maxeval", "maxtime", "Generic failure", "Invalid arguments", "Ran out of memory", "roundoff", "forced", "No optimisation"};
    const int N = e.thorough ? 5 : 4;
    for (int nc = 0; nc < 3; nc++) for (int n = 0; n <= N; n++) for (int retries = 0; retries < 3; retries++) for (int stack = 0; stack < 4; stack++)
    {
        std::vector<int> d(n, 0);
        do
        {
            bool skip = false;
            for (int k : d) if (ends[k].code == -4 && nc > 0) skip = true;        // with constraints round-off failures are retried
            if (skip || (retries && !nc)) continue;
            if (!e.take()) continue;
            std::string desc = fmt("%d constraints, %d round-off failures first, memory pattern %d, endings", nc, retries, stack);
            for (int k : d) desc += fmt(" %d", ends[k].code);
            e.describe(desc);
            std::vector<BoundaryPoint> pts(3);
            for (int i = 0; i < 3; i++) { pts[i].length = 1; pts[i].negativeLimit = -0.5; pts[i].isDomain = pts[i].isFixed = false; pts[i].sensitivities.assign(std::max(2, nc + 1), 0.0); for (int f = 0; f <= nc; f++) pts[i].sensitivities[f] = 1 + 0.3 * i - 0.4 * f * (i - 1); }
            V dist(nc, -0.05), lam(nc + 1, 0.0); double dt = 0;
            // the object is placed in memory with a known content, so that nothing depends on luck
            static const unsigned char fill[4] = {0x00, 0x01, 0xff, 0x05};
            alignas(16) static unsigned char room[sizeof(Optimise)];
            memset(room, fill[stack], sizeof room);
            if (stack == 3) for (size_t i = 0; i < sizeof room; i++) room[i] = i % 4 ? 0 : 5;
            Optimise* opt = 0;
            Hash o, st; st.u(nc); st.u(retries);
            const int algs[] = {-1, nlopt::LN_COBYLA, nlopt::LD_MMA, nlopt::LD_SLSQP}, alg = algs[(n + retries + stack) % 4]; const bool isMax = (n + stack) % 2;
            bool no = refused([&] { opt = alg < 0 ? new (room) Optimise(pts, dist, lam, dt, 0.5, isMax, std::vector<bool>(nc, true)) : new (room) Optimise(pts, dist, lam, dt, 0.5, isMax, std::vector<bool>(nc, true), nlopt::algorithm(alg)); }); e.t();
            if (!e.expect(!no, "constructor refused")) { e.done(); continue; }
            for (int k = -1; k < n && !e.failedCase; k++)
            {
                if (k >= 0)
                {
                    int calls = 0;
                    nlopt::g_optimize = [&](nlopt::Problem& p, V& x, double& f) -> nlopt::result {
                        e.expect(p.alg == (alg < 0 ? int(nlopt::LD_SLSQP) : alg), fmt("algorithm %d is run", int(p.alg)));
                        e.expect(p.isMax == isMax && p.con.size() == size_t(nc), "the problem is not the one described");
                        if (calls++ < retries) throw nlopt::roundoff_limited();
                        int c = ends[d[k]].code;
                        if (c == -2) throw std::invalid_argument("nlopt invalid argument");
                        for (size_t i = 0; i < x.size(); i++) x[i] = 0.3 * p.lb[i];
                        V g; f = p.obj(x, g, p.objData);
                        if (c == -4) throw nlopt::roundoff_limited();
                        return nlopt::result(c); };
                    std::ostringstream mute; std::streambuf* eb = std::cerr.rdbuf(mute.rdbuf());
                    fflush(stderr); int keep = dup(2), nul = open("/dev/null", O_WRONLY); dup2(nul, 2);
                    no = refused([&] { opt->solve(); }); e.t();
                    fflush(stderr); dup2(keep, 2); close(keep); close(nul);
                    std::cerr.rdbuf(eb);
                    if (!e.expect(!no, fmt("solve %d refused", k))) break;
                }
                std::ostringstream out; std::streambuf* ob = std::cout.rdbuf(out.rdbuf());
                no = refused([&] { opt->queryReturnCode(); }); e.t();
                std::cout.rdbuf(ob);
                if (!e.expect(!no, "report refused")) break;
                std::string text = out.str(), want = k < 0 ? "No optimisation" : ends[d[k]].word;
                for (const char* w : words)
                {
                    bool has = text.find(w) != std::string::npos;
                    e.expect(has == (want == w), fmt("%s the report is \"%s\", it has to name \"%s\"", k < 0 ? "before any optimisation" : fmt("after optimisation %d", k).c_str(), text.c_str(), want.c_str()));
                }
                for (const char* w : {"Success", "Failed"}) e.expect((text.find(w) != std::string::npos) == (k >= 0 && std::string(ends[d[k]].good) == w), fmt("the report \"%s\" is wrong about success", text.c_str()));
                st.u(k < 0 ? 99 : d[k]); for (char ch : text) o.u(ch);
            }
            opt->~Optimise();
            e.state(st); e.outcome(o); e.done();
        } while (next(d, (int)ends.size()));
    }
    // the problem that is run, for every pattern of constraints that are met, violated or out of reach
    const double level[5] = {-40, -0.05, 0, 0.05, 40};
    for (int nc = 0; nc <= (e.thorough ? 4 : 3); nc++) for (int isMax = 0; isMax < 2; isMax++) for (int alg : {-1, int(nlopt::LN_COBYLA), int(nlopt::LD_MMA), int(nlopt::LD_SLSQP)}) for (int eq = 0; eq < (1 << nc); eq++)
    {
        std::vector<int> d(nc, 0);
        do
        {
            if (!e.take()) continue;
            std::string desc = fmt("%s by algorithm %d, equality mask %d, constraint distances", isMax ? "maximisation" : "minimisation", alg, eq);
            for (int k : d) desc += fmt(" %g", level[k]);
            e.describe(desc);
            std::vector<BoundaryPoint> pts(3);
            for (int i = 0; i < 3; i++) { pts[i].length = 1; pts[i].negativeLimit = -0.5; pts[i].isDomain = pts[i].isFixed = false; pts[i].sensitivities.assign(nc + 1, 0.0); for (int f = 0; f <= nc; f++) pts[i].sensitivities[f] = 1 + 0.3 * i - 0.4 * f * (i - 1); }
            V dist, lam(nc + 1, 0.0); double dt = 0; std::vector<bool> E;
            for (int i = 0; i < nc; i++) { dist.push_back(level[d[i]]); E.push_back(eq >> i & 1); }
            size_t need = 0, most = nc; int never = 0;
            for (int i = 0; i < nc; i++) { if (d[i] < 2 || E[i]) need++; else if (d[i] == 4) { most--; never++; } }
            Hash o, st; bool no = refused([&] {
                std::unique_ptr<Optimise> q(alg < 0 ? new Optimise(pts, dist, lam, dt, 0.5, isMax, E) : new Optimise(pts, dist, lam, dt, 0.5, isMax, E, nlopt::algorithm(alg)));
                int calls = 0;
                nlopt::g_optimize = [&](nlopt::Problem& p, V& x, double& f) -> nlopt::result {
                    calls++;
                    e.expect(p.alg == (alg < 0 ? int(nlopt::LD_SLSQP) : alg), fmt("algorithm %d is run", int(p.alg)));
                    e.expect(p.isMax == bool(isMax), isMax ? "the maximisation is run as a minimisation" : "the minimisation is run as a maximisation");
                    e.expect(p.con.size() >= need && p.con.size() <= most && p.n == 1 + p.con.size(), fmt("%zu constraints and %u variables are run, of %d constraints %zu have to be and %d cannot be broken", p.con.size(), p.n, nc, need, never));
                    size_t neq = 0; for (auto& c : p.con) neq += c.equality;
                    e.expect(neq == size_t(std::count(E.begin(), E.end(), true)), fmt("%zu equality constraints are run", neq));
                    o.u(p.con.size());
                    for (size_t i = 0; i < x.size(); i++) x[i] = 0.3 * p.lb[i];
                    V g; f = p.obj(x, g, p.objData);
                    return nlopt::SUCCESS; };
                for (int k = 0; k < 2; k++) { q->solve(); e.t(); }
                e.expect(calls == 2, fmt("%d optimisations for two solves", calls)); });
            e.expect(!no, "solving was refused");
            st.u(nc); st.u(isMax); st.u(alg); st.u(eq); for (int k : d) st.u(k);
            e.state(st); e.outcome(o); e.done();
        } while (next(d, 5));
    }
}
}
int mc_main(int argc, char** argv)
{
    return run(argc, argv, {{"C27", limits, 60}, {"C28", constraints, 60}, {"C37", report, 60}}, {"solved", "with dropped constraints", "rescaled", "with side limits", "repeated solves"});
}
