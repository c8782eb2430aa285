// C36 an optimisation step delivers the change it announces: the documented cycle, end to end,
// with the inner optimiser replaced by an enumerated menu of answers.
#include "mc.hpp"
#include "slsm_all.hpp"
#include "Optimise.h"
#include "Sensitivity.h"
#include "fields.hpp"
#include <memory>
using namespace mc;
using namespace slsm;
using namespace fields;
namespace nlopt { std::function<result(Problem&, std::vector<double>&, double&)> g_optimize; }

namespace
{
typedef std::vector<double> V;
typedef std::vector<Hole> Holes;
typedef std::unique_ptr<LevelSet> Ptr;
typedef std::function<double(double, double)> Fn;
Ptr make(Explorer& e, int w, int h, double move, unsigned bw, bool fixed)
{
    LevelSet* p = 0;
    bool no = refused([&] { p = new LevelSet(w, h, Holes(1, Hole(0.5 * w, 0.5 * h, 0.4)), move, bw, fixed); });
    e.expect(!no, "constructor refused");
    return Ptr(p);
}
// The functionals: 0 length of the contour, 1 area, 2 weighted area, 3 area of void.
struct Functional { int kind; double scale; };
double weight(double x, double y, int w, int h) { return 1.0 + 0.4 * std::sin(2.1 * x / w + 0.3) - 0.3 * std::cos(1.7 * y / h); }
double valueOf(const Functional& f, const LevelSet& l, const Boundary& b)
{
    double s = 0;
    if (f.kind == 0) { for (const BoundarySegment& q : b.segments) if (!b.points[q.start].isDomain || !b.points[q.end].isDomain) s += q.length; }
    else for (const Element& q : l.mesh.elements) s += (f.kind == 3 ? 1 - q.area : q.area) * (f.kind == 2 ? weight(q.coord.x, q.coord.y, l.mesh.width, l.mesh.height) : 1);
    return f.scale * s;
}
void sensitivities(const std::vector<Functional>& fs, const LevelSet& l, Boundary& b)
{
    using namespace std::placeholders;
    Sensitivity S;
    SensitivityCallback cb = std::bind(&Boundary::computePerimeter, b, _1);
    for (BoundaryPoint& p : b.points)
    {
        p.sensitivities.assign(std::max<size_t>(2, fs.size()), 0.0);
        if (p.isDomain) continue;                                                    // the edge of the domain stays where it is
        for (size_t k = 0; k < fs.size(); k++)
            p.sensitivities[k] = fs[k].scale * (fs[k].kind == 0 ? S.computeSensitivity(p, cb) : fs[k].kind == 1 ? -1 : fs[k].kind == 3 ? 1 : -weight(p.coord.x, p.coord.y, l.mesh.width, l.mesh.height));
    }
}
// Smallest (largest) objective subject to the constraints, by enumerating a grid of multipliers, refined around the best.
nlopt::result search(nlopt::Problem& p, V& x, double& f)
{
    int n = p.n, G = n == 1 ? 20 : 8;
    if (n == 2 && p.con.size() == 1)
    {
        // along each value of the first multiplier: the roots of the constraint and the feasible ends
        double lo = p.lb[0], hi = p.ub[0], bestV = 1e300; V best(2, 0), g;
        auto con = [&](double u, double v) { V t = {u, v}; g.clear(); return p.con[0].f(t, g, p.con[0].d); };
        auto consider = [&](double u, double v) {
            V t = {u, v}; g.clear();
            double c = con(u, v), viol = p.con[0].equality ? std::abs(c) : std::max(0.0, c); g.clear();
            double ob = p.obj(t, g, p.objData); if (p.isMax) ob = -ob;
            double q = (viol > 1e-9 ? 1e6 + 1e9 * viol : 0) + ob;
            if (q < bestV) { bestV = q; best = t; f = p.isMax ? -ob : ob; } };
        for (int pass = 0; pass < 3; pass++)
        {
            for (int i = 0; i <= 24; i++)
            {
                double u = lo + (hi - lo) * i / 24, pv = p.lb[1], pc = con(u, pv);
                if (u == 0) u = 1e-4 * p.lb[0];                                      // no step at all is no answer
                consider(u, pv);
                for (int j = 1; j <= 6; j++)
                {
                    double v = p.lb[1] + (p.ub[1] - p.lb[1]) * j / 6, c = con(u, v);
                    if ((c > 0) != (pc > 0))
                    {
                        double A = pv, B = v; bool pos = pc > 0;
                        for (int k = 0; k < 45; k++) { double m = 0.5 * (A + B); if ((con(u, m) > 0) == pos) A = m; else B = m; }
                        consider(u, pos ? B : A);
                    }
                    consider(u, v); pv = v; pc = c;
                }
            }
            double r = (hi - lo) / 24 * 1.2; lo = std::max(p.lb[0], best[0] - r); hi = std::min(p.ub[0], best[0] + r);
        }
        x = best;
        return nlopt::SUCCESS;
    }
    V lo = p.lb, hi = p.ub, g;
    V best(n, 0); double bestF = 0, bestV = 1e300;
    for (int pass = 0; pass < (n == 1 ? 2 : 6); pass++)
    {
        V centre = best;
        std::vector<int> d(n, 0);
        do
        {
            V t(n);
            for (int i = 0; i < n; i++) t[i] = lo[i] + (hi[i] - lo[i]) * d[i] / G;
            g.clear();
            double v = p.obj(t, g, p.objData), viol = 0;
            for (auto& c : p.con) { g.clear(); double q = c.f(t, g, c.d); viol = std::max(viol, c.equality ? std::abs(q) : q); }
            if (p.isMax) v = -v;
            if (viol < 1e-7) viol = 0;
            if (viol < bestV - 1e-12 || (viol <= bestV + 1e-12 && v < bestF)) { best = t; bestF = v; bestV = viol; }
        } while (next(d, G + 1));
        for (int i = 0; i < n; i++) { double r = (hi[i] - lo[i]) / G * 1.5; lo[i] = std::max(p.lb[i], best[i] - r); hi[i] = std::min(p.ub[i], best[i] + r); }
    }
    x = best; f = p.isMax ? -bestF : bestF;
    return nlopt::SUCCESS;
}
struct Shape { std::string name; int w, h; Fn dist; double curv; };
std::vector<Shape> shapes(Explorer& e)
{
    std::vector<Shape> v;
    auto disc = [&](int w, int h, double cx, double cy, double r, int s) {
        v.push_back({fmt("%s centre (%g,%g) radius %g", s > 0 ? "hole" : "disc", cx, cy, r), w, h, [=](double x, double y) { return s * (std::hypot(x - cx, y - cy) - r); }, 1 / r}); };
    for (int s : {1, -1})
    {
        disc(24, 24, 12, 12, 6.3, s); disc(26, 24, 12.37, 11.81, 7.1, s); disc(22, 27, 11.5, 13.25, 5.4, s); disc(40, 40, 19.2, 20.7, 12.2, s);
        if (e.thorough) for (int k = 0; k < 8; k++) disc(32, 34, 16 + 0.173 * k, 17 - 0.091 * k, 5 + 0.83 * k, s);
    }
    // two holes, two discs, an ellipse-like blob
    for (int s : {1, -1})
    {
        v.push_back({fmt("two %d", s), 40, 24, [=](double x, double y) { return s * std::min(std::hypot(x - 10.3, y - 12.1) - 5.2, std::hypot(x - 28.4, y - 11.7) - 6.1); }, 1 / 5.2});
        v.push_back({fmt("oval %d", s), 34, 26, [=](double x, double y) { return s * 5.3 * (std::hypot((x - 16.8) / 1.5, y - 13.1) / 6.1 - 1); }, 1 / 4.0});
    }
    return v;
}
V inDomain(int w, int h, const Fn& f) { return fill(w, h, [&](double x, double y) { return std::min(f(x, y), std::min(std::min(x, w - x), std::min(y, h - y))); }); }
struct Set { std::vector<Functional> f; std::string name; };
// one step at an enumerated answer: announced change against actual change of every functional
void answers(Explorer& e)
{
    std::vector<Set> sets = {
        {{{0, 1}}, "length"}, {{{1, 1}}, "area"}, {{{3, 1}}, "void"}, {{{2, 1}}, "weighted area"}, {{{2, 1e-4}}, "small weighted area"}, {{{0, 3e3}}, "large length"},
        {{{0, 1}, {1, 1}}, "length, area"}, {{{1, 1}, {0, 1}}, "area, length"}, {{{2, 1}, {1, 1}}, "weighted area, area"}, {{{0, 1e-3}, {2, 1e2}}, "length, weighted area"},
        {{{0, 1}, {1, 1}, {2, 1}}, "length, area, weighted area"}};
    for (Shape& S : shapes(e)) for (Set& F : sets) for (double move : {0.1, 0.45}) for (unsigned bw : {3u, 6u}) for (int fixed = 0; fixed < 2; fixed++) for (int isMax = 0; isMax < 2; isMax++)
    {
        int nf = (int)F.f.size();
        std::vector<int> a(nf, 0);
        do
        {
            // answers: fractions of the bounds, the first one not zero
            const double fr[5] = {-1, 1, 0.35, 0, -0.6};
            if (fr[a[0]] == 0) continue;
            if (!e.take()) continue;
            std::string as; for (int k : a) as += fmt(" %g", fr[k]);
            e.describe(fmt("%s %dx%d, %s, move limit %g fixed %d max %d answer%s", S.name.c_str(), S.w, S.h, F.name.c_str(), move, fixed, isMax, as.c_str()));
            Ptr l = make(e, S.w, S.h, move, bw, fixed);
            if (!l) { e.done(); continue; }
            l->signedDistance = inDomain(S.w, S.h, S.dist);
            V lambdas(nf, 0.0);
            double dt = -1;
            Hash o, st;
            bool no = refused([&] { l->reinitialise(); });
            Boundary b;
            for (int k = 0; k < 3 && !e.failedCase; k++)
            {
                no = no || refused([&] { b.discretise(*l); b.computeNormalVectors(*l); l->computeAreaFractions(b); }); e.t(3);
                if (!e.expect(!no, "refused")) break;
                sensitivities(F.f, *l, b);
                V before; for (auto& f : F.f) before.push_back(valueOf(f, *l, b));
                nlopt::g_optimize = [&](nlopt::Problem& p, V& x, double& f) -> nlopt::result {
                    // the answer is given in unscaled shares of each function's largest displacement
                    for (unsigned i = 0; i < p.n; i++) x[i] = (fr[a[i % nf]] < 0 ? -p.lb[i] : p.ub[i]) * fr[a[i % nf]] / nf;
                    V g; f = p.obj(x, g, p.objData); return nlopt::SUCCESS; };
                V dist; std::vector<bool> eq(nf - 1, true);
                for (int i = 1; i < nf; i++) dist.push_back(0.0);
                double said = 0, len = b.length;
                no = refused([&] {
                    Optimise opt(b.points, dist, lambdas, dt, l->moveLimit, isMax, eq);
                    said = opt.solve();
                }); e.t();
                if (!e.expect(!no, "solve refused")) break;
                if (!e.expect(dt > 0 && std::isfinite(dt), fmt("time step %g", dt))) break;
                // what the displacements announce for every functional
                V pred(nf, 0); double big = 0;
                for (const BoundaryPoint& p : b.points)
                {
                    double d = p.velocity * dt; big = std::max(big, std::abs(d));
                    for (int f = 0; f < nf; f++) pred[f] += p.sensitivities[f] * p.length * d;
                }
                e.expect(close(said, pred[0], 1e-7), fmt("step %d: solve announces %.9g, its displacements %.9g", k, said, pred[0]));
                e.expect(big <= move * (1 + 1e-9), fmt("step %d: a point moves by %g", k, big));
                // uneven displacements stretch the contour, which no first-order sensitivity sees
                double rough = 0;
                for (const BoundarySegment& q : b.segments) { const BoundaryPoint& u = b.points[q.start], &v = b.points[q.end]; double g = (u.velocity - v.velocity) * dt; if (!u.isDomain && !v.isDomain) rough += g * g / (2 * std::max(q.length, 0.3)); }
                bool re = false;
                no = refused([&] { l->computeVelocities(b.points); l->computeGradients(); re = l->update(dt); b.discretise(*l); l->computeAreaFractions(b); }); e.t(5);
                if (!e.expect(!no, "step refused")) break;
                for (int f = 0; f < nf; f++)
                {
                    double got = valueOf(F.f[f], *l, b) - before[f], unit = F.f[f].scale * (F.f[f].kind == 0 ? 1 : len * 0.1);
                    double tol = unit * (F.f[f].kind == 0 ? 0.15 + 1.2 * big + 0.5 * re + 1.5 * rough : 0.03 + std::min(3 * big, 0.37) + 0.15 * re) ;
                    e.expect(std::abs(got - pred[f]) <= tol, fmt("step %d: functional %d changed by %.6g, the step announces %.6g (largest displacement %.3g)", k, f, got, pred[f], big));
                }
                st.v(l->signedDistance);
                for (double q : pred) o.d(q);
            }
            e.state(st); e.outcome(o); e.done();
        } while (next(a, 5));
    }
}
// length minimisation: a circle shrinks at its curvature, r^2 falls by 2t, and stays a circle
void shrinking(Explorer& e)
{
    for (double r : {6.4, 8.1, 11.3}) for (int s : {1, -1}) for (double move : {0.05, 0.1, 0.2}) for (unsigned bw : {4u, 6u}) for (double ox : {0.0, 0.31}) for (int every : {0, 5}) for (double sc : {1.0, 1e-3})
    {
        if (!e.take()) continue;
        int w = (int)(2 * r + 9), steps = (int)std::min(60.0, 0.45 * r / move);
        double cx = 0.5 * w + ox, cy = 0.5 * w - 0.6 * ox;
        e.describe(fmt("%s radius %g move limit %g band %u centre off by %g, re-distanced every %d, scale %g", s > 0 ? "hole" : "disc", r, move, bw, ox, every, sc));
        Ptr l = make(e, w, w, move, bw, true);
        if (!l) { e.done(); continue; }
        l->signedDistance = inDomain(w, w, [=](double x, double y) { return s * (std::hypot(x - cx, y - cy) - r); });
        bool no = refused([&] { l->reinitialise(); });
        Boundary b; V lambdas(1, 0.0);
        nlopt::g_optimize = search;
        double time = 0, r0 = 0; Hash o, st;
        std::vector<Functional> F = {{0, sc}};
        for (int k = 0; k < steps && !e.failedCase; k++)
        {
            no = no || refused([&] { b.discretise(*l); b.computeNormalVectors(*l); }); e.t(2);
            if (!e.expect(!no, "refused")) break;
            double m = 0, lo = 1e9, hi = 0;
            for (const BoundaryPoint& p : b.points) if (!p.isDomain) { double q = std::hypot(p.coord.x - cx, p.coord.y - cy); m += q; lo = std::min(lo, q); hi = std::max(hi, q); }
            m /= b.points.size();
            if (!k) r0 = m;
            double want = std::sqrt(r0 * r0 - 2 * time * sc);
            e.expect(std::abs(m - want) <= 0.06 + 0.2 * (r0 - want), fmt("step %d: mean radius %.6g after time %.6g, curvature flow gives %.6g", k, m, time * sc, want));
            e.expect(hi - lo <= 0.2 + 1.2 * move, fmt("step %d: no longer a circle, radii from %.5g to %.5g", k, lo, hi));
            sensitivities(F, *l, b);
            double dt = 0;
            no = refused([&] {
                Optimise opt(b.points, V(), lambdas, dt, l->moveLimit);
                opt.solve();
                l->computeVelocities(b.points); l->computeGradients();
                bool re = l->update(dt);
                if (!re && every && k % every == every - 1) l->reinitialise();
            }); e.t(4);
            if (!e.expect(!no && dt > 0, "step refused")) break;
            time += dt;
            st.v(l->signedDistance); o.d(m);
        }
        e.state(st); e.outcome(o); e.done();
    }
}
// shortest contour around a given area: whatever the shape, it has to become a circle of that area
void constrained(Explorer& e)
{
    struct Start { std::string name; Fn dist; double area; };
    std::vector<Start> starts;
    auto box = [&](double hx, double hy) { starts.push_back({fmt("box %gx%g", hx, hy), [=](double x, double y) {
        double u = std::abs(x - 16.2) - hx, v = std::abs(y - 15.9) - hy; return std::max(u, v) < 0 ? std::max(u, v) : std::hypot(std::max(u, 0.0), std::max(v, 0.0)); }, 4 * hx * hy}); };
    box(6.2, 6.1); box(7.7, 4.6);
    starts.push_back({"oval", [=](double x, double y) { return 5.3 * (std::hypot((x - 16.3) / 1.6, y - 16.1) / 5.3 - 1); }, M_PI * 1.6 * 5.3 * 5.3});
    starts.push_back({"lobes", [=](double x, double y) { double a = std::atan2(y - 16.1, x - 15.8); return (std::hypot(x - 15.8, y - 16.1) - 7 - 1.2 * std::cos(3 * a)) * 0.9; }, M_PI * (49 + 0.72)});
    for (Start& S : starts) for (int s : {1, -1}) for (double goal : {1.0, 0.85, 1.1}) for (double move : {0.1, 0.2}) for (int equality = 0; equality < 2; equality++) for (double sc : {1.0, 1e3}) for (int every : {0, 10})
    {
        if (!e.thorough && (every || sc != 1) && goal != 1.0) continue;
        if (!e.take()) continue;
        const int w = 32, steps = move < 0.15 ? 160 : 100;
        e.describe(fmt("%s of %s, area to become %g times, move limit %g, constraint %s, scale %g, re-distanced every %d", S.name.c_str(), s > 0 ? "void" : "material", goal, move, equality ? "equality" : "one-sided", sc, every));
        Ptr l = make(e, w, w, move, 5, true);
        if (!l) { e.done(); continue; }
        l->signedDistance = inDomain(w, w, [&](double x, double y) { return s * S.dist(x, y); });
        bool no = refused([&] { l->reinitialise(); });
        Boundary b; V lambdas(2, 0.0);
        nlopt::g_optimize = search;
        // functional 1: the area enclosed by the curve is to be at least (or exactly) the goal; written as -A <= -goal
        std::vector<Functional> F = {{0, 1}, {s > 0 ? 1 : 3, sc}};
        double want = goal * S.area, total = 0, area = 0, len = 0; Hash o, st;
        for (int k = 0; k <= steps && !e.failedCase; k++)
        {
            no = no || refused([&] { b.discretise(*l); b.computeNormalVectors(*l); l->computeAreaFractions(b); }); e.t(3);
            if (!e.expect(!no, "refused")) break;
            total = 0; for (const Element& q : l->mesh.elements) total += q.area;
            area = s > 0 ? w * w - total : total;
            len = valueOf(F[0], *l, b);
            if (k == steps) break;
            sensitivities(F, *l, b);
            double dt = 0;
            V dist(1, sc * (area - want));
            std::vector<bool> eq(1, equality);
            no = refused([&] {
                Optimise opt(b.points, dist, lambdas, dt, l->moveLimit, false, eq);
                opt.solve();
                l->computeVelocities(b.points); l->computeGradients();
                bool re = l->update(dt);
                if (!re && every && k % every == every - 1) l->reinitialise();
            }); e.t(4);
            if (!e.expect(!no && dt > 0, "step refused")) break;
            st.v(l->signedDistance); o.d(area);
        }
        double best = 2 * std::sqrt(M_PI * want);
        e.expect(std::abs(area / want - 1) <= 0.015, fmt("the area ends at %.6g, it has to be %.6g", area, want));
        e.expect(std::abs(len / best - 1) <= 0.015, fmt("the contour ends with length %.6g, the shortest for that area is %.6g", len, best));
        e.state(st); e.outcome(o); e.done();
    }
}
void cycle(Explorer& e) { answers(e); shrinking(e); constrained(e); }
}
int mc_main(int argc, char** argv) { return run(argc, argv, {{"C36", cycle, 60}}); }
