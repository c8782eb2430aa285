// C19 finite-difference sensitivities, C21 random generator.
#include "mc.hpp"
#include "slsm_all.hpp"
#include "fields.hpp"
#include <memory>
using namespace mc;
using namespace slsm;
using namespace fields;
typedef std::vector<Hole> Holes;
namespace
{
bool samePoint(const BoundaryPoint& a, const BoundaryPoint& b, int skipSens, std::string& what, bool normals = true)
{
#define F(x) if (!(a.x == b.x)) { what = #x; return false; }
    F(coord.x) F(coord.y) F(length) F(velocity) F(negativeLimit) F(positiveLimit) F(isDomain) F(isFixed) F(nSegments) F(nNeighbours)
    F(segments) F(neighbours)
#undef F
    if (normals && (a.normal.x != b.normal.x || a.normal.y != b.normal.y)) { what = "normal"; return false; }
    if (a.sensitivities.size() != b.sensitivities.size()) { what = "number of sensitivities"; return false; }
    for (size_t i = 0; i < a.sensitivities.size(); i++) if ((int)i != skipSens && a.sensitivities[i] != b.sensitivities[i]) { what = "sensitivities"; return false; }
    return true;
}
double fn(int k, double x, double y)
{
    if (k == 0) return 3.5;
    if (k == 1) return 2 * x - 3 * y + 1;
    if (k == 2) return x * x + 0.5 * x * y - y;
    if (k == 5) return 0x1p60 * fn(2, x, y);       // huge and tiny functions: sensitivities scale with the function
    if (k == 6) return 0x1p-60 * fn(2, x, y);
    if (k == 3) return std::abs(x - 1) + std::abs(y - 2);
    return std::sin(x) * std::exp(0.3 * y);
}
void sens(Explorer& e)
{
    bool T = e.thorough;
    std::vector<double> xs = {0, 0.1, 1, 2.7182818284, 1e3}, ys = {0, 2, 0.3333333333333333, -7.25};
    std::vector<double> deltas = {1e-4, 1e-2, 1e-6, 0.25, 1};
    std::vector<std::pair<double, double>> ns = {{0, 0}, {1, 0}, {0, -1}, {0.6, 0.8}, {-0.7071067811865476, 0.7071067811865475}, {2, -3}};
    // the callback's side effects are the user's; one of them keeps a running count
    for (double x : xs) for (double y : ys) for (auto& n : ns) for (double d : deltas) for (double len : {1.0, 0.37, 1e-3, 25.0}) for (int f = 0; f < 7; f++) for (int pos = 0; pos < 3; pos++)
    {
        if (!e.take()) continue;
        e.describe(fmt("point (%g,%g) normal (%g,%g) length %g delta %g function %d index %d", x, y, n.first, n.second, len, d, f, pos));
        std::vector<BoundaryPoint> ps(3);
        for (int i = 0; i < 3; i++) { ps[i].coord = Coord(x + (i - pos) * 1.5, y); ps[i].length = len; ps[i].normal = Coord(n.first, n.second); ps[i].velocity = 0.5 + i; ps[i].sensitivities = {1.0 + i, -2}; ps[i].isFixed = i == 1; ps[i].isDomain = i == 2; ps[i].negativeLimit = -0.1 * i; ps[i].positiveLimit = 0.3; ps[i].nNeighbours = 1; ps[i].nSegments = 2; }
        std::vector<BoundaryPoint> was = ps;
        BoundaryPoint& p = ps[pos];
        Sensitivity S0, S1(d);
        Sensitivity& S = d == 1e-4 ? S0 : S1;
        std::vector<std::pair<double, double>> seen;
        bool same = true; std::string what;
        SensitivityCallback cb = [&](const BoundaryPoint& q) {
            if (&q != &p) { same = false; what = "another object"; }
            BoundaryPoint c = q; c.coord = was[pos].coord;
            if (!samePoint(c, was[pos], -1, what)) same = false;
            for (int i = 0; i < 3; i++) if (i != pos && !samePoint(ps[i], was[i], -1, what)) same = false;
            seen.push_back({q.coord.x, q.coord.y});
            return fn(f, q.coord.x, q.coord.y);
        };
        double r = 0;
        bool no = refused([&] { r = S.computeSensitivity(p, cb); });
        e.t();
        e.expect(!no, "refused");
        e.expect(same, "the callback saw a changed " + what);
        double px = x + d * n.first, py = y + d * n.second, mx = x - d * n.first, my = y - d * n.second;
        bool plus = false, minus = false;
        for (auto& q : seen)
        {
            bool a = close(q.first, px, 1e-14) && close(q.second, py, 1e-14), b = close(q.first, mx, 1e-14) && close(q.second, my, 1e-14);
            plus |= a; minus |= b;
            e.expect(a || b, fmt("the callback saw the point at (%.17g,%.17g)", q.first, q.second));
        }
        e.expect(plus && minus && seen.size() == 2, fmt("the callback was called %zu times", seen.size()));
        double unit = f == 5 ? 0x1p60 : f == 6 ? 0x1p-60 : 1, want = (fn(f, px, py) - fn(f, mx, my)) / (2 * d) / len;
        e.expect(std::abs(r - want) <= 1e-9 * (unit + std::abs(want)) + 1e-12 * (unit + std::abs(fn(f, x, y))) / d / len, fmt("sensitivity %.12g, central difference %.12g", r, want));
        for (int i = 0; i < 3; i++) e.expect(samePoint(ps[i], was[i], -1, what), fmt("point %d: %s changed", i, what.c_str()));
        Hash s; s.d(x).d(y).d(n.first).d(n.second).d(d * 1e3).d(len).u(f).u(pos); e.state(s); Hash o; o.d(r); e.outcome(o);
        e.done();
    }
    // Ito correction on discretised contours
    for (auto sz : {std::make_pair(7, 7), std::make_pair(9, 4)})
    {
        int w = sz.first, h = sz.second;
        std::vector<Named> fs;
        for (double a : {0.0, 30.0, 45.0, 90.0, 137.0, 290.0}) for (double o : {-0.3, 0.0, 0.5}) fs.push_back({fmt("line(%g,%g)", a, o), w, h, line(w, h, a, o)});
        for (double cx : {0.5 * w, 2.0, 2.3, 0.0}) for (double r : {0.6, 1.0, 1.3, 1.7, 2.4, 3.3}) for (int g : {-1, 1}) fs.push_back({fmt("circle(%g,%g,%d)", cx, r, g), w, h, circle(w, h, cx, 0.45 * h, r, g)});
        for (double c : {2.0, 2.4, 3.0}) fs.push_back({fmt("two(%g)", c), w, h, fill(w, h, [=](double x, double y) { return std::min(std::hypot(x - c + 1.5, y - 2) - 1.2, std::hypot(x - c - 1.5, y - 2) - 1.2); })});
        for (int sc : {1, 2, 4}) for (int k = 0; k < (T ? 64 : 16); k++)
        {
            std::vector<int> s((w + 1) * (h + 1)); unsigned z = k * 2654435761u + sc; for (auto& q : s) { z = z * 1664525u + 1013904223u; q = (z >> 24) % 5 == 4 ? 2 : (z >> 28) & 1; }
            fs.push_back({fmt("pattern(%d,%d)", sc, k), w, h, signs(s, sc)});
        }
        for (auto& f : fs) for (int re = 0; re < 2; re++) for (double temp : {0.0, 1e-8, 1e-3, 0.7, 12.0}) for (double d : {1e-4, 1e-3, 1e-2}) for (int ov = 0; ov < 2; ov++) for (int twice = 0; twice < 2; twice++)
        {
            if (!e.take()) continue;
            e.describe(fmt("Ito %dx%d %s reinit=%d T=%g delta=%g overload=%d twice=%d", w, h, f.name.c_str(), re, temp, d, ov, twice), show(f.phi, w));
            std::unique_ptr<LevelSet> ls(new LevelSet(w, h, Holes(1, Hole(3, 2, 1)), 0.5, 1000, false));
            ls->signedDistance = f.phi;
            Boundary B;
            bool no = refused([&] { if (re) ls->reinitialise(); B.discretise(*ls); });
            if (no) { e.count("no_contour"); e.done(); continue; }
            Boundary N = B; N.computeNormalVectors(*ls);
            if (ov == 0) B.computeNormalVectors(*ls);
            for (size_t i = 0; i < B.points.size(); i++) { B.points[i].sensitivities = {0.5 + i, -1.0 * i, 3}; B.points[i].velocity = i; }
            std::vector<double> keep = ls->signedDistance;
            std::vector<BoundaryPoint> was = B.points; std::vector<BoundarySegment> segs = B.segments; double len = B.length;
            Sensitivity S(d);
            int rounds = twice ? 2 : 1;
            for (int k = 0; k < rounds; k++)
            {
                no = refused([&] { if (ov) S.itoCorrection(B, *ls, temp); else S.itoCorrection(B, temp); });
                e.t();
                e.expect(!no, "refused");
            }
            std::string what;
            for (size_t i = 0; i < was.size() && !e.failedCase; i++)
            {
                const BoundaryPoint& p = B.points[i];
                e.expect(samePoint(p, was[i], 0, what, !ov || temp == 0), fmt("point %zu: %s changed", i, what.c_str()));
                if (ov && temp != 0) { double nx = N.points[i].normal.x, ny = N.points[i].normal.y; e.expect(close(p.normal.x, nx, 1e-12) && close(p.normal.y, ny, 1e-12), fmt("point %zu: normal", i)); }
                if (temp == 0) { e.expect(p.sensitivities[0] == was[i].sensitivities[0], "zero temperature changed a sensitivity"); continue; }
                if (!(p.length > 1e-9)) { e.count("zero_length_point"); continue; }
                double P[2];
                for (int sg = 0; sg < 2; sg++)
                {
                    double x = was[i].coord.x + (sg ? -1 : 1) * d * N.points[i].normal.x, y = was[i].coord.y + (sg ? -1 : 1) * d * N.points[i].normal.y; P[sg] = 0;
                    for (unsigned k = 0; k < was[i].nNeighbours; k++) P[sg] += std::hypot(x - was[was[i].neighbours[k]].coord.x, y - was[was[i].neighbours[k]].coord.y);
                }
                double corr = rounds * temp * ((P[0] - P[1]) / (2 * d) / p.length) / (2 * p.length);
                double got = was[i].sensitivities[0] - p.sensitivities[0];
                if (std::abs(corr) > 1e-9) e.count("corrected_point");
                e.expect(std::abs(got - corr) <= 1e-7 * std::abs(corr) + 1e-12 * (1 + std::abs(was[i].sensitivities[0])) + rounds * temp * 1e-14 / d / p.length / p.length, fmt("correction of point %zu (length %.3g normal %.9g,%.9g neighbours %u) is %.12g, T x curvature / (2 x length) = %.12g", i, p.length, N.points[i].normal.x, N.points[i].normal.y, p.nNeighbours, got, corr));
            }
            e.expect(ls->signedDistance == keep, "the level set changed");
            e.expect(B.length == len && B.points.size() == was.size() && B.segments.size() == segs.size(), "the boundary changed");
            Hash s; s.v(keep).d(temp).d(d).u(ov).u(twice); e.state(s); Hash o; for (auto& p : B.points) o.d(p.sensitivities[0]); e.outcome(o);
            e.done();
        }
    }
}

// ------------------------------------------------------------ C21
struct Op { int kind; int a, b; double m, s; };
const std::vector<Op>& menu()
{
    static std::vector<Op> m = {{0, 0, 0, 0, 0}, {1, 0, 1, 0, 0}, {2, 0, 0, 0, 0}, {3, 0, 0, 2.5, 0.5}, {1, -3, 1000000, 0, 0}, {3, 0, 0, 0, 1}, {4, 7, 0, 0, 0}, {5, 0, 0, 0, 0}, {4, 0, 0, 0, 0}};
    return m;
}
std::string opName(const Op& o)
{
    switch (o.kind) { case 0: return "u"; case 1: return fmt("i%d:%d", o.a, o.b); case 2: return "n"; case 3: return fmt("N%g:%g", o.m, o.s); case 4: return fmt("seed%d", o.a); default: return "get"; }
}
double run1(Explorer& e, MersenneTwister& r, const Op& o, unsigned& seed)
{
    switch (o.kind)
    {
    case 0: { double v = r(); e.expect(v >= 0 && v < 1, fmt("uniform real %.17g", v)); return v; }
    case 1: { int v = r.integer(o.a, o.b); e.expect(v >= o.a && v <= o.b, fmt("integer %d outside [%d,%d]", v, o.a, o.b)); return v; }
    case 2: return r.normal();
    case 3: return r.normal(o.m, o.s);
    case 4: r.setSeed(o.a); seed = o.a; return 0;
    default: { unsigned v = r.getSeed(); e.expect(v == seed, fmt("getSeed %u, seeded with %u", v, seed)); return v; }
    }
}
void rng(Explorer& e)
{
    bool T = e.thorough;
    const std::vector<Op>& M = menu();
    int n = (int)M.size();
    int pd = T ? 5 : 4, sd = T ? 3 : 3;
    std::vector<unsigned> seeds = {0u, 1u, 4294967295u};
    for (int L = 0; L <= pd; L++)
    {
        std::vector<int> pre(L, 0);
        do
        {
            std::string ps; for (int k : pre) ps += opName(M[k]) + " ";
            if (!e.take()) continue;
            e.describe("used by: " + ps);
            unsigned z = 3;
            MersenneTwister a; a.setSeed(3);
            for (int k : pre) { run1(e, a, M[k], z); e.t(); }
            Hash st; for (int k : pre) st.u(k); e.state(st);
            Hash o;
            // every continuation after re-seeding equals that of a fresh generator
            for (unsigned s : seeds)
            {
                if (L == pd && s != 1) continue;
                int len = L == pd && !T ? 2 : sd;
                std::vector<int> suf(len, 0);
                MersenneTwister base = a, fr0; base.setSeed(s); fr0.setSeed(s);
                do
                {
                    MersenneTwister x = base, y = fr0; unsigned zx = s, zy = s;
                    for (int k : suf)
                    {
                        double u = run1(e, x, M[k], zx), v = run1(e, y, M[k], zy); e.t(2); o.d(u);
                        std::string c; for (int q : suf) c += opName(M[q]) + " ";
                        if (!e.expect(u == v, fmt("re-seeded with %u, then %s: %.17g, a fresh generator gives %.17g", s, c.c_str(), u, v))) break;
                    }
                } while (next(suf, n) && !e.failedCase);
                if (e.failedCase) break;
            }
            e.outcome(o);
            e.done();
        } while (L && next(pre, n));
    }
    // two generators with the same seed, calls interleaved in every order
    for (int len = 1; len <= (T ? 5 : 4); len++)
    {
        std::vector<int> sq(len, 0);
        do
            for (int inter = 0; inter < (1 << (2 * len)); inter++)
            {
                if (__builtin_popcount(inter) != len) continue;
                if (!e.take()) continue;
                std::string c; for (int q : sq) c += opName(M[q]) + " ";
                e.describe(fmt("interleaving %x of two generators: %s", inter, c.c_str()));
                MersenneTwister g[2]; g[0].setSeed(5); g[1].setSeed(5);
                unsigned z[2] = {5, 5}; std::vector<double> out[2]; int at[2] = {0, 0};
                for (int i = 0; i < 2 * len; i++) { int k = inter >> i & 1; out[k].push_back(run1(e, g[k], M[sq[at[k]++]], z[k])); e.t(); }
                e.expect(out[0] == out[1], "two generators with the same seed differ");
                Hash s; s.u(inter); for (int q : sq) s.u(q); e.state(s); Hash o; o.v(out[0]); e.outcome(o);
                e.done();
            }
        while (next(sq, n));
    }
    // ranges and moments along one stream
    for (unsigned seed : {0u, 1u, 42u, 123456789u, 4294967295u})
        for (auto r : {std::make_pair(0, 0), std::make_pair(0, 1), std::make_pair(-2, 5), std::make_pair(1, 6), std::make_pair(-7, -7), std::make_pair(2147483644, 2147483647), std::make_pair(-2147483647 - 1, -2147483646), std::make_pair(-2147483647 - 1, 2147483647), std::make_pair(0, 99)})
        {
            if (!e.take()) continue;
            e.describe(fmt("seed %u range [%d,%d]", seed, r.first, r.second));
            MersenneTwister g; g.setSeed(seed);
            std::set<int> seen; long long span = (long long)r.second - r.first + 1; int low = 0, high = 0;
            for (int i = 0; i < 4000; i++) { int v = g.integer(r.first, r.second); e.t(); e.expect(v >= r.first && v <= r.second, fmt("integer %d", v)); if (span <= 100) seen.insert(v); if (v < (r.first + span / 2)) low++; else high++; }
            if (span <= 100) e.expect((long long)seen.size() == span, fmt("only %zu of %lld values occur in 4000 draws", seen.size(), span));
            if (span > 1) e.expect(low > 1000 && high > 1000, "one half of the range is hardly used");
            Hash s; s.u(seed).u(r.first).u(r.second); e.state(s); Hash o; for (int v : seen) o.u(v); e.outcome(o);
            e.done();
        }
    for (unsigned seed : {0u, 1u, 42u, 123456789u, 4294967295u})
        for (double m : {0.0, -3.0, 1e3}) for (double s : {1.0, 0.25, 40.0}) for (int warm = 0; warm < 4; warm++)
        {
            if (!e.take()) continue;
            e.describe(fmt("seed %u normal(%g,%g) warm=%d", seed, m, s, warm));
            MersenneTwister a, b; a.setSeed(seed); b.setSeed(seed);
            for (int i = 0; i < warm; i++) { a(); b(); }
            double sum = 0, sq = 0, us = 0; int N = 4000;
            for (int i = 0; i < N; i++)
            {
                double x = a.normal(m, s), z = b.normal(0, 1); e.t(2);
                if (!e.expect(std::abs(x - (m + s * z)) <= 1e-9 * (1 + std::abs(m) + s), fmt("normal(%g,%g) = %.12g where the standard draw is %.12g", m, s, x, z))) break;
                sum += z; sq += z * z;
            }
            for (int i = 0; i < N; i++) { double u = a(); us += u; e.expect(u >= 0 && u < 1, "uniform real out of [0,1)"); }
            MersenneTwister c; c.setSeed(seed); double cs = 0, cq = 0; for (int i = 0; i < N; i++) { double z = c.normal(); cs += z; cq += z * z; }
            // 4000 draws: mean within 0.1 (6 sigma), variance within 0.15
            e.expect(std::abs(sum / N) < 0.1 && std::abs(sq / N - 1) < 0.15, fmt("standard normal draws have mean %g and variance %g", sum / N, sq / N));
            e.expect(std::abs(cs / N) < 0.1 && std::abs(cq / N - 1) < 0.15, fmt("default normal draws have mean %g and variance %g", cs / N, cq / N));
            e.expect(std::abs(us / N - 0.5) < 0.03, fmt("uniform draws have mean %g", us / N));
            Hash q; q.u(seed).d(m).d(s).u(warm); e.state(q); Hash o; o.d(sum); e.outcome(o);
            e.done();
        }
}
}
int mc_main(int argc, char** argv) { return run(argc, argv, {{"C19", sens, 60}, {"C21", rng, 120}}, {"no_contour", "zero_length_point", "corrected_point"}); }
