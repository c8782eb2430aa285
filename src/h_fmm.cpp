// C04 re-distancing, C05 symmetry / scale / accuracy, C06 velocity extension.
#include "mc.hpp"
#include "slsm_all.hpp"
#include "ref_fmm.hpp"
#include "fields.hpp"
using namespace mc;
using namespace slsm;
using namespace fields;

namespace
{
typedef std::function<void(int, int, const std::vector<double>&, const std::string&)> Visit;

// Every field of the alphabet.  `visit` is called for each in a fixed order; the
// name is only built on demand (lazily, through the take() in visit).
struct Gen
{
    Explorer& e;
    std::function<void(int, int, const std::function<std::vector<double>()>&, const std::function<std::string()>&)> visit;

    void words(int w, int h, int k, std::vector<int> schemes)
    {
        std::vector<int> a((w + 1) * (h + 1), 0);
        do
            for (int sc : schemes)
                visit(w, h, [&] { return signs(a, sc); }, [&] { return fmt("signs %dx%d scheme=%d %s", w, h, sc, str(a).c_str()); });
        while (next(a, k));
    }
    // all k-ary patterns on an sw x sh block of nodes at (ox,oy) of a w x h mesh over a constant background
    void seeds(int w, int h, int sw, int sh, int ox, int oy, int k, int bg, std::vector<int> schemes)
    {
        std::vector<int> a(sw * sh, 0);
        do
            for (int sc : schemes)
            {
                auto mk = [&] {
                    std::vector<int> s((w + 1) * (h + 1), bg);
                    for (int j = 0; j < sh; j++) for (int i = 0; i < sw; i++) s[(oy + j) * (w + 1) + ox + i] = a[j * sw + i];
                    return signs(s, sc);
                };
                visit(w, h, mk, [&] { return fmt("seed %dx%d at(%d,%d) bg=%d scheme=%d %dx%d%s", w, h, ox, oy, bg, sc, sw, sh, str(a).c_str()); });
            }
        while (next(a, k));
    }
    void shapes(int w, int h, double dAng, int nOff, bool circles = true)
    {
        for (double a = 0; a < 360; a += dAng)
            for (int o = 0; o < nOff; o++)
            {
                double off = -0.35 * std::min(w, h) + o * 0.7 * std::min(w, h) / std::max(1, nOff - 1) + 0.013;
                visit(w, h, [&] { return line(w, h, a, off); }, [&] { return fmt("line %dx%d angle=%g offset=%g", w, h, a, off); });
            }
        if (circles) for (double r = 0.7; r < 0.6 * std::min(w, h); r += 0.61)
            for (double cx = 0; cx <= 0.51 * w; cx += 0.83)
                for (double cy = 0; cy <= 0.51 * h; cy += 0.97)
                    for (int s = -1; s <= 1; s += 2)
                        visit(w, h, [&] { return circle(w, h, cx, cy, r, s); }, [&] { return fmt("circle %dx%d (%g,%g) r=%g sign=%d", w, h, cx, cy, r, s); });
    }
    // every small mesh size, and sizes around powers of two
    void sweep(int most, bool big)
    {
        for (auto& z : sizes(most, big))
            for (int k = 0; k < 3; k++)
                visit(z.first, z.second, [&] { return waves(z.first, z.second, k); }, [&] { return fmt("size %dx%d field %d", z.first, z.second, k); });
    }
    void all()
    {
        bool T = e.thorough;
        words(1, 1, 3, {0, 1, 2, 3, 4});
        words(1, 2, 3, {0, 1, 2, 3, 4}); words(2, 1, 3, {0, 1, 2, 3, 4});
        words(1, 3, 3, {1, 2, 4}); words(3, 1, 3, {1, 2, 4});
        words(2, 2, 3, {0, 1, 2, 3, 4, 5});
        words(1, 6, 2, {1, 2, 3}); words(6, 1, 2, {1, 2, 3});
        words(2, 4, 2, {1, 2, 4}); words(4, 2, 2, {1, 2, 4});
        words(3, 3, 2, {1, 3});
        words(1, 4, 3, {1, 3}); words(4, 1, 3, {1, 3});
        for (int bg = 0; bg < 2; bg++)
        {
            for (auto p : {std::make_pair(0, 0), std::make_pair(3, 2), std::make_pair(5, 0), std::make_pair(0, 5), std::make_pair(5, 5), std::make_pair(2, 3)})
                seeds(7, 7, 3, 3, p.first, p.second, 2, bg, {1, 2, 3, 4, 5});
            seeds(9, 4, 2, 2, 4, 1, 3, bg, {0, 1, 2, 3, 4});
            seeds(4, 9, 2, 2, 1, 4, 3, bg, {0, 1, 2, 3, 4});
            seeds(12, 2, 3, 1, 5, 1, 3, bg, {0, 1, 2, 3, 4});
            seeds(8, 8, 9, 1, 0, 4, 2, bg, {1, 2, 3});
            seeds(8, 8, 1, 9, 4, 0, 2, bg, {1, 2, 3});
        }
        sweep(T ? 48 : 20, T);
        shapes(8, 8, 7.5, 9); shapes(11, 6, 15, 7); shapes(6, 11, 15, 7);
        // long meshes; contours very close to every other node
        shapes(400, 2, 45, 3, false); shapes(2, 400, 45, 3, false); shapes(40, 33, 30, 3, false);
        words(2, 2, 3, {6}); words(3, 3, 2, {6});
        if (T)
        {
            words(3, 2, 3, {1, 2}); words(2, 3, 3, {1, 2});
            words(4, 3, 2, {1, 2}); words(3, 4, 2, {1, 2});
            words(3, 3, 2, {0, 1, 2, 3, 4});
            words(1, 8, 2, {1, 3}); words(8, 1, 2, {1, 3});
            for (int bg = 0; bg < 2; bg++)
                for (int oy = 0; oy <= 6; oy += 3)
                    for (int ox = 0; ox <= 6; ox += 3)
                    {
                        seeds(8, 8, 3, 3, ox, oy, 3, bg, {1, 2, 3});
                        seeds(9, 9, 4, 3, ox, oy, 2, bg, {1, 2, 3, 4});
                    }
            shapes(16, 16, 2.5, 21); shapes(21, 13, 3.75, 15);
        }
    }
};

// Discretisation error bounds, measured on the pinned tree with a margin (DESIGN.md).
const double LINE_BOUND = 0.36, JUMP_BOUND = 1.02, CIRC_BOUND = 0.46, CIRC_MEAN = 0.13;

bool sgnEq(double a, double b) { return (a > 0) == (b > 0) && (a < 0) == (b < 0); }

void redistance(Explorer& e)
{
    Gen g{e, nullptr};
    g.visit = [&](int w, int h, const std::function<std::vector<double>()>& mk, const std::function<std::string()>& name) {
        if (!e.take()) return;
        std::vector<double> in = mk();
        e.describe(name(), show(in, w));
        Mesh m(w, h);
        std::vector<double> p = in;
        RefFMM r(w, h, in); r.march();
        bool ref;
        bool selfTest = (e.idx & 1);
        ref = refused([&] { FastMarchingMethod f(m, selfTest); f.march(p); });
        e.t();
        Hash s; s.u(w); s.v(in); e.state(s);
        if (r.noContour) { e.expect(ref, "a level set without zero contour was accepted"); e.count("no_contour"); e.done(); return; }
        if (!e.expect(!ref, "reinitialisation refused a level set with a contour")) { e.done(); return; }
        bool strict = robustFMM(r, w, h, in);
        e.count(strict ? "strict" : "tie_dependent"); if (r.nFallback) e.count("one_sided_updates", r.nFallback);
        Hash o;
        for (size_t i = 0; i < in.size(); i++)
        {
            o.d(p[i]);
            if (!e.expect(std::isfinite(p[i]), fmt("node %zu is not finite", i))) break;
            if (!e.expect(sgnEq(in[i], p[i]), fmt("node %zu changed side: %g -> %g", i, in[i], p[i]))) break;
            if (r.border[i] && !e.expect(close(p[i], r.phi[i], 1e-9), fmt("node %zu next to the contour: %.12g, expected %.12g", i, p[i], r.phi[i]))) break;
            if (strict && !e.expect(close(p[i], r.phi[i], 1e-7), fmt("node %zu: %.12g, upwind solution %.12g", i, p[i], r.phi[i]))) break;
        }
        e.outcome(o);
        e.done();
    };
    g.all();
}

// Reinitialise through the public class; false if refused.
bool reinit(int w, int h, std::vector<double>& p)
{
    Mesh m(w, h);
    return !refused([&] { FastMarchingMethod f(m, false); f.march(p); });
}

void symmetric(Explorer& e)
{
    Gen g{e, nullptr};
    g.visit = [&](int w, int h, const std::function<std::vector<double>()>& mk, const std::function<std::string()>& name) {
        if (!e.take()) return;
        std::vector<double> in = mk();
        e.describe(name(), show(in, w));
        RefFMM r(w, h, in); r.march();
        Hash s; s.u(w); s.v(in); e.state(s);
        if (r.noContour) { e.count("no_contour"); e.done(); return; }
        std::vector<double> p = in;
        if (!e.expect(reinit(w, h, p), "refused")) { e.done(); return; }
        e.t();
        bool strict = robustFMM(r, w, h, in);
        e.count(strict ? "strict" : "tie_dependent");
        if (!strict) { e.done(); return; }
        auto same = [&](const std::vector<double>& a, const std::vector<double>& b, const std::string& what) {
            for (size_t i = 0; i < a.size(); i++)
                if (!e.expect(close(a[i], b[i], 1e-7), what + fmt(": node %zu %.12g vs %.12g", i, a[i], b[i]))) return;
        };
        for (int k = 1; k < 8; k++)
        {
            int w2, h2;
            std::vector<double> q = sym(in, w, h, k, w2, h2), want = sym(p, w, h, k, w2, h2);
            if (!e.expect(reinit(w2, h2, q), fmt("refused under symmetry %d", k))) break;
            e.t();
            same(q, want, fmt("not symmetric (mirror x=%d y=%d transpose=%d)", k & 1, (k >> 1) & 1, (k >> 2) & 1));
        }
        std::vector<double> neg = in, want = p;
        for (auto& v : neg) v = v == 0 ? 0 : -v;
        for (auto& v : want) v = -v;
        if (e.expect(reinit(w, h, neg), "refused when inverted")) same(neg, want, "inside and outside treated differently");
        for (double c : {3.0, 1e-3, 1e6})
        {
            std::vector<double> q = in;
            for (auto& v : q) v *= c;
            if (e.expect(reinit(w, h, q), "refused when scaled")) same(q, p, fmt("depends on the scale of the input (x%g)", c));
            e.t();
        }
        // magnitudes away from the contour
        for (int v = 0; v < 2; v++)
        {
            std::vector<double> q = in;
            for (size_t i = 0; i < q.size(); i++) if (!r.border[i]) q[i] *= v ? 37.5 : 0.004 * (1 + i % 5);
            if (e.expect(reinit(w, h, q), "refused with other far values")) same(q, p, "depends on input values away from the contour");
            e.t(2);
        }
        Hash o; o.v(p); e.outcome(o);
        e.done();
    };
    bool T = e.thorough;
    g.sweep(T ? 32 : 14, false);
    g.words(1, 2, 3, {1, 2, 4}); g.words(2, 2, 3, T ? std::vector<int>{0, 1, 2, 3, 4, 5} : std::vector<int>{1, 4});
    g.words(1, 5, 2, {1, 2}); g.words(3, 2, 2, {0, 1, 2, 3, 4}); g.words(1, 3, 3, {1});
    for (int bg = 0; bg < 2; bg++)
    {
        g.seeds(7, 7, 3, 3, 3, 2, 2, bg, {1, 2, 3}); g.seeds(7, 6, 3, 3, 0, 0, 2, bg, {1, 4});
        g.seeds(9, 4, 2, 2, 4, 1, 3, bg, {0, 1, 3}); g.seeds(12, 2, 3, 1, 5, 1, 3, bg, {1, 2, 3, 4});
        g.seeds(8, 8, 9, 1, 0, 4, 2, bg, {1, 2, 3}); g.seeds(8, 8, 1, 9, 4, 0, 2, bg, {1, 2, 3});
        for (auto p : {std::make_pair(5, 0), std::make_pair(0, 5), std::make_pair(5, 5), std::make_pair(2, 3)}) g.seeds(7, 7, 3, 3, p.first, p.second, 2, bg, {1, 2, 3, 5});
        g.seeds(10, 9, 3, 3, 4, 3, 2, bg, {2, 4, 5}); g.seeds(10, 9, 2, 5, 6, 1, 2, bg, {1, 2, 5}); g.seeds(9, 10, 5, 2, 1, 6, 2, bg, {1, 2, 5});
    }
    g.words(2, 2, 3, {2, 3, 5}); g.words(3, 3, 2, {2}); g.words(1, 6, 2, {3}); g.words(4, 2, 2, {1, 2});
    g.shapes(8, 8, 7.5, 9); g.shapes(11, 6, 15, 7); g.shapes(6, 11, 15, 7);
    if (T)
    {
        g.words(3, 3, 2, {1, 2, 3, 4}); g.words(4, 2, 2, {1, 2, 3}); g.words(1, 8, 2, {1, 3}); g.words(3, 2, 3, {1});
        for (int bg = 0; bg < 2; bg++) for (int o = 0; o <= 6; o += 2) g.seeds(8, 8, 3, 3, o, 6 - o, 3, bg, {1, 2});
        g.shapes(16, 16, 3.75, 21);
    }
    // meshes with more nodes than a 16-bit index can hold
    for (auto& sz : {std::make_pair(270, 260), std::make_pair(2, 23000), std::make_pair(23000, 2)})
        for (double a : {0.0, 90.0, 180.0, 270.0})
        {
            if (!e.take()) continue;
            int w = sz.first, h = sz.second;
            double off = 0.31 * ((int)a % 180 ? h : w) * (a < 180 ? 1 : -1) + 0.0137;
            std::vector<double> x = line(w, h, a, off), p = x;
            for (size_t i = 0; i < p.size(); i++) if (std::abs(x[i]) > 1) p[i] = x[i] < 0 ? -7 : 1;
            e.describe(fmt("large line %dx%d angle=%g offset=%g", w, h, a, off));
            Hash s; s.v(x); e.state(s);
            if (e.expect(reinit(w, h, p), "refused"))
                for (size_t i = 0; i < x.size(); i++) if (!e.expect(std::abs(p[i] - x[i]) < 1e-7 * (10 + std::abs(x[i])), fmt("node %zu: %.12g, distance %.12g", i, p[i], x[i]))) break;
            e.t();
            // a uniform and a varying speed carried along the normal
            std::vector<double> v(x.size(), -3), y = x;
            Mesh m(w, h);
            for (auto& n : m.nodes) n.isActive = true;
            auto along = [&](size_t i) { double c = (int)a % 180 ? i % (w + 1) : i / (w + 1); return 1 + std::fmod(c * 0.6180339887498949, 1.0); };
            for (size_t i = 0; i < x.size(); i++) if (std::abs(x[i]) < 1) v[i] = along(i);
            if (e.expect(!refused([&] { FastMarchingMethod f(m, false); f.march(y, v); }), "refused"))
                for (size_t i = 0; i < x.size(); i++) if (!e.expect(v[i] >= 1 && v[i] <= 2 && (std::abs(x[i]) >= 1 || v[i] == along(i)), fmt("velocity at node %zu is %.12g", i, v[i]))) break;
            e.t();
            Hash o; o.v(p); e.outcome(o);
            e.done();
        }
    // accuracy: straight lines and circles
    for (int w : {12, 20})
    {
        int h = w - 2;
        for (double a = 0; a < 360; a += T ? 2.5 : 5)
            for (int o = 0; o < (T ? 15 : 7); o++)
            {
                if (!e.take()) continue;
                double off = -0.25 * h + o * 0.5 * h / (T ? 14 : 6) + 0.0137;
                std::vector<double> x = line(w, h, a, off), p = x;
                e.describe(fmt("accuracy line %dx%d angle=%g offset=%g", w, h, a, off));
                Hash s; s.v(x); e.state(s);
                if (!e.expect(reinit(w, h, p), "refused")) { e.done(); continue; }
                e.t();
                bool axis = std::fmod(a, 90) == 0, diag = std::fmod(a, 45) == 0;
                double worst = 0, jump = 0;
                double ca = std::cos(a * M_PI / 180), sa = std::sin(a * M_PI / 180);
                for (int i = 0; i < (int)x.size(); i++)
                {
                    // only where the nearest point of the line lies inside the domain
                    double fx = i % (w + 1) - ca * x[i], fy = i / (w + 1) - sa * x[i];
                    if (fx < 0 || fy < 0 || fx > w || fy > h) continue;
                    worst = std::max(worst, std::abs(p[i] - x[i]));
                    if ((i + 1) % (w + 1)) jump = std::max(jump, std::abs(p[i] - p[i + 1]));
                    if (i + w + 1 < (int)x.size()) jump = std::max(jump, std::abs(p[i] - p[i + w + 1]));
                }
                if (getenv("MC_MEASURE")) printf("M line axis=%d diag=%d w=%d a=%g off=%g worst=%.4f jump=%.4f\n", axis, diag, w, a, off, worst, jump);
                double bound = axis ? 1e-9 : LINE_BOUND, jb = axis ? 1 + 1e-9 : JUMP_BOUND;
                e.expect(worst <= bound, fmt("straight contour: error %.4f exceeds %.4f", worst, bound));
                e.expect(jump <= jb, fmt("straight contour: neighbouring nodes differ by %.4f", jump));
                Hash ho; ho.v(p); e.outcome(ho);
                e.done();
            }
        for (double r = 2; r < 0.45 * h; r += T ? 0.37 : 0.83)
            for (double cx = 0.4 * w; cx < 0.6 * w; cx += 0.31)
                for (double cy = 0.4 * h; cy < 0.6 * h; cy += 0.43)
                {
                    if (cx < r || cy < r || cx > w - r || cy > h - r) continue;
                    if (!e.take()) continue;
                    std::vector<double> x = circle(w, h, cx, cy, r, 1), p = x;
                    e.describe(fmt("accuracy circle %dx%d (%g,%g) r=%g", w, h, cx, cy, r));
                    Hash s; s.v(x); e.state(s);
                    if (!e.expect(reinit(w, h, p), "refused")) { e.done(); continue; }
                    e.t();
                    double worst = 0, sum = 0;
                    for (size_t i = 0; i < x.size(); i++) { double d = std::abs(p[i] - x[i]); worst = std::max(worst, d); sum += d; }
                    sum /= x.size();
                    if (getenv("MC_MEASURE")) printf("M circle w=%d r=%g worst=%.4f mean=%.4f\n", w, r, worst, sum);
                    e.expect(worst <= CIRC_BOUND, fmt("circular contour: error %.4f exceeds %.4f", worst, CIRC_BOUND));
                    e.expect(sum <= CIRC_MEAN, fmt("circular contour: mean error %.4f exceeds %.4f", sum, CIRC_MEAN));
                    Hash ho; ho.v(p); e.outcome(ho);
                    e.done();
                }
    }
}

double knownVel(int pat, int i, int x, int y)
{
    if (pat == 0) return 1.75;
    if (pat == 1) return -2.0 + 4.0 * std::fmod((i + 1) * 0.6180339887498949, 1.0);
    if (pat == 2) return (x < 3) ? -1 : 2;
    if (pat == 3) return 0;
    return 0.25 * x - 0.5 * y + 0.3;
}

void extend(Explorer& e)
{
    Gen g{e, nullptr};
    g.visit = [&](int w, int h, const std::function<std::vector<double>()>& mk, const std::function<std::string()>& name) {
        for (int act = 0; act < 5; act++)
            for (int vp = 0; vp < 5; vp++)
            {
                if (vp == 3 && act) continue;
                if (!e.take()) continue;
                std::vector<double> in = mk();
                e.describe(name() + fmt(" active=%d vel=%d", act, vp), show(in, w));
                Mesh m(w, h);
                RefFMM d(w, h, in); d.march();
                Hash s; s.u(w); s.v(in); s.u(act); s.u(vp); e.state(s);
                if (d.noContour) { e.count("no_contour"); e.done(); continue; }
                int n = (int)in.size();
                std::vector<char> active(n);
                for (int i = 0; i < n; i++)
                {
                    int x = i % (w + 1), y = i / (w + 1);
                    bool rim = x == 0 || y == 0 || x == w || y == h;
                    active[i] = act == 0 ? 1 : act == 1 ? std::abs(d.phi[i]) < 2.5 : act == 2 ? !rim : act == 3 ? (i * 7 + 3) % 5 != 0 : ((i * 2654435761u >> 11) & 3) != 0;
                    m.nodes[i].isActive = active[i];
                }
                std::vector<double> vel(n);
                double lo = 1e9, hi = -1e9;
                for (int i = 0; i < n; i++)
                    if (d.border[i]) { vel[i] = knownVel(vp, i, i % (w + 1), i / (w + 1)); lo = std::min(lo, vel[i]); hi = std::max(hi, vel[i]); }
                    else vel[i] = 77 + i;
                RefFMM r(w, h, in); r.isVel = true; r.vel = vel; r.active = active; r.march();
                std::vector<double> p = in, v = vel;
                bool ref = refused([&] { FastMarchingMethod f(m, false); f.march(p, v); });
                e.t();
                if (!e.expect(!ref, "velocity extension refused")) { e.done(); continue; }
                bool strict = robustFMM(r, w, h, in, &vel, &active);
                e.count(strict ? "strict" : "tie_dependent");
                Hash o;
                bool ok = e.expect(!memcmp(p.data(), in.data(), n * sizeof(double)), "velocity extension changed the level set");
                for (int i = 0; ok && i < n; i++)
                {
                    o.d(v[i]);
                    bool reached = r.st[i] == RefFMM::FROZEN && !r.border[i];
                    if (r.border[i]) ok = e.expect(v[i] == vel[i], fmt("known velocity at node %d changed from %g to %g", i, vel[i], v[i]));
                    else if (!active[i]) ok = e.expect(v[i] == vel[i], fmt("velocity of inactive node %d changed", i));
                    else if (!reached) ok = e.expect(v[i] == vel[i], fmt("velocity of unreachable node %d changed", i));
                    else
                    {
                        ok = e.expect(v[i] >= lo - 1e-9 && v[i] <= hi + 1e-9, fmt("extended velocity %g at node %d outside the known range [%g,%g]", v[i], i, lo, hi));
                        if (ok && strict) ok = e.expect(close(v[i], r.vel[i], 1e-7), fmt("velocity at node %d is %.12g, extension gives %.12g", i, v[i], r.vel[i]));
                    }
                }
                // the extension is homogeneous in the speeds: slow and fast contours are extended alike
                if (ok && (vp == 1 || vp == 4))
                    for (double f : {0x1p-40, 0x1p40})
                    {
                        std::vector<double> p2 = in, v2 = vel;
                        for (double& q : v2) q *= f;
                        if (!e.expect(!refused([&] { FastMarchingMethod t(m, false); t.march(p2, v2); }), fmt("velocity extension of %g times the speeds refused", f))) break;
                        e.t();
                        for (int i = 0; ok && i < n; i++) ok = e.expect(std::abs(v2[i] - f * v[i]) <= 1e-9 * f * (1 + std::abs(v[i])), fmt("with %g times the speeds the velocity at node %d is %g, was %g", f, i, v2[i], v[i]));
                    }
                e.outcome(o);
                e.done();
            }
    };
    bool T = e.thorough;
    g.sweep(T ? 32 : 14, false);
    g.words(2, 2, 3, {1}); g.words(1, 3, 3, {1}); g.words(3, 2, 2, {1, 2});
    for (int bg = 0; bg < 2; bg++)
    {
        g.seeds(6, 6, 3, 3, 2, 2, 2, bg, {1}); g.seeds(6, 5, 3, 2, 0, 0, 2, bg, {1, 4}); g.seeds(9, 3, 2, 2, 4, 1, 3, bg, {1});
        g.seeds(8, 8, 5, 1, 2, 4, 2, bg, {1, 2}); g.seeds(8, 8, 1, 5, 4, 2, 2, bg, {1, 2});
        g.seeds(9, 8, 3, 3, 3, 3, 2, bg, {2, 5}); g.seeds(7, 7, 3, 3, 4, 0, 2, bg, {3});
    }
    g.shapes(8, 8, 15, 5); g.shapes(11, 6, 30, 5); g.shapes(200, 2, 90, 1, false); g.shapes(2, 200, 90, 1, false);
    g.words(2, 2, 3, {6});
    if (T)
    {
        g.words(2, 2, 3, {0, 2, 3, 4}); g.words(1, 7, 2, {1, 2}); g.words(3, 3, 2, {1, 2});
        for (int bg = 0; bg < 2; bg++) for (int o = 0; o <= 5; o += 5) g.seeds(7, 7, 3, 3, o, 5 - o, 3, bg, {1, 2});
        g.shapes(14, 14, 7.5, 13);
    }
}
}
int mc_main(int argc, char** argv) { return run(argc, argv, {{"C04", redistance, 60}, {"C05", symmetric, 60}, {"C06", extend, 60}}, {"strict", "tie_dependent", "no_contour", "one_sided_updates"}); }
