// C08 narrow band, C09 holes, C10 polygons, C26 masks, C30 targets, C31 parameters, C32 Swiss cheese.
#include <array>
#include "mc.hpp"
#include "slsm_all.hpp"
#include "ref_fmm.hpp"
#include "fields.hpp"
#include <memory>
using namespace mc;
using namespace slsm;
using namespace fields;
typedef std::vector<Hole> Holes;
typedef std::vector<Coord> Pts;

namespace
{
std::string show(const Holes& h)
{
    std::string s = "{";
    for (auto& x : h) s += fmt("(%.6g,%.6g r=%.6g)", x.coord.x, x.coord.y, x.r);
    return s + "}";
}
std::string show(const Pts& p)
{
    std::string s = "{";
    for (auto& x : p) s += fmt("(%.9g,%.9g)", x.x, x.y);
    return s + "}";
}
std::unique_ptr<LevelSet> make(bool& ref, const std::function<LevelSet*()>& f)
{
    LevelSet* p = 0;
    ref = refused([&] { p = f(); });
    return std::unique_ptr<LevelSet>(ref ? 0 : p);
}

// ------------------------------------------------------------ reference geometry
double domainDist(int w, int h, int x, int y) { return std::min(std::min(x, w - x), std::min(y, h - y)); }
std::vector<double> refHoles(int w, int h, const Holes& hs)
{
    std::vector<double> p;
    for (int y = 0; y <= h; y++)
        for (int x = 0; x <= w; x++)
        {
            double d = domainDist(w, h, x, y);
            for (auto& q : hs) d = std::min(d, std::hypot(x - q.coord.x, y - q.coord.y) - q.r);
            p.push_back(d);
        }
    return p;
}
double segDist(const Coord& a, const Coord& b, double x, double y)
{
    double dx = b.x - a.x, dy = b.y - a.y, l = dx * dx + dy * dy, t = 0;
    if (l > 0) t = std::max(0.0, std::min(1.0, ((x - a.x) * dx + (y - a.y) * dy) / l));
    return std::hypot(a.x + t * dx - x, a.y + t * dy - y);
}
double polyDist(const Pts& p, double x, double y)
{
    double d = 1e300;
    for (size_t i = 0; i + 1 < p.size(); i++) d = std::min(d, segDist(p[i], p[i + 1], x, y));
    return d;
}
// even-odd by summed angle: independent of the library's crossing test
bool inPoly(const Pts& p, double x, double y)
{
    double a = 0;
    for (size_t i = 0; i + 1 < p.size(); i++)
    {
        double ux = p[i].x - x, uy = p[i].y - y, vx = p[i + 1].x - x, vy = p[i + 1].y - y;
        a += std::atan2(ux * vy - uy * vx, ux * vx + uy * vy);
    }
    return std::abs(a) > M_PI;
}
bool properCross(const Coord& a, const Coord& b, const Coord& c, const Coord& d)
{
    auto o = [](const Coord& p, const Coord& q, const Coord& r) { double v = (q.x - p.x) * (r.y - p.y) - (q.y - p.y) * (r.x - p.x); return std::abs(v) < 1e-9 ? 0 : v > 0 ? 1 : -1; };
    int o1 = o(a, b, c), o2 = o(a, b, d), o3 = o(c, d, a), o4 = o(c, d, b);
    if (o1 * o2 < 0 && o3 * o4 < 0) return true;
    auto on = [&](const Coord& p, const Coord& q, const Coord& r) { return segDist(p, q, r.x, r.y) < 1e-9; };
    return on(a, b, c) || on(a, b, d) || on(c, d, a) || on(c, d, b);
}
bool simple(const Pts& v)      // open vertex list
{
    size_t n = v.size();
    for (size_t i = 0; i < n; i++)
        for (size_t j = i + 1; j < n; j++)
        {
            if (j == i + 1 || (i == 0 && j == n - 1))
            {
                // adjacent edges: must not fold back
                const Coord &a = v[i == 0 && j == n - 1 ? j : i], &b = v[i == 0 && j == n - 1 ? 0 : j], &c = v[i == 0 && j == n - 1 ? 1 : (j + 1) % n];
                if (n == 3 && i == 0 && j == n - 1) {}
                if (segDist(a, b, c.x, c.y) < 1e-9 || segDist(b, c, a.x, a.y) < 1e-9) return false;
                continue;
            }
            if (properCross(v[i], v[(i + 1) % n], v[j], v[(j + 1) % n])) return false;
        }
    return true;
}

bool hasContour(const LevelSet& ls)
{
    bool pos = false, neg = false;
    for (double v : ls.signedDistance) { if (v == 0) return true; (v > 0 ? pos : neg) = true; }
    return pos && neg;
}
// ------------------------------------------------------------ narrow band oracle
void checkBand(Explorer& e, const LevelSet& ls, unsigned bw, bool fixed, const std::string& when)
{
    std::vector<unsigned> band, mines;
    for (unsigned i = 0; i < ls.mesh.nNodes; i++)
    {
        const Node& n = ls.mesh.nodes[i];
        double a = std::abs(ls.signedDistance[i]);
        bool in = !n.isMasked && !(n.isDomain && fixed) && a < bw;
        bool mine = in && a > bw - 1;
        if (in) band.push_back(i);
        if (mine) mines.push_back(i);
        if (!e.expect(n.isActive == in, when + fmt(": node %u |phi|=%.9g isActive=%d", i, a, n.isActive))) return;
        if (!e.expect(n.isMine == mine, when + fmt(": node %u |phi|=%.9g isMine=%d", i, a, n.isMine))) return;
    }
    if (!e.expect(ls.nNarrowBand == band.size(), when + fmt(": nNarrowBand %u expected %zu", ls.nNarrowBand, band.size()))) return;
    if (!e.expect(ls.nMines == mines.size(), when + fmt(": nMines %u expected %zu", ls.nMines, mines.size()))) return;
    if (!e.expect(ls.narrowBand.size() >= band.size() && std::equal(band.begin(), band.end(), ls.narrowBand.begin()), when + ": narrowBand list")) return;
    if (!e.expect(ls.mines.size() >= mines.size() && std::equal(mines.begin(), mines.end(), ls.mines.begin()), when + ": mines list")) return;
    Hash o; for (auto i : band) o.u(i); for (auto i : mines) o.u(1000 + i); e.outcome(o);
}

std::vector<Hole> holeMenu(int w, int h)
{
    std::vector<Hole> m;
    double xs[] = {0.5 * w, 0, 0.31 * w, (double)w, w + 3.2};
    double ys[] = {0.5 * h, 0, 0.62 * h, -2.1};
    double rs[] = {1.0, 2.5, 0.37, 6.9};
    for (double x : xs) for (double y : ys) for (double r : rs) m.push_back(Hole(x, y, r));
    return m;
}

void holes(Explorer& e)
{
    std::vector<std::pair<int,int>> sz = {{6, 6}, {9, 5}, {4, 11}, {1, 1}, {1, 7}, {13, 13}};
    const size_t nsmall = sz.size() + (e.thorough ? 4 : 0);
    if (e.thorough) for (auto p : {std::make_pair(17, 12), std::make_pair(30, 8), std::make_pair(7, 7), std::make_pair(2, 3)}) sz.push_back(p);
    for (auto p : {std::make_pair(300, 2), std::make_pair(2, 300), std::make_pair(270, 260)}) sz.push_back(p);
    for (auto& s : sz)
    {
        int w = s.first, h = s.second;
        std::vector<Hole> menu = holeMenu(w, h);
        int n = (int)menu.size();
        std::vector<Holes> lists;
        lists.push_back({});
        for (int i = 0; i < n; i++) lists.push_back({menu[i]});
        const bool small = &s - &sz[0] < (long)nsmall;
        if (small) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) lists.push_back({menu[i], menu[j]});
        if (!small) for (int i = 0; i < n; i++) lists.push_back({menu[i], menu[(i * 7 + 3) % n], menu[(i * 11 + 5) % n]});
        int st = e.thorough ? 1 : 5;
        if (small) for (int i = 0; i < n; i += st) for (int j = 1; j < n; j += st) for (int k = 2; k < n; k += st) lists.push_back({menu[i], menu[j], menu[k]});
        // many holes at once, in every rotation of the list
        for (int n2 : {4, 5, 9, 17, 40, 300})
            for (int k = 0; k < 6; k++)
            {
                Holes q;
                for (int i = 0; i < n2; i++) { int j = (i + k * n2 / 6) % n2; q.push_back(Hole(std::fmod((j + 1) * 0.6180339887498949, 1.0) * (w + 2) - 1, std::fmod((j + 1) * 0.7548776662466927, 1.0) * (h + 2) - 1, 0.2 + 2 * std::fmod((j + 1) * 0.5698402909980532, 1.0))); }
                lists.push_back(q);
            }
        for (auto& l : lists)
        {
            if (!e.take()) continue;
            e.describe(fmt("%dx%d %zu holes=%s", w, h, l.size(), l.size() < 10 ? show(l).c_str() : show(Holes(l.begin(), l.begin() + 5)).c_str()));
            bool ref;
            auto ls = make(ref, [&] { return new LevelSet(w, h, l, 0.5, 6, false); });
            e.t();
            if (!e.expect(!ref, "constructor refused valid holes")) { e.done(); continue; }
            std::vector<double> want = refHoles(w, h, l);
            e.expect(ls->signedDistance.size() == want.size(), "field size");
            for (size_t i = 0; i < want.size(); i++)
                if (!e.expect(close(ls->signedDistance[i], want[i], 1e-11), fmt("node %zu: %.12g, expected %.12g", i, ls->signedDistance[i], want[i]))) break;
            Hash hs; hs.u(w); hs.v(want); e.state(hs); e.outcome(hs);
            e.done();
        }
    }
}

void judgePolygon(Explorer& e, int w, int h, const Pts& p)
{
    e.describe(fmt("%dx%d polygon=%s", w, h, p.size() <= 40 ? show(p).c_str() : fmt("%zu points from (%.9g,%.9g)", p.size(), p[0].x, p[0].y).c_str()));
    bool ref;
    auto ls = make(ref, [&] { return new LevelSet(w, h, p, 0.5, 6, false); });
    e.t();
    if (!e.expect(!ref, "constructor refused a closed polygon")) { e.done(); return; }
    Hash hs; hs.u(w);
    for (int y = 0; y <= h; y++)
        for (int x = 0; x <= w; x++)
        {
            int i = y * (w + 1) + x;
            double pd = polyDist(p, x, y), d = std::min(domainDist(w, h, x, y), pd), g = ls->signedDistance[i];
            hs.d(g);
            if (!e.expect(close(std::abs(g), d, 1e-9), fmt("node (%d,%d): |phi|=%.12g, distance %.12g", x, y, std::abs(g), d))) break;
            if (d < 1e-9) continue;
            bool in = inPoly(p, x, y);
            if (!e.expect((g < 0) == in, fmt("node (%d,%d) is %s the polygon but phi=%.9g", x, y, in ? "inside" : "outside", g))) break;
        }
    e.state(hs); e.outcome(hs);
    e.done();
}
// Polygons with many vertices: regular, stars, combs, spirals, staircases.
std::vector<Pts> families(int w, int h)
{
    std::vector<Pts> r;
    double cx = 0.5 * w, cy = 0.5 * h, R = 0.45 * std::min(w, h);
    for (int n : {3, 4, 5, 6, 7, 8, 12, 20, 40, 150})
        for (double a0 : {0.0, 0.3, M_PI / 4})
            for (double q : {1.0, 0.4})
            {
                if (q < 1 && n > 40) continue;
                Pts p;
                int m = q < 1 ? 2 * n : n;
                for (int i = 0; i < m; i++) { double a = a0 + 2 * M_PI * i / m, k = i % 2 ? q * R : R; p.push_back(Coord(cx + k * std::cos(a), cy + k * std::sin(a))); }
                r.push_back(p);
            }
    for (int teeth = 1; teeth <= 4; teeth++)
        for (double base : {1.0, 1.3})
            for (int side = 0; side < 2; side++)
            {
                Pts p; p.push_back(Coord(1, base - 0.7)); p.push_back(Coord(w - 1, base - 0.7));
                for (int t = 2 * teeth; t >= 0; t--)
                {
                    double x0 = 1 + (w - 2) * (t + 1.0) / (2 * teeth + 1), x1 = 1 + (w - 2) * (double)t / (2 * teeth + 1), top = t % 2 ? base : h - base;
                    p.push_back(Coord(x0, top)); p.push_back(Coord(x1, top));
                }
                if (side) for (auto& v : p) { double t = v.x * h / w; v.x = v.y * w / h; v.y = t; }
                r.push_back(p);
            }
    // square spirals, on node rows and off them
    for (double o : {0.0, 0.37})
        for (int turns = 1; turns <= 2; turns++)
        {
            Pts out, in;
            double l = 1 + o, b = 1 + o, rr = w - 1 - o, t = h - 1 - o, g = std::min(w, h) / 6.0;
            for (int k = 0; k < turns; k++)
            {
                out.push_back(Coord(l, b)); out.push_back(Coord(rr, b)); out.push_back(Coord(rr, t)); out.push_back(Coord(l, t));
                in.push_back(Coord(l + (k ? 0 : 0), b + g)); in.push_back(Coord(rr - g / 2, b + g / 2)); in.push_back(Coord(rr - g / 2, t - g / 2)); in.push_back(Coord(l + g / 2, t - g / 2));
                out.push_back(Coord(l, b + 1.5 * g)); in.push_back(Coord(l + g / 2, b + 2 * g));
                l += 1.5 * g; b += 1.5 * g; rr -= 1.2 * g; t -= 1.2 * g;
                if (rr - l < g || t - b < g) break;
            }
            Pts p = out; for (size_t i = in.size(); i-- > 0;) p.push_back(in[i]);
            r.push_back(p);
        }
    // staircases and very flat or tall shapes
    for (double st : {1.0, 0.75})
    {
        Pts p; p.push_back(Coord(0.5, 0.5));
        double x = 0.5, y = 0.5; while (x + st < w && y + st < h) { x += st; p.push_back(Coord(x, y)); y += st; p.push_back(Coord(x, y)); }
        p.push_back(Coord(0.5, y)); r.push_back(p);
    }
    std::vector<Pts> s; for (auto& p : r) if (simple(p)) s.push_back(p);
    return s;
}
// Outlines that meet themselves: lobes sharing a vertex, rings joined by a bridge.
std::vector<Pts> touching(int w, int h)
{
    std::vector<Pts> r;
    double cx = 0.5 * w + 0.13, cy = 0.5 * h - 0.21, R = 0.47 * std::min(w, h);
    for (int lobes = 2; lobes <= 4; lobes++)
        for (double a0 : {0.0, 0.4, 1.1})
            for (int rev = 0; rev < (1 << lobes); rev++)                             // each lobe either way round
            {
                Pts p;
                for (int k = 0; k < lobes; k++)
                {
                    double a = a0 + 2 * M_PI * k / lobes, b = 0.8 * M_PI / lobes;
                    Pts q = {Coord(cx + 0.8 * R * std::cos(a - b), cy + 0.8 * R * std::sin(a - b)), Coord(cx + R * std::cos(a), cy + R * std::sin(a)), Coord(cx + 0.7 * R * std::cos(a + b), cy + 0.7 * R * std::sin(a + b))};
                    if (rev >> k & 1) std::reverse(q.begin(), q.end());
                    p.push_back(Coord(cx, cy));
                    p.insert(p.end(), q.begin(), q.end());
                }
                r.push_back(p);
            }
    for (double g : {0.3, 0.55})
        for (int n : {3, 4, 9})
        {
            Pts p;                                                                // a ring: out along the bridge, around the hole, back
            for (int i = 0; i <= n; i++) p.push_back(Coord(cx + R * std::cos(2 * M_PI * i / n), cy + R * std::sin(2 * M_PI * i / n)));
            for (int i = 0; i <= n; i++) p.push_back(Coord(cx + g * R * std::cos(2 * M_PI * i / n), cy - g * R * std::sin(2 * M_PI * i / n)));
            r.push_back(p);
        }
    return r;
}
void polygons(Explorer& e)
{
    for (auto& sz : {std::make_pair(12, 12), std::make_pair(20, 9), std::make_pair(9, 20)})
        for (auto& f : touching(sz.first, sz.second))
            for (int dir = 0; dir < 2; dir++)
                for (size_t first = 0; first < f.size(); first++)
                {
                    if (!e.take()) continue;
                    Pts p = f;
                    if (dir) std::reverse(p.begin(), p.end());
                    std::rotate(p.begin(), p.begin() + first, p.end());
                    p.push_back(p[0]);
                    judgePolygon(e, sz.first, sz.second, p);
                }
    struct M { int w, h; Pts menu; };
    std::vector<M> ms;
    ms.push_back({8, 8, {Coord(1, 1), Coord(6, 2), Coord(7, 7), Coord(2, 6), Coord(3.3, 3.7), Coord(4.25, 0.5), Coord(0.4, 4.6), Coord(5.1, 5.2), Coord(3, 7)}});
    ms.push_back({6, 10, {Coord(0.2, 0.3), Coord(5.9, 0.1), Coord(5.7, 9.6), Coord(0.1, 9.9), Coord(2.5, 4.5), Coord(3.5, 5.5), Coord(3.02, 2.01), Coord(2.97, 7.99)}});
    ms.push_back({5, 5, {Coord(2.4, 2.4), Coord(2.6, 2.4), Coord(2.5, 2.7), Coord(1.9, 2.05), Coord(2.15, 1.8), Coord(3.2, 2.9), Coord(-3, -2), Coord(9, 1), Coord(2, 8.5)}});
    ms.push_back({4, 4, {Coord(1, 1), Coord(3, 1), Coord(2, 2), Coord(1, 3), Coord(3, 3), Coord(2, 0), Coord(0, 2), Coord(4, 2), Coord(2, 4)}});
    ms.push_back({7, 4, {Coord(0, 0), Coord(7, 0), Coord(7, 4), Coord(0, 4), Coord(3.5, 0), Coord(3.5, 4), Coord(2, 2), Coord(5, 1.5), Coord(7, 2)}});
    ms.push_back({3, 12, {Coord(0.5, 0.5), Coord(2.5, 0.5), Coord(2.5, 11.5), Coord(0.5, 11.5), Coord(1.5, 6), Coord(1.5, 3), Coord(-1.5, 6), Coord(4.5, 9), Coord(1, 8)}});
    int maxv = e.thorough ? 7 : 6;
    for (auto& m : ms)
        for (int nv = 3; nv <= maxv; nv++)
        {
            int n = (int)m.menu.size();
            if (nv == 5 && !e.thorough) n = std::min(n, 8);
            if (nv == 6 && !e.thorough) n = std::min(n, 7);
            std::vector<int> ix(nv, 0);
            do
            {
                std::set<int> u(ix.begin(), ix.end());
                if ((int)u.size() != nv) continue;
                Pts open;
                for (int i : ix) open.push_back(m.menu[i]);
                if (!simple(open)) continue;
                for (int rep = 0; rep < (nv < 5 ? 2 : 1); rep++)
                {
                    if (!e.take()) continue;
                    Pts p;
                    for (int i = 0; i < nv; i++) { p.push_back(open[i]); if (rep && i % 2 == 0) p.push_back(open[i]); }
                    p.push_back(open[0]);
                    judgePolygon(e, m.w, m.h, p);
                }
            } while (next(ix, n));
        }
    // the same outline however finely its sides are cut into pieces (down to 1/500 of a cell)
    {
        std::vector<Pts> base = {{Coord(1, 1), Coord(1, 5), Coord(5, 5), Coord(5, 1)}, {Coord(1.3, 0.7), Coord(5.6, 2.2), Coord(2.4, 5.3)},
                                 {Coord(0.8, 0.8), Coord(5.2, 0.8), Coord(5.2, 2.6), Coord(2.9, 2.6), Coord(2.9, 5.4), Coord(0.8, 5.4)}, {Coord(0.25, 3.01), Coord(5.75, 2.98), Coord(3.1, 3.3)}};
        for (auto& b : base) for (double piece : {0.5, 0.12, 0.09, 0.04, 0.011, 0.0045, 0.0021}) for (int off = 0; off < 3; off++) for (int dir = 0; dir < 2; dir++)
        {
            if (!e.take()) continue;
            Pts v = b, p;
            for (auto& c : v) { c.x += off * 0.037; c.y -= off * 0.041; }
            if (dir) std::reverse(v.begin(), v.end());
            for (size_t i = 0; i < v.size(); i++)
            {
                Coord a = v[i], z = v[(i + 1) % v.size()];
                int n = std::max(1, (int)(std::hypot(z.x - a.x, z.y - a.y) / piece));
                for (int k = 0; k < n; k++) p.push_back(Coord(a.x + (z.x - a.x) * k / n, a.y + (z.y - a.y) * k / n));
            }
            p.push_back(p[0]);
            judgePolygon(e, 6, 6, p);
        }
    }
    // many-sided polygons: every family x both orientations x several first vertices
    for (auto& sz : {std::make_pair(12, 12), std::make_pair(20, 9), std::make_pair(9, 20), std::make_pair(130, 120)})
        for (auto& f : families(sz.first, sz.second))
            for (int dir = 0; dir < 2; dir++)
                for (size_t first = 0; first < f.size(); first += std::max<size_t>(1, f.size() / (e.thorough ? 12 : 3)))
                {
                    if (sz.first > 50 && (first || f.size() > 12)) continue;
                    if (!e.take()) continue;
                    Pts p = f;
                    if (dir) std::reverse(p.begin(), p.end());
                    std::rotate(p.begin(), p.begin() + first, p.end());
                    p.push_back(p[0]);
                    judgePolygon(e, sz.first, sz.second, p);
                }
}

void band(Explorer& e)
{
    bool T = e.thorough;
    // (a) constructors: geometry x band width x fixed domain
    std::vector<std::pair<int,int>> sz = {{12, 12}, {9, 16}, {5, 5}, {1, 9}, {24, 7}};
    for (auto& s : sz)
    {
        int w = s.first, h = s.second;
        std::vector<Holes> lists;
        auto menu = holeMenu(w, h);
        lists.push_back({});
        for (auto& m : menu) lists.push_back({m});
        for (size_t i = 0; i < menu.size(); i += T ? 1 : 3) for (size_t j = i + 1; j < menu.size(); j += T ? 2 : 7) lists.push_back({menu[i], menu[j]});
        // plateaus: holes on every k-th node, so that (almost) every node is a mine
        for (double r : {5.5, 2.5, 5.0, 6.0, 3.75})
            for (int k = 1; k <= 3; k++)
            {
                Holes q;
                for (int i = 0; i < (w + 1) * (h + 1); i += k) q.push_back(Hole(i % (w + 1), i / (w + 1), r));
                lists.push_back(q);
            }
        for (auto& l : lists)
            for (unsigned bw : {3u, 4u, 6u, 11u, 200u})
                for (int fixed = 0; fixed < 2; fixed++)
                {
                    if (!e.take()) continue;
                    e.describe(fmt("%dx%d bw=%u fixed=%d %s", w, h, bw, fixed, l.size() < 4 ? show(l).c_str() : fmt("%zu holes r=%g", l.size(), l[0].r).c_str()));
                    bool ref;
                    auto ls = make(ref, [&] { return new LevelSet(w, h, l, 0.5, bw, fixed); });
                    e.t();
                    if (e.expect(!ref, "constructor refused")) checkBand(e, *ls, bw, fixed, "after construction");
                    if (ls) { Hash hs; hs.u(w); hs.u(bw); hs.u(fixed); hs.v(ls->signedDistance); e.state(hs); }
                    e.done();
                }
    }
    // every small mesh size, and sizes around powers of two
    for (auto& z : fields::sizes(T ? 48 : 24, T))
        for (unsigned bw : {3u, 6u, 11u})
            for (int fixed = 0; fixed < 2; fixed++)
            {
                if (!e.take()) continue;
                int w = z.first, h = z.second;
                e.describe(fmt("size %dx%d bw=%u fixed=%d", w, h, bw, fixed));
                Holes q;
                for (int i = 0; i < 1 + w * h / 150; i++) q.push_back(Hole(w * fields::mag(1, 3 * i) / 1.25, h * fields::mag(1, 5 * i + 1) / 1.25, 1.1 + 0.2 * (i % 4)));
                bool ref;
                auto ls = make(ref, [&] { return new LevelSet(w, h, q, 0.5, bw, fixed); });
                e.t();
                if (e.expect(!ref, "constructor refused"))
                {
                    checkBand(e, *ls, bw, fixed, "after construction");
                    Hash hs; hs.u(w); hs.u(bw); hs.u(fixed); hs.v(ls->signedDistance); e.state(hs);
                    ls->signedDistance = fields::waves(w, h, 2);
                    for (int k = 0; k < 2 && !e.failedCase; k++)
                    {
                        if (k) for (auto& v : ls->signedDistance) v = v > -0.3 ? 1 : -1;
                        if (refused([&] { ls->reinitialise(); })) { e.count("contour_vanished"); break; }
                        e.t();
                        checkBand(e, *ls, bw, fixed, k ? "reinitialised again" : "reinitialised");
                    }
                }
                e.done();
            }
    // a band, and a list of mines, longer than a 16-bit index can count
    for (unsigned bw : {3u, 6u, 120u, 1000u})
        for (int fixed = 0; fixed < 2; fixed++)
            for (int k = 0; k < 3; k++)
            {
                if (!e.take()) continue;
                int w = k == 1 ? 23000 : 270, h = k == 1 ? 3 : 260;
                e.describe(fmt("large %dx%d bw=%u fixed=%d shape %d", w, h, bw, fixed, k));
                bool ref;
                Holes q(1, Hole(0.4 * w, 0.5 * h, 0.3 * h + 0.11));
                auto ls = make(ref, [&] { return new LevelSet(w, h, q, 0.5, bw, fixed); });
                e.t();
                if (e.expect(!ref, "constructor refused"))
                {
                    if (k != 2 || !refused([&] {
                            // a plateau just inside the edge of the band: nearly every node is a mine
                            for (int i = 0; i < (w + 1) * (h + 1); i++) ls->signedDistance[i] = 0.01;
                            ls->signedDistance[5] = -0.01; ls->reinitialise(); }))
                        checkBand(e, *ls, bw, fixed, "large");
                    else e.expect(false, "refused");
                    Hash hs; hs.u(w); hs.u(bw); hs.u(fixed); hs.u(k); e.state(hs);
                }
                e.done();
            }
    // (b) histories: field A, then B, then C through the same object
    struct F { std::string n; std::vector<double> p; };
    for (auto& s : {std::make_pair(10, 10), std::make_pair(14, 6)})
    {
        int w = s.first, h = s.second;
        std::vector<F> fs;
        for (double a : {0.0, 30.0, 90.0, 135.0}) for (double o : {-3.3, 0.2, 2.6}) fs.push_back({fmt("line(%g,%g)", a, o), line(w, h, a, o)});
        for (double r : {0.8, 2.2, 3.9}) for (int sg : {-1, 1}) fs.push_back({fmt("circle(%g,%d)", r, sg), circle(w, h, 0.45 * w, 0.5 * h, r, sg)});
        int n = (int)fs.size();
        for (unsigned bw : T ? std::vector<unsigned>{3u, 4u, 5u, 6u, 9u, 30u} : std::vector<unsigned>{3u, 4u, 6u})
            for (int fixed = 0; fixed < 2; fixed++)
                for (int mk = 0; mk < 3; mk++)
                    for (int a = 0; a < n; a++)
                        for (int b = 0; b < n; b++)
                            for (int c = 0; c < n; c++)
                            {
                                if (!T && (c + a) % 5) continue;
                                if (!e.take()) continue;
                                e.describe(fmt("%dx%d bw=%u fixed=%d mask=%d %s > %s > %s", w, h, bw, fixed, mk, fs[a].n.c_str(), fs[b].n.c_str(), fs[c].n.c_str()));
                                bool ref;
                                auto ls = make(ref, [&] { return new LevelSet(w, h, Holes(1, Hole(5, 5, 2)), 0.5, bw, fixed); });
                                e.expect(!ref, "constructor refused");
                                int seq[3] = {a, b, c};
                                for (int k = 0; k < 3 && !e.failedCase; k++)
                                {
                                    ls->signedDistance = fs[seq[k]].p;
                                    bool con = hasContour(*ls) || (mk && k == 1);
                                    bool r = refused([&] {
                                        if (mk && k == 1) ls->mask(mk == 1 ? Holes(1, Hole(4, 3, 1.5)) : Holes{Hole(0, 0, 2.2), Hole(w, h, 1.1)});
                                        else ls->reinitialise();
                                    });
                                    e.t();
                                    if (!e.expect(r == !con, con ? "reinitialisation refused" : "reinitialisation accepted a field without a zero contour") || r) break;
                                    checkBand(e, *ls, bw, fixed, fmt("after step %d", k + 1));
                                    Hash hs; hs.u(bw); hs.u(fixed); hs.u(mk); hs.v(ls->signedDistance); for (auto& q : ls->mesh.nodes) hs.u(q.isMine); e.state(hs);
                                }
                                e.done();
                            }
    }
}

// ------------------------------------------------------------ parameters
void params(Explorer& e)
{
    Holes ih(1, Hole(4, 4, 2)), th(1, Hole(5, 5, 2.5));
    Pts ip = {Coord(2, 2), Coord(2, 6), Coord(6, 6), Coord(6, 2), Coord(2, 2)}, tp = {Coord(3, 3), Coord(3, 7), Coord(7, 5), Coord(3, 3)};
    double nan = std::numeric_limits<double>::quiet_NaN(), inf = std::numeric_limits<double>::infinity();
    std::vector<double> mls = {-inf, -1e300, -1, -0.5, -1e-12, -0.0, 0.0, 1e-300, 1e-12, 0.1, 0.5, 0.9, 1 - 1e-12, 1.0, 1 + 1e-12, 1.5, 2, 1e300, inf, nan};
    const double LO = std::nextafter(1.0, 0.0); mls.push_back(LO);
    std::vector<unsigned> bws = {0, 1, 2, 3, 4, 6, 10, 1000, 4000000000u};
    const char* names[] = {"default", "holes", "points", "holes/holes", "holes/points", "points/points"};
    std::vector<std::pair<int,int>> big = {{75, 75}, {90, 90}, {74, 75}, {75, 74}, {10, 10}, {74, 200}, {200, 74}, {80, 76}};
    for (int c = 0; c < 6; c++)
        for (size_t k = 0; k < (c == 0 ? big.size() : 2); k++)
            for (double ml : mls)
                for (unsigned bw : bws)
                    for (int fixed = 0; fixed < 2; fixed++)
                    {
                        int w = c == 0 ? big[k].first : k ? 12 : 9, h = c == 0 ? big[k].second : k ? 9 : 11;
                        if (c == 0 && !e.thorough && !(ml == 0.5 || bw == 6)) continue;
                        if (!e.take()) continue;
                        e.describe(fmt("constructor %s %dx%d moveLimit=%.17g bandWidth=%u fixed=%d", names[c], w, h, ml, bw, fixed));
                        bool ref;
                        auto ls = make(ref, [&]() -> LevelSet* {
                            switch (c)
                            {
                            case 0: return new LevelSet(w, h, ml, bw, fixed);
                            case 1: return new LevelSet(w, h, ih, ml, bw, fixed);
                            case 2: return new LevelSet(w, h, ip, ml, bw, fixed);
                            case 3: return new LevelSet(w, h, ih, th, ml, bw, fixed);
                            case 4: return new LevelSet(w, h, ih, tp, ml, bw, fixed);
                            default: return new LevelSet(w, h, ip, tp, ml, bw, fixed);
                            } });
                        e.t();
                        bool valid = bw > 2 && ml > 0 && ml < 1;
                        if (c == 0) valid = valid && std::round(w / 30.0) > 2 && std::round(h / 30.0) > 2;
                        if (e.expect(ref == !valid, valid ? "valid parameters were refused" : "invalid parameters were accepted") && ls)
                        {
                            e.expect(ls->moveLimit == ml, "moveLimit not stored");
                            e.expect((int)ls->mesh.width == w && (int)ls->mesh.height == h, "mesh size not stored");
                            size_t n = (w + 1) * (h + 1);
                            e.expect(ls->signedDistance.size() == n && ls->velocity.size() == n && ls->gradient.size() == n, "field sizes");
                            e.expect(ls->target.size() == (c >= 3 ? n : 0), "target size");
                            // band width and fixed domain take effect
                            checkBand(e, *ls, bw, fixed, "after construction");
                        }
                        Hash hs; hs.u(c); hs.u(k); hs.d(ml == ml ? ml : 7e99); hs.u(bw); hs.u(fixed); e.state(hs);
                        Hash o; o.u(ref); e.outcome(o);
                        e.done();
                    }
}

// ------------------------------------------------------------ Swiss cheese
void cheese(Explorer& e)
{
    std::vector<std::pair<int,int>> sz;
    for (int w : {75, 76, 89, 90, 100, 104, 105, 120, 134, 135, 150, 160, 180, 211}) for (int h : {75, 80, 90, 104, 105, 120, 135, 150}) sz.push_back({w, h});
    if (e.thorough) for (int w = 75; w <= 170; w++) for (int h = 75; h <= 170; h++) sz.push_back({w, h});
    for (auto& s : sz)
    {
        int w = s.first, h = s.second;
        if (!e.take()) continue;
        e.describe(fmt("default structure %dx%d", w, h));
        bool ref;
        auto ls = make(ref, [&] { return new LevelSet(w, h); });
        e.t();
        if (!e.expect(!ref, "default constructor refused")) { e.done(); continue; }
        int nx = (int)std::floor(w / 30.0 + 0.5), ny = (int)std::floor(h / 30.0 + 0.5);
        Holes hs;
        for (int y = 0; y < ny; y++) for (int x = 0; x < nx; x++) hs.push_back(Hole((x + 0.5) * w / nx, (y + 0.5) * h / ny, 5));
        for (int y = 1; y < ny; y++) for (int x = 1; x < nx; x++) hs.push_back(Hole((double)x * w / nx, (double)y * h / ny, 5));
        std::vector<double> want = refHoles(w, h, hs);
        for (int y = 0; y <= h; y++)
            for (int x = 0; x <= w; x++)
            {
                int i = y * (w + 1) + x;
                double g = ls->signedDistance[i];
                if (!e.expect(close(g, want[i], 1e-9), fmt("node (%d,%d): %.12g, expected %.12g", x, y, g, want[i]))) break;
                if (!e.expect(close(g, ls->signedDistance[y * (w + 1) + w - x], 1e-9) && close(g, ls->signedDistance[(h - y) * (w + 1) + x], 1e-9), fmt("node (%d,%d): not symmetric about the centre lines", x, y))) break;
            }
        checkBand(e, *ls, 6, false, "default parameters");
        e.expect(ls->moveLimit == 0.5, "default move limit");
        Hash q; q.u(w); q.u(h); e.state(q); Hash o; o.u(nx * 100 + ny); e.outcome(o);
        e.done();
    }
}

// ------------------------------------------------------------ targets
// the same points and segments (segments as a set of point pairs)
void sameContour(Explorer& e, const Boundary& a, const Boundary& b)
{
    auto key = [](const Boundary& B) {
        std::vector<std::array<double, 5>> k;
        for (auto& s : B.segments)
        {
            Coord p = B.points[s.start].coord, q = B.points[s.end].coord;
            if (q.x < p.x || (q.x == p.x && q.y < p.y)) std::swap(p, q);
            k.push_back({{p.x, p.y, q.x, q.y, s.length}});
        }
        std::sort(k.begin(), k.end());
        return k; };
    auto x = key(a), y = key(b);
    e.expect(x == y, "the target's segments depend on the current structure");
    for (size_t i = 0; !e.failedCase && i < a.points.size(); i++)
        e.expect(close(a.points[i].length, b.points[i].length, 1e-9), "the length of a target boundary point depends on the current structure");
}
// Every target field over a small alphabet x several current structures: contour and area of the target are those of the target alone.
void targetFields(Explorer& e)
{
    struct D { int w, h; std::vector<double> al; };
    std::vector<D> ds = {{1, 1, {-1, -0.3, 0, 0.45, 0.8}}, {2, 1, {-1, -0.3, 0, 0.6}}, {1, 2, {-1, -0.3, 0, 0.6}}, {2, 2, {-0.9, 0, 0.7}}};
    if (e.thorough) { ds.push_back({3, 1, {-1, -0.3, 0, 0.6}}); ds.push_back({2, 2, {-1, -0.3, 0.6}}); ds.push_back({2, 2, {-0.4, 0.3, 1}}); ds.push_back({2, 2, {-1, -0.2, 0, 0.6}}); ds.push_back({3, 2, {-0.8, 0, 0.5}}); ds.push_back({2, 3, {-0.6, 0, 0.9}}); ds.push_back({3, 3, {-0.7, 0.4}}); }
    for (auto& d : ds)
    {
        int n = (d.w + 1) * (d.h + 1);
        Holes hole(1, Hole(0, 0, 0.3));
        std::unique_ptr<LevelSet> ls, solo;
        std::vector<int> ix(n, 0);
        do
        {
            if (!e.take()) continue;
            std::vector<double> f; for (int i : ix) f.push_back(d.al[i]);
            std::string name; for (double v : f) name += fmt("%g ", v);
            e.describe(fmt("%dx%d target field [ %s]", d.w, d.h, name.c_str()));
            if (!ls) { ls.reset(new LevelSet(d.w, d.h, hole, hole, 0.4, 1000, false)); solo.reset(new LevelSet(d.w, d.h, hole, 0.4, 1000, false)); }
            Boundary bo; double ao = 0;
            solo->signedDistance = f;
            bool r0 = refused([&] { bo.discretise(*solo, false); ao = solo->computeAreaFractions(bo); });
            e.t(2);
            Hash q; q.v(f); q.u(d.w); Hash o; o.u(r0); o.d(ao); o.d(bo.length);
            for (int cur = 0; cur < 6; cur++) for (int active = 0; active < 2; active++)
            {
                for (int i = 0; i < n; i++)
                {
                    int x = i % (d.w + 1), y = i / (d.w + 1);
                    double v[6] = {3, -3, -f[i], (x + y) % 2 ? 0.9 : -1.1, (x + y) % 2 ? -1.1 : 0.9, 0};
                    ls->signedDistance[i] = v[cur]; ls->mesh.nodes[i].isActive = active;
                }
                ls->target = f;
                Boundary bt; double at = 0;
                bool r = refused([&] { bt.discretise(*ls, true); at = ls->computeAreaFractions(bt); });
                e.t(2);
                if (!e.expect(r == r0, fmt("structure %d active %d: refused=%d, alone refused=%d", cur, active, r, r0)) || r) continue;
                e.expect(ls->target == f, "discretising changed the target");
                if (!e.expect(bt.points.size() == bo.points.size() && bt.segments.size() == bo.segments.size(), fmt("structure %d active %d: number of target points or segments depends on the structure", cur, active))) break;
                for (size_t i = 0; !e.failedCase && i < bt.points.size(); i++)
                    e.expect(close(bt.points[i].coord.x, bo.points[i].coord.x, 1e-12) && close(bt.points[i].coord.y, bo.points[i].coord.y, 1e-12), "a target boundary point depends on the structure");
                if (!e.failedCase) sameContour(e, bt, bo);
                e.expect(close(bt.length, bo.length, 1e-12), "the length of the target contour depends on the structure");
                e.expect(close(at, ao, 1e-12), fmt("structure %d active %d: target area %.12g, alone %.12g", cur, active, at, ao));
                for (unsigned k = 0; k < ls->mesh.nElements; k++) e.expect(close(ls->mesh.elements[k].area, solo->mesh.elements[k].area, 1e-12), fmt("structure %d: target area of element %u depends on the structure", cur, k));
            }
            e.state(q); e.outcome(o);
            e.done();
        } while (next(ix, (int)d.al.size()));
    }
}
void targets(Explorer& e)
{
    targetFields(e);
    for (auto& s : {std::make_pair(10, 10), std::make_pair(12, 7)})
    {
        int w = s.first, h = s.second;
        std::vector<Holes> hs = {{Hole(5, 4, 2.2)}, {Hole(2.5, 3, 1.3), Hole(7, 4, 1.9)}, {Hole(w, h, 3)}, {Hole(0.5 * w, 0.5 * h, 2)}, {Hole(3, 3, 1), Hole(6, 3, 1)}};
        std::vector<Pts> ps = {{Coord(2, 2), Coord(2, 5), Coord(6, 5), Coord(6, 2), Coord(2, 2)}, {Coord(1.3, 1.2), Coord(3.4, 6.1), Coord(8.2, 2.3), Coord(1.3, 1.2)},
                               {Coord(1, 1), Coord(1, 6), Coord(4, 3.5), Coord(9, 6), Coord(9, 1), Coord(1, 1)}};
        for (int kind = 0; kind < 3; kind++)
        {
            size_t na = kind == 2 ? ps.size() : hs.size(), nb = kind == 0 ? hs.size() : ps.size();
            for (size_t a = 0; a < na; a++)
                for (size_t b = 0; b < nb; b++)
                    for (int fixed = 0; fixed < 2; fixed++)
                        for (int hist = 0; hist < 64; hist++)
                        {
                            if (!e.take()) continue;
                            e.describe(fmt("%dx%d kind=%d initial=%zu target=%zu fixed=%d history=%d", w, h, kind, a, b, fixed, hist));
                            bool ref, r2, r3;
                            auto ls = make(ref, [&]() -> LevelSet* {
                                if (kind == 0) return new LevelSet(w, h, hs[a], hs[b], 0.4, 4, fixed);
                                if (kind == 1) return new LevelSet(w, h, hs[a], ps[b], 0.4, 4, fixed);
                                return new LevelSet(w, h, ps[a], ps[b], 0.4, 4, fixed); });
                            auto init = make(r2, [&]() -> LevelSet* { if (kind < 2) return new LevelSet(w, h, hs[a], 0.4, 4, fixed); return new LevelSet(w, h, ps[a], 0.4, 4, fixed); });
                            auto tgt = make(r3, [&]() -> LevelSet* { if (kind == 0) return new LevelSet(w, h, hs[b], 0.4, 4, fixed); return new LevelSet(w, h, ps[b], 0.4, 4, fixed); });
                            e.t(3);
                            if (!e.expect(!ref && !r2 && !r3, "constructor refused")) { e.done(); continue; }
                            bool noT = refused([&] { tgt->reinitialise(); });
                            e.expect(!noT, "target reinitialisation refused");
                            e.expect(ls->target == tgt->signedDistance, "target field differs from the reinitialised target description");
                            e.expect(ls->signedDistance == init->signedDistance, "initial field differs from the initial description built alone");
                            checkBand(e, *ls, 4, fixed, "after construction");
                            std::vector<double> keep = ls->target;
                            // target contour, from the combined object and from the target alone
                            Boundary bt, bo;
                            auto contour = [&](Boundary& B, LevelSet& L, bool isT) { return !refused([&] { B.discretise(L, isT); }); };
                            // a short history of operations on the current structure: 3 steps from 4 operations
                            int k = hist;
                            bool ok = true;
                            for (int st = 0; st < 3 && ok; st++, k /= 4)
                            {
                                int op = k % 4;
                                ok = !refused([&] {
                                    if (op == 0) ls->reinitialise();
                                    else if (op == 1) { Boundary B; B.discretise(*ls); for (auto& p : B.points) p.velocity = -1; ls->computeVelocities(B.points); ls->computeGradients(); ls->update(0.3); }
                                    else if (op == 2) { Boundary B; B.discretise(*ls, true); ls->computeAreaFractions(B); }
                                    else ls->mask(Holes(1, Hole(3, 3, 1.1)));
                                });
                                e.t();
                            }
                            e.expect(ls->target == keep, "an operation on the current structure changed the target");
                            if (contour(bt, *ls, true))
                            {
                                e.t();
                                LevelSet solo(w, h, hs[0], 0.4, 1000, false);
                                solo.signedDistance = keep;
                                for (auto& n : solo.mesh.nodes) n.isActive = true;
                                if (contour(bo, solo, false))
                                {
                                    e.expect(bt.points.size() == bo.points.size() && bt.segments.size() == bo.segments.size(), "the target contour depends on the current structure");
                                    for (size_t i = 0; !e.failedCase && i < bt.points.size(); i++)
                                        e.expect(close(bt.points[i].coord.x, bo.points[i].coord.x, 1e-9) && close(bt.points[i].coord.y, bo.points[i].coord.y, 1e-9), "a target boundary point depends on the current structure");
                                    e.expect(close(bt.length, bo.length, 1e-9), "target contour length");
                                    sameContour(e, bt, bo);
                                }
                                else e.expect(false, "discretise refused");
                            }
                            else e.expect(false, "discretise(target) refused");
                            Hash q; q.u(w); q.u(kind); q.u(a); q.u(b); q.u(fixed); q.v(ls->signedDistance); e.state(q); e.outcome(q);
                            e.done();
                        }
        }
    }
}

// ------------------------------------------------------------ C26 masks
struct MaskOp { std::string name; Holes h; Pts p; bool isHole; };
std::vector<MaskOp> maskMenu(int w, int h)
{
    std::vector<MaskOp> m;
    auto H = [&](Holes q) { m.push_back({"holes" + show(q), q, {}, true}); };
    auto P = [&](Pts q) { m.push_back({"points" + show(q), {}, q, false}); };
    H({Hole(3, 3, 1.2)});
    P({Coord(1.5, 1.5), Coord(4.5, 3.5)});
    P({Coord(2, 1), Coord(5, 4)});                                      // nodes exactly on the sides
    P({Coord(5.3, 1.2), Coord(5.3, 4.7), Coord(8.6, 4.7), Coord(8.6, 1.2), Coord(5.3, 1.2)});
    H({Hole(0, 0, 2.5), Hole(w, h, 1.5)});
    H({Hole(6, 4, 2), Hole(6.4, 4.3, 0.3)});                            // nodes exactly on the circle; a hole that holds no node
    P({Coord(1.4, 4.6), Coord(2.9, 7.3), Coord(3.6, 4.9), Coord(1.4, 4.6)});
    P({Coord(7.7, 2.6), Coord(3.2, 2.4), Coord(6.1, 6.4), Coord(7.7, 2.6)});        // anticlockwise/clockwise pair
    P({Coord(-1, -1), Coord(2.5, h + 1.0)});                            // overlaps the domain edge
    H({Hole(-1, 4, 3.3)});
    P({Coord(4.5, 3.5), Coord(1.5, 1.5)});                              // empty rectangle
    P({Coord(6.3, 6.3), Coord(6.3, 7.6), Coord(6.6, 7.6), Coord(6.6, 6.3), Coord(6.3, 6.3)});   // sliver without a node
    // nodes within a hair of the outline, on either side
    H({Hole(3, 3, 2.0004), Hole(7, 5, 0.9996), Hole(8, 2, 1.0000004)});
    P({Coord(1.9996, 1.0004), Coord(5.0004, 3.9996)});
    P({Coord(2.0003, 1.9996), Coord(6.0004, 2.0002), Coord(5.9997, 5.0004), Coord(1.9998, 4.9996), Coord(2.0003, 1.9996)});
    return m;
}
// 1 inside, 0 not inside, -1 too close to call
int inMask(const MaskOp& m, double x, double y)
{
    if (m.isHole)
    {
        int r = 0;
        for (auto& q : m.h)
        {
            double dx = x - q.coord.x, dy = y - q.coord.y, d = std::hypot(dx, dy);
            if (std::abs(d - q.r) < 1e-9 && dx != 0 && dy != 0) { if (!r) r = -1; continue; }
            if (d < q.r) r = 1;
        }
        return r;
    }
    if (m.p.size() == 2) return x > m.p[0].x && x < m.p[1].x && y > m.p[0].y && y < m.p[1].y;
    if (polyDist(m.p, x, y) < 1e-9) return -1;
    return inPoly(m.p, x, y);
}
void masks(Explorer& e)
{
    int w = 10, h = 8;
    std::vector<std::pair<std::string, Holes>> init = {
        {"plain", {}}, {"hole", {Hole(5, 4, 2.2)}}, {"holes", {Hole(2.5, 3, 1.3), Hole(7, 4, 1.9)}}, {"cornerhole", {Hole(w, h, 3)}}};
    auto menu = maskMenu(w, h);
    int n = (int)menu.size();
    int depth = e.thorough ? 5 : 3, nop = 5;
    int nh = 1; for (int i = 0; i < depth; i++) nh *= nop;
    for (auto& in : init)
        for (int a = 0; a < n; a++)
            for (int b = -1; b < n; b++)
                for (int fixed = 0; fixed < 2; fixed++)
                    for (int hist = 0; hist < nh; hist++)
                    {
                        // without a second mask operation in the history, b is irrelevant
                        bool uses = false; { int k = hist; for (int s = 0; s < depth; s++, k /= nop) uses |= k % nop == 3; }
                        if (uses != (b >= 0)) continue;
                        if (!e.thorough && b >= 0 && (a + 2 * b) % 3) continue;
                        if (e.thorough && b >= 0 && (a + b) % 4) continue;
                        if (!e.take()) continue;
                        std::string hs; { int k = hist; for (int s = 0; s < depth; s++, k /= nop) hs += "gsamr"[k % nop]; }
                        e.describe(fmt("%s fixed=%d mask %s then %s%s", in.first.c_str(), fixed, menu[a].name.c_str(), hs.c_str(), b >= 0 ? (" second " + menu[b].name).c_str() : ""));
                        bool ref;
                        auto ls = make(ref, [&] { return new LevelSet(w, h, in.second, 0.4, 3, fixed); });
                        e.t();
                        if (!e.expect(!ref, "constructor refused")) { e.done(); continue; }
                        int N = ls->mesh.nNodes;
                        std::vector<char> masked(N, 0);
                        auto settle = [&](const std::string& when) {
                            for (int i = 0; i < N; i++)
                            {
                                if (!e.expect(ls->mesh.nodes[i].isMasked == (bool)masked[i], when + fmt(": node %d isMasked=%d", i, ls->mesh.nodes[i].isMasked))) return false;
                                if (masked[i])
                                {
                                    if (!e.expect(ls->signedDistance[i] <= 0, when + fmt(": masked node %d has level set %g", i, ls->signedDistance[i]))) return false;
                                    if (!e.expect(!ls->mesh.nodes[i].isActive, when + fmt(": masked node %d is active", i))) return false;
                                }
                            }
                            checkBand(e, *ls, 3, fixed, when);
                            Hash q; q.v(ls->signedDistance); for (char c : masked) q.u(c); q.u(fixed); e.state(q);
                            return !e.failedCase;
                        };
                        auto mask = [&](const MaskOp& m, const std::string& when) {
                            std::vector<double> want = ls->signedDistance;
                            for (int i = 0; i < N; i++)
                            {
                                const Coord& c = ls->mesh.nodes[i].coord;
                                int k = inMask(m, c.x, c.y);
                                if (k == 1) { masked[i] = 1; want[i] = -1e-6; }
                                if (k == -1) e.count("boundary_node_undecided");
                            }
                            RefFMM r(w, h, want); r.march();
                            bool no = refused([&] { if (m.isHole) ls->mask(m.h); else ls->mask(m.p); });
                            e.t();
                            if (!e.expect(no == r.noContour, when + (no ? ": mask refused" : ": mask accepted without a contour")) || no) return false;
                            if (!settle(when)) return false;
                            for (int i = 0; i < N; i++)
                                if (!e.expect(want[i] == 0 ? ls->signedDistance[i] == 0 : (want[i] < 0) == (ls->signedDistance[i] < 0), when + fmt(": node %d changed side: %g -> %g", i, want[i], ls->signedDistance[i]))) return false;
                            // the re-distanced field is that of an unmasked level set holding the same values
                            LevelSet fresh(w, h, Holes(1, Hole(5, 4, 2)), 0.4, 3, fixed);
                            fresh.signedDistance = want; fresh.reinitialise(); e.t();
                            for (int i = 0; i < N; i++)
                                if (!e.expect(close(ls->signedDistance[i], fresh.signedDistance[i], 1e-12), when + fmt(": node %d level set %.9g, an unmasked level set gives %.9g", i, ls->signedDistance[i], fresh.signedDistance[i]))) return false;
                            return true;
                        };
                        bool ok = mask(menu[a], "first mask");
                        int k = hist;
                        for (int s = 0; s < depth && ok; s++, k /= nop)
                        {
                            int op = k % nop;
                            std::string when = fmt("step %d (%c)", s + 1, "gsamr"[op]);
                            if (op == 3) { ok = mask(menu[b], when); continue; }
                            bool re = false;
                            bool no = refused([&] {
                                if (op == 4) { ls->reinitialise(); return; }
                                Boundary B; B.discretise(*ls);
                                for (unsigned i = 0; i < B.points.size(); i++)
                                    B.points[i].velocity = op == 0 ? -1 : op == 1 ? 1 : (B.points[i].coord.x > 0.45 * w ? -1 : 0.7);
                                ls->computeVelocities(B.points);
                                ls->computeGradients();
                                re = ls->update(0.9);
                            });
                            e.t();
                            if (re) e.count("reinit");
                            // an update may remove the last of the structure, or fill the last hole: then re-distancing is refused
                            if (no) { e.count("contour_vanished"); e.expect(!hasContour(*ls), when + ": refused"); break; }
                            if (op == 4 || re) ok = settle(when);
                            else
                                for (int i = 0; i < N; i++)
                                {
                                    e.expect(ls->mesh.nodes[i].isMasked == (bool)masked[i], when + ": mask flag changed");
                                    if (masked[i]) e.expect(ls->signedDistance[i] <= 0 && !ls->mesh.nodes[i].isActive, when + fmt(": material entered masked node %d (%g)", i, ls->signedDistance[i]));
                                }
                        }
                        Hash o; o.v(ls->signedDistance); e.outcome(o);
                        e.done();
                    }
}
}
int mc_main(int argc, char** argv)
{
    return run(argc, argv, {{"C08", band, 60}, {"C09", holes, 60}, {"C10", polygons, 60}, {"C26", masks, 60}, {"C30", targets, 60}, {"C31", params, 60}, {"C32", cheese, 60}}, {"boundary_node_undecided", "reinit", "contour_vanished"});
}
