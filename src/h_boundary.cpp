// C13 boundary points, C14 segments, C15 areas, C17 move limits, C18 normals.
#include "mc.hpp"
#include "slsm_all.hpp"
#include "ref_boundary.hpp"
#include "fields.hpp"
#include <memory>
using namespace mc;
using namespace slsm;
using namespace fields;

namespace
{
typedef RefBoundary::Key Key;
struct Setup
{
    int w, h; std::vector<double> phi;
    unsigned bw = 1000; bool fixed = false, target = false, reinit = false;
    std::vector<char> active;       // explicit activity (else from the narrow band)
    std::vector<char> masked;
    double move = 0.5;
};
// Build the level set holding exactly this field, discretise it.
struct Built
{
    std::unique_ptr<LevelSet> ls; Boundary b; std::vector<double> phi; std::vector<char> on; bool ok;
};
Built build(Explorer& e, const Setup& s)
{
    Built r; r.ok = false;
    LevelSet* p = 0;
    bool no = refused([&] {
        if (s.target) p = new LevelSet(s.w, s.h, std::vector<Hole>(1, Hole(0.5 * s.w, 0.5 * s.h, 0.4 * std::min(s.w, s.h) + 0.1)), std::vector<Hole>(1, Hole(0.3 * s.w, 0.5 * s.h, 0.2 * std::min(s.w, s.h) + 0.1)), s.move, s.bw, s.fixed);
        else p = new LevelSet(s.w, s.h, std::vector<Hole>(1, Hole(0.5 * s.w, 0.5 * s.h, 0.4)), s.move, s.bw, s.fixed);
    });
    if (no) { e.expect(false, "constructor refused"); return r; }
    r.ls.reset(p);
    LevelSet& ls = *p;
    for (size_t i = 0; i < s.masked.size(); i++) ls.mesh.nodes[i].isMasked = s.masked[i];
    (s.target ? ls.target : ls.signedDistance) = s.phi;
    if (s.reinit) { no = refused([&] { ls.reinitialise(); }); if (no) { e.count("no_contour"); return r; } }
    for (size_t i = 0; i < s.active.size(); i++) ls.mesh.nodes[i].isActive = s.active[i];
    r.phi = s.target ? ls.target : ls.signedDistance;
    if (!s.target) for (auto& n : ls.mesh.nodes) r.on.push_back(n.isActive || n.isMasked);
    no = refused([&] { r.b.discretise(ls, s.target); });
    e.t();
    if (!e.expect(!no, "discretise refused")) return r;
    if (!e.expect(r.phi == (s.target ? ls.target : ls.signedDistance), "discretise changed the level set")) return r;
    r.ok = true;
    return r;
}
std::string show(Key k) { return k.first == k.second ? fmt("node %d", k.first) : fmt("edge %d-%d", k.first, k.second); }
// identify every boundary point with a node or an edge crossing: the lowest key of the
// reference whose position agrees (only keys at the corners of the surrounding cells can)
bool identify(Explorer& e, const Built& B, const RefBoundary& R, std::vector<Key>& key)
{
    for (size_t i = 0; i < B.b.points.size(); i++)
    {
        const Coord& c = B.b.points[i].coord;
        bool f = false;
        if (!e.expect(std::isfinite(c.x) && std::isfinite(c.y) && c.x >= -1 && c.y >= -1 && c.x <= R.w + 1 && c.y <= R.h + 1, fmt("boundary point %zu at (%.12g,%.12g) is outside the domain", i, c.x, c.y))) return false;
        std::set<Key> cand;
        int x0 = (int)std::floor(c.x + 0.5), y0 = (int)std::floor(c.y + 0.5);
        for (int y = std::max(0, y0 - 1); y <= std::min(R.h, y0 + 1); y++)
            for (int x = std::max(0, x0 - 1); x <= std::min(R.w, x0 + 1); x++)
            {
                int n = y * R.W + x;
                cand.insert(Key(n, n));
                if (x < R.w) cand.insert(Key(n, n + 1));
                if (y < R.h) cand.insert(Key(n, n + R.W));
            }
        for (auto& k : cand) { auto q = R.pts.find(k); if (q != R.pts.end() && std::abs(q->second.first - c.x) < 1e-9 && std::abs(q->second.second - c.y) < 1e-9) { key.push_back(k); f = true; break; } }
        if (!f) for (auto& k : cand) { auto q = R.maybe.find(k); if (q != R.maybe.end() && q->second.first == c.x && q->second.second == c.y) { key.push_back(k); f = true; break; } }
        if (!e.expect(f, fmt("boundary point %zu at (%.12g,%.12g) is not on the zero contour", i, c.x, c.y))) return false;
    }
    return true;
}
bool points(Explorer& e, const Built& B, const RefBoundary& R, std::vector<Key>& key)
{
    const LevelSet& ls = *B.ls;
    if (!e.expect(B.b.nPoints == B.b.points.size(), "nPoints")) return false;
    if (!identify(e, B, R, key)) return false;
    std::map<Key, int> seen;
    for (size_t i = 0; i < key.size(); i++)
        if (!e.expect(++seen[key[i]] == 1, "two boundary points for " + show(key[i]))) return false;
    for (auto& q : R.pts)
        if (!e.expect(seen.count(q.first), "no boundary point for " + show(q.first))) return false;
    std::vector<std::multiset<unsigned>> at(ls.mesh.nodes.size());
    for (size_t i = 0; i < key.size(); i++) { at[key[i].first].insert(i); if (key[i].second != key[i].first) at[key[i].second].insert(i); }
    for (size_t n = 0; n < ls.mesh.nodes.size(); n++)
    {
        const Node& N = ls.mesh.nodes[n];
        int s = N.status == NodeStatus::INSIDE ? RefBoundary::IN : N.status == NodeStatus::OUTSIDE ? RefBoundary::OUT : N.status == NodeStatus::BOUNDARY ? RefBoundary::BND : 0;
        if (!e.expect(s == R.st[n], fmt("node %zu has status %d", n, N.status))) return false;
        std::multiset<unsigned> got;
        if (!e.expect(N.nBoundaryPoints <= N.boundaryPoints.size(), fmt("node %zu lists %u boundary points", n, N.nBoundaryPoints))) return false;
        for (unsigned k = 0; k < N.nBoundaryPoints; k++) got.insert(N.boundaryPoints[k]);
        if (!e.expect(got == at[n], fmt("node %zu lists the wrong boundary points", n))) return false;
    }
    return true;
}
bool segments(Explorer& e, const Built& B, const RefBoundary& R, const std::vector<Key>& key)
{
    const LevelSet& ls = *B.ls; const Boundary& b = B.b;
    if (!e.expect(b.nSegments == b.segments.size(), "nSegments")) return false;
    double total = 0;
    std::vector<double> share(b.points.size(), 0);
    std::vector<std::multiset<unsigned>> sl(b.points.size()), nl(b.points.size());
    std::vector<std::vector<unsigned>> per(ls.mesh.nElements);
    for (size_t i = 0; i < b.segments.size(); i++)
    {
        const BoundarySegment& s = b.segments[i];
        if (!e.expect(s.start < b.points.size() && s.end < b.points.size() && s.element < ls.mesh.nElements, fmt("segment %zu has a dangling index", i))) return false;
        double d = std::hypot(b.points[s.start].coord.x - b.points[s.end].coord.x, b.points[s.start].coord.y - b.points[s.end].coord.y);
        if (!e.expect(close(s.length, d, 1e-9), fmt("segment %zu length %.12g, end points are %.12g apart", i, s.length, d))) return false;
        total += d; share[s.start] += d / 2; share[s.end] += d / 2;
        sl[s.start].insert(i); sl[s.end].insert(i); nl[s.start].insert(s.end); nl[s.end].insert(s.start);
        per[s.element].push_back(i);
    }
    if (!e.expect(close(b.length, total, 1e-9), fmt("length %.12g, sum of segments %.12g", b.length, total))) return false;
    for (unsigned k = 0; k < ls.mesh.nElements; k++)
    {
        const Element& el = ls.mesh.elements[k];
        if (!e.expect(el.nBoundarySegments <= el.boundarySegments.size(), fmt("element %u lists %u segments", k, el.nBoundarySegments))) return false;
        std::multiset<unsigned> g(el.boundarySegments.begin(), el.boundarySegments.begin() + el.nBoundarySegments), w(per[k].begin(), per[k].end());
        if (!e.expect(g == w, fmt("element %u lists the wrong segments", k))) return false;
        int st = el.status, want = R.est[k] == RefBoundary::IN ? ElementStatus::INSIDE : R.est[k] == RefBoundary::OUT ? ElementStatus::OUTSIDE : 0;
        if (R.nearTie[k]) continue;
        if (R.whole[k])
        {
            if (R.saddle[k]) want = R.saddle[k] == 1 ? ElementStatus::CENTRE_INSIDE : ElementStatus::CENTRE_OUTSIDE;
            if (!e.expect(st == want, fmt("element %u has status %d, expected %d", k, st, want))) return false;
        }
        std::multiset<std::pair<Key, Key>> got, exp;
        for (unsigned i : per[k]) { Key a = key[b.segments[i].start], c = key[b.segments[i].end]; if (c < a) std::swap(a, c); got.insert({a, c}); }
        for (auto q : R.seg[k]) { if (q.second < q.first) std::swap(q.first, q.second); exp.insert(q); }
        if (R.whole[k])
        {
            if (!e.expect(got == exp, fmt("element %u: %zu segments, expected %zu%s", k, got.size(), exp.size(), got.size() == exp.size() ? " others" : ""))) return false;
        }
        else
        {
            // part of the element lies outside the band: segments may be missing, but none may be invented
            e.count("partly_visible_element");
            int n[4]; R.corners(k, n);
            for (auto& q : got)
                for (Key c : {q.first, q.second})
                    if (!e.expect(std::count(n, n + 4, c.first) && std::count(n, n + 4, c.second), fmt("element %u: segment leaves the element", k))) return false;
        }
    }
    for (size_t i = 0; i < b.points.size(); i++)
    {
        const BoundaryPoint& p = b.points[i];
        if (!e.expect(close(p.length, share[i], 1e-9), fmt("point %zu length %.12g, half of its segments %.12g", i, p.length, share[i]))) return false;
        if (!e.expect(p.nSegments <= p.segments.size() && p.nNeighbours <= p.neighbours.size(), fmt("point %zu counts exceed its lists", i))) return false;
        std::multiset<unsigned> s(p.segments.begin(), p.segments.begin() + p.nSegments), n(p.neighbours.begin(), p.neighbours.begin() + p.nNeighbours);
        if (!e.expect(s == sl[i], fmt("point %zu lists the wrong segments", i))) return false;
        if (!e.expect(n == nl[i], fmt("point %zu lists the wrong neighbours", i))) return false;
        if (p.nSegments > 2) e.count("point_with_more_than_two_segments");
        // closedness
        bool inner = true;
        std::set<int> els;
        for (int nd : {key[i].first, key[i].second})
        {
            int x = nd % R.W, y = nd / R.W;
            if (key[i].first == key[i].second ? (x == 0 || y == 0 || x == R.w || y == R.h) : false) inner = false;
        }
        if (key[i].first != key[i].second)
        {
            int x1 = key[i].first % R.W, x2 = key[i].second % R.W, y1 = key[i].first / R.W, y2 = key[i].second / R.W;
            if ((x1 == x2 && (x1 == 0 || x1 == R.w)) || (y1 == y2 && (y1 == 0 || y1 == R.h))) inner = false;
        }
        for (int ey = key[i].first / R.W - 1; ey <= key[i].first / R.W; ey++) for (int ex = key[i].first % R.W - 1; ex <= key[i].first % R.W; ex++)
        {
            if (ex < 0 || ey < 0 || ex >= R.w || ey >= R.h) continue;
            int k = ey * R.w + ex, n4[4]; R.corners(k, n4);
            if (std::count(n4, n4 + 4, key[i].first) && std::count(n4, n4 + 4, key[i].second) && !R.whole[k]) inner = false;
        }
        if (inner && !e.expect(p.nSegments >= 2 && p.nSegments % 2 == 0, fmt("the contour ends at interior point %zu (%s): %u segments", i, show(key[i]).c_str(), p.nSegments))) return false;
    }
    return true;
}
void areas(Explorer& e, Built& B, const RefBoundary& R, const Setup& s)
{
    LevelSet& ls = *B.ls;
    double total = 0, sum = 0;
    bool no = refused([&] { total = ls.computeAreaFractions(B.b); });
    e.t();
    if (!e.expect(!no, "computeAreaFractions refused")) return;
    std::vector<double> a;
    for (unsigned k = 0; k < ls.mesh.nElements; k++)
    {
        double v = ls.mesh.elements[k].area;
        a.push_back(v); sum += v;
        if (!e.expect(v >= -1e-12 && v <= 1 + 1e-12, fmt("element %u area %.12g", k, v))) return;
        if (!R.whole[k] || R.nearTie[k]) continue;
        if (R.saddle[k]) e.count("saddle");
        if (R.saddle[k] == 2) e.count("saddle_tie");
        if (R.saddle[k] && ls.mesh.elements[k].nBoundarySegments == 2)
        {
            // each of the two segments cuts one corner off: the area must be that on the inside of the segments drawn
            double in = 0, out = 0; int nin = 0, nout = 0;
            int n[4]; R.corners(k, n);
            for (unsigned i = 0; i < 2; i++)
            {
                const BoundarySegment& g = B.b.segments[ls.mesh.elements[k].boundarySegments[i]];
                const Coord &p = B.b.points[g.start].coord, &q = B.b.points[g.end].coord;
                for (int c : n)
                {
                    double cx = c % R.W, cy = c / R.W;
                    bool px = std::abs(p.x - cx) < 1e-9, py = std::abs(p.y - cy) < 1e-9, qx = std::abs(q.x - cx) < 1e-9, qy = std::abs(q.y - cy) < 1e-9;
                    if (!((px && qy) || (py && qx))) continue;
                    double t = 0.5 * std::abs((p.x - cx) * (q.y - cy) - (p.y - cy) * (q.x - cx));
                    if (R.st[c] == RefBoundary::IN) { in += t; nin++; } else { out += t; nout++; }
                }
            }
            double want = nin == 2 && !nout ? in : nout == 2 && !nin ? 1 - out : -1;
            if (want >= 0 && !e.expect(close(v, want, 1e-9), fmt("element %u area %.12g, area inside its two segments %.12g", k, v, want))) return;
        }
        if (!e.expect(close(v, R.area[k], 1e-9), fmt("element %u area %.12g, enclosed area %.12g", k, v, R.area[k]))) return;
    }
    if (!e.expect(close(total, sum, 1e-9), fmt("total area %.12g, sum of fractions %.12g", total, sum))) return;
    // inside <-> outside
    if (s.reinit) return;
    Setup t = s; for (auto& v : t.phi) v = -v;
    Built C = build(e, t);
    if (!C.ok) return;
    no = refused([&] { C.ls->computeAreaFractions(C.b); });
    if (!e.expect(!no, "computeAreaFractions refused")) return;
    for (unsigned k = 0; k < ls.mesh.nElements; k++)
    {
        int n[4]; R.corners(k, n);
        bool zeroEdge = false; for (int i = 0; i < 4; i++) zeroEdge |= R.st[n[i]] == RefBoundary::BND && R.st[n[(i + 1) % 4]] == RefBoundary::BND;
        if (zeroEdge || R.saddle[k] == 2 || R.nearTie[k] || !R.whole[k]) continue;
        if (!e.expect(close(a[k] + C.ls->mesh.elements[k].area, 1, 1e-9), fmt("element %u: area %.12g, inverted %.12g", k, a[k], C.ls->mesh.elements[k].area))) return;
    }
}
void normals(Explorer& e, Built& B, const RefBoundary& R, const std::vector<Key>& key)
{
    LevelSet& ls = *B.ls;
    bool no = refused([&] { B.b.computeNormalVectors(ls); });
    e.t();
    if (!e.expect(!no, "computeNormalVectors refused")) return;
    auto P = [&](int x, int y) { return ls.signedDistance[y * R.W + x]; };
    std::vector<char> band(ls.mesh.nNodes, 0);
    for (unsigned i = 0; i < ls.nNarrowBand; i++) band[ls.narrowBand[i]] = 1;
    for (size_t i = 0; i < key.size(); i++)
    {
        const BoundaryPoint& p = B.b.points[i];
        if (p.isDomain) e.count("domain_point");
        double sx = 0, sy = 0; bool exact = false, edge = false; double wsum = 0;
        std::set<int> nd = {key[i].first, key[i].second};
        for (int n : nd)
        {
            if (!band[n]) continue;
            int x = n % R.W, y = n / R.W;
            double gx = x == 0 ? P(1, y) - P(0, y) : x == R.w ? P(x, y) - P(x - 1, y) : (P(x + 1, y) - P(x - 1, y)) / 2;
            double gy = y == 0 ? P(x, 1) - P(x, 0) : y == R.h ? P(x, y) - P(x, y - 1) : (P(x, y + 1) - P(x, y - 1)) / 2;
            double g = std::hypot(gx, gy);
            if (g == 0) { e.count("zero_gradient_node"); continue; }
            if (g < 1e-9) edge = true;
            double r2 = (x - p.coord.x) * (x - p.coord.x) + (y - p.coord.y) * (y - p.coord.y);
            if (std::abs(r2 - 1e-6) < 1e-9) edge = true;
            if (r2 < 1e-6) { exact = true; sx = gx / g; sy = gy / g; wsum = 1; }
            else if (!exact) { sx += gx / g / r2; sy += gy / g / r2; wsum += 1 / r2; }
        }
        if (!e.expect(std::isfinite(p.normal.x) && std::isfinite(p.normal.y), fmt("normal of point %zu is (%g,%g)", i, p.normal.x, p.normal.y))) return;
        if (edge) continue;
        if (wsum == 0) { e.count("undefined_normal"); continue; }
        double l = std::hypot(sx, sy);
        if (l / wsum < 1e-6) { e.count("undefined_normal"); continue; }
        if (!e.expect(std::abs(std::hypot(p.normal.x, p.normal.y) - 1) < 1e-9, fmt("normal of point %zu has length %.12g", i, std::hypot(p.normal.x, p.normal.y)))) return;
        if (!e.expect(std::hypot(p.normal.x - sx / l, p.normal.y - sy / l) < 1e-7, fmt("normal of point %zu (%s) is (%.9g,%.9g), expected (%.9g,%.9g)", i, show(key[i]).c_str(), p.normal.x, p.normal.y, sx / l, sy / l))) return;
    }
}
enum { PTS = 1, SEG = 2, AREA = 4, NORM = 8 };
void one(Explorer& e, const Setup& s, int what, const std::string& name)
{
    e.describe(name, s.phi.size() > 5000 ? fmt("w=%d, %zu nodes", s.w, s.phi.size()) : fields::show(s.phi, s.w));
    Built B = build(e, s);
    if (B.ok)
    {
        RefBoundary R(s.w, s.h, B.phi, B.on);
        std::vector<Key> key;
        bool ok = true;
        if (what & PTS) ok = points(e, B, R, key);
        else ok = identify(e, B, R, key);
        if (ok && (what & SEG)) ok = segments(e, B, R, key);
        if (ok && (what & AREA)) areas(e, B, R, s);
        if (ok && (what & NORM)) normals(e, B, R, key);
        Hash q; q.u(s.w); q.u(s.target); q.v(B.phi); for (char c : B.on) q.u(c); e.state(q);
        Hash o; for (int x : R.st) o.u(x); if (what & (AREA | NORM)) { for (double a : R.area) o.d(a); } e.outcome(o);
    }
    e.done();
}
std::string word(const std::vector<int>& s) { std::string r; for (int d : s) r += "+-0"[d]; return r; }
// every sign word on a w x h mesh
void words(Explorer& e, int what, int w, int h, int k, const std::vector<int>& schemes, const std::function<void(Setup&)>& opt, const std::string& tag, int stride = 1)
{
    std::vector<int> s((w + 1) * (h + 1), 0);
    u64 c = 0;
    do
    {
        if (c++ % stride) continue;
        for (int sc : schemes)
        {
            if (!e.take()) continue;
            Setup q; q.w = w; q.h = h; q.phi = signs(s, sc);
            opt(q);
            one(e, q, what, fmt("%s%dx%d s%d %s", tag.c_str(), w, h, sc, word(s).c_str()));
        }
    } while (next(s, k));
}
void common(Explorer& e, int what)
{
    auto none = [](Setup&) {};
    bool T = e.thorough, norm = what & NORM;
    words(e, what, 1, 1, 3, {0, 1, 2, 3, 4, 6, 7}, none, "");
    words(e, what, 2, 1, 3, {0, 1, 2, 3, 4, 6, 7}, none, "");
    words(e, what, 1, 3, 3, {0, 1, 2, 4, 6, 7}, none, "");
    words(e, what, 2, 2, 3, {0, 1, 2, 3, 4, 6, 7}, none, "");
    words(e, what, 3, 3, 2, {6, 7}, none, "", T ? 1 : 7);
    if (T) words(e, what, 3, 2, 3, {0, 1, 2, 4}, none, ""); else words(e, what, 3, 2, 3, {0, 1}, none, "", 2);
    words(e, what, 3, 3, 2, T ? std::vector<int>{0, 1, 2, 3, 4} : std::vector<int>{1}, none, "");
    if (T) words(e, what, 4, 3, 2, {1, 2}, none, "");
    if (T) words(e, what, 3, 3, 3, {1}, none, "", 31);
    if (!norm && !(what & AREA))
    {
        words(e, what, 2, 2, 3, T ? std::vector<int>{0, 1, 2} : std::vector<int>{1}, [](Setup& s) { s.target = true; }, "target ");
        // the target is discretised whatever the narrow band is
        words(e, what, 2, 2, 3, {2}, [](Setup& s) { s.target = true; s.active.assign(9, 0); }, "target inactive ", T ? 1 : 3);
        // activity: every subset of active nodes
        for (int m = 0; m < 512; m++)
            words(e, what, 2, 2, 3, {0}, [m](Setup& s) { s.active.resize(9); for (int i = 0; i < 9; i++) s.active[i] = m >> i & 1; }, fmt("active=%03x ", m), T ? 5 : 61);
        for (int m = 0; m < 16; m++)
            words(e, what, 1, 1, 3, {0, 1}, [m](Setup& s) { s.active.resize(4); for (int i = 0; i < 4; i++) s.active[i] = m >> i & 1; }, fmt("active=%x ", m));
        for (int m = 1; m < 16; m++)
            words(e, what, 1, 1, 3, {0, 1}, [m](Setup& s) { s.active.assign(4, 0); s.masked.resize(4); for (int i = 0; i < 4; i++) s.masked[i] = m >> i & 1; }, fmt("masked=%x ", m));
    }
    // more nodes, elements, points and segments than a 16-bit index can hold
    for (auto& sz : {std::make_pair(270, 260), std::make_pair(2, 23000), std::make_pair(23000, 2)})
        for (int k = 0; k < 4; k++)
        {
            if (!e.take()) continue;
            Setup q; q.w = sz.first; q.h = sz.second;
            auto field = [&](double x, double y) {
                int i = (int)(y * (q.w + 1) + x);
                if (k == 0) return ((int)(x + y) % 2 ? -1 : 1) * mag(1, i);                                 // every edge cut
                if (k == 1) return std::hypot(x - 0.5 * q.w, y - 0.5 * q.h) - 0.43 * std::min(q.w, q.h);
                if (k == 2) { double f = mag(1, i * 3 + 1); return f < 0.6 ? -f : f > 1 ? 0.0 : f; }       // all three statuses mixed
                return (q.w > q.h ? x - q.w : y - q.h) + 7.3 - 0.02 * (q.w > q.h ? y : x);                   // contour near the far end only
            };
            q.phi = fill(q.w, q.h, field);
            if (k == 3 && !norm && !(what & AREA)) q.target = true;
            one(e, q, what, fmt("large %dx%d field %d", q.w, q.h, k));
        }
    // every small mesh size, and sizes around powers of two
    for (auto& sz : sizes(T ? 40 : 16, T))
        for (int k = 0; k < 3; k++)
            for (int re = 0; re < (k == 1 ? 2 : 1); re++)
            {
                if (!e.take()) continue;
                Setup q; q.w = sz.first; q.h = sz.second; q.phi = waves(q.w, q.h, k); q.reinit = re; if (re) q.bw = 4;
                one(e, q, what, fmt("%ssize %dx%d field %d", re ? "redistanced " : "", q.w, q.h, k));
            }
    // genuine distance functions: re-distanced words, real band widths and fixed domains
    for (int fixed = 0; fixed < 2; fixed++)
        for (unsigned bw : {3u, 1000u})
        {
            auto opt = [=](Setup& s) { s.reinit = true; s.bw = bw; s.fixed = fixed; };
            std::string tag = fmt("redistanced bw=%u fixed=%d ", bw, fixed);
            words(e, what, 2, 2, 3, {1, 2}, opt, tag);
            words(e, what, 3, 3, 2, {1}, opt, tag, T ? 1 : 7);
            words(e, what, 3, 2, 3, {2}, opt, tag, T ? 3 : 41);
        }
    for (auto& s : {std::make_pair(7, 7), std::make_pair(11, 6)})
        for (int k = 0; k < 3; k++)
        {
            std::vector<Named> f;
            for (double a = 0; a < 360; a += T ? 7.5 : 15) for (double o : {-2.2, -1.5, -1.0, -0.5, -0.3, 0.0, 0.17, 0.5, 1.0, 2.6}) f.push_back({fmt("line(%g,%g)", a, o), s.first, s.second, line(s.first, s.second, a, o)});
            for (double cx : {0.5 * s.first, 3.0, 2.3, 0.0}) for (double cy : {0.5 * s.second, 2.0, 3.7}) for (double r : {0.5, 1.0, 1.5, 2.0, 2.7, 4.4}) for (int g : {-1, 1})
                f.push_back({fmt("circle(%g,%g,%g,%d)", cx, cy, r, g), s.first, s.second, circle(s.first, s.second, cx, cy, r, g)});
            // thin strips and pairs of holes
            for (double t : {0.4, 0.5, 0.9, 1.0, 1.5}) for (double c : {3.0, 3.3, 3.5})
                f.push_back({fmt("strip(%g,%g)", c, t), s.first, s.second, fill(s.first, s.second, [=](double x, double) { return t - std::abs(x - c); })}),
                f.push_back({fmt("two(%g,%g)", c, t), s.first, s.second, fill(s.first, s.second, [=](double x, double y) { return std::min(std::hypot(x - c + 1.5, y - 3) - t, std::hypot(x - c - 1.5, y - 3) - t); })});
            for (auto& n : f)
            {
                if (!e.take()) continue;
                Setup q; q.w = n.w; q.h = n.h; q.phi = n.phi;
                if (k) { q.reinit = true; q.bw = 3; q.fixed = k == 2; }
                one(e, q, what, fmt("%s%dx%d %s", k == 0 ? "" : k == 1 ? "redistanced " : "redistanced fixed ", n.w, n.h, n.name.c_str()));
            }
        }
}
void c13(Explorer& e) { common(e, PTS); }
void c14(Explorer& e) { common(e, PTS | SEG); }
void c15(Explorer& e) { common(e, AREA); }
void c18(Explorer& e)
{
    common(e, NORM);
    // planar contours: exactly the plane's normal, also next to the mesh edge
    for (auto& s : {std::make_pair(6, 6), std::make_pair(4, 9), std::make_pair(1, 5)})
        for (double a = 0; a < 360; a += e.thorough ? 3.75 : 7.5)
            for (double o = -3; o <= 3; o += e.thorough ? 0.173 : 0.371)
            {
                if (!e.take()) continue;
                Setup q; q.w = s.first; q.h = s.second; q.phi = line(q.w, q.h, a, o);
                e.describe(fmt("plane %dx%d angle=%g offset=%g", q.w, q.h, a, o));
                Built B = build(e, q);
                if (B.ok)
                {
                    refused([&] { B.b.computeNormalVectors(*B.ls); });
                    e.t();
                    double cx = std::cos(a * M_PI / 180), cy = std::sin(a * M_PI / 180);
                    for (auto& p : B.b.points)
                        e.expect(std::hypot(p.normal.x - cx, p.normal.y - cy) < 1e-9, fmt("normal at (%g,%g) is (%.9g,%.9g), plane normal (%.9g,%.9g)", p.coord.x, p.coord.y, p.normal.x, p.normal.y, cx, cy));
                    Hash h; h.u(q.w); h.d(a); h.d(o); e.state(h);
                }
                e.done();
            }
}
// ------------------------------------------------------------ C17
void limits(Explorer& e, int w, int h, const std::string& name, const std::vector<double>& phi, double mv, const std::vector<char>& mask, size_t m)
{
    Setup q; q.w = w; q.h = h; q.phi = phi; q.masked = mask; q.move = mv;
    e.describe(fmt("%dx%d %s move=%g mask=%zu", w, h, name.c_str(), mv, m), fields::show(phi, w));
    Built B = build(e, q);
    Hash o;
    if (B.ok)
        for (size_t i = 0; i < B.b.points.size() && !e.failedCase; i++)
        {
            const BoundaryPoint& p = B.b.points[i];
            double x = p.coord.x, y = p.coord.y;
            double mb = std::min(std::min(x, w - x), std::min(y, h - y)), neg = -mv;
            bool dom = false, fix = false;
            if (mb < mv) { neg = -mb; dom = mb < 1e-6; }
            // nearest node; a tie is decided by neither side unless both agree
            double fx = x - std::floor(x), fy = y - std::floor(y);
            bool tie = std::abs(fx - 0.5) < 1e-9 || std::abs(fy - 0.5) < 1e-9 || std::abs(mb - 1e-6) < 1e-9;
            int nx = std::min(w, (int)std::floor(x + 0.5)), ny = std::min(h, (int)std::floor(y + 0.5));
            if (tie)
            {
                std::set<int> c;
                for (double dx : {-1e-6, 1e-6}) for (double dy : {-1e-6, 1e-6})
                    c.insert(mask[std::max(0, std::min(h, (int)std::floor(y + dy + 0.5))) * (w + 1) + std::max(0, std::min(w, (int)std::floor(x + dx + 0.5)))]);
                if (c.size() > 1) { e.count("nearest_node_tie"); continue; }
            }
            if (mask[ny * (w + 1) + nx])
            {
                double d = std::hypot(x - nx, y - ny);
                if (std::abs(x - nx) < 1e-6 && std::abs(y - ny) < 1e-6) { fix = true; e.count("fixed_point"); }
                else if (-d > neg) { neg = -d; e.count("mask_limited_point"); }
            }
            if (dom) e.count("domain_point");
            std::string at = fmt("point at (%.9g,%.9g): ", x, y);
            e.expect(p.positiveLimit == mv, at + fmt("positive limit %.12g", p.positiveLimit));
            e.expect(std::abs(p.negativeLimit - neg) < 1e-9, at + fmt("negative limit %.12g, expected %.12g", p.negativeLimit, neg));
            e.expect(p.isDomain == dom, at + fmt("isDomain=%d", p.isDomain));
            e.expect(p.isFixed == fix, at + fmt("isFixed=%d", p.isFixed));
            o.d(neg); o.u(dom); o.u(fix);
            e.state(Hash().d(x).d(y).d(mv).u(m).u(w));
        }
    e.outcome(o);
    e.done();
}
void c17(Explorer& e)
{
    bool T = e.thorough;
    for (auto& sz : sizes(T ? 40 : 20, T))
        for (int k = 0; k < 3; k++)
            for (double mv : {0.1, 0.5, 0.9})
            {
                if (!e.take()) continue;
                int N = (sz.first + 1) * (sz.second + 1);
                std::vector<char> m(N);
                for (int i = 0; i < N; i++) m[i] = mag(1, i + k) < 0.5;
                limits(e, sz.first, sz.second, fmt("size, field %d", k), waves(sz.first, sz.second, k), mv, m, 1000 + k);
            }
    // contours that pass within a hair of a row or column of nodes, and of the edge of the domain
    for (auto& sz : {std::make_pair(3, 4), std::make_pair(5, 2)})
    {
        int w = sz.first, h = sz.second, N = (w + 1) * (h + 1);
        for (int dir = 0; dir < 2; dir++) for (int at = 0; at <= (dir ? h : w); at++) for (int side = -1; side <= 1; side += 2) for (int sign = -1; sign <= 1; sign += 2)
            for (double hair : {5e-9, 1e-7, 5e-7, 9e-7, 1.1e-6, 2e-6, 5e-6, 3e-5, 1e-4, 1e-3, 0.02, 0.0999, 0.1001, 0.2499, 0.2501, 0.4999, 0.5001, 0.7499, 0.7501})
                for (double mv : {0.1, 0.25, 0.5, 0.75}) for (int m = 0; m < 4; m++)
                {
                    double c = at + side * hair;
                    if (c < 0 || c > (dir ? h : w)) continue;
                    if (!e.take()) continue;
                    std::vector<char> mask(N, m == 1);
                    if (m > 1) for (int i = 0; i < N; i++) mask[i] = (i % (w + 1) + i / (w + 1) + m) % 2;
                    limits(e, w, h, fmt("%s %.9g sign %d", dir ? "y" : "x", c, sign), fill(w, h, [=](double x, double y) { return sign * 3000 * ((dir ? y : x) - c); }), mv, mask, 5000 + m);
                }
    }
    for (auto& sz : {std::make_pair(4, 4), std::make_pair(5, 2), std::make_pair(1, 3)})
    {
        int w = sz.first, h = sz.second, N = (w + 1) * (h + 1);
        std::vector<Named> f;
        for (double a : {0.0, 90.0, 180.0, 270.0, 45.0, 30.0, 135.0, 200.0})
            for (double x = -0.5 * std::max(w, h) - 0.1; x <= 0.5 * std::max(w, h) + 0.1; x += T ? 0.05 : 0.1)
                f.push_back({fmt("line(%g,%g)", a, x), w, h, line(w, h, a, x)});
        for (double r : {0.3, 0.7, 1.0, 1.3, 2.1}) for (double cx : {0.0, 1.0, 1.6, (double)w}) for (double cy : {0.0, 1.0, 1.4, (double)h}) for (int g : {-1, 1})
            f.push_back({fmt("circle(%g,%g,%g,%d)", cx, cy, r, g), w, h, circle(w, h, cx, cy, r, g)});
        std::vector<std::vector<char>> masks;
        masks.push_back(std::vector<char>(N, 0)); masks.push_back(std::vector<char>(N, 1));
        for (int i = 0; i < N; i++) { std::vector<char> m(N, 0); m[i] = 1; masks.push_back(m); }
        for (int k = 0; k < 2; k++) { std::vector<char> m(N, 0); for (int i = 0; i < N; i++) m[i] = (i % (w + 1) + i / (w + 1) + k) % 2; masks.push_back(m); }
        for (auto& n : f)
            for (double mv : {0.05, 0.1, 0.25, 0.5, 0.75, 0.999})
                for (size_t m = 0; m < masks.size(); m++)
                {
                    if (!T && m > 1 && m + 2 < masks.size() && mv != 0.25 && mv != 0.75) continue;
                    if (!e.take()) continue;
                    limits(e, w, h, n.name, n.phi, mv, masks[m], m);
                }
    }
}
}
int mc_main(int argc, char** argv)
{
    return run(argc, argv, {{"C13", c13, 60}, {"C14", c14, 60}, {"C15", c15, 60}, {"C17", c17, 60}, {"C18", c18, 60}},
               {"no_contour", "partly_visible_element", "point_with_more_than_two_segments", "saddle", "saddle_tie", "zero_gradient_node", "undefined_normal", "domain_point", "fixed_point", "mask_limited_point", "nearest_node_tie"});
}
