// C16 independence of history, C33 programs of public calls.
#include "mc.hpp"
#include "slsm_all.hpp"
#include "fields.hpp"
#include "snap.hpp"
#include <memory>
#include <unordered_map>
using namespace mc;
using namespace slsm;
using namespace fields;
typedef std::vector<Hole> Holes;
typedef std::vector<Coord> Poly;
typedef std::vector<double> V;
namespace
{
struct Start { std::string name; int w, h; Holes holes; Poly poly; int target; unsigned bw; bool fixed; double move; };
std::vector<Start> starts(bool big, bool thorough)
{
    std::vector<Start> r;
    std::vector<std::pair<int, int>> sz = {{5, 4}, {3, 3}, {7, 2}, {2, 2}, {1, 1}};
    if (thorough) { sz.push_back({8, 8}); sz.push_back({4, 6}); sz.push_back({1, 4}); }
    if (big) { sz.push_back({12, 12}); }
    for (auto z : sz)
    {
        int w = z.first, h = z.second; double m = std::min(w, h);
        for (int k = 0; k < 8; k++)
        {
            Start s; s.w = w; s.h = h; s.target = 0; s.bw = k % 2 ? 3 : 6; s.fixed = k % 3 == 1; s.move = k % 4 == 3 ? 0.1 : 0.5;
            if (k == 0) s.holes = {};
            if (k == 1) s.holes = {Hole(0.5 * w + 0.1, 0.5 * h - 0.05, 0.31 * m)};
            if (k == 2) s.holes = {Hole(0, 0, 0.7 * m), Hole(w, h, 0.45 * m)};
            if (k == 3) s.holes = {Hole(0.5 * w, 0.5 * h, 0.4 * m), Hole(1, 1, 1e-9), Hole(1, 0, 0)};
            if (k == 4) { s.holes = {Hole(0.3 * w, 0.4 * h, 0.25 * m), Hole(0.8 * w, 0.6 * h, 0.3 * m)}; s.target = 1; }
            if (k == 5) { s.poly = {Coord(0.2 * w, 0.1 * h), Coord(0.9 * w, 0.3 * h), Coord(0.5 * w, 0.95 * h), Coord(0.2 * w, 0.1 * h)}; }
            if (k == 6) { s.holes = {Hole(0.5 * w, 0.5 * h, 0.3 * m)}; s.poly = {Coord(0.25 * w, 0.25 * h), Coord(0.75 * w, 0.25 * h), Coord(0.75 * w, 0.75 * h), Coord(0.25 * w, 0.75 * h), Coord(0.25 * w, 0.25 * h)}; s.target = 2; }
            if (k == 7) { s.poly = {Coord(0, 0), Coord(w, 0), Coord(w, 0.5 * h), Coord(0, 0.5 * h), Coord(0, 0)}; s.target = 3; }
            s.name = fmt("%dx%d structure %d band %u%s move %g", w, h, k, s.bw, s.fixed ? " fixed" : "", s.move);
            r.push_back(s);
        }
    }
    return r;
}
LevelSet* build(const Start& s)
{
    Holes th = {Hole(0.55 * s.w, 0.45 * s.h, 0.33 * std::min(s.w, s.h))};
    if (s.target == 0 && s.poly.empty()) return new LevelSet(s.w, s.h, s.holes, s.move, s.bw, s.fixed);
    if (s.target == 0) return new LevelSet(s.w, s.h, s.poly, s.move, s.bw, s.fixed);
    if (s.target == 1) return new LevelSet(s.w, s.h, s.holes, th, s.move, s.bw, s.fixed);
    if (s.target == 2) return new LevelSet(s.w, s.h, s.holes, s.poly, s.move, s.bw, s.fixed);
    return new LevelSet(s.w, s.h, s.poly, s.poly, s.move, s.bw, s.fixed);
}
bool contour(const V& p)
{
    bool pos = false, neg = false;
    for (double v : p) { if (v == 0) return true; (v > 0 ? pos : neg) = true; }
    return pos && neg;
}
// ---------------------------------------------------------------- operations
enum Op { D, T, A, V0, V1, V2, NZ, G, U, UB, R, M1, M2, P, S, NOPS };
const char* opName[NOPS] = {"discretise", "discretise-target", "areas", "velocities-mixed", "velocities-grow", "velocities-shrink", "velocities-noise", "gradients", "update", "update-back",
                            "reinitialise", "mask-rectangle", "mask-hole", "normals", "ito"};
struct World
{
    std::unique_ptr<LevelSet> L; std::unique_ptr<Boundary> B;
    bool current;       // B describes L's zero contour
    bool any;           // B has been discretised at all
    bool onTarget, fixed;
    World() : current(false), any(false), onTarget(false), fixed(false) {}
    World(const World& o) : L(new LevelSet(*o.L)), B(new Boundary(*o.B)), current(o.current), any(o.any), onTarget(o.onTarget), fixed(o.fixed) {}
};
bool legal(const World& w, int op)
{
    bool cont = contour(w.L->signedDistance);
    switch (op)
    {
    case D: return true;
    case T: return !w.L->target.empty() && w.L->target.size() == w.L->mesh.nNodes && contour(w.L->target);
    case A: return w.any && (w.current || w.onTarget);
    case V0: case V1: case V2: return w.current && cont && w.B->nPoints > 0;
    case NZ: return w.current && cont && w.B->nPoints > 0;
    case G: case U: case UB: return true;
    case R: return cont;
    case M1: case M2: return true;
    case P: return w.current;
    case S: return w.current;
    }
    return false;
}
Poly rect(const LevelSet& l) { return {Coord(-0.5, 0.35 * l.mesh.height), Coord(0.45 * l.mesh.width, 0.8 * l.mesh.height)}; }
Holes hole(const LevelSet& l) { return {Hole(0.8 * l.mesh.width, 0.2 * l.mesh.height, 0.35 * std::min(l.mesh.width, l.mesh.height))}; }
double speed(int op, size_t i) { return op == V0 ? ((int)((i * 7 + 3) % 5) - 2) * 0.45 : op == V1 ? -1.0 : 1.0; }
// Executes op; returns a number that it produced (area, scale, re-distanced or not).
double exec(World& w, int op, bool& ref)
{
    LevelSet& l = *w.L; Boundary& b = *w.B; double r = 0; double dt = l.moveLimit * 0.9;
    ref = refused([&] {
        switch (op)
        {
        case D: b.discretise(l); break;
        case T: b.discretise(l, true); break;
        case A: r = l.computeAreaFractions(b); break;
        case V0: case V1: case V2: for (size_t i = 0; i < b.points.size(); i++) b.points[i].velocity = speed(op, i); l.computeVelocities(b.points); break;
        case NZ: { MersenneTwister g; g.setSeed(7); double t = dt; for (size_t i = 0; i < b.points.size(); i++) b.points[i].velocity = speed(V0, i); r = l.computeVelocities(b.points, t, 0.002, g); r = r * 1000 + t; break; }
        case G: l.computeGradients(); break;
        case U: r = l.update(dt); break;
        case UB: r = l.update(-0.5 * dt); break;
        case R: l.reinitialise(); break;
        case M1: l.mask(rect(l)); break;
        case M2: l.mask(hole(l)); break;
        case P: b.computeNormalVectors(l); break;
        case S: { Sensitivity s; for (auto& p : b.points) p.sensitivities.assign(1, 0.25); s.itoCorrection(b, l, 0.01); break; }
        }
    });
    if (op == D) { w.current = w.any = true; w.onTarget = false; }
    if (op == T) { w.any = w.onTarget = true; w.current = false; }
    if (op == U || op == UB || op == R || op == M1 || op == M2) { w.current = w.onTarget = false; }
    return r;
}
std::string stateOf(const World& w)
{
    return snap::all(*w.L) + snap::boundary(*w.B) + (w.current ? "c" : "-") + (w.any ? "a" : "-") + (w.onTarget ? "t" : "-");
}
u64 hashOf(const std::string& s)
{
    u64 h = 0xcbf29ce484222325ULL;
    size_t i = 0;
    for (; i + 8 <= s.size(); i += 8) { u64 v; memcpy(&v, s.data() + i, 8); h = mix(h, v); }
    for (; i < s.size(); i++) h = mix(h, (unsigned char)s[i]);
    return h;
}

// ---------------------------------------------------------------- C33 invariants
std::string invariants(const World& w)
{
    const LevelSet& l = *w.L; const Boundary& b = *w.B; const Mesh& m = l.mesh; unsigned N = m.nNodes;
    bool cont = contour(l.signedDistance);
    if (l.signedDistance.size() != N || l.velocity.size() != N || l.gradient.size() != N || l.narrowBand.size() != N) return "a nodal vector changed its size";
    for (unsigned i = 0; i < N; i++)
    {
        if (std::isnan(l.signedDistance[i]) || (cont && !(std::abs(l.signedDistance[i]) < 1e6))) return fmt("signed distance of node %u is %g", i, l.signedDistance[i]);
        if (!std::isfinite(l.velocity[i])) return fmt("velocity of node %u is %g", i, l.velocity[i]);
        if (std::isnan(l.gradient[i]) || (cont && !(std::abs(l.gradient[i]) < 1e6))) return fmt("gradient of node %u is %g", i, l.gradient[i]);
    }
    if (l.nNarrowBand > N || l.nMines > l.nNarrowBand || l.nMines > l.mines.size()) return fmt("band of %u nodes with %u mines", l.nNarrowBand, l.nMines);
    std::vector<char> in(N, 0), mine(N, 0);
    for (unsigned i = 0; i < l.nNarrowBand; i++) { unsigned n = l.narrowBand[i]; if (n >= N || in[n]) return "band lists a node twice or one that is not there"; in[n] = 1; }
    for (unsigned i = 0; i < l.nMines; i++) { unsigned n = l.mines[i]; if (n >= N || mine[n] || !in[n]) return "mine outside the band or listed twice"; mine[n] = 1; }
    for (unsigned i = 0; i < N; i++)
    {
        if (m.nodes[i].isActive != !!in[i] || m.nodes[i].isMine != !!mine[i]) return fmt("flags of node %u disagree with the band", i);
        if (m.nodes[i].isMasked && m.nodes[i].isActive) return fmt("masked node %u is active", i);
        if (w.fixed && m.nodes[i].isDomain && m.nodes[i].isActive) return fmt("node %u of the fixed domain boundary is active", i);
        if (m.nodes[i].nBoundaryPoints > 4) return fmt("node %u has %u boundary points", i, m.nodes[i].nBoundaryPoints);
    }
    if (!w.any) return "";
    if (b.nPoints != b.points.size() || b.nSegments != b.segments.size()) return "point or segment counts disagree with the lists";
    std::vector<unsigned> deg(b.nPoints, 0), el(m.nElements, 0);
    double len = 0;
    for (unsigned i = 0; i < b.nSegments; i++)
    {
        const BoundarySegment& s = b.segments[i];
        if (s.start >= b.nPoints || s.end >= b.nPoints || s.element >= m.nElements) return fmt("segment %u refers to points or elements that are not there", i);
        if (!(s.length >= 0 && s.length <= 1.4142136)) return fmt("segment %u has length %g", i, s.length);
        deg[s.start]++; deg[s.end]++; el[s.element]++; len += s.length;
    }
    if (std::abs(len - b.length) > 1e-9 * (1 + len)) return fmt("total length %g, segments sum to %g", b.length, len);
    double pl = 0;
    for (unsigned i = 0; i < b.nPoints; i++)
    {
        const BoundaryPoint& p = b.points[i];
        if (!(p.coord.x >= 0 && p.coord.y >= 0 && p.coord.x <= m.width && p.coord.y <= m.height)) return fmt("point %u lies at (%g,%g)", i, p.coord.x, p.coord.y);
        if (!std::isfinite(p.normal.x) || !std::isfinite(p.normal.y) || !std::isfinite(p.velocity)) return fmt("point %u: normal or velocity not finite", i);
        for (double s : p.sensitivities) if (!std::isfinite(s)) return fmt("point %u: sensitivity %g", i, s);
        if (p.nSegments != deg[i]) return fmt("point %u belongs to %u segments, %u refer to it", i, p.nSegments, deg[i]);
        for (unsigned k = 0; k < p.nSegments; k++) { if (p.segments[k] >= b.nSegments) return fmt("point %u lists a segment that is not there", i); const BoundarySegment& s = b.segments[p.segments[k]]; if (s.start != i && s.end != i) return fmt("point %u lists a segment of other points", i); }
        for (unsigned k = 0; k < p.nNeighbours; k++) if (p.neighbours[k] >= b.nPoints) return fmt("point %u lists a neighbour that is not there", i);
        if (!(p.negativeLimit <= 0 && p.negativeLimit >= -l.moveLimit && p.positiveLimit <= l.moveLimit)) return fmt("point %u: limits %g %g", i, p.negativeLimit, p.positiveLimit);
        pl += p.length;
    }
    if (std::abs(len - pl) > 1e-9 * (1 + len)) return fmt("segments sum to %g, points to %g", len, pl);
    if (w.current || w.onTarget)
    {
        for (unsigned i = 0; i < m.nElements; i++)
        {
            const Element& x = m.elements[i];
            if (x.nBoundarySegments != el[i]) return fmt("element %u lists %u segments, %u refer to it", i, x.nBoundarySegments, el[i]);
            for (unsigned k = 0; k < x.nBoundarySegments; k++) if (x.boundarySegments[k] >= b.nSegments || b.segments[x.boundarySegments[k]].element != i) return fmt("element %u lists a segment of another element", i);
        }
        for (unsigned i = 0; i < N; i++)
            for (unsigned k = 0; k < m.nodes[i].nBoundaryPoints; k++)
            {
                unsigned q = m.nodes[i].boundaryPoints[k];
                if (q >= b.nPoints) return fmt("node %u lists a boundary point that is not there", i);
                if (std::hypot(b.points[q].coord.x - m.nodes[i].coord.x, b.points[q].coord.y - m.nodes[i].coord.y) > 1 + 1e-9) return fmt("node %u lists a far boundary point", i);
            }
    }
    return "";
}

std::string areas(const World& w, double total)
{
    double sum = 0; const Mesh& m = w.L->mesh;
    for (unsigned i = 0; i < m.nElements; i++)
    {
        double a = m.elements[i].area;
        if (!(a >= -1e-12 && a <= 1 + 1e-12)) return fmt("element %u has area %g", i, a);
        sum += a;
    }
    if (std::abs(sum - total) > 1e-9 * (1 + sum) || total != w.L->area) return fmt("areas sum to %g, returned %g, stored %g", sum, total, w.L->area);
    return "";
}
std::string path(const std::vector<int>& ops) { std::string s; for (int o : ops) s += std::string(s.empty() ? "" : " ") + opName[o]; return s; }

// ---------------------------------------------------------------- C33 programs
struct Walk
{
    Explorer& e; std::vector<int> ops; std::unordered_map<u64, int> seen;
    Walk(Explorer& e) : e(e) {}
    // one operation with all invariants; false if the branch ends here
    bool step(World& w, int op)
    {
        ops.push_back(op);
        bool ref = false; double r = exec(w, op, ref); e.t();
        if (ref)
        {
            // Re-distancing without any contour left is refused; anything else is not.
            bool cont = contour(w.L->signedDistance), redist = op == U || op == UB || op == M1 || op == M2 || op == R;
            e.expect(!cont && redist, "after " + path(ops) + ": terminated");
            e.count("contour_vanished");
            return false;
        }
        if (op == D || op == T) for (auto& p : w.B->points) if (!(p.length > 0)) { e.count("zero_length_points"); break; }
        std::string bad = invariants(w);
        if (bad.empty() && op == A) bad = areas(w, r);
        if (!bad.empty()) { e.expect(false, "after " + path(ops) + ": " + bad); return false; }
        return true;
    }
    void dfs(const World& w, int depth)
    {
        if (e.failedCase) return;
        u64 h = hashOf(stateOf(w));
        { Hash s; s.u(h); e.state(s); }
        auto it = seen.find(h);
        if (it != seen.end() && it->second >= depth) return;
        seen[h] = depth;
        if (!depth) return;
        for (int op = 0; op < NOPS && !e.failedCase; op++)
        {
            if (!legal(w, op)) continue;
            World n(w);
            if (step(n, op)) dfs(n, depth - 1);
            ops.pop_back();
        }
    }
};
bool makeWorld(const Start& s, World& w)
{
    LevelSet* l = 0;
    if (refused([&] { l = build(s); })) return false;
    w.L.reset(l); w.B.reset(new Boundary); w.fixed = s.fixed;
    return true;
}
void programs(Explorer& e)
{
    int depth = e.thorough ? 5 : 4;                // after the first two operations
    for (auto& s : starts(false, e.thorough))
    {
        for (int a = 0; a < NOPS; a++)
            for (int b = 0; b < NOPS; b++)
            {
                if (!e.take()) continue;
                e.describe(s.name + fmt(": %s %s ...", opName[a], opName[b]));
                World w;
                if (!makeWorld(s, w)) { e.count("start_refused"); e.done(false); continue; }
                // Never set before a discretisation; copying the objects would read them.
                for (auto& n : w.L->mesh.nodes) n.status = NodeStatus::OUTSIDE;
                for (auto& x : w.L->mesh.elements) { x.status = ElementStatus::OUTSIDE; x.nBoundarySegments = 0; x.area = 0; }
                std::string bad = invariants(w);
                if (!e.expect(bad.empty(), "after construction: " + bad)) { e.done(); continue; }
                Walk k(e);
                bool go = legal(w, a) && k.step(w, a);
                go = go && legal(w, b) && k.step(w, b);
                if (go) k.dfs(w, depth);
                Hash o; o.u(hashOf(stateOf(w))); e.outcome(o);
                e.done();
            }
    }
    // larger meshes: one long program each
    std::vector<std::pair<int, int>> big = {{40, 30}, {1000, 3}, {2, 1500}, {1001, 1001}};
    for (auto z : big)
        for (int k = 0; k < 3; k++)
        {
            if (z.first * z.second > 1000000 && k) continue;
            if (!e.take()) continue;
            Start s; s.w = z.first; s.h = z.second; s.target = 0; s.bw = 6; s.fixed = k == 1; s.move = 0.5;
            double m = std::min(s.w, s.h);
            if (k < 2) s.holes = {Hole(0.5 * s.w, 0.5 * s.h, 0.3 * m), Hole(0.2 * s.w, 0.4 * s.h, 0.2 * m)};
            else s.poly = {Coord(0.2 * s.w, 0.1 * s.h), Coord(0.9 * s.w, 0.3 * s.h), Coord(0.5 * s.w, 0.95 * s.h), Coord(0.2 * s.w, 0.1 * s.h)};
            e.describe(fmt("%dx%d long program %d", s.w, s.h, k));
            World w;
            if (!e.expect(makeWorld(s, w), "constructor terminated")) { e.done(); continue; }
            Walk wk(e);
            std::vector<int> prog = {D, A, P, V0, G, U, D, A, NZ, G, U, D, S, V1, G, U, D, V2, G, U, UB, R, M1, D, A, V0, G, U, D, A};
            if (z.first * z.second > 1000000) prog = {D, A, P, V0, G, U, D, A};
            for (int o : prog) { if (e.failedCase || !legal(w, o)) break; if (!wk.step(w, o)) break; Hash h; h.u(hashOf(stateOf(w))); e.state(h); }
            e.done();
        }
}
// ---------------------------------------------------------------- C16 used against fresh objects
bool freshWorld(const Start& s, const World& o, World& w)
{
    mallopt(M_PERTURB, 0x33);          // whatever the new objects never set differs from that of the used ones
    bool ok = makeWorld(s, w);
    if (ok)
    {
        LevelSet& l = *w.L; const LevelSet& u = *o.L;
        l.signedDistance = u.signedDistance; l.velocity = u.velocity; l.gradient = u.gradient; l.target = u.target;
        l.narrowBand = u.narrowBand; l.nNarrowBand = u.nNarrowBand; l.mines = u.mines; l.nMines = u.nMines;
        for (unsigned i = 0; i < l.mesh.nNodes; i++)
        {
            l.mesh.nodes[i].isActive = u.mesh.nodes[i].isActive; l.mesh.nodes[i].isMasked = u.mesh.nodes[i].isMasked; l.mesh.nodes[i].isMine = u.mesh.nodes[i].isMine;
        }
        w.current = o.current; w.onTarget = o.onTarget; w.any = o.any;
        if (o.current) w.B->discretise(l);
        else if (o.onTarget) w.B->discretise(l, true);
    }
    mallopt(M_PERTURB, 0x5a);
    return ok;
}
void same(Explorer& e, const std::string& when, const World& a, const World& b, int op, double ra, double rb)
{
    const LevelSet &x = *a.L, &y = *b.L; const Boundary &p = *a.B, &q = *b.B;
    snap::S s, t;
    if (!e.expect(std::memcmp(&ra, &rb, 8) == 0, when + fmt(": result %.17g, with fresh objects %.17g", ra, rb))) return;
    auto ls = [](const LevelSet& l) { snap::S s = snap::flags(l.mesh) + snap::band(l); snap::v(s, l.signedDistance); snap::v(s, l.velocity); snap::v(s, l.gradient); return s; };
    e.expect(ls(x) == ls(y), when + ": level set differs from that of fresh objects");
    if (op == D || op == T || op == P || op == S || op == NZ || op == V0)
    {
        e.expect(p.nPoints == q.nPoints && p.nSegments == q.nSegments, when + fmt(": %u points %u segments, fresh %u %u", p.nPoints, p.nSegments, q.nPoints, q.nSegments));
        for (unsigned i = 0; i < p.nPoints && !e.failedCase; i++)
        {
            snap::S u, v;
            const BoundaryPoint &c = p.points[i], &d = q.points[i];
            if (op == D || op == T) { u = snap::point(c); v = snap::point(d); }
            if (op == P || op == S) { snap::d(u, c.normal.x); snap::d(u, c.normal.y); snap::d(v, d.normal.x); snap::d(v, d.normal.y); }
            if (op == S) { snap::v(u, c.sensitivities); snap::v(v, d.sensitivities); }
            if (op == NZ || op == V0) { snap::d(u, c.velocity); snap::d(v, d.velocity); }
            e.expect(u == v, when + fmt(": boundary point %u differs from that of fresh objects", i));
        }
    }
    if (op == D || op == T)
    {
        e.expect(snap::boundary(p) == snap::boundary(q), when + ": boundary differs from that of fresh objects");
        e.expect(snap::lookup(x.mesh, false) == snap::lookup(y.mesh, false), when + ": node and element records differ from those of fresh objects");
    }
    if (op == A)
        for (unsigned i = 0; i < x.mesh.nElements; i++)
            e.expect(std::memcmp(&x.mesh.elements[i].area, &y.mesh.elements[i].area, 8) == 0, when + fmt(": area of element %u is %g, with fresh objects %g", i, x.mesh.elements[i].area, y.mesh.elements[i].area));
}
// What op must leave alone.
std::string rest(const World& w, int op)
{
    const LevelSet& l = *w.L; const Boundary& b = *w.B; snap::S s = snap::topology(l.mesh);
    bool moves = op == U || op == UB || op == R || op == M1 || op == M2;
    if (!moves) { s += snap::flags(l.mesh) + snap::band(l); snap::v(s, l.signedDistance); }
    if (!moves && op != V0 && op != V1 && op != V2 && op != NZ) snap::v(s, l.velocity);
    if (!moves && op != G) snap::v(s, l.gradient);
    snap::v(s, l.target);
    if (op != D && op != T)
    {
        snap::u(s, b.nPoints); snap::u(s, b.nSegments); snap::d(s, b.nPoints ? b.length : 0);
        for (auto p : b.points)
        {
            if (op == P || op == S) p.normal = Coord(0, 0);
            if (op == V0 || op == V1 || op == V2 || op == NZ) p.velocity = 0;
            if (op == S) p.sensitivities.clear();
            s += snap::point(p);
        }
        for (auto& g : b.segments) { snap::u(s, g.start); snap::u(s, g.end); snap::u(s, g.element); snap::d(s, g.length); snap::d(s, g.weight); }
    }
    if (op != D && op != T && !moves) s += snap::lookup(l.mesh, op != A);
    return s;
}
struct Twin
{
    Explorer& e; const Start& s; std::vector<int> ops; std::unordered_map<u64, int> seen;
    Twin(Explorer& e, const Start& s) : e(e), s(s) {}
    bool step(World& w, int op)
    {
        World f;
        if (!e.expect(freshWorld(s, w, f), "fresh objects could not be built")) return false;
        ops.push_back(op);
        std::string when = "after " + path(ops);
        // what the caller left in the points of the used boundary is not an input of these
        if (op == S || op == P) {}
        std::string before = rest(w, op);
        bool ra = false, rb = false; double x = exec(w, op, ra); e.t();
        if (!ra) e.expect(rest(w, op) == before, when + ": changed what it only reads");
        double y = exec(f, op, rb); e.t();
        e.expect(ra == rb, when + ": terminated " + (ra ? "only with used objects" : "only with fresh objects"));
        if (ra || rb) return false;
        same(e, when, w, f, op, x, y);
        if (op == D || op == T || op == A || op == V0 || op == V1 || op == G || op == P)
        {
            World again(w); bool rc = false;
            double z = exec(again, op, rc); e.t();
            e.expect(!rc && std::memcmp(&z, &x, 8) == 0 && stateOf(again) == stateOf(w), when + ": doing it again changed something");
        }
        return !e.failedCase;
    }
    void dfs(const World& w, int depth)
    {
        if (e.failedCase) return;
        u64 h = hashOf(stateOf(w));
        { Hash s; s.u(h); e.state(s); }
        auto it = seen.find(h);
        if (it != seen.end() && it->second >= depth) return;
        seen[h] = depth;
        if (!depth) return;
        for (int op = 0; op < NOPS && !e.failedCase; op++)
        {
            if (!legal(w, op)) continue;
            World n(w);
            if (step(n, op)) dfs(n, depth - 1);
            ops.pop_back();
        }
    }
};
void history(Explorer& e)
{
    int depth = e.thorough ? 4 : 3;
    for (auto& s : starts(true, e.thorough))
        for (int a = 0; a < NOPS; a++)
            for (int b = 0; b < NOPS; b++)
            {
                if (!e.take()) continue;
                e.describe(s.name + fmt(": %s %s ...", opName[a], opName[b]));
                World w;
                if (!makeWorld(s, w)) { e.count("start_refused"); e.done(false); continue; }
                Twin k(e, s);
                bool go = legal(w, a) && k.step(w, a);
                go = go && legal(w, b) && k.step(w, b);
                if (go) k.dfs(w, depth);
                Hash o; o.u(hashOf(stateOf(w))); e.outcome(o);
                e.done();
            }
    // one fast marching object for several fields of one mesh
    std::vector<Named> fs; int w = 6, h = 5;
    for (int k = 0; k < (e.thorough ? 12 : 7); k++) fs.push_back({fmt("line%d", k), w, h, line(w, h, 37 * k + 11, 0.3 * (k % 4) - 0.5)});
    for (int k = 0; k < 3; k++) fs.push_back({fmt("circle%d", k), w, h, circle(w, h, 2 + k, 2.3, 1.2 + 0.5 * k, k % 2 ? 1 : -1)});
    int n = fs.size();
    for (int test = 0; test < 2; test++)
        for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) for (int k = 0; k < n; k++)
            for (int mode = 0; mode < 8; mode++)
            {
                if (!e.take()) continue;
                e.describe(fmt("one fast marching object: %s %s %s mode %d test %d", fs[i].name.c_str(), fs[j].name.c_str(), fs[k].name.c_str(), mode, test));
                Mesh m(w, h);
                for (auto& nd : m.nodes) nd.isActive = true;
                FastMarchingMethod one(m, test);
                int seq[3] = {i, j, k};
                for (int q = 0; q < 3; q++)
                {
                    FastMarchingMethod other(m, test);
                    V p = fs[seq[q]].phi, r = p, vp(p.size()), vr;
                    for (size_t x = 0; x < p.size(); x++) vp[x] = ((int)(x * 5 % 7) - 3) * 0.3;
                    vr = vp;
                    bool a, b;
                    if (mode >> q & 1) { a = refused([&] { one.march(p, vp); }); b = refused([&] { other.march(r, vr); }); }
                    else { a = refused([&] { one.march(p); }); b = refused([&] { other.march(r); }); }
                    e.t(2);
                    e.expect(a == b, fmt("step %d: only one of the objects refused", q));
                    snap::S s, t; snap::v(s, p); snap::v(s, vp); snap::v(t, r); snap::v(t, vr);
                    e.expect(s == t, fmt("step %d: result differs from that of a fresh object", q));
                }
                e.done();
            }
    // one boundary for level sets of different sizes
    std::vector<Start> ss = starts(true, false);
    for (size_t i = 0; i < ss.size(); i++) for (size_t j = 0; j < ss.size(); j++)
        for (int op = 0; op < 4; op++)
        {
            if (!e.take()) continue;
            e.describe(fmt("one boundary: %s then %s op %d", ss[i].name.c_str(), ss[j].name.c_str(), op));
            World a, b, c;
            if (!makeWorld(ss[i], a) || !makeWorld(ss[j], b) || !makeWorld(ss[j], c)) { e.count("start_refused"); e.done(false); continue; }
            bool r; exec(a, D, r); exec(a, P, r); e.t(2);
            if (op & 1) { for (auto& p : a.B->points) p.velocity = 3; exec(a, S, r); }
            b.B.reset(new Boundary(*a.B));
            double x = exec(b, op & 2 && legal(b, T) ? T : D, r), y = exec(c, op & 2 && legal(c, T) ? T : D, r); e.t(2);
            same(e, "discretise", b, c, D, x, y);
            x = exec(b, A, r); y = exec(c, A, r);
            same(e, "areas", b, c, A, x, y);
            if (b.current) { x = exec(b, P, r); y = exec(c, P, r); same(e, "normals", b, c, P, x, y); }
            e.t(4);
            e.done();
        }
}
}
int mc_main(int argc, char** argv)
{
    return run(argc, argv, {{"C16", history, 300}, {"C33", programs, 300}}, {"contour_vanished", "start_refused", "zero_length_points"});
}
