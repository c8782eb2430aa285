// C34 a step moves the contour by speed x time step; C35 no preferred direction or place.
#include "mc.hpp"
#include "slsm_all.hpp"
#include "fields.hpp"
#include <memory>
using namespace mc;
using namespace slsm;
using namespace fields;
typedef std::vector<Hole> Holes;

namespace
{
typedef std::unique_ptr<LevelSet> Ptr;
Ptr make(Explorer& e, int w, int h, unsigned bw, bool fixed = false)
{
    LevelSet* p = 0;
    bool no = refused([&] { p = new LevelSet(w, h, Holes(1, Hole(0.5 * w, 0.5 * h, 0.4)), 0.5, bw, fixed); });
    e.expect(!no, "constructor refused");
    return Ptr(p);
}
typedef std::function<double(double, double)> Fn;
// one evolution step with speed v(x,y) at the contour; false if refused
bool step(Explorer& e, LevelSet& l, Boundary& b, const Fn& v, double dt, bool* re = 0)
{
    bool r = false;
    bool no = refused([&] {
        b.discretise(l);
        for (BoundaryPoint& p : b.points) p.velocity = v(p.coord.x, p.coord.y);
        l.computeVelocities(b.points);
        l.computeGradients();
        r = l.update(dt);
    });
    e.t(4);
    if (re) *re = r;
    return !no;
}
// area of {c x + s y < d} within [0,1]^2 shifted to (x,y): inside is c X + s Y - d > 0
double halfPlane(double c, double s, double d, int x, int y)
{
    double q[4][2] = {{0, 0}, {1, 0}, {1, 1}, {0, 1}}, A = 0;
    std::vector<std::pair<double, double>> P;
    for (int i = 0; i < 4; i++)
    {
        double ax = q[i][0], ay = q[i][1], bx = q[(i + 1) % 4][0], by = q[(i + 1) % 4][1];
        double fa = c * (x + ax) + s * (y + ay) - d, fb = c * (x + bx) + s * (y + by) - d;
        if (fa >= 0) P.push_back({ax, ay});
        if ((fa > 0 && fb < 0) || (fa < 0 && fb > 0)) { double t = fa / (fa - fb); P.push_back({ax + t * (bx - ax), ay + t * (by - ay)}); }
    }
    for (size_t i = 0; i < P.size(); i++) { auto& a = P[i]; auto& b = P[(i + 1) % P.size()]; A += a.first * b.second - a.second * b.first; }
    return 0.5 * A;
}

// ---------------------------------------------------------------- C34
struct Shape { std::string name; int w, h; std::vector<double> phi; Fn dist; };
std::vector<Shape> smooth(Explorer& e)
{
    std::vector<Shape> v;
    auto circ = [&](int w, int h, double cx, double cy, double r, int s) {
        v.push_back({fmt("circle %dx%d (%.2f,%.2f) r=%.2f %s", w, h, cx, cy, r, s > 0 ? "hole" : "disc"), w, h, circle(w, h, cx, cy, r, s), [=](double x, double y) { return s * (std::hypot(x - cx, y - cy) - r); }});
    };
    for (int s : {1, -1})
    {
        circ(24, 24, 12, 12, 6, s); circ(26, 24, 12.37, 11.81, 6.63, s); circ(24, 27, 12.5, 13.25, 5.2, s); circ(36, 30, 17.1, 14.9, 9.3, s);
        circ(60, 40, 25.3, 20.2, 12.4, s);
        if (e.thorough) for (int k = 0; k < 12; k++) circ(32, 32, 16 + 0.083 * k, 16 - 0.061 * k, 5 + 0.55 * k, s);
    }
    return v;
}


void planes(Explorer& e)
{
    struct M { int w, h; };
    std::vector<M> ms = {{12, 9}, {7, 13}, {5, 4}, {4, 4}};
    if (e.thorough) { ms.push_back({3, 3}); ms.push_back({2, 9}); ms.push_back({23, 17}); }
    int na = e.thorough ? 96 : 48;
    for (M m : ms) for (int a = 0; a < na; a++) for (int o = 0; o < 5; o++) for (double v : {1.0, -1.0, 0.37, -0.61, 0.0}) for (double dt : {0.5, 0.13, 2.9, 2e-6})
    {
        if (!e.take()) continue;
        double deg = a * 360.0 / na, d = (o - 2) * 0.61 + 0.043;
        e.describe(fmt("plane %dx%d angle %g offset %g speed %g time step %g", m.w, m.h, deg, d, v, dt));
        double c = std::cos(deg * M_PI / 180), s = std::sin(deg * M_PI / 180);
        auto plane = [&](double q) { return fill(m.w, m.h, [=](double x, double y) { return c * (x - 0.5 * m.w) + s * (y - 0.5 * m.h) - q; }); };
        Ptr l = make(e, m.w, m.h, 200);
        if (!l) { e.done(); continue; }
        Boundary b; Hash o1, s1;
        for (int k = 0; k < 3 && !e.failedCase; k++, d += v * dt)
        {
            l->signedDistance = plane(d);
            bool none = false, out = refused([&] { b.discretise(*l); none = !b.nPoints; }); e.t();
            if (!e.expect(!out, "discretisation refused") || none) break;        // the contour has left the domain
            bool re, ok = step(e, *l, b, [=](double, double) { return v; }, dt, &re);
            if (!e.expect(ok, "step refused")) break;
            e.expect(!re, "re-distanced although there is no mine");
            std::vector<double> want = plane(d + v * dt);
            for (int y = 0; y <= m.h; y++) for (int x = 0; x <= m.w; x++)
            {
                int i = y * (m.w + 1) + x;
                if (x == 0 || y == 0 || x == m.w || y == m.h) want[i] = std::min(0.0, want[i]);
                e.expect(close(l->signedDistance[i], want[i], 1e-9), fmt("step %d: node (%d,%d) is %.12g, the shifted plane %.12g", k, x, y, l->signedDistance[i], want[i]));
            }
            o1.v(l->signedDistance);
            bool no = refused([&] { b.discretise(*l); l->computeAreaFractions(b); }); e.t(2);
            if (!e.expect(!no, "discretisation refused")) break;
            double D = d + v * dt + c * 0.5 * m.w + s * 0.5 * m.h;
            for (const BoundaryPoint& p : b.points)
            {
                double x = p.coord.x, y = p.coord.y;
                if (x > 1 && y > 1 && x < m.w - 1 && y < m.h - 1)
                    e.expect(std::abs(c * x + s * y - D) < 1e-6, fmt("boundary point (%.9g,%.9g) is %.3g off the shifted contour", x, y, c * x + s * y - D));
            }
            for (int y = 1; y + 1 < m.h; y++) for (int x = 1; x + 1 < m.w; x++)
            {
                double A = l->mesh.elements[y * m.w + x].area, W = halfPlane(c, s, D, x, y);
                e.expect(std::abs(A - W) < 1e-5, fmt("element (%d,%d) holds %.9g, should hold %.9g", x, y, A, W));
            }
            s1.v(want);
        }
        e.state(s1); e.outcome(o1); e.done();
    }
}
// circles and discs: many steps with re-distancing, and speeds that vary along the contour
void circles(Explorer& e)
{
    for (Shape& S : smooth(e)) for (unsigned bw : {3u, 4u, 6u}) for (double v : {1.0, -1.0, 0.45, -0.7}) for (double dt : {0.5, 0.21}) for (int pat = 0; pat < 4; pat++)
    {
        if (!e.take()) continue;
        e.describe(fmt("%s band %u speed %g time step %g pattern %d", S.name.c_str(), bw, v, dt, pat));
        Ptr l = make(e, S.w, S.h, bw);
        if (!l) { e.done(); continue; }
        Fn dist = S.dist;
        Fn speed = [=](double x, double y) {
            if (std::abs(dist(x, y)) > 3.5) return 0.0;                          // the rim of the domain
            if (pat == 0) return v;
            if (pat == 1) return v * (0.6 + 0.4 * std::sin(0.35 * x));
            if (pat == 2) return v * (0.5 + 0.5 * std::cos(0.3 * (x + y)));
            return v * std::cos(0.25 * y - 0.1 * x);
        };
        bool no = refused([&] { l->signedDistance = S.phi; l->reinitialise(); }); e.t();
        if (!e.expect(!no, "refused")) { e.done(); continue; }
        Boundary b; Hash o1, s1;
        int n = pat ? 1 : (int)(2.5 / dt);
        double area0 = 0, rate = 0; int nre = 1;
        for (int k = 0; k < n && !e.failedCase; k++)
        {
            bool q = refused([&] { b.discretise(*l); area0 = l->computeAreaFractions(b); }); e.t(2);
            if (!e.expect(!q, "refused")) break;
            rate = 0;
            for (const BoundaryPoint& p : b.points) rate -= p.length * speed(p.coord.x, p.coord.y) * dt;
            bool re, ok = step(e, *l, b, speed, dt, &re);
            if (!e.expect(ok, "step refused")) break;
            double area1 = 0;
            q = refused([&] { b.discretise(*l); area1 = l->computeAreaFractions(b); }); e.t(2);
            if (!e.expect(!q, "refused")) break;
            double len = 0; for (const BoundaryPoint& p : b.points) if (std::abs(dist(p.coord.x, p.coord.y)) < 3.5) len += p.length;
            for (const BoundaryPoint& p : b.points) rate -= p.length * speed(p.coord.x, p.coord.y) * dt;
            rate *= 0.5;                                                         // trapezoidal rule over the step
            nre += re; double err = std::abs(area1 - area0 - rate) / (len * (0.02 + 0.02 * re + 0.05 * dt * std::abs(v)));
            e.expect(err <= 1, fmt("step %d: area changed by %.6g, the speeds along the contour amount to %.6g", k, area1 - area0, rate));
            for (const BoundaryPoint& p : b.points)
            {
                // where did it come from?
                double D = S.dist(p.coord.x, p.coord.y);
                if (std::abs(D) > 3.5) continue;
                double want = pat ? 0 : (k + 1) * v * dt;
                if (pat)
                {
                    double h = 1e-4, gx = (S.dist(p.coord.x + h, p.coord.y) - D) / h, gy = (S.dist(p.coord.x, p.coord.y + h) - D) / h;
                    want = speed(p.coord.x - gx * D, p.coord.y - gy * D) * dt;
                }
                double er = std::abs(D - want);
                e.expect(er <= (0.06 + 0.035 * nre + 0.12 * std::abs(v) * dt * (k + 1)), fmt("step %d: boundary point (%.6g,%.6g) has moved by %.6g, its speed asks for %.6g", k, p.coord.x, p.coord.y, D, want));
                o1.d(D);
            }
            s1.v(l->signedDistance);
        }
        e.state(s1); e.outcome(o1); e.done();
    }
}
// speeds of one sign only add or only remove material, no speed changes nothing
void oneSign(Explorer& e, int w, int h, const std::vector<double>& phi, unsigned bw, const std::string& name)
{
    for (int pat = 0; pat < 6; pat++)
    {
        if (!e.take()) continue;
        e.describe(fmt("one sign %dx%d band %u pattern %d %s", w, h, bw, pat, name.c_str()), show(phi, w));
        Ptr l = make(e, w, h, bw);
        if (!l) { e.done(); continue; }
        l->signedDistance = phi;
        int sign = pat % 3 == 2 ? 0 : pat % 3 ? -1 : 1, salt = pat;
        Boundary b; Hash o1, s1;
        bool none = false;
        for (int k = 0; k < 3 && !e.failedCase; k++)
        {
            double a0 = 0, a1 = 0;
            bool no = refused([&] { b.discretise(*l); none = !b.nPoints; if (!none) a0 = l->computeAreaFractions(b); }); e.t(2);
            if (!e.expect(!no, "discretisation refused") || none) break;
            double hi = *std::max_element(l->signedDistance.begin(), l->signedDistance.end()), lo = *std::min_element(l->signedDistance.begin(), l->signedDistance.end());
            if (hi < 1e-5 || lo > -1e-5) break;                                  // no contour with two sides is left
            std::vector<double> old = l->signedDistance, area; for (const Element& x : l->mesh.elements) area.push_back(x.area);
            for (size_t i = 0; i < b.points.size(); i++) { int q = (int)(i * 7 + salt + k) % 5; b.points[i].velocity = sign * (q == 0 ? 0 : pat > 2 ? 1 : 0.23 * q); }
            bool re = false;
            no = refused([&] { l->computeVelocities(b.points); l->computeGradients(); re = l->update(0.3); }); e.t(3);
            if (!e.expect(!no, "step refused") || re) break;
            for (size_t i = 0; i < old.size(); i++)
            {
                double was = old[i], is = l->signedDistance[i];
                if (l->mesh.nodes[i].isDomain && l->mesh.nodes[i].isActive) was = std::min(was, 0.0);        // material ends at the edge of the domain
                if (sign >= 0) e.expect(is <= was, fmt("step %d: node %zu went from %.12g to %.12g, speeds only remove material", k, i, was, is));
                if (sign <= 0) e.expect(is >= was, fmt("step %d: node %zu went from %.12g to %.12g, speeds only add material", k, i, was, is));
            }
            no = refused([&] { b.discretise(*l); a1 = l->computeAreaFractions(b); }); e.t(2);
            if (!e.expect(!no, "discretisation refused")) break;
            for (size_t i = 0; i < area.size(); i++)
            {
                double was = area[i], is = l->mesh.elements[i].area;
                if (sign > 0) e.expect(is <= was + 1e-5, fmt("step %d: element %zu held %.12g, now %.12g, speeds only remove material", k, i, was, is));
                int x = i % w, y = i / w;
                if (sign <= 0 && x && y && x < w - 1 && y < h - 1) e.expect(is >= was - 1e-5, fmt("step %d: element %zu held %.12g, now %.12g, speeds only add material", k, i, was, is));
                if (sign == 0 && x && y && x < w - 1 && y < h - 1) e.expect(is == was, fmt("step %d: element %zu held %.12g, now %.12g without any speed", k, i, was, is));
            }
            o1.v(l->signedDistance); s1.v(old);
            (void)a0; (void)a1;
        }
        e.state(s1); e.outcome(o1); e.done();
    }
}
void signs1(Explorer& e)
{
    struct M { int w, h; };
    for (M m : {M{1, 1}, M{2, 1}, M{1, 2}, M{2, 2}, M{3, 1}, M{1, 3}, M{3, 2}})
    {
        int n = (m.w + 1) * (m.h + 1), letters = n <= (e.thorough ? 9 : 6) ? 3 : 2;
        std::vector<int> d(n, 0);
        do for (int sc : {1, 2}) oneSign(e, m.w, m.h, signs(d, sc), 200, fmt("scheme %d %s", sc, str(d).c_str())); while (next(d, letters));
    }
    // a window of signs inside larger meshes
    for (M m : {M{6, 6}, M{9, 5}, M{5, 8}}) for (int bg = 0; bg < 2; bg++)
    {
        std::vector<int> d(9, 0);
        do
        {
            std::vector<double> p((m.w + 1) * (m.h + 1));
            for (int y = 0; y <= m.h; y++) for (int x = 0; x <= m.w; x++)
            {
                int i = y * (m.w + 1) + x, u = x - 2, q = y - 2;
                bool in = u >= 0 && q >= 0 && u < 3 && q < 3;
                p[i] = ((in ? d[q * 3 + u] : bg) ? -1 : 1) * mag(1, i);
            }
            oneSign(e, m.w, m.h, p, 200, fmt("window %s in %d", str(d).c_str(), bg));
        } while (next(d, 2));
    }
    for (M m : {M{12, 9}, M{16, 16}}) for (int a = 0; a < 24; a++) for (int o = 0; o < 3; o++) for (unsigned bw : {4u, 6u, 200u})
        oneSign(e, m.w, m.h, line(m.w, m.h, a * 15 + 3, o - 0.9), bw, fmt("line %d %d", a, o));
    for (M m : {M{12, 9}, M{16, 16}}) for (int a = 0; a < 10; a++) for (int s : {-1, 1}) for (unsigned bw : {4u, 6u, 200u})
        oneSign(e, m.w, m.h, circle(m.w, m.h, 0.5 * m.w + 0.13 * a, 0.5 * m.h - 0.21 * a, 1.2 + 0.27 * a, s), bw, fmt("circle %d %d", a, s));
}
void moving(Explorer& e) { planes(e); circles(e); signs1(e); }

// ---------------------------------------------------------------- C35
// An isometry of the grid: transpose, mirrors, then shift.
struct Iso
{
    int w = 0, h = 0, k = 0, dx = 0, dy = 0;                                 // of the original mesh
    void map(double x, double y, double& X, double& Y) const
    {
        X = x; Y = y;
        if (k & 1) X = w - X;
        if (k & 2) Y = h - Y;
        if (k & 4) std::swap(X, Y);
        X += dx; Y += dy;
    }
    void back(double X, double Y, double& x, double& y) const
    {
        x = X - dx; y = Y - dy;
        if (k & 4) std::swap(x, y);
        if (k & 1) x = w - x;
        if (k & 2) y = h - y;
    }
    void vec(double x, double y, double& X, double& Y) const
    {
        X = k & 1 ? -x : x; Y = k & 2 ? -y : y;
        if (k & 4) std::swap(X, Y);
    }
    int W() const { return (k & 4 ? h : w) + growX; }
    int H() const { return (k & 4 ? w : h) + growY; }
    int growX = 0, growY = 0;                            // the image's mesh is larger by this
};

// Clipping leaves exact zeros along the rim, hence rows of equidistant nodes whose order of
// acceptance is arbitrary.  Replace them by generic values, the same in every image.
struct World { Ptr l; Boundary b; double area; bool re; };
void roughen(World& u, const Iso& g)
{
    for (unsigned i = 0; i < u.l->mesh.nNodes; i++)
    {
        const Node& n = u.l->mesh.nodes[i];
        double x, y; g.back(n.coord.x, n.coord.y, x, y);
        double& v = u.l->signedDistance[i];
        double r = std::sin(5.3 * x + 3.1 * y + 0.7);
        if (std::abs(v) < 1e-5) v = -0.05 + 0.03 * r;
        // several points within 1e-3 of one node: which of their speeds the node takes is arbitrary
        else if (std::abs(v) < 4e-3) v = (v < 0 ? -1 : 1) * (0.006 + 0.002 * r);
    }
}
// The same operation in the original (id) and in the image.
bool apply(Explorer& e, World& u, int op, const Iso& g)
{
    auto v = [&](int p) { return Fn([=](double X, double Y) {
        double x, y; g.back(X, Y, x, y);
        return p == 0 ? 0.8 + 0.1 * std::sin(0.7 * x + 0.3 * y) : p == 1 ? -0.6 - 0.2 * std::cos(0.4 * x - 0.9 * y) : 0.9 * std::sin(1.1 * x + 0.4 * y + 0.3); }); };
    bool no = false;
    u.re = false;
    if (op < 3)
    {
        Fn s = v(op);
        no = refused([&] {
            u.b.discretise(*u.l); u.b.computeNormalVectors(*u.l);
            for (BoundaryPoint& p : u.b.points) p.velocity = s(p.coord.x, p.coord.y);
            u.l->computeVelocities(u.b.points); u.l->computeGradients(); u.re = u.l->update(op == 0 ? 0.45 : 0.35);
        });
        e.t(5);
    }
    else if (op == 3) { no = refused([&] { u.l->reinitialise(); }); e.t(); }
    else
    {
        double X, Y; g.map(0.31 * g.w, 0.36 * g.h, X, Y);
        no = refused([&] { u.l->mask(Holes(1, Hole(X, Y, 0.13 * std::min(g.w, g.h) + 0.617))); }); e.t();
    }
    if (!no && op == 4) roughen(u, g);                   // masked nodes are left 1e-6 outside: right on the tolerance for zero
    if (!no) { no = refused([&] { u.b.discretise(*u.l); u.b.computeNormalVectors(*u.l); u.area = u.l->computeAreaFractions(u.b); }); e.t(3); }
    return !no;
}
// does the image show what the original shows?
void compare(Explorer& e, const World& a, const World& b, const Iso& g, double ring, const std::string& at)
{
    const Mesh& M = a.l->mesh; const Mesh& N = b.l->mesh;
    const double tol = 1e-6;
    e.expect(a.re == b.re, at + "re-distanced in only one of the two");
    auto node = [&](const Mesh& m, double X, double Y) { return m.xyToIndex[(int)std::lround(X)][(int)std::lround(Y)]; };
    auto outside = [&](double x, double y) { return ring > 0 && (x < ring || y < ring || x > M.width - ring || y > M.height - ring); };
    for (unsigned i = 0; i < M.nNodes && !e.failedCase; i++)
    {
        double x = M.nodes[i].coord.x, y = M.nodes[i].coord.y, X, Y; g.map(x, y, X, Y);
        if (outside(x, y)) continue;
        unsigned j = node(N, X, Y);
        if (ring > 0 && !M.nodes[i].isActive && !N.nodes[j].isActive) continue;
        auto eq = [&](const char* n, double p, double q) { e.expect(close(p, q, tol), at + fmt("%s at (%g,%g) is %.10g, in the image %.10g", n, x, y, p, q)); };
        eq("distance", a.l->signedDistance[i], b.l->signedDistance[j]);
        if (M.nodes[i].isActive && N.nodes[j].isActive) { eq("velocity", a.l->velocity[i], b.l->velocity[j]); eq("gradient", a.l->gradient[i], b.l->gradient[j]); }
        e.expect(M.nodes[i].isMasked == N.nodes[j].isMasked, at + "mask differs");
        if (ring <= 0) e.expect(M.nodes[i].isActive == N.nodes[j].isActive && M.nodes[i].isMine == N.nodes[j].isMine, at + fmt("band differs at (%g,%g)", x, y));
    }
    for (unsigned i = 0; i < M.nElements && !e.failedCase; i++)
    {
        double x = M.elements[i].coord.x, y = M.elements[i].coord.y, X, Y; g.map(x, y, X, Y);
        if (outside(x, y)) continue;
        int j = (int)std::floor(Y) * N.width + (int)std::floor(X);
        e.expect(close(M.elements[i].area, N.elements[j].area, 1e-5), at + fmt("area of element (%g,%g) is %.10g, in the image %.10g", x, y, M.elements[i].area, N.elements[j].area));
    }
    if (ring <= 0)
    {
        e.expect(a.b.nPoints == b.b.nPoints && a.b.nSegments == b.b.nSegments, at + fmt("%u points and %u segments, in the image %u and %u", a.b.nPoints, a.b.nSegments, b.b.nPoints, b.b.nSegments));
        e.expect(close(a.b.length, b.b.length, tol), at + "length of the contour differs");
        e.expect(close(a.area, b.area, 1e-5), at + "total area differs");
    }
    for (const BoundaryPoint& p : a.b.points)
    {
        if (e.failedCase) break;
        if (outside(p.coord.x, p.coord.y)) continue;
        double X, Y, nx, ny; g.map(p.coord.x, p.coord.y, X, Y); g.vec(p.normal.x, p.normal.y, nx, ny);
        const BoundaryPoint* q = 0; double best = 1e-5;
        for (const BoundaryPoint& r : b.b.points) { double d = std::hypot(r.coord.x - X, r.coord.y - Y); if (d < best) { best = d; q = &r; } }
        if (!e.expect(q != 0, at + fmt("boundary point (%.9g,%.9g) is missing in the image", p.coord.x, p.coord.y))) break;
        auto eq = [&](const char* n, double u, double v) { e.expect(close(u, v, 1e-5), at + fmt("%s of point (%.9g,%.9g) is %.10g, in the image %.10g", n, p.coord.x, p.coord.y, u, v)); };
        eq("length", p.length, q->length); eq("inward limit", p.positiveLimit, q->positiveLimit); 
        if (ring <= 0) eq("outward limit", p.negativeLimit, q->negativeLimit);
        eq("normal x", nx, q->normal.x); eq("normal y", ny, q->normal.y);
        e.expect(p.isFixed == q->isFixed && (ring > 0 || p.isDomain == q->isDomain) && p.nSegments == q->nSegments && p.nNeighbours == q->nNeighbours, at + "flags or links of a point differ");
    }
}
struct Start { std::string name; int w, h; unsigned bw; bool fixed; int kind; };
World begin(Explorer& e, const Start& s, const Iso& g)
{
    World u; u.area = 0; u.re = false;
    LevelSet* p = 0;
    auto pt = [&](double x, double y) { double X, Y; g.map(x * s.w, y * s.h, X, Y); return Coord(X, Y); };
    double m = std::min(s.w, s.h);
    auto hole = [&](double x, double y, double r) { Coord c = pt(x, y); return Hole(c.x, c.y, r * m); };
    bool no = refused([&] {
        if (s.kind == 0) p = new LevelSet(g.W(), g.H(), Holes{hole(0.41, 0.447, 0.223)}, 0.5, s.bw, s.fixed);
        if (s.kind == 1) p = new LevelSet(g.W(), g.H(), Holes{hole(0.313, 0.347, 0.151), hole(0.707, 0.613, 0.197), hole(0.251, 0.823, 0.113)}, 0.5, s.bw, s.fixed);
        if (s.kind == 2) p = new LevelSet(g.W(), g.H(), Holes{hole(0.05, 0.53, 0.31), hole(0.93, 0.11, 0.41)}, 0.5, s.bw, s.fixed);
        if (s.kind == 3) p = new LevelSet(g.W(), g.H(), std::vector<Coord>{pt(0.213, 0.257), pt(0.291, 0.761), pt(0.837, 0.691), pt(0.677, 0.173), pt(0.213, 0.257)}, 0.5, s.bw, s.fixed);
        if (s.kind == 4) p = new LevelSet(g.W(), g.H(), std::vector<Coord>{pt(0.113, 0.157), pt(0.157, 0.861), pt(0.487, 0.431), pt(0.877, 0.893), pt(0.777, 0.123), pt(0.113, 0.157)}, 0.5, s.bw, s.fixed);
    });
    if (no) { e.expect(false, "constructor refused"); return u; }
    u.l.reset(p); e.t();
    // the initial distances of the domain edges are whole numbers: start from a generic field instead
    std::vector<double> f(p->mesh.nNodes);
    for (unsigned i = 0; i < p->mesh.nNodes; i++)
    {
        double x, y; g.back(p->mesh.nodes[i].coord.x, p->mesh.nodes[i].coord.y, x, y);
        f[i] = p->signedDistance[i] * (1 + 0.013 * std::sin(2.3 * x + 1.7 * y) + 0.007 * std::cos(0.9 * x - 2.9 * y)) - 0.0137;
    }
    no = refused([&] { p->signedDistance = f; p->reinitialise(); }); e.t();
    if (no) { e.expect(false, "re-distancing refused"); u.l.reset(); }
    return u;
}
void symmetric(Explorer& e)
{
    std::vector<Start> st;
    struct M { int w, h; };
    std::vector<M> ms = {{7, 6}, {9, 5}, {12, 12}, {17, 11}};
    if (e.thorough) { ms.push_back({3, 4}); ms.push_back({26, 7}); ms.push_back({21, 20}); }
    for (M m : ms) for (int k = 0; k < 5; k++) for (unsigned bw : {3u, 6u}) for (int fx = 0; fx < 2; fx++)
        st.push_back({fmt("%dx%d structure %d band %u %s", m.w, m.h, k, bw, fx ? "fixed" : "free"), m.w, m.h, bw, fx != 0, k});
    int L = e.thorough ? 4 : 3;
    for (Start& s : st)
    {
        std::vector<int> word(L, 0);
        do
        {
            for (int k = 1; k < 8; k++)
            {
                if (!e.take()) continue;
                e.describe(s.name + fmt(" symmetry %d operations %s", k, str(word).c_str()));
                Iso id{s.w, s.h, 0, 0, 0}, g{s.w, s.h, k, 0, 0};
                World a = begin(e, s, id), b = begin(e, s, g);
                Hash h1, h2;
                for (int t = 0; t < L && a.l && b.l && !e.failedCase; t++)
                {
                    double hi = -1, lo = 1; for (double x : a.l->signedDistance) { hi = std::max(hi, x); lo = std::min(lo, x); }
                    if (hi < 1e-4 || lo > -1e-4) break;
                    bool x = apply(e, a, word[t], id), y = apply(e, b, word[t], g);
                    if (!e.expect(x == y, "refused in only one of the two") || !x) break;
                    compare(e, a, b, g, 0, fmt("after operation %d: ", t));
                    roughen(a, id); roughen(b, g);
                    h1.v(a.l->signedDistance); h2.v(b.l->signedDistance);
                }
                h1.u(k); e.state(h1); e.outcome(h2); e.done();
            }
        } while (next(word, 5));
    }
}
// The same material elsewhere, in a mesh of another size: nothing changes near the contour.
std::vector<double> material(const Mesh& m, const Iso& g, int kind)
{
    std::vector<double> f(m.nNodes);
    for (unsigned i = 0; i < m.nNodes; i++)
    {
        double x, y; g.back(m.nodes[i].coord.x, m.nodes[i].coord.y, x, y);
        double X = x - 14.13, Y = y - 13.27, th = std::atan2(Y, X), r = std::hypot(X, Y);
        double v = kind == 0 ? 5.3 * (1 + 0.17 * std::sin(3 * th + 0.4)) - r
                 : kind == 1 ? std::max(3.1 - std::hypot(X + 2.03, Y + 0.71), 2.7 - std::hypot(X - 2.41, Y - 1.33))
                 : kind == 2 ? std::min(6.1 - r, std::hypot(X - 0.57, Y + 0.23) - 2.37)
                 : std::min(4.2 - std::abs(0.93 * X + 0.37 * Y), 3.3 - std::abs(0.93 * Y - 0.37 * X));
        f[i] = v * (1 + 0.01 * std::sin(2.3 * x + 1.7 * y));
    }
    return f;
}
void shifted(Explorer& e)
{
    const int w = 28, h = 27;
    std::vector<Iso> im;
    for (int k : {0, 3, 5}) for (auto q : std::vector<std::vector<int>>{{1, 0, 1, 0}, {0, 1, 0, 2}, {5, 3, 6, 4}, {0, 0, 33, 0}, {0, 0, 0, 41}, {31, 0, 32, 1}, {7, 40, 9, 42}})
    {
        Iso g; g.w = w; g.h = h; g.k = k; g.dx = q[0]; g.dy = q[1]; g.growX = q[2]; g.growY = q[3]; im.push_back(g);
    }
    int L = e.thorough ? 4 : 3;
    for (int kind = 0; kind < 4; kind++) for (unsigned bw : {3u, 4u})
    {
        std::vector<int> word(L, 0);
        do for (size_t q = 0; q < im.size(); q++)
        {
            if (!e.take()) continue;
            const Iso& g = im[q]; Iso id; id.w = w; id.h = h;
            e.describe(fmt("material %d band %u shift %d,%d transform %d mesh %dx%d operations %s", kind, bw, g.dx, g.dy, g.k, g.W(), g.H(), str(word).c_str()));
            World a, b; a.re = b.re = false; a.area = b.area = 0;
            a.l = make(e, w, h, bw); b.l = make(e, g.W(), g.H(), bw);
            bool no = !a.l || !b.l || refused([&] {
                a.l->signedDistance = material(a.l->mesh, id, kind); a.l->reinitialise();
                b.l->signedDistance = material(b.l->mesh, g, kind); b.l->reinitialise(); });
            e.t(4);
            e.expect(!no, "refused");
            Hash h1, h2;
            for (int t = 0; t < L && !e.failedCase; t++)
            {
                bool x = apply(e, a, word[t], id), y = apply(e, b, word[t], g);
                if (!e.expect(x == y, "refused in only one of the two") || !x) break;
                compare(e, a, b, g, 0.5, fmt("after operation %d: ", t));
                e.expect(a.b.nPoints == b.b.nPoints && a.b.nSegments == b.b.nSegments && close(a.b.length, b.b.length, 1e-6) && close(a.area, b.area, 1e-5), "number of points, length or area differ");
                e.expect(a.l->nNarrowBand == b.l->nNarrowBand && a.l->nMines == b.l->nMines, "narrow bands differ");
                roughen(a, id); roughen(b, g);
                h1.v(a.l->signedDistance); h2.v(b.l->signedDistance);
            }
            h1.u(q); e.state(h1); e.outcome(h2); e.done();
        } while (next(word, 4));
    }
}
void c35(Explorer& e) { symmetric(e); shifted(e); }
}
int mc_main(int argc, char** argv) { return run(argc, argv, {{"C34", moving, 60}, {"C35", c35, 60}}); }
