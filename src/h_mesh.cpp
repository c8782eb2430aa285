// C01 mesh topology, C02 point location.
#include "mc.hpp"
#include "slsm_all.hpp"
using namespace mc;
using namespace slsm;

namespace
{
void topology(Explorer& e)
{
    int M = e.thorough ? 120 : 30;
    std::vector<std::pair<int,int>> sizes;
    for (int w = 1; w <= M; w++) for (int h = 1; h <= M; h++) sizes.push_back({w, h});
    for (auto p : {std::make_pair(40, 3), std::make_pair(3, 40), std::make_pair(200, 7), std::make_pair(7, 200), std::make_pair(64, 64), std::make_pair(255, 2), std::make_pair(2, 257), std::make_pair(130, 131), std::make_pair(1, 70000), std::make_pair(70000, 1), std::make_pair(1000, 1100)})
        sizes.push_back(p);
    for (auto& sz : sizes)
    {
        if (!e.take()) continue;
        unsigned w = sz.first, h = sz.second;
        e.describe(fmt("mesh %ux%u", w, h));
        Mesh m(w, h); e.t();
        unsigned W = w + 1, H = h + 1, N = W * H;
        Hash s; s.u(w); s.u(h);
        bool ok = e.expect(m.width == w && m.height == h && m.nElements == w * h && m.nNodes == N, "sizes")
               && e.expect(m.nodes.size() == N && m.elements.size() == w * h, "container sizes")
               && e.expect(m.xyToIndex.size() == W, "xyToIndex size");
        for (unsigned x = 0; ok && x < W; x++)
        {
            ok = e.expect(m.xyToIndex[x].size() == H, "xyToIndex column size");
            for (unsigned y = 0; ok && y < H; y++)
            {
                unsigned i = y * W + x;
                const Node& n = m.nodes[i];
                e.t();
                ok = e.expect(m.xyToIndex[x][y] == i, fmt("xyToIndex[%u][%u] = %u", x, y, m.xyToIndex[x][y]))
                  && e.expect(n.coord.x == x && n.coord.y == y, fmt("node %u coordinates (%g,%g)", i, n.coord.x, n.coord.y))
                  && e.expect(n.neighbours.size() >= 4, "neighbour list too short")
                  && e.expect(n.neighbours[0] == (x > 0 ? i - 1 : N), fmt("node (%u,%u) left neighbour %u", x, y, n.neighbours[0]))
                  && e.expect(n.neighbours[1] == (x < w ? i + 1 : N), fmt("node (%u,%u) right neighbour %u", x, y, n.neighbours[1]))
                  && e.expect(n.neighbours[2] == (y > 0 ? i - W : N), fmt("node (%u,%u) lower neighbour %u", x, y, n.neighbours[2]))
                  && e.expect(n.neighbours[3] == (y < h ? i + W : N), fmt("node (%u,%u) upper neighbour %u", x, y, n.neighbours[3]))
                  && e.expect(n.isDomain == (x == 0 || y == 0 || x == w || y == h), fmt("node (%u,%u) isDomain", x, y))
                  && e.expect(!n.isMasked && !n.isActive && !n.isMine, fmt("node (%u,%u) not in its initial state", x, y))
                  && e.expect(n.nBoundaryPoints == 0, fmt("node (%u,%u) starts with boundary points", x, y));
                // elements around the node
                std::set<unsigned> want, got;
                for (int a = -1; a <= 0; a++) for (int b = -1; b <= 0; b++)
                {
                    int ex = (int)x + a, ey = (int)y + b;
                    if (ex >= 0 && ey >= 0 && ex < (int)w && ey < (int)h) want.insert(ey * w + ex);
                }
                ok = ok && e.expect(n.nElements == want.size(), fmt("node (%u,%u) nElements %u", x, y, n.nElements));
                for (unsigned k = 0; ok && k < n.nElements; k++) got.insert(n.elements[k]);
                ok = ok && e.expect(got == want, fmt("node (%u,%u) element list", x, y));
                s.u(i); s.u(n.nElements);
            }
        }
        for (unsigned i = 0; ok && i < w * h; i++)
        {
            unsigned x = i % w, y = i / w, b = y * W + x;
            const Element& el = m.elements[i];
            e.t();
            ok = e.expect(el.coord.x == x + 0.5 && el.coord.y == y + 0.5, fmt("element %u centre (%g,%g)", i, el.coord.x, el.coord.y))
              && e.expect(el.nodes.size() == 4 && el.nodes[0] == b && el.nodes[1] == b + 1 && el.nodes[2] == b + 1 + W && el.nodes[3] == b + W, fmt("element %u nodes", i));
        }
        e.state(s); e.outcome(s);
        e.done();
    }
}

void locate(Explorer& e)
{
    std::vector<std::pair<int,int>> sizes = {{1,1},{1,2},{2,1},{3,2},{2,5},{5,5},{7,3},{4,9}};
    if (e.thorough) { for (int w = 1; w <= 12; w++) for (int h = 1; h <= 12; h++) sizes.push_back({w, h}); for (auto p : {std::make_pair(3, 30), std::make_pair(30, 3), std::make_pair(17, 11), std::make_pair(11, 17)}) sizes.push_back(p); }
    // long and large meshes, on every strided cell (coordinates far from the origin)
    for (auto p : {std::make_pair(300, 1), std::make_pair(1, 300), std::make_pair(130, 70), std::make_pair(900, 1200), std::make_pair(70000, 2), std::make_pair(2, 70000)}) sizes.push_back(p);
    // offsets inside a unit cell
    std::vector<double> off = {0, 1e-9, 5e-7, 9.9e-7, 1e-6, 1.1e-6, 1e-4, 0.1, 0.25, 1.0/3, 0.4999, 0.4999995, 0.5, 0.5000005, 0.5001, 0.6, 0.75, 0.9, 0.999, 0.9999985, 0.9999995, 1 - 1e-9};
    if (e.thorough) for (int k = 1; k < 20; k++) { off.push_back(k / 20.0 + 0.0123); off.push_back(std::ldexp(1, -k)); off.push_back(1 - std::ldexp(1, -k)); }
    for (auto& sz : sizes)
    {
        int w = sz.first, h = sz.second;
        Mesh m(w, h);
        std::vector<double> xs, ys;
        auto fill = [&](int n, std::vector<double>& v) {
            for (double neg : {-9e-7, -1e-9}) v.push_back(neg);
            int st = w * h > 600 ? std::max(1, n / 6) : 1;
            for (int i = 0; i < n; i++) if (i % st == 0 || i == n - 1) for (double o : off) v.push_back(i + o);
            v.push_back(n); };
        fill(w, xs); fill(h, ys);
        for (double x : xs)
            for (double y : ys)
            {
                if (!e.take()) continue;
                e.describe(fmt("mesh %dx%d point (%.10g,%.10g)", w, h, x, y));
                unsigned el = ~0u, el2 = ~0u, nd = ~0u, nd2 = ~0u;
                bool r = refused([&] { el = m.getElement(x, y); el2 = m.getElement(Coord(x, y)); nd = m.getClosestNode(x, y); nd2 = m.getClosestNode(Coord(x, y)); });
                e.t(4);
                const double tol = 2e-6;
                double cx = std::min(std::max(x, 0.0), (double)w), cy = std::min(std::max(y, 0.0), (double)h);
                if (e.expect(!r, "lookup refused a point of the domain") && e.expect(el < m.nElements, fmt("element index %u out of range", el)) && e.expect(nd < m.nNodes, fmt("node index %u out of range", nd)))
                {
                    double ex = el % w, ey = el / w;
                    e.expect(el == el2, "the two getElement overloads disagree");
                    e.expect(nd == nd2, "the two getClosestNode overloads disagree");
                    e.expect(cx >= ex - tol && cx <= ex + 1 + tol && cy >= ey - tol && cy <= ey + 1 + tol, fmt("element %u does not contain the point", el));
                    double nx = nd % (w + 1), ny = nd / (w + 1);
                    double d = std::hypot(nx - cx, ny - cy), best = 1e9;
                    int ax = (int)cx, ay = (int)cy;
                    for (int a = std::max(0, ax - 2); a <= std::min(w, ax + 2); a++) for (int b = std::max(0, ay - 2); b <= std::min(h, ay + 2); b++) best = std::min(best, std::hypot(a - cx, b - cy));
                    e.expect(d <= best + tol, fmt("node %u at distance %.9g, nearest is at %.9g", nd, d, best));
                    Hash s; s.u(w); s.u(h); s.u(el); s.u(nd); e.state(s); e.outcome(s);
                }
                e.done();
            }
    }
}
}
int mc_main(int argc, char** argv) { return run(argc, argv, {{"C01", topology, 60}, {"C02", locate, 60}}); }
