// Reference marching squares: what the discretised contour of a nodal field must be.
#ifndef REF_BOUNDARY_HPP
#define REF_BOUNDARY_HPP
#include <algorithm>
#include <cmath>
#include <map>
#include <utility>
#include <vector>
struct RefBoundary
{
    enum { IN = 1, OUT = 2, BND = 4 };
    typedef std::pair<int, int> Key;                 // (n,n): node point; (a<b): crossing of edge a-b
    int W, H, w, h;
    const std::vector<double>& phi;
    std::vector<int> st;
    std::vector<char> on;                            // node makes its edges visible (band or masked); empty: all
    std::vector<int> est;                            // element: IN / OUT / 0
    std::vector<int> saddle;                         // 0 no saddle, +1 centre inside, -1 centre outside, 2 tie (outside)
    std::vector<char> whole;                         // all four edges considered
    std::vector<char> nearTie;
    std::vector<std::vector<std::pair<Key, Key>>> seg;   // per element
    std::map<Key, std::pair<double, double>> pts;
    std::map<Key, std::pair<double, double>> maybe;  // zero nodes of partly visible elements: may or may not be drawn
    std::vector<double> area;

    RefBoundary(int w_, int h_, const std::vector<double>& p, const std::vector<char>& o) : W(w_ + 1), H(h_ + 1), w(w_), h(h_), phi(p), on(o) { run(); }
    bool seen(int a, int b) const { return on.empty() || on[a] || on[b]; }
    void corners(int e, int* n) const { int x = e % w, y = e / w; n[0] = y * W + x; n[1] = n[0] + 1; n[2] = n[1] + W; n[3] = n[0] + W; }
    std::pair<double, double> xy(Key k) const
    {
        double ax = k.first % W, ay = k.first / W;
        if (k.first == k.second) return {ax, ay};
        double bx = k.second % W, by = k.second / W, t = phi[k.first] / (phi[k.first] - phi[k.second]);
        return {ax + t * (bx - ax), ay + t * (by - ay)};
    }
    static Key edge(int a, int b) { return a < b ? Key(a, b) : Key(b, a); }
    void use(Key k) { pts[k] = xy(k); }
    void run()
    {
        for (double v : phi) st.push_back(std::abs(v) < 1e-6 ? BND : v < 0 ? OUT : IN);
        int ne = w * h;
        est.assign(ne, 0); saddle.assign(ne, 0); seg.resize(ne); area.assign(ne, 0); whole.assign(ne, 1); nearTie.assign(ne, 0);
        for (int e = 0; e < ne; e++)
        {
            int n[4]; corners(e, n);
            int nin = 0, nout = 0;
            for (int k = 0; k < 4; k++) { nin += st[n[k]] == IN; nout += st[n[k]] == OUT; if (!seen(n[k], n[(k + 1) % 4])) whole[e] = 0; }
            if (!nout) { est[e] = IN; area[e] = 1; }
            else if (!nin) { est[e] = OUT; area[e] = 0; continue; }
            std::vector<std::pair<Key, Key>>& s = seg[e];
            // zero edges
            for (int k = 0; k < 4; k++)
            {
                int a = n[k], b = n[(k + 1) % 4];
                if (st[a] == BND && st[b] == BND && seen(a, b)) s.push_back({Key(a, a), Key(b, b)});
                if ((st[a] | st[b]) == (IN | OUT) && seen(a, b)) use(edge(a, b));
            }
            if (est[e] == IN) { for (auto& q : s) { use(q.first); use(q.second); } continue; }
            // runs of not-outside corners between outside corners, anticlockwise
            struct Run { Key a, b; std::vector<std::pair<double, double>> poly; bool drawn; };
            std::vector<Run> runs;
            for (int k = 0; k < 4; k++)
            {
                int prev = n[(k + 3) % 4];
                if (st[n[k]] == OUT || st[prev] != OUT) continue;      // start of a run
                Run r; r.drawn = true;
                int m = k, len = 0;
                if (st[n[k]] == IN) { r.a = edge(prev, n[k]); r.poly.push_back(xy(r.a)); if (!seen(prev, n[k])) r.drawn = false; }
                else r.a = Key(n[k], n[k]);
                while (st[n[m % 4]] != OUT) { r.poly.push_back({(double)(n[m % 4] % W), (double)(n[m % 4] / W)}); m++; len++; }
                int last = n[(m + 3) % 4], nx = n[m % 4];
                if (st[last] == IN) { r.b = edge(last, nx); r.poly.push_back(xy(r.b)); if (!seen(last, nx)) r.drawn = false; }
                else r.b = Key(last, last);
                if (len == 1 && st[n[k]] == BND) continue;             // an isolated zero corner carries nothing
                runs.push_back(r);
            }
            if (!whole[e])
            {
                s.clear();
                for (int k = 0; k < 4; k++) if (st[n[k]] == BND) maybe[Key(n[k], n[k])] = xy(Key(n[k], n[k]));
                for (int k = 0; k < 4; k++) { int a = n[k], b = n[(k + 1) % 4]; if (st[a] == BND && st[b] == BND && seen(a, b)) { use(Key(a, a)); use(Key(b, b)); } }
                continue;
            }
            if (runs.size() == 2)      // IN OUT IN OUT
            {
                double c = phi[n[0]] + phi[n[1]] + phi[n[2]] + phi[n[3]];
                saddle[e] = c > 0 ? 1 : c < 0 ? -1 : 2;
                bool exact = true; for (int k = 0; k < 4; k++) exact &= phi[n[k]] * 8 == std::floor(phi[n[k]] * 8);
                if (!exact && std::abs(c) < 1e-9) nearTie[e] = 1;
                if (c > 0)
                {
                    s.push_back({runs[0].b, runs[1].a}); s.push_back({runs[1].b, runs[0].a});
                    std::vector<std::pair<double, double>> p = runs[0].poly; p.insert(p.end(), runs[1].poly.begin(), runs[1].poly.end());
                    area[e] = poly(p);
                }
                else for (auto& r : runs) { s.push_back({r.a, r.b}); area[e] += poly(r.poly); }
            }
            else for (auto& r : runs) { if (r.drawn) s.push_back({r.a, r.b}); area[e] += poly(r.poly); }
            for (auto& q : s) { use(q.first); use(q.second); }
        }
    }
    static double poly(const std::vector<std::pair<double, double>>& p)
    {
        double a = 0;
        for (size_t i = 0; i < p.size(); i++) { auto &u = p[i], &v = p[(i + 1) % p.size()]; a += u.first * v.second - v.first * u.second; }
        return std::abs(a / 2);
    }
};
#endif
