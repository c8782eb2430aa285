// Shared alphabets of level-set fields.
#ifndef FIELDS_HPP
#define FIELDS_HPP
#include <cmath>
#include <string>
#include <vector>
#include "mc.hpp"
namespace fields
{
// Generic magnitudes: fixed, mutually incommensurate, so that rounding-level ties do
// not occur unless a pattern means them to.
inline double mag(int scheme, int i)
{
    if (scheme == 0) return 1.0;
    if (scheme == 1) { double f = std::fmod((i + 1) * 0.6180339887498949, 1.0); return 0.15 + 1.1 * f; }
    if (scheme == 2) { double f = std::fmod((i + 3) * 0.7548776662466927 + 0.17, 1.0); return 0.02 + 0.96 * f * f; }
    if (scheme == 3) { double f = std::fmod((i + 7) * 0.5698402909980532 + 0.41, 1.0); return 0.3 + 9.0 * f; }
    if (scheme == 5) return (i % 3 == 1) ? 1e-17 * (1 + i) : mag(1, i);
    // the contour passes very close to every other node
    if (scheme == 6) { double f = std::fmod((i + 4) * 0.3819660112501051 + 0.1, 1.0); return i % 2 ? 0.7 + f : 6e-6 * std::pow(120.0, f); }
    // around the tolerance within which a node counts as on the contour
    if (scheme == 7) { static const double t[] = {0.9, 9.7e-7, 3e-8, 1.03e-6, 0.3, 2.7e-6, 5e-7, 1.1e-5, 6e-9, 1.7}; return t[(i * 7 + 3) % 10] * (1 + 0.003 * i); }
    double f = std::fmod((i + 2) * 0.41421356237309503, 1.0); return f < 0.5 ? 0.01 + 0.02 * f : 0.9 + f;
}
// signs: digit 0 -> positive, 1 -> negative, 2 -> zero
inline std::vector<double> signs(const std::vector<int>& s, int scheme)
{
    std::vector<double> p(s.size());
    for (size_t i = 0; i < s.size(); i++) p[i] = s[i] == 2 ? 0.0 : (s[i] ? -1 : 1) * mag(scheme, (int)i);
    return p;
}
struct Named { std::string name; int w, h; std::vector<double> phi; };

inline std::vector<double> fill(int w, int h, const std::function<double(double, double)>& f)
{
    std::vector<double> p;
    for (int y = 0; y <= h; y++) for (int x = 0; x <= w; x++) p.push_back(f(x, y));
    return p;
}
inline std::vector<double> line(int w, int h, double deg, double off)
{
    double c = std::cos(deg * M_PI / 180), s = std::sin(deg * M_PI / 180);
    if (std::abs(c) < 1e-12) c = 0;
    if (std::abs(s) < 1e-12) s = 0;
    return fill(w, h, [=](double x, double y) { return c * (x - 0.5 * w) + s * (y - 0.5 * h) - off; });
}
inline std::vector<double> circle(int w, int h, double cx, double cy, double r, int sign = 1)
{
    return fill(w, h, [=](double x, double y) { return sign * (std::hypot(x - cx, y - cy) - r); });
}
// A generic field of about unit slope with contours all over the mesh: no symmetry, no ties.
// k = 0: moderate, 1: inverted and shifted, 2: a nearly straight contour along the longer side.
inline std::vector<double> waves(int w, int h, int k)
{
    return fill(w, h, [=](double x, double y) {
        if (k == 2) return w >= h ? 0.47 * h - y + 0.31 * std::sin(0.7 * x + 0.3) + 0.003 : 0.47 * w - x + 0.31 * std::sin(0.7 * y + 0.3) + 0.003;
        double a = k ? 1.3 : 0.0;
        double v = 0.9 * std::sin(0.83 * x + 0.41 * y + 0.37 + a) + 0.8 * std::cos(0.29 * x - 0.71 * y + 1.1 + 2 * a) + 0.013 * std::sin(3.1 * x + 2.7 * y);
        return k ? -v : v;
    });
}
// Mesh sizes for sweeps: every small one, then sizes around powers of two, long and flat ones.
inline std::vector<std::pair<int, int>> sizes(int most, bool big)
{
    std::vector<std::pair<int, int>> r;
    for (int w = 1; w <= most; w++) for (int h = 1; h <= most; h++) r.push_back({w, h});
    for (int n : {31, 32, 33, 63, 64, 65, 99, 100, 127, 128, 199, 200, 255, 256, 257})
        for (int m : {1, 2, 3, 7, 8}) { r.push_back({n, m}); r.push_back({m, n}); }
    for (int n : {24, 25, 30, 31, 32, 33, 39, 49, 50, 63, 64}) { r.push_back({n, n}); r.push_back({n, n - 5}); r.push_back({n - 7, n}); }
    if (big) for (int n : {75, 99, 100, 127, 128, 160, 199, 200, 255, 256}) { r.push_back({n, n}); r.push_back({n, n / 2}); r.push_back({n / 2 + 1, n}); }
    return r;
}
inline std::string show(const std::vector<double>& p, int w)
{
    if (p.size() > 5000) return mc::fmt("w=%d, %zu nodes", w, p.size());
    return mc::fmt("w=%d phi=", w) + mc::str(p);
}
// symmetries of a rectangle's node field: k=0..7 (bit0 mirror x, bit1 mirror y, bit2 transpose)
inline std::vector<double> sym(const std::vector<double>& p, int w, int h, int k, int& w2, int& h2)
{
    w2 = (k & 4) ? h : w; h2 = (k & 4) ? w : h;
    std::vector<double> q((w2 + 1) * (h2 + 1));
    for (int y = 0; y <= h2; y++)
        for (int x = 0; x <= w2; x++)
        {
            int a = x, b = y;
            if (k & 4) std::swap(a, b);
            if (k & 1) a = w - a;
            if (k & 2) b = h - b;
            q[y * (w2 + 1) + x] = p[b * (w + 1) + a];
        }
    return q;
}
}
#endif
