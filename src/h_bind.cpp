// C38 the Python module is the C++ library: the real binding code, registered with a stand-in for
// pybind11, is driven by name and compared with the C++ members of the same name.
#include "mc.hpp"
#include "slsm_all.hpp"
#include "Optimise.h"
#include "snap.hpp"
#include "fields.hpp"
#include <pybind11/pybind11.h>
#include <memory>
#include <dirent.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>
using namespace mc;
using namespace slsm;
using pybind11::Ref; using pybind11::Args; using pybind11::Kw; using pybind11::py; using pybind11::refer;
namespace nlopt { std::function<result(Problem&, std::vector<double>&, double&)> g_optimize; }

namespace
{
typedef std::string S;
typedef std::vector<double> V;
pybind11::Interpreter* P = 0;
S importError;
void start()
{
    if (P || !importError.empty()) return;
    P = new pybind11::Interpreter;
    try { pybind11::module_ m(&P->r); pybind11::stub_module_init(m); }
    catch (std::exception& x) { importError = x.what(); delete P; P = 0; return; }
    P->types = pybind11::byType(P->r);
}
// ---------------------------------------------------------------- observable content
S ser(bool v) { return v ? "T" : "F"; }
S ser(unsigned v) { return fmt("%u;", v); }
S ser(int v) { return fmt("%d;", v); }
S ser(long long v) { return fmt("%lld;", v); }
S ser(double v) { return fmt("%.17g;", v); }
S ser(const S& v) { return v; }
S ser(const Node& n); S ser(const Element& n);
S ser(const Coord& v) { return ser(v.x) + ser(v.y); }
S ser(const Hole& v) { return ser(v.coord) + ser(v.r); }
S ser(const MutableFloat& v) { return ser(v.value); }
S ser(const BoundaryPoint& v) { return snap::point(v); }
S ser(const BoundarySegment& g) { return ser(g.start) + ser(g.end) + ser(g.element) + ser(g.length) + ser(g.weight); }
template <class T> S ser(const std::vector<T>& v) { S s = fmt("[%zu]", v.size()); for (size_t i = 0; i < v.size(); i++) s += ser(T(v[i])); return s; }
S ser(const Node& n) { return ser(n.coord) + ser(n.neighbours) + ser(n.isDomain); }
S ser(const Element& n) { return ser(n.coord) + ser(n.area) + ser(n.nodes); }
S ser(const Mesh& m) { return ser(m.width) + ser(m.height) + ser(m.nNodes) + ser(m.nElements) + snap::topology(m); }
S ser(const LevelSet& l) { return snap::all(l) + ser(l.moveLimit) + ser(l.area); }
S ser(const Boundary& b) { return snap::boundary(b); }
S ser(const SensitivityCallback& f) { BoundaryPoint p; p.coord = Coord(0.3, 0.7); return f ? ser(f(p)) : S("none"); }
S ser(const Callback& c) { return ser(c.callback); }
S ser(const MersenneTwister& r) { MersenneTwister q(r); S s; for (int i = 0; i < 3; i++) s += ser(q.integer(0, 1000000)); return s; }
// a result as a value of type T (numbers by Python's rules)
template <class T> S out(const Ref& r) { if (r.is<T>()) return ser(r.as<T>()); return S("a result of type ") + r.t.name(); }
template <> S out<unsigned>(const Ref& r) { return r.is<long long>() ? ser((unsigned)r.as<long long>()) : S("a result of type ") + r.t.name(); }
template <> S out<int>(const Ref& r) { return r.is<long long>() ? ser((int)r.as<long long>()) : S("a result of type ") + r.t.name(); }

struct Ctx
{
    Explorer& e; Hash o, st;
    Ctx(Explorer& x) : e(x) {}
    // runs f; the text describes what came out, or how it failed
    template <class F> S python(F f)
    {
        S s, err; e.t();
        bool no = refused([&] { try { s = f(); } catch (pybind11::TypeError& x) { err = x.what(); } });
        return !err.empty() ? "TypeError " + err : no ? S("refused") : s;
    }
    template <class F> S native(F f) { S s; e.t(); return refused([&] { s = f(); }) ? S("refused") : s; }
    void same(const S& a, const S& b, const S& what)
    {
        for (char c : b) o.u((unsigned char)c);
        if (a == b) { e.expect(true, ""); return; }
        bool text = a.size() < 200 && b.size() < 200;
        for (char c : a + b) text = text && c >= 32 && c < 127;
        e.expect(false, what + (text ? ": through the module \"" + a + "\", in C++ \"" + b + "\"" : a.substr(0, 9) == "TypeError" || a == "refused" ? ": " + a.substr(0, 200) : S(": differs from C++")));
    }
    void end() { e.state(o); e.outcome(o); e.done(); }
};
Args args() { return Args(); }
template <class... T> Args args(const T&... t) { return Args{t...}; }

// ---------------------------------------------------------------- attributes
template <class C, class M> void attribute(Explorer& e, const char* cls, const char* name, M C::*m, bool writable, const std::vector<C>& objs, const std::vector<M>& values)
{
    for (size_t k = 0; k < objs.size(); k++) for (size_t w = 0; w <= (writable ? values.size() : 0); w++)
    {
        if (!e.take()) continue;
        e.describe(fmt("attribute %s.%s, object %zu, %s", cls, name, k, w ? fmt("set to value %zu", w - 1).c_str() : "read"));
        Ctx c(e);
        C a(objs[k]), b(objs[k]);
        S before = ser(a);
        if (!w)
        {
            c.same(c.python([&] { return out<M>(P->get(refer(a), name)); }), c.native([&] { return ser(b.*m); }), fmt("%s.%s", cls, name));
            c.same(ser(a), before, fmt("reading %s.%s changed the object", cls, name));
            // attributes that are objects are the object's own parts, not copies
            S r = c.python([&] { Ref q = P->get(refer(a), name); bool number = q.is<long long>() || q.is<double>() || q.is<bool>(); return S(number || q.p == (void*)&(a.*m) ? "part" : "copy"); });
            c.same(r, "part", fmt("%s.%s", cls, name));
        }
        else
        {
            const M& v = values[w - 1];
            c.same(c.python([&] { P->set(refer(a), name, py(v)); return ser(a); }), c.native([&] { b.*m = v; return ser(b); }), fmt("setting %s.%s", cls, name));
            c.same(c.python([&] { return out<M>(P->get(refer(a), name)); }), ser(v), fmt("%s.%s after setting it", cls, name));
        }
        c.end();
    }
}
const V& vals() { static V v = {0, -1.5, 0.25, 3, 1e-9}; return v; }
std::vector<BoundaryPoint> somePoints()
{
    std::vector<BoundaryPoint> r(3);
    for (int k = 0; k < 3; k++)
    {
        BoundaryPoint& p = r[k]; double z = k + 1;
        p.coord = Coord(1.1 * z, 2.2 * z); p.normal = Coord(0.3 * z, -0.4 * z); p.length = 0.11 * z; p.velocity = -0.21 * z; p.negativeLimit = -0.31 * z; p.positiveLimit = 0.41 * z;
        p.isDomain = k == 1; p.isFixed = k == 2; p.nSegments = k; p.nNeighbours = k + 1;
        p.segments.assign(4, 0); p.neighbours.assign(4, 0); for (int i = 0; i < 4; i++) { p.segments[i] = 10 * k + i; p.neighbours[i] = 100 + 10 * k + i; }
        p.sensitivities = {1.5 * z, -2.5 * z};
    }
    return r;
}
std::vector<Hole> holes(int k)
{
    std::vector<Hole> h;
    if (k % 3 != 2) h.push_back(Hole(5.2, 5.6, 3.1));
    if (k % 3 != 0) h.push_back(Hole(8.4, 4.9, 2.3));
    return h;
}
std::vector<Coord> polygon(int k)
{
    std::vector<Coord> p = {Coord(2.2, 2.6 + k), Coord(9.7, 3.1), Coord(6.4 - k, 8.8)};
    p.push_back(p[0]);
    return p;
}
struct World { LevelSet l; Boundary b; };
std::unique_ptr<World> world(Explorer& e, int k)
{
    World* w = 0;
    bool no = refused([&] {
        w = new World{k == 0 ? LevelSet(12, 11, holes(0), 0.5, 3, false) : k == 1 ? LevelSet(11, 10, polygon(0), 0.4, 4, true) : LevelSet(13, 11, holes(1), holes(2), 0.3, 5, k == 3), Boundary()};
        w->l.reinitialise(); w->b.discretise(w->l); w->b.computeNormalVectors(w->l); w->l.computeAreaFractions(w->b);
        for (size_t i = 0; i < w->l.velocity.size(); i++) { w->l.velocity[i] = 0.1 * std::sin(1.0 + i); w->l.gradient[i] = 1 + 0.1 * std::cos(2.0 + i); }
        for (size_t i = 0; i < w->b.points.size(); i++) { w->b.points[i].velocity = std::sin(0.7 * i); w->b.points[i].sensitivities.assign(2, 0); for (int f = 0; f < 2; f++) w->b.points[i].sensitivities[f] = std::cos(0.3 * i + f); }
    });
    e.expect(!no && w, "setting up a structure was refused");
    return std::unique_ptr<World>(w);
}
void attributes(Explorer& e)
{
    std::vector<Coord> cs = {Coord(1.5, -2.5), Coord(0, 3)};
    attribute(e, "Coord", "x", &Coord::x, true, cs, vals()); attribute(e, "Coord", "y", &Coord::y, true, cs, vals());
    std::vector<Hole> hs = {Hole(1.5, 2.5, 3.5), Hole(Coord(4, 5), 6)};
    attribute(e, "Hole", "coord", &Hole::coord, true, hs, cs); attribute(e, "Hole", "r", &Hole::r, true, hs, vals());
    std::vector<MutableFloat> ms = {MutableFloat(2.5), MutableFloat()};
    attribute(e, "MutableFloat", "value", &MutableFloat::value, true, ms, vals());
    std::vector<BoundaryPoint> ps = somePoints();
#define A(m, w, v) attribute(e, "BoundaryPoint", #m, &BoundaryPoint::m, w, ps, v)
    std::vector<bool> none0; std::vector<unsigned> nu; std::vector<V> vv = {{1, 2, 3}, {}}; std::vector<std::vector<unsigned>> nuu; std::vector<bool> bb = {false, true};
    A(coord, false, cs); A(normal, false, cs); A(length, false, vals()); A(velocity, true, vals()); A(negativeLimit, true, vals()); A(positiveLimit, true, vals());
    A(isDomain, true, bb); A(isFixed, true, bb); A(nSegments, false, nu); A(segments, false, nuu); A(nNeighbours, false, nu); A(neighbours, false, nuu); A(sensitivities, true, vv);
#undef A
    std::vector<BoundarySegment> ss(2);
    for (int k = 0; k < 2; k++) { ss[k].start = 3 + k; ss[k].end = 7 + 2 * k; ss[k].element = 11 + k; ss[k].length = 0.4 + k; ss[k].weight = 0.9 - k; }
#define A(m, v) attribute(e, "BoundarySegment", #m, &BoundarySegment::m, false, ss, v)
    A(start, nu); A(end, nu); A(element, nu); A(length, vals()); A(weight, vals());
#undef A
    std::vector<LevelSet> ls; std::vector<Boundary> bs; std::vector<Mesh> mm; std::vector<Node> nn; std::vector<Element> ee;
    for (int k = 0; k < 4; k++)
    {
        std::unique_ptr<World> w = world(e, k); if (!w) return;
        ls.push_back(w->l); bs.push_back(w->b); mm.push_back(w->l.mesh); nn.push_back(w->l.mesh.nodes[13 + k]); ee.push_back(w->l.mesh.elements[37 + k]);
    }
    // counts and length that no two attributes share
    bs[0].nPoints = 1001; bs[0].nSegments = 1002; bs[0].length = 1003.5;
#define A(m, v) attribute(e, "Boundary", #m, &Boundary::m, false, bs, v)
    A(points, std::vector<std::vector<BoundaryPoint>>()); A(segments, std::vector<std::vector<BoundarySegment>>()); A(nPoints, nu); A(nSegments, nu); A(length, vals());
#undef A
    attribute(e, "Element", "coord", &Element::coord, false, ee, cs); attribute(e, "Element", "area", &Element::area, false, ee, vals());
    attribute(e, "Node", "coord", &Node::coord, false, nn, cs); attribute(e, "Node", "neighbours", &Node::neighbours, false, nn, nuu);
#define A(m, v) attribute(e, "Mesh", #m, &Mesh::m, false, mm, v)
    A(nodes, std::vector<std::vector<Node>>()); A(elements, std::vector<std::vector<Element>>());
#undef A
    std::vector<V> fields = {V(ls[0].signedDistance.size(), 0.5), ls[1].signedDistance};
#define A(m, w, v) attribute(e, "LevelSet", #m, &LevelSet::m, w, ls, v)
    A(signedDistance, true, fields); A(velocity, true, fields); A(gradient, true, fields); A(target, true, fields); A(area, false, vals());
#undef A
    // constant members
    for (size_t k = 0; k < ls.size(); k++)
    {
        if (!e.take()) continue;
        e.describe(fmt("constant attributes of level set and mesh %zu", k));
        Ctx c(e); LevelSet& l = ls[k];
        c.same(c.python([&] { return out<double>(P->get(refer(l), "moveLimit")); }), ser(double(l.moveLimit)), "LevelSet.moveLimit");
        c.same(c.python([&] { return out<Mesh>(P->get(refer(l), "mesh")); }), ser(l.mesh), "LevelSet.mesh");
        Mesh& m = mm[k];
        c.same(c.python([&] { return out<unsigned>(P->get(refer(m), "width")); }), ser(unsigned(m.width)), "Mesh.width");
        c.same(c.python([&] { return out<unsigned>(P->get(refer(m), "height")); }), ser(unsigned(m.height)), "Mesh.height");
        c.same(c.python([&] { return out<unsigned>(P->get(refer(m), "nNodes")); }), ser(unsigned(m.nNodes)), "Mesh.nNodes");
        c.same(c.python([&] { return out<unsigned>(P->get(refer(m), "nElements")); }), ser(unsigned(m.nElements)), "Mesh.nElements");
        c.end();
    }
    std::vector<std::pair<const char*, std::type_index>> vecs = {{"VectorInt", typeid(std::vector<int>)}, {"VectorUnsignedInt", typeid(std::vector<unsigned>)}, {"VectorDouble", typeid(V)}, {"VectorBool", typeid(std::vector<bool>)},
        {"VectorBoundaryPoint", typeid(std::vector<BoundaryPoint>)}, {"VectorBoundarySegment", typeid(std::vector<BoundarySegment>)}, {"VectorCoord", typeid(std::vector<Coord>)}, {"VectorElement", typeid(std::vector<Element>)}, {"VectorHole", typeid(std::vector<Hole>)}, {"VectorNode", typeid(std::vector<Node>)}};
    for (auto& q : vecs)
    {
        if (!e.take()) continue;
        e.describe(fmt("container %s", q.first));
        Ctx c(e);
        c.same(c.python([&] { Ref r = P->make(q.first); return S(r.t == q.second && P->cls(r).isVector ? "the documented vector" : "something else"); }), "the documented vector", q.first);
        c.end();
    }
}
// ---------------------------------------------------------------- construction with positional, named and default arguments
struct Param { const char* name; Ref v; };
// All ways of passing the arguments: the first `pos` by position, a subset of the rest by name, the others left to their defaults.
template <class F> void ways(const std::vector<Param>& p, size_t required, F f)
{
    size_t n = p.size();
    for (size_t pos = 0; pos <= n; pos++)
    {
        size_t rest = n - pos;
        for (int mask = 0; mask < (1 << rest); mask++)
        {
            bool ok = true; Args a; Kw kw; std::vector<bool> given(n, false);
            for (size_t i = 0; i < n; i++)
            {
                if (i < pos) { a.push_back(p[i].v); given[i] = true; }
                else if (mask >> (i - pos) & 1) { if (!p[i].name) ok = false; kw.insert(kw.begin(), {p[i].name ? p[i].name : "", p[i].v}); given[i] = true; }
                else if (i < required) ok = false;
            }
            if (ok) f(a, kw, given);
        }
    }
}
S how(const std::vector<Param>& p, const Args& a, const Kw& kw) { S s = fmt("%zu positional", a.size()); for (auto& k : kw) s += " " + k.first; return s; }
void constructors(Explorer& e)
{
    // level sets: every constructor, every way of passing the arguments
    for (int kind = 0; kind < 6; kind++) for (int variant = 0; variant < 3; variant++)
    {
        const unsigned w = kind ? 22 + variant : 76 + 3 * variant, h = kind ? 21 : 80;
        const double move = variant == 0 ? 0.3 : variant == 1 ? 0.45 : 0.1; const unsigned bw = 3 + variant; const bool fixed = variant != 2;
        std::vector<Hole> h1 = holes(variant), h2 = holes(variant + 1); std::vector<Coord> p1 = polygon(0), p2 = polygon(1);
        std::vector<Param> p = {{"width", py(w)}, {"height", py(h)}};
        if (kind == 1) p.push_back({"holes", py(h1)});
        if (kind == 2) p.push_back({"points", py(p1)});
        if (kind == 3) { p.push_back({"initialHoles", py(h1)}); p.push_back({"targetHoles", py(h2)}); }
        if (kind == 4) { p.push_back({"initialHoles", py(h1)}); p.push_back({"targetPoints", py(p2)}); }
        if (kind == 5) { p.push_back({"initialPoints", py(p1)}); p.push_back({"targetPoints", py(p2)}); }
        size_t req = p.size();
        p.push_back({"moveLimit", py(move)}); p.push_back({"bandWidth", py(bw)}); p.push_back({"isFixedDomain", py(fixed)});
        ways(p, req, [&](const Args& a, const Kw& kw, const std::vector<bool>& given) {
            if (!e.thorough && variant && a.size() < req) return;
            if (!e.take()) return;
            e.describe(fmt("LevelSet constructor %d variant %d, ", kind, variant) + how(p, a, kw));
            Ctx c(e);
            double M = given[req] ? move : 0.5; unsigned B = given[req + 1] ? bw : 6; bool X = given[req + 2] ? fixed : false;
            // the level set after a step, so that the parameters which are not public show
            auto show = [&](LevelSet& l) {
                S s = snap::topology(l.mesh) + snap::flags(l.mesh) + snap::band(l) + ser(l.signedDistance) + ser(l.target) + ser(l.moveLimit);
                l.reinitialise(); for (double& v : l.velocity) v = 1; l.computeGradients(); for (int i = 0; i < 4; i++) s += ser(l.update(0.4));
                return s + snap::flags(l.mesh) + snap::band(l) + ser(l.signedDistance) + ser(l.gradient); };
            S A = c.python([&] { Ref r = P->make("LevelSet", a, kw); return show(r.as<LevelSet>()); });
            S N = c.native([&] {
                if (kind == 0) { LevelSet l(w, h, M, B, X); return show(l); }
                if (kind == 1) { LevelSet l(w, h, h1, M, B, X); return show(l); }
                if (kind == 2) { LevelSet l(w, h, p1, M, B, X); return show(l); }
                if (kind == 3) { LevelSet l(w, h, h1, h2, M, B, X); return show(l); }
                if (kind == 4) { LevelSet l(w, h, h1, p2, M, B, X); return show(l); }
                LevelSet l(w, h, p1, p2, M, B, X); return show(l); });
            c.same(A, N, "the new level set");
            c.end();
        });
    }
    auto simple = [&](const char* cls, const std::vector<Param>& p, size_t req, const std::function<S(const Ref&)>& show, const std::function<S(const std::vector<bool>&)>& native) {
        ways(p, req, [&](const Args& a, const Kw& kw, const std::vector<bool>& given) {
            if (!e.take()) return;
            e.describe(S(cls) + " constructor, " + how(p, a, kw));
            Ctx c(e);
            c.same(c.python([&] { return show(P->make(cls, a, kw)); }), c.native([&] { return native(given); }), S("the new ") + cls);
            c.end();
        });
    };
    for (int i = 0; i < 2; i++)         // numbers given as ints and as floats
    {
        Ref x = i ? py(2) : py(2.5), y = i ? py(-3) : py(-3.25), r = i ? py(4) : py(4.75); double X = i ? 2 : 2.5, Y = i ? -3 : -3.25, R = i ? 4 : 4.75;
        simple("Coord", {{"x", x}, {"y", y}}, 2, [](const Ref& q) { return out<Coord>(q); }, [=](const std::vector<bool>&) { return ser(Coord(X, Y)); });
        simple("Hole", {{"x", x}, {"y", y}, {"r", r}}, 3, [](const Ref& q) { return out<Hole>(q); }, [=](const std::vector<bool>&) { return ser(Hole(X, Y, R)); });
        simple("Hole", {{"coord", py(Coord(X, Y))}, {"r", r}}, 2, [](const Ref& q) { return out<Hole>(q); }, [=](const std::vector<bool>&) { return ser(Hole(Coord(X, Y), R)); });
        simple("MutableFloat", {{"value", x}}, 1, [](const Ref& q) { return out<MutableFloat>(q); }, [=](const std::vector<bool>&) { return ser(MutableFloat(X)); });
    }
    simple("MutableFloat", {}, 0, [](const Ref& q) { return out<MutableFloat>(q); }, [](const std::vector<bool>&) { return ser(MutableFloat()); });
    for (const char* n : {"Coord", "Hole", "BoundaryPoint", "BoundarySegment", "Boundary", "Element", "Node", "InputOutput", "MersenneTwister", "Sensitivity", "Callback"})
        simple(n, {}, 0, [=](const Ref& q) { return P->cls(q).name; }, [=](const std::vector<bool>&) { return S(n); });
    for (unsigned w = 1; w <= 5; w++) for (unsigned h = 1; h <= 4; h++)
        simple("Mesh", {{"width", py(w)}, {"height", py(h)}}, 2, [](const Ref& q) { return out<Mesh>(q); }, [=](const std::vector<bool>&) { return ser(Mesh(w, h)); });
}
// ---------------------------------------------------------------- programs on a level set and its boundary
const int NOPS = 12;
const char* opName[NOPS] = {"reinitialise", "discretise", "discretise target", "normals", "areas", "velocities", "velocities with noise", "velocities without noise", "gradients", "update", "mask holes", "mask polygon"};
S applyPython(int op, LevelSet& l, Boundary& b, MersenneTwister& rng, bool named)
{
    Ref L = refer(l), B = refer(b), pts = P->get(B, "points");
    auto call = [&](const Ref& o, const char* n, std::vector<Param> p) { Args a; Kw kw; for (auto& q : p) { if (named) kw.insert(kw.begin(), {q.name, q.v}); else a.push_back(q.v); } return P->call(o, n, a, kw); };
    switch (op)
    {
        case 0: call(L, "reinitialise", {}); return "";
        case 1: call(B, "discretise", {{"levelSet", L}}); return "";
        case 2: call(B, "discretise", {{"levelSet", L}, {"isTarget", py(true)}}); return "";
        case 3: call(B, "computeNormalVectors", {{"levelSet", L}}); return "";
        case 4: return out<double>(P->call(L, "computeAreaFractions", args(B)));
        case 5: call(L, "computeVelocities", {{"boundaryPoints", pts}}); return "";
        case 6: case 7:
        {
            MutableFloat dt(0.3);
            Ref r = call(L, "computeVelocities", {{"boundaryPoints", pts}, {"timeStep", refer(dt)}, {"temperature", py(op == 6 ? 0.2 : 0.0)}, {"rng", refer(rng)}});
            return out<double>(r) + ser(dt.value);
        }
        case 8: call(L, "computeGradients", {}); return "";
        case 9: return out<bool>(call(L, "update", {{"timeStep", py(0.15)}}));
        case 10: { std::vector<Hole> h = holes(1); call(L, "mask", {{"holes", refer(h)}}); return ser(h); }
        default: { std::vector<Coord> p = polygon(1); call(L, "mask", {{"points", refer(p)}}); return ser(p); }
    }
}
S applyNative(int op, LevelSet& l, Boundary& b, MersenneTwister& rng)
{
    switch (op)
    {
        case 0: l.reinitialise(); return "";
        case 1: b.discretise(l); return "";
        case 2: b.discretise(l, true); return "";
        case 3: b.computeNormalVectors(l); return "";
        case 4: return ser(double(l.computeAreaFractions(b)));
        case 5: l.computeVelocities(b.points); return "";
        case 6: case 7: { double dt = 0.3; double s = l.computeVelocities(b.points, dt, op == 6 ? 0.2 : 0.0, rng); return ser(s) + ser(dt); }
        case 8: l.computeGradients(); return "";
        case 9: return ser(bool(l.update(0.15)));
        case 10: { std::vector<Hole> h = holes(1); l.mask(h); return ser(h); }
        default: { std::vector<Coord> p = polygon(1); l.mask(p); return ser(p); }
    }
}
void programs(Explorer& e)
{
    const int depth = e.thorough ? 4 : 3;
    for (int k = 0; k < 4; k++) for (int named = 0; named < 2; named++)
    {
        std::vector<int> d(depth, 0);
        do
        {
            bool skip = false;
            for (int i = 0; i < depth; i++)
            {
                if (d[i] == 2 && k < 2) skip = true;             // no target
                // calls that read the boundary need one of the present field
                if (d[i] == 4 || d[i] == 3 || d[i] == 5 || d[i] == 6 || d[i] == 7) for (int j = i - 1; j >= 0; j--) { if (d[j] == 1) break; if (d[j] == 0 || d[j] == 2 || d[j] >= 9) { skip = true; break; } }
                if (named && d[i] == 4) skip = true;             // its argument has no name
            }
            if (skip) continue;
            if (!e.take()) continue;
            S desc = fmt("structure %d, %s arguments:", k, named ? "named" : "positional"); for (int x : d) desc += S(" ") + opName[x] + ",";
            e.describe(desc);
            Ctx c(e);
            std::unique_ptr<World> w = world(e, k);
            if (!w) { e.done(); continue; }
            World a(*w), b(*w); MersenneTwister ra, rb; ra.setSeed(7); rb.setSeed(7);
            for (int x : d)
            {
                S A = c.python([&] { return applyPython(x, a.l, a.b, ra, named); }), N = c.native([&] { return applyNative(x, b.l, b.b, rb); });
                c.same(A, N, opName[x]);
                if (e.failedCase || N == "refused") break;
                c.same(ser(a.l) + ser(a.b), ser(b.l) + ser(b.b), S("the state after ") + opName[x]);
            }
            c.end();
        } while (next(d, NOPS));
    }
}
// ---------------------------------------------------------------- mesh queries, fast marching, random numbers, sensitivities
void queries(Explorer& e)
{
    Mesh m(4, 3);
    for (double x : {0.0, 0.4, 1.0, 2.6, 3.9, 4.0}) for (double y : {0.0, 0.7, 1.2, 2.0, 3.0}) for (int named = 0; named < 3; named++) for (int which = 0; which < 2; which++)
    {
        if (!e.take()) continue;
        const char* f = which ? "getElement" : "getClosestNode";
        e.describe(fmt("%s at (%g,%g), form %d", f, x, y, named));
        Ctx c(e);
        auto num = [](double v) { return v == std::floor(v) ? py((int)v) : py(v); };
        S N = c.native([&] { return ser(which ? m.getElement(x, y) : m.getClosestNode(x, y)); });
        c.same(c.python([&] { return out<unsigned>(named == 2 ? P->call(refer(m), f, args(py(Coord(x, y)))) : named ? P->call(refer(m), f, Args(), {{"y", num(y)}, {"x", num(x)}}) : P->call(refer(m), f, args(num(x), num(y)))); }), N, f);
        if (named == 2) c.same(c.python([&] { return out<unsigned>(P->call(refer(m), f, Args(), {{"coord", py(Coord(x, y))}})); }), N, f);
        c.end();
    }
    // fast marching
    for (int k = 0; k < 4; k++) for (int form = 0; form < 5; form++) for (int vel = 0; vel < 2; vel++)
    {
        if (!e.take()) continue;
        e.describe(fmt("fast marching, structure %d, form %d, %s", k, form, vel ? "velocities" : "distances"));
        Ctx c(e);
        std::unique_ptr<World> w = world(e, k); if (!w) { e.done(); continue; }
        V sa = w->l.signedDistance, sb = sa, va = w->l.velocity, vb = va;
        Mesh ma(w->l.mesh), mb(w->l.mesh);
        bool test = form == 1 || form == 2;
        auto run = [&](bool python) {
            std::stringstream ss; std::streambuf* o = std::cout.rdbuf(ss.rdbuf()); fflush(stdout);
            if (python)
            {
                Ref M = refer(ma);
                Ref q = form == 0 ? P->make("FastMarchingMethod", args(M)) : form == 1 ? P->make("FastMarchingMethod", args(M, py(true))) : form == 2 ? P->make("FastMarchingMethod", args(M), {{"isTest", py(true)}})
                      : form == 3 ? P->make("FastMarchingMethod", Args(), {{"isTest", py(false)}, {"mesh", M}}) : P->make("FastMarchingMethod", args(M, py(false)));
                if (form == 3) { if (vel) P->call(q, "march", Args(), {{"velocity", refer(va)}, {"signedDistance", refer(sa)}}); else P->call(q, "march", Args(), {{"signedDistance", refer(sa)}}); }
                else { if (vel) P->call(q, "march", args(refer(sa), refer(va))); else P->call(q, "march", args(refer(sa))); }
            }
            else { FastMarchingMethod q(mb, test); if (vel) q.march(sb, vb); else q.march(sb); }
            std::cout.rdbuf(o);
            return ss.str() + (python ? ser(sa) + ser(va) : ser(sb) + ser(vb)); };
        int keep = dup(1), nul = open("/dev/null", O_WRONLY); fflush(stdout); dup2(nul, 1);
        S A = c.python([&] { return run(true); }), N = c.native([&] { return run(false); });
        fflush(stdout); dup2(keep, 1); close(keep); close(nul);
        c.same(A, N, "march");
        c.end();
    }
    // random numbers: every short program of draws
    const int depth = e.thorough ? 5 : 4;
    for (unsigned seed : {1u, 42u, 4000000000u})
    {
        std::vector<int> d(depth, 0);
        do
        {
            if (d[0] != 0 || !e.take()) continue;
            e.describe(fmt("seed %u, draws ", seed) + str(d));
            Ctx c(e);
            MersenneTwister a, b;
            for (int x : d)
            {
                Ref A = refer(a);
                c.same(c.python([&]() -> S {
                    switch (x) { case 0: P->call(A, "setSeed", args(py(seed))); return ""; case 1: return out<unsigned>(P->call(A, "getSeed"));
                        case 2: return out<double>(P->call(A, "__call__")); case 3: return out<int>(P->call(A, "integer", args(py(-3), py(900)))); case 4: return out<int>(P->call(A, "integer", Args(), {{"upper", py(77)}, {"lower", py(5)}}));
                        case 5: return out<double>(P->call(A, "normal")); default: return out<double>(P->call(A, "normal", args(py(10), py(0.5)))); } }),
                    c.native([&]() -> S {
                    switch (x) { case 0: b.setSeed(seed); return ""; case 1: return ser(unsigned(b.getSeed())); case 2: return ser(b()); case 3: return ser(b.integer(-3, 900)); case 4: return ser(b.integer(5, 77)); case 5: return ser(b.normal()); default: return ser(b.normal(10, 0.5)); } }),
                    fmt("draw %d", x));
                if (e.failedCase) break;
            }
            c.end();
        } while (next(d, 7));
    }
    // sensitivities
    for (int k = 0; k < 4; k++) for (double delta : {0.0, 1e-2, 1e-5}) for (int form = 0; form < 3; form++)
    {
        if (!e.take()) continue;
        e.describe(fmt("sensitivities, structure %d, step %g, form %d", k, delta, form));
        Ctx c(e);
        std::unique_ptr<World> w = world(e, k); if (!w) { e.done(); continue; }
        World a(*w), b(*w);
        SensitivityCallback f = [](const BoundaryPoint& p) { return p.coord.x * p.coord.x + 3 * p.coord.y; };
        auto all = [&](bool python) {
            S s;
            if (python)
            {
                Ref q = delta == 0 ? P->make("Sensitivity") : form ? P->make("Sensitivity", Args(), {{"delta", py(delta)}}) : P->make("Sensitivity", args(py(delta)));
                Ref cb = P->make("Callback"); P->set(cb, "callback", py(f));
                for (BoundaryPoint& p : a.b.points)
                {
                    Ref g = P->get(cb, "callback");
                    s += out<double>(form == 2 ? P->call(q, "computeSensitivity", Args(), {{"callback", g}, {"point", refer(p)}}) : P->call(q, "computeSensitivity", args(refer(p), g)));
                    s += out<double>(form == 2 ? P->call(refer(a.b), "computePerimeter", Args(), {{"point", refer(p)}}) : P->call(refer(a.b), "computePerimeter", args(refer(p))));
                }
                if (form == 0) P->call(q, "itoCorrection", args(refer(a.b), refer(a.l), py(0.3)));
                else if (form == 1) P->call(q, "itoCorrection", args(refer(a.b), py(0.3)));
                else P->call(q, "itoCorrection", Args(), {{"temperature", py(0.3)}, {"levelSet", refer(a.l)}, {"boundary", refer(a.b)}});
            }
            else
            {
                std::unique_ptr<Sensitivity> q(delta == 0 ? new Sensitivity() : new Sensitivity(delta));
                for (BoundaryPoint& p : b.b.points) { s += ser(q->computeSensitivity(p, f)); s += ser(b.b.computePerimeter(p)); }
                if (form == 1) q->itoCorrection(b.b, 0.3); else q->itoCorrection(b.b, b.l, 0.3);
            }
            return s; };
        S A = c.python([&] { return all(true); }), N = c.native([&] { return all(false); });
        c.same(A, N, "sensitivities");
        c.same(ser(a.b) + ser(a.l), ser(b.b) + ser(b.l), "the state afterwards");
        c.end();
    }
}
// ---------------------------------------------------------------- files
S g_base;
S readAll(const S& d)
{
    S s; std::vector<S> names;
    if (DIR* D = opendir(d.c_str())) { while (dirent* x = readdir(D)) if (x->d_name[0] != '.') names.push_back(x->d_name); closedir(D); }
    std::sort(names.begin(), names.end());
    for (S& n : names)
    {
        S p = d + "/" + n; struct stat q;
        if (!stat(p.c_str(), &q) && S_ISDIR(q.st_mode)) { s += "<" + n + "/" + readAll(p) + ">"; continue; }
        std::ifstream f(p, std::ios::binary); std::stringstream ss; ss << f.rdbuf(); s += "<" + n + ":" + ss.str() + ">";
    }
    return s;
}
void clear(const S& d)
{
    if (DIR* D = opendir(d.c_str())) { while (dirent* x = readdir(D)) if (x->d_name[0] != '.') { S p = d + "/" + x->d_name; struct stat q; if (!stat(p.c_str(), &q) && S_ISDIR(q.st_mode)) { clear(p); rmdir(p.c_str()); } else unlink(p.c_str()); } closedir(D); }
}
void files(Explorer& e)
{
    S root = g_base + fmt("/w%d", e.wid);
    mkdir(root.c_str(), 0700);
    if (chdir(root.c_str())) { e.expect(false, "no scratch directory"); return; }
    // what is saved: 0 level set, 1 boundary, 2 mesh; then the parameters after the name and the object
    struct Fn { const char* name; int what; std::vector<const char*> number, named; };
    const std::vector<Fn> fns = {
        {"saveLevelSetVTK", 0, {"isVelocity", "isGradient", "outputDirectory"}, {"isVelocity", "isGradient"}},
        {"saveLevelSetTXT", 0, {"outputDirectory", "isXY"}, {"isXY"}}, {"saveLevelSetBIN", 0, {"outputDirectory"}, {}},
        {"saveBoundaryPointsTXT", 1, {"outputDirectory"}, {}}, {"saveBoundarySegmentsTXT", 1, {"outputDirectory"}, {}},
        {"saveAreaFractionsVTK", 2, {"outputDirectory"}, {}}, {"saveAreaFractionsTXT", 2, {"outputDirectory", "isXY"}, {"isXY"}},
        {"loadLevelSetTXT", 3, {"outputDirectory", "isXY"}, {"isXY"}}, {"loadLevelSetBIN", 3, {"outputDirectory"}, {}}};
    for (int k = 0; k < 3; k++) for (size_t fi = 0; fi < fns.size(); fi++) for (int number = 0; number < 2; number++) for (unsigned point : {3u, 1234u})
    {
        const Fn& F = fns[fi];
        if (!number && point != 3) continue;
        const std::vector<const char*>& opt = number ? F.number : F.named;
        for (int values = 0; values < (1 << opt.size()); values++)
        {
            std::vector<Param> p = {{0, number ? py(point) : py("file.dat")}, {0, Ref()}};
            bool xy = false, vel = false, grad = false; S dir;
            for (size_t i = 0; i < opt.size(); i++)
            {
                bool on = values >> i & 1; S n = opt[i];
                p.push_back({n == "outputDirectory" ? opt[i] : opt[i], n == "outputDirectory" ? py(on ? "sub" : "") : py(on)});
            }
            ways(p, 2, [&](const Args& a0, const Kw& kw, const std::vector<bool>& given) {
                if (a0.size() < 2) return;
                if (!e.take()) return;
                S desc = fmt("structure %d, %s(%s", k, F.name, number ? fmt("%u", point).c_str() : "name"); for (size_t i = 0; i < opt.size(); i++) desc += fmt(", %s %s", opt[i], given[2 + i] ? (values >> i & 1 ? "on" : "off") : "default");
                e.describe(desc + "), " + how(p, a0, kw));
                Ctx c(e);
                std::unique_ptr<World> w = world(e, k); if (!w) { e.done(); return; }
                bool xy = false, vel = false, grad = false; S dir;
                for (size_t i = 0; i < opt.size(); i++) if (given[2 + i])
                {
                    bool on = values >> i & 1; S n = opt[i];
                    if (n == "isXY") xy = on; if (n == "isVelocity") vel = on; if (n == "isGradient") grad = on; if (n == "outputDirectory") dir = on ? "sub" : "";
                }
                World a(*w), b(*w);
                auto one = [&](bool python) {
                    clear(root); mkdir("sub", 0700);
                    World& W = python ? a : b; InputOutput io;
                    if (F.what == 3)
                    {
                        // a file to load, in the format and place that the arguments describe
                        if (fi == 7) { if (number) io.saveLevelSetTXT(point, W.l, dir, xy); else io.saveLevelSetTXT("file.dat", W.l, xy); }
                        else { if (number) io.saveLevelSetBIN(point, W.l, dir); else io.saveLevelSetBIN("file.dat", W.l); }
                        std::fill(W.l.signedDistance.begin(), W.l.signedDistance.end(), 99.0);
                    }
                    if (python)
                    {
                        Args A = a0; A[1] = F.what == 1 ? refer(W.b) : F.what == 2 ? refer(W.l.mesh) : refer(W.l);
                        P->call(P->make("InputOutput"), F.name, A, kw);
                    }
                    else switch (fi)
                    {
                        case 0: number ? io.saveLevelSetVTK(point, W.l, vel, grad, dir) : io.saveLevelSetVTK("file.dat", W.l, vel, grad); break;
                        case 1: number ? io.saveLevelSetTXT(point, W.l, dir, xy) : io.saveLevelSetTXT("file.dat", W.l, xy); break;
                        case 2: number ? io.saveLevelSetBIN(point, W.l, dir) : io.saveLevelSetBIN("file.dat", W.l); break;
                        case 3: number ? io.saveBoundaryPointsTXT(point, W.b, dir) : io.saveBoundaryPointsTXT("file.dat", W.b); break;
                        case 4: number ? io.saveBoundarySegmentsTXT(point, W.b, dir) : io.saveBoundarySegmentsTXT("file.dat", W.b); break;
                        case 5: number ? io.saveAreaFractionsVTK(point, W.l.mesh, dir) : io.saveAreaFractionsVTK("file.dat", W.l.mesh); break;
                        case 6: number ? io.saveAreaFractionsTXT(point, W.l.mesh, dir, xy) : io.saveAreaFractionsTXT("file.dat", W.l.mesh, xy); break;
                        case 7: number ? io.loadLevelSetTXT(point, W.l, dir, xy) : io.loadLevelSetTXT("file.dat", W.l, xy); break;
                        default: number ? io.loadLevelSetBIN(point, W.l, dir) : io.loadLevelSetBIN("file.dat", W.l);
                    }
                    return readAll(root) + ser(W.l) + ser(W.b); };
                S A = c.python([&] { return one(true); }), N = c.native([&] { return one(false); });
                c.same(A, N, "files and objects");
                c.end();
            });
        }
    }
    clear(root);
    if (chdir("/")) {}
}
// ---------------------------------------------------------------- optimiser
void optimiser(Explorer& e)
{
    for (int nc = 0; nc < 3; nc++) for (int n = 4; n <= 7; n++) for (int eq = 0; eq < 4; eq++) for (int ans = 0; ans < 4; ans++) for (int isMax = 0; isMax < 2; isMax++) for (int sign = 0; sign < 3; sign++)
    {
        if (n < 7 && eq) continue;
        if (n < 6 && isMax) continue;
        if (!e.take()) continue;
        e.describe(fmt("optimiser with %d constraints of distance class %d, %d arguments, equality mask %d, answer %d, max %d", nc, sign, n, eq, ans, isMax));
        Ctx c(e);
        std::vector<BoundaryPoint> pa = somePoints();
        for (size_t i = 0; i < pa.size(); i++) { BoundaryPoint& p = pa[i]; p.length = 0.5 + 0.2 * i; p.isFixed = p.isDomain = false; p.negativeLimit = i == 1 ? -0.1 : -0.5; p.velocity = 0; p.sensitivities.assign(3, 0.0); for (int f = 0; f < 3; f++) p.sensitivities[f] = std::cos(1.0 + i + 2 * f); }
        std::vector<BoundaryPoint> pb = pa;
        V dist(nc); for (int i = 0; i < nc; i++) dist[i] = (sign == 0 ? -0.1 : sign == 1 ? 50 : 0.05) * (i + 1);
        V la(nc + 1, 0.0), lb = la; std::vector<bool> E(nc); for (int i = 0; i < nc; i++) E[i] = eq >> i & 1;
        S log;
        nlopt::g_optimize = [&](nlopt::Problem& p, V& x, double& f) -> nlopt::result {
            log += fmt("%d %u %d %zu;", int(p.alg), p.n, p.isMax, p.con.size()); for (auto& q : p.con) log += q.equality ? "e" : "i";
            const double fr[4] = {-1, 1, 0.4, -0.3};
            for (unsigned i = 0; i < p.n; i++) { x[i] = fr[(ans + i) % 4] * p.ub[i]; log += ser(p.ub[i]) + ser(p.lb[i]); }
            V g; f = p.obj(x, g, p.objData); return nlopt::result(1 + ans); };
        auto report = [&](std::function<void()> f) { std::ostringstream o; std::streambuf* k = std::cout.rdbuf(o.rdbuf()); f(); std::cout.rdbuf(k); return o.str(); };
        const double D = 0.4;
        S A = c.python([&] {
            log.clear(); MutableFloat dt; Args a = args(refer(pa), refer(dist), refer(la), refer(dt));
            if (n > 4) a.push_back(py(D)); if (n > 5) a.push_back(py(bool(isMax))); if (n > 6) a.push_back(refer(E));
            Ref q = P->make("Optimise", a); S s;
            for (int k = 0; k < 2; k++) { s += out<double>(P->call(q, "solve")); s += report([&] { P->call(q, "queryReturnCode"); }) + ser(dt.value) + ser(pa) + ser(la) + ser(dist) + log; }
            return s; });
        S N = c.native([&] {
            log.clear(); double dt = 0;
            std::unique_ptr<Optimise> q(n == 4 ? new Optimise(pb, dist, lb, dt) : n == 5 ? new Optimise(pb, dist, lb, dt, D) : n == 6 ? new Optimise(pb, dist, lb, dt, D, isMax) : new Optimise(pb, dist, lb, dt, D, isMax, E)); S s;
            for (int k = 0; k < 2; k++) { s += ser(q->solve()); s += report([&] { q->queryReturnCode(); }) + ser(dt) + ser(pb) + ser(lb) + ser(dist) + log; }
            return s; });
        c.same(A, N, "the optimisation");
        // invalid parameters are refused alike
        for (int bad = 0; bad < 3; bad++)
        {
            double D2 = bad == 0 ? 1.0 : bad == 1 ? 0.0 : 0.4; std::vector<BoundaryPoint> none; V more(dist); if (bad == 2) more.push_back(1);
            S A2 = c.python([&] { MutableFloat dt; P->make("Optimise", args(refer(pa), refer(more), refer(la), refer(dt), py(D2))); return S("accepted"); });
            S N2 = c.native([&] { double dt = 0; Optimise q(pb, more, lb, dt, D2); return S("accepted"); });
            c.same(A2, N2, "invalid parameters");
        }
        c.end();
    }
}
void module(Explorer& e)
{
    start();
    if (e.take()) { e.describe("importing the module"); e.t(); Hash h; h.u(P != 0); e.expect(P != 0, "importing the module fails: " + importError); e.state(h); e.outcome(h); e.done(); }
    if (!P) return;
    attributes(e); constructors(e); programs(e); queries(e); files(e); optimiser(e);
}
}
int mc_main(int argc, char** argv)
{
    char t[] = "/tmp/slsm_bind.XXXXXX";
    if (!mkdtemp(t)) { perror("mkdtemp"); return 3; }
    g_base = t;
    int rc = run(argc, argv, {{"C38", module, 60}});
    clear(g_base); rmdir(g_base.c_str());
    return rc;
}
