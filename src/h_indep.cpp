// C39 independent simulations: every interleaving of the calls of two (three) sessions with objects of their own,
// one session run inside a callback of the other, and (built with race detection) two sessions in two threads.
#include "mc.hpp"
#include "slsm_all.hpp"
#include "Optimise.h"
#include "fields.hpp"
#include "snap.hpp"
#include <memory>
#include <thread>
#include <dirent.h>
#include <sys/stat.h>
using namespace mc;
using namespace slsm;
namespace nlopt { std::function<result(Problem&, std::vector<double>&, double&)> g_optimize; }

namespace
{
typedef std::vector<double> V;
typedef std::vector<Hole> Holes;
std::string g_base;
// Called from within callbacks; what it does is set per thread.
thread_local std::function<void()> t_hook;
void hook() { if (t_hook) { auto f = t_hook; f(); } }
std::string slurp(const std::string& n)
{
    std::string s; char b[4096]; size_t k;
    FILE* f = fopen(n.c_str(), "rb"); if (!f) return "missing";
    while ((k = fread(b, 1, sizeof b, f)) > 0) s.append(b, k);
    fclose(f); return s;
}
// Objects that several sessions read.
struct Common { std::unique_ptr<LevelSet> l; Boundary b; } *g_common = 0;

// A session: a fixed sequence of calls on objects of its own. Everything it can observe goes into snapshot().
struct Session
{
    int v; std::string dir; std::string log;
    Session(int v_, const std::string& d) : v(v_), dir(d) {}
    virtual ~Session() {}
    virtual void step(int k) = 0;
    // A session that goes on with copies of the objects (mode 0), with what was moved out of them (1), or
    // with other used objects to which they were assigned where the library allows that (2).
    virtual Session* clone(int mode, const std::string& d) = 0;
    virtual std::string objects() = 0;
    std::string snapshot() { return objects() + log; }
    void note(double d) { snap::d(log, d); }
    int w() const { return v == 0 ? 8 : v == 1 ? 6 : 11; }
    int h() const { return v == 0 ? 7 : v == 1 ? 9 : 10; }
    Holes holes() const { Holes q; if (v == 0) { q.push_back(Hole(3.2, 3.4, 2.1)); } else if (v == 1) { q.push_back(Hole(2.6, 5.7, 1.7)); q.push_back(Hole(4.9, 1.8, 1.2)); } else q.push_back(Hole(5.3, 4.6, 3.3)); return q; }
    std::unique_ptr<LevelSet> make(bool target = false) const
    {
        double move = v == 0 ? 0.5 : v == 1 ? 0.35 : 0.45; unsigned bw = v == 0 ? 6 : v == 1 ? 4 : 3;
        if (!target) return std::unique_ptr<LevelSet>(new LevelSet(w(), h(), holes(), move, bw, v == 1));
        std::vector<Coord> p; p.push_back(Coord(1.3, 1.6)); p.push_back(Coord(w() - 1.4, 2.2)); p.push_back(Coord(0.6 * w(), h() - 1.7)); p.push_back(p[0]);
        return std::unique_ptr<LevelSet>(new LevelSet(w(), h(), holes(), p, move, bw, v == 1));
    }
};
double speed(int v, const BoundaryPoint& p) { return 0.4 * std::sin(0.7 * p.coord.x + v) + 0.3 * std::cos(0.9 * p.coord.y - v); }
template <class T> void dup(std::unique_ptr<T>& to, std::unique_ptr<T>& from, int mode) { if (from) to.reset(mode == 1 ? new T(std::move(*from)) : new T(*from)); }
template <class T> void val(T& to, T& from, int mode) { if (mode == 1) to = std::move(from); else if (mode == 2) to = from; else { T t(from); to = std::move(t); } }
// something a boundary, heap or generator held before it was assigned to
void used(Boundary& b) { LevelSet l(5, 4, Holes(1, Hole(2.3, 2.1, 1.4)), 0.5, 3, false); b.discretise(l); b.computeNormalVectors(l); }
void used(MersenneTwister& r) { r.setSeed(3); r.normal(); r(); }
struct Evolve : Session
{
    std::unique_ptr<LevelSet> l; Boundary b; bool drawn = false;
    using Session::Session;
    Session* clone(int m, const std::string& d) { Evolve* c = new Evolve(v, d); c->log = log; c->drawn = drawn; dup(c->l, l, m); if (m == 2) used(c->b); val(c->b, b, m); return c; }
    void step(int k)
    {
        if (k == 0) l = make();
        else if (k == 1 || k == 5) { b.discretise(*l); note(l->computeAreaFractions(b)); b.computeNormalVectors(*l); drawn = true; }
        else if (k == 2) { for (BoundaryPoint& p : b.points) p.velocity = speed(v, p); l->computeVelocities(b.points); }
        else if (k == 3) l->computeGradients();
        else if (k == 4) { note(l->update(0.4)); l->reinitialise(); }
    }
    std::string objects() { if (!l) return ""; std::string s = snap::topology(l->mesh) + snap::flags(l->mesh) + snap::band(*l); snap::v(s, l->signedDistance); snap::v(s, l->target); if (drawn) s += snap::lookup(l->mesh) + snap::boundary(b) + snap::bandFields(*l, l->velocity) + snap::bandFields(*l, l->gradient); return s; }
};
struct Masked : Session
{
    std::unique_ptr<LevelSet> l; Boundary b; bool drawn = false;
    using Session::Session;
    Session* clone(int m, const std::string& d) { Masked* c = new Masked(v, d); c->log = log; c->drawn = drawn; dup(c->l, l, m); if (m == 2) used(c->b); val(c->b, b, m); return c; }
    void step(int k)
    {
        if (k == 0) l = make(true);
        else if (k == 1) { b.discretise(*l, true); drawn = true; for (const BoundaryPoint& p : b.points) note(p.coord.x), note(p.coord.y); note(b.length); }
        else if (k == 2) l->mask(Holes(1, Hole(0.5 * w(), 0.4 * h(), 1.3)));
        else if (k == 3) { std::vector<Coord> q; q.push_back(Coord(0.6, 0.7)); q.push_back(Coord(2.5, 1.8)); l->mask(q); }
        else if (k == 4) { b.discretise(*l); note(l->computeAreaFractions(b)); }
        else if (k == 5) { for (BoundaryPoint& p : b.points) p.velocity = -speed(v, p); l->computeVelocities(b.points); l->computeGradients(); note(l->update(0.3)); }
    }
    std::string objects() { if (!l) return ""; std::string s = snap::flags(l->mesh) + snap::band(*l); snap::v(s, l->signedDistance); snap::v(s, l->target); if (drawn) s += snap::boundary(b) + snap::lookup(l->mesh, false); return s; }
};
struct Optim : Session
{
    std::unique_ptr<LevelSet> l; Boundary b; Sensitivity S; V lambdas; double dt = -1; std::unique_ptr<Optimise> o;
    Optim(int v_, const std::string& d) : Session(v_, d), S(v_ == 1 ? 1e-3 : 1e-4) {}
    void prepare() { V con = {0.4 - v, 1.1}; if (v == 2) con[1] = 1e6; std::vector<bool> eq(2, false); eq[0] = v == 1; o.reset(new Optimise(b.points, con, lambdas, dt, v == 0 ? 0.5 : 0.4, v == 1, eq)); }
    Session* clone(int m, const std::string& d)
    {
        Optim* c = new Optim(v, d); c->log = log; c->lambdas = lambdas; c->dt = dt; dup(c->l, l, m); if (m == 2) { used(c->b); c->S = Sensitivity(0.3); }
        val(c->b, b, m); val(c->S, S, m); if (o) c->prepare(); return c;
    }
    void step(int k)
    {
        using namespace std::placeholders;
        if (k == 0) { l = make(); b.discretise(*l); note(l->computeAreaFractions(b)); }
        else if (k == 1)
        {
            Boundary* B = &b; int n = 0;
            SensitivityCallback cb = [B, &n](const BoundaryPoint& p) { double r = B->computePerimeter(p); if (n++ % 9 == 4) hook(); return r; };
            for (BoundaryPoint& p : b.points) { p.sensitivities.assign(3, 0.0); p.sensitivities[0] = S.computeSensitivity(p, cb); p.sensitivities[1] = -1; p.sensitivities[2] = 0.2 * p.coord.x - 1; }
        }
        else if (k == 2) S.itoCorrection(b, *l, 0.02 + 0.01 * v);
        else if (k == 3) { lambdas.assign(3, 0.0); prepare(); }
        else if (k == 4) { note(o->solve()); }
        else if (k == 5) { l->computeVelocities(b.points); l->computeGradients(); note(l->update(dt)); }
    }
    std::string objects() { if (!l) return ""; std::string s = snap::band(*l) + snap::boundary(b) + snap::lookup(l->mesh); snap::v(s, l->signedDistance); snap::v(s, lambdas); snap::d(s, dt); return s; }
};
struct Noise : Session
{
    std::unique_ptr<LevelSet> l; Boundary b; MersenneTwister rng; double dt = 0.3;
    Noise(int v_, const std::string& d) : Session(v_, d) { rng.setSeed(5 + v); }
    Session* clone(int m, const std::string& d) { Noise* c = new Noise(v, d); c->log = log; c->dt = dt; dup(c->l, l, m); if (m == 2) { used(c->b); used(c->rng); } val(c->b, b, m); val(c->rng, rng, m); return c; }
    void step(int k)
    {
        if (k == 0) { l = make(); b.discretise(*l); note(l->computeAreaFractions(b)); for (BoundaryPoint& p : b.points) p.velocity = speed(v, p); }
        else if (k == 1) { note(rng.normal()); note(rng()); note(rng.integer(0, 10 + v)); }
        else if (k == 2) note(l->computeVelocities(b.points, dt, 0.05, rng));
        else if (k == 3) { note(rng.integer(-3, 50)); note(rng.normal(1, 2)); note(rng.getSeed()); }
        else if (k == 4) { l->computeGradients(); note(l->update(0.2)); rng.setSeed(77 + v); }
        else if (k == 5) { note(rng.normal()); note(rng()); }
    }
    std::string objects() { if (!l) return ""; std::string s = snap::band(*l) + snap::boundary(b); snap::v(s, l->signedDistance); s += snap::bandFields(*l, l->velocity); snap::d(s, dt); return s; }
};
struct Files : Session
{
    std::unique_ptr<LevelSet> l, m; Boundary b; InputOutput io;
    using Session::Session;
    Session* clone(int m, const std::string& d)
    {
        Files* c = new Files(v, d); c->log = log; dup(c->l, l, m); dup(c->m, this->m, m); if (m == 2) used(c->b); val(c->b, b, m); val(c->io, io, m);
        if (d != dir) { mkdir(d.c_str(), 0700); if (DIR* q = opendir(dir.c_str())) { while (dirent* f = readdir(q)) if (f->d_name[0] != '.') { std::ofstream out(d + "/" + f->d_name, std::ios::binary); out << slurp(dir + "/" + f->d_name); } closedir(q); } }
        return c;
    }
    void file(const std::string& n) { log += slurp(dir + "/" + n); }
    void step(int k)
    {
        if (k == 0) { mkdir(dir.c_str(), 0700); l = make(); m = make(); for (double& d : m->signedDistance) d = 0; b.discretise(*l); note(l->computeAreaFractions(b)); }
        else if (k == 1) { io.saveLevelSetTXT(3u + v, *l, dir, v == 1); io.saveLevelSetBIN(7u, *l, dir); file(fmt("level-set_%04d.txt", 3 + v)); file("level-set_0007.bin"); }
        else if (k == 2) { io.saveBoundaryPointsTXT(1u, b, dir); io.saveBoundarySegmentsTXT(dir + "/seg", b); file("boundary-points_0001.txt"); file("seg"); }
        else if (k == 3) { io.saveLevelSetVTK(2u, *l, v == 1, false, dir); io.saveAreaFractionsVTK(dir + "/a.vtk", l->mesh); io.saveAreaFractionsTXT(4u, l->mesh, dir, true); file("level-set_0002.vtk"); file("a.vtk"); file("area_0004.txt"); }
        else if (k == 4) { io.loadLevelSetTXT(3u + v, *m, dir, v == 1); for (double d : m->signedDistance) note(d); }
        else if (k == 5) io.loadLevelSetBIN(7u, *m, dir);
    }
    std::string objects() { if (!l) return ""; std::string s = snap::boundary(b); snap::v(s, l->signedDistance); snap::v(s, m->signedDistance); return s; }
};
struct Parts : Session
{
    std::shared_ptr<Mesh> mesh; std::unique_ptr<FastMarchingMethod> f; std::unique_ptr<Heap> q; V phi, vel; std::vector<unsigned> hd;
    using Session::Session;
    // (a copied fast marching object keeps working on the mesh it was given, which it only reads)
    Session* clone(int m, const std::string& d)
    {
        Parts* c = new Parts(v, d); c->log = log; c->mesh = mesh; dup(c->f, f, m); c->phi = phi; c->vel = vel; c->hd = hd;
        if (m == 2 && q) { c->q.reset(new Heap(3)); c->q->push(1, 2.0); *c->q = *q; } else dup(c->q, q, m);
        return c;
    }
    void step(int k)
    {
        if (k == 0)
        {
            mesh.reset(new Mesh(w(), h())); f.reset(new FastMarchingMethod(*mesh)); q.reset(new Heap(6 + v));
            for (Node& n : mesh->nodes) n.isActive = true;
            for (const Node& n : mesh->nodes) phi.push_back(std::hypot(n.coord.x - 0.45 * w(), n.coord.y - 0.52 * h()) * 1.3 - 2.9);
        }
        else if (k == 1) f->march(phi);
        else if (k == 2) for (int i = 0; i < 5; i++) hd.push_back(q->push(40 + i + v, std::fmod(0.61803 * (i + 2 + v), 1)));
        else if (k == 3)
        {
            for (unsigned i = 0; i < mesh->nNodes; i++) { bool near = std::abs(phi[i]) < 1.5; vel.push_back(near ? std::sin(i + v) : 0); }
            V p = phi; f->march(p, vel);
        }
        else if (k == 4) { q->set(hd[2], v == 1 ? 3.0 : -1.0); unsigned a; double d; q->pop(a, d); note(a); note(d); note(q->peek()); }
        else if (k == 5) { while (!q->empty()) { unsigned a; double d; q->pop(a, d); note(a); note(d); } for (int i = 0; i < 9; i++) note(mesh->getClosestNode(0.31 * i + v, 0.47 * i)), note(mesh->getElement(Coord(0.31 * i + v, 0.47 * i))); }
    }
    std::string objects() { if (!mesh) return ""; std::string s = snap::topology(*mesh) + snap::flags(*mesh); snap::v(s, phi); snap::v(s, vel); snap::u(s, q->size()); return s; }
};
// Reads objects that other sessions read as well; writes only its own.
struct Reader : Session
{
    std::unique_ptr<LevelSet> l; Boundary b; InputOutput io; Sensitivity S;
    using Session::Session;
    Session* clone(int m, const std::string& d) { Reader* c = new Reader(v, d); c->log = log; mkdir(d.c_str(), 0700); dup(c->l, l, m); if (m == 2) used(c->b); val(c->b, b, m); val(c->io, io, m); val(c->S, S, m); return c; }
    void step(int k)
    {
        const LevelSet& L = *g_common->l; const Boundary& B = g_common->b; const Mesh& M = L.mesh;
        if (k == 0) { mkdir(dir.c_str(), 0700); l.reset(new LevelSet(L)); b = B; }
        else if (k == 1) { note(l->computeAreaFractions(B)); io.saveAreaFractionsTXT(dir + "/a", M); log += slurp(dir + "/a"); }
        else if (k == 2) { b.computeNormalVectors(L); for (int i = 0; i < 9; i++) note(M.getClosestNode(0.41 * i, 0.37 * i)), note(M.getElement(Coord(0.41 * i, 0.37 * i))); }
        else if (k == 3) { for (BoundaryPoint& p : b.points) p.sensitivities.assign(2, 0.5); S.itoCorrection(b, L, 0.1); }
        else if (k == 4) { io.saveLevelSetVTK(dir + "/v", L, true, true); io.saveLevelSetBIN(dir + "/b", L); io.saveBoundaryPointsTXT(dir + "/p", B); log += slurp(dir + "/v") + slurp(dir + "/b") + slurp(dir + "/p"); }
        else if (k == 5) { V vel; for (const BoundaryPoint& p : B.points) note(p.velocity); l->computeVelocities(B.points); Hole hole(1, 2, 3); std::vector<BoundaryPoint> own = B.points; note(own.size()); }
    }
    std::string objects() { if (!l) return ""; std::string s = snap::boundary(b) + snap::lookup(l->mesh) + snap::bandFields(*l, l->velocity); snap::v(s, l->signedDistance); return s; }
};
enum { STEPS = 6, KINDS = 7, VARIANTS = 3 };
const char* NAME[] = {"evolve", "masked", "optimise", "noise", "files", "parts", "reader"};
Session* create(int kind, int v, const std::string& dir)
{
    switch (kind) { case 0: return new Evolve(v, dir); case 1: return new Masked(v, dir); case 2: return new Optim(v, dir); case 3: return new Noise(v, dir);
                    case 4: return new Files(v, dir); case 5: return new Parts(v, dir); default: return new Reader(v, dir); }
}
typedef std::unique_ptr<Session> SP;
std::string digest(const std::string& s)
{
    u64 a = 1469598103934665603ull, b = 88172645463325252ull;
    for (unsigned char c : s) { a = (a ^ c) * 1099511628211ull; b = (b + c) * 6364136223846793005ull + (b >> 29); }
    return fmt("%016llx%016llx%zu", (unsigned long long)a, (unsigned long long)b, s.size());
}
// What each session shows after each of its calls when it has the program for itself.
std::vector<std::string> g_alone[KINDS][VARIANTS];
std::string dirOf(Explorer& e, int slot) { return g_base + fmt("/w%d_%d", e.wid, slot); }
void initCommon()
{
    if (g_common) return;
    g_common = new Common;
    g_common->l.reset(new LevelSet(9, 8, Holes(1, Hole(4.3, 3.7, 2.4)), 0.5, 4, false));
    g_common->b.discretise(*g_common->l); g_common->l->computeAreaFractions(g_common->b);
    for (BoundaryPoint& p : g_common->b.points) p.velocity = speed(4, p);
    g_common->l->computeVelocities(g_common->b.points); g_common->l->computeGradients(); g_common->b.computeNormalVectors(*g_common->l);
}
// Each session alone in a process of its own, so that nothing else has run before it there.
void alone(Explorer& e)
{
    for (int kind = 0; kind < KINDS; kind++) for (int v = 0; v < VARIANTS; v++)
    {
        int fd[2]; if (pipe(fd)) _exit(3);
        pid_t c = fork();
        if (c == 0)
        {
            if (kind == KINDS - 1) initCommon();
            SP s(create(kind, v, dirOf(e, 9)));
            for (int k = 0; k < STEPS; k++) { s->step(k); std::string d = digest(s->snapshot()) + "\n"; if (write(fd[1], d.data(), d.size()) < 0) _exit(3); }
            _exit(0);
        }
        close(fd[1]);
        std::string all; char b[4096]; ssize_t n;
        while ((n = read(fd[0], b, sizeof b)) > 0) all.append(b, n);
        close(fd[0]); int st; waitpid(c, &st, 0);
        std::istringstream in(all); std::string line;
        while (std::getline(in, line)) g_alone[kind][v].push_back(line);
        if (g_alone[kind][v].size() != STEPS)
        {
            if (e.take()) { e.describe(fmt("alone %s %d", NAME[kind], v)); e.expect(false, fmt("the session ended at call %zu (status %d)", g_alone[kind][v].size(), st)); e.done(); }
            g_alone[kind][v].resize(STEPS);
        }
    }
}
struct Id { int kind, v; };
bool step(Explorer& e, Session& s, Id id, int k)
{
    s.step(k); e.t();
    std::string d = digest(s.snapshot());
    e.outcome(Hash().s(d));
    return e.expect(d == g_alone[id.kind][id.v][k], fmt("%s %d shows something else after its call %d than when it runs alone", NAME[id.kind], id.v, k));
}
bool still(Explorer& e, Session& s, Id id, int k)
{
    if (k == 0) return true;
    return e.expect(digest(s.snapshot()) == g_alone[id.kind][id.v][k - 1], fmt("%s %d (after its call %d) was changed by a call of the other session", NAME[id.kind], id.v, k - 1));
}
void body(Explorer& e)
{
    nlopt::g_optimize = [](nlopt::Problem& p, V& x, double& f) {
        V g, t = x; g.assign(p.n, 0.0);
        f = p.obj(t, g, p.objData); hook();
        for (auto& c : p.con) { g.assign(p.n, 0.0); c.f(t, g, c.d); }
        hook();
        for (unsigned i = 0; i < p.n; i++) x[i] = 0.5 * p.lb[i] + 0.1 * p.ub[i];
        g.assign(p.n, 0.0);
        f = p.obj(x, g, p.objData); hook();
        for (auto& c : p.con) { g.assign(p.n, 0.0); c.f(x, g, c.d); }
        return nlopt::SUCCESS; };
    alone(e);
    initCommon();
    std::vector<Id> ids;
    for (int k = 0; k < KINDS; k++) for (int v = 0; v < VARIANTS; v++) ids.push_back(Id{k, v});
#ifdef __SANITIZE_THREAD__
    // Two threads, no ordering between them: with no two conflicting accesses in the whole of both sessions every
    // interleaving at any granularity is equivalent to the one observed.
    for (size_t i = 0; i < ids.size(); i++) for (size_t j = 0; j < ids.size(); j++)
        for (int rounds = 1; rounds <= (e.thorough ? 3 : 2); rounds++)
        {
            if (!e.take()) continue;
            e.describe(fmt("threads %s %d | %s %d, %d rounds", NAME[ids[i].kind], ids[i].v, NAME[ids[j].kind], ids[j].v, rounds));
            std::vector<std::string> got[2];
            auto run = [&](int slot, Id id) { for (int r = 0; r < rounds; r++) { SP s(create(id.kind, id.v, dirOf(e, slot))); for (int k = 0; k < STEPS; k++) { s->step(k); got[slot].push_back(digest(s->snapshot())); } } };
            { std::thread a(run, 0, ids[i]), b(run, 1, ids[j]); a.join(); b.join(); }
            e.t(2 * STEPS * rounds);
            for (int slot = 0; slot < 2; slot++) for (size_t k = 0; k < got[slot].size(); k++)
            {
                Id id = ids[slot ? j : i];
                e.outcome(Hash().s(got[slot][k])); e.state(Hash().s(got[slot][k]).u(i).u(j));
                e.expect(got[slot][k] == g_alone[id.kind][id.v][k % STEPS], fmt("%s %d shows something else after its call %zu than when it runs alone", NAME[id.kind], id.v, k));
            }
            e.done();
        }
    return;
#endif
    // (d) a session goes on with copies of its objects, besides or instead of the original
    for (size_t i = 0; i < ids.size(); i++) for (int from = 1; from < STEPS; from++) for (int mode = 0; mode < 3; mode++)
    {
        int left = STEPS - from;
        for (int m = 0; m < 1 << (2 * left); m++)
        {
            // with mode 1 the objects are moved and the original session is gone; m = 0 means so for the others too
            if (m && (mode == 1 || __builtin_popcount(m) != left)) continue;
            if (!e.take()) continue;
            e.describe(fmt("copy %s %d after call %d, mode %d, order %03x", NAME[ids[i].kind], ids[i].v, from - 1, mode, m));
            SP s[2]; s[0].reset(create(ids[i].kind, ids[i].v, dirOf(e, 0)));
            bool ok = true;
            for (int k = 0; ok && k < from; k++) ok = step(e, *s[0], ids[i], k);
            int at[2] = {from, from};
            s[1].reset(s[0]->clone(mode, dirOf(e, m ? 1 : 0)));
            if (!m) s[0].reset();
            if (ok) ok = still(e, *s[1], ids[i], from);
            if (!m) for (; ok && at[1] < STEPS; at[1]++) ok = step(e, *s[1], ids[i], at[1]);
            else for (int k = 0; ok && k < 2 * left; k++)
            {
                int x = (m >> k) & 1;
                ok = step(e, *s[x], ids[i], at[x]++) && still(e, *s[1 - x], ids[i], at[1 - x]);
                e.state(Hash().u(777).u(i).u(from).u(mode).u(at[0]).u(at[1]));
            }
            e.done();
        }
    }
#ifdef __SANITIZE_ADDRESS__
    return;
#endif
    // (a) every interleaving of the calls of two sessions
    for (size_t i = 0; i < ids.size(); i++) for (size_t j = 0; j <= i; j++)
        for (int m = 0; m < 1 << (2 * STEPS); m++)
        {
            if (!e.thorough && ids[i].kind != ids[j].kind && (ids[i].kind + ids[i].v + 2 * ids[j].v) % 3) continue;
            if (__builtin_popcount(m) != STEPS) continue;
            if (i == j && !(m & 1)) continue;
            if (!e.take()) continue;
            e.describe(fmt("interleave %s %d | %s %d, order %03x", NAME[ids[i].kind], ids[i].v, NAME[ids[j].kind], ids[j].v, m));
            SP s[2]; s[0].reset(create(ids[i].kind, ids[i].v, dirOf(e, 0))); s[1].reset(create(ids[j].kind, ids[j].v, dirOf(e, 1)));
            Id id[2] = {ids[i], ids[j]}; int at[2] = {0, 0}; bool ok = true;
            for (int k = 0; ok && k < 2 * STEPS; k++)
            {
                int x = (m >> k) & 1;
                ok = step(e, *s[x], id[x], at[x]++) && still(e, *s[1 - x], id[1 - x], at[1 - x]);
                e.state(Hash().u(i).u(j).u(at[0]).u(at[1]));
            }
            e.done();
        }
    // (b) calls of one session made within a callback of the other
    for (size_t i = 0; i < ids.size(); i++)
    {
        if (ids[i].kind != 2) continue;
        for (size_t j = 0; j < ids.size(); j++)
            for (int n = 0; n < 9; n++)                                   // which invocation of the callback
                for (int from = 0; from < STEPS; from++) for (int to = from + 1; to <= STEPS; to++)
                {
                    if (!e.take()) continue;
                    e.describe(fmt("nested %s %d in callback %d of %s %d, calls %d..%d", NAME[ids[j].kind], ids[j].v, n, NAME[ids[i].kind], ids[i].v, from, to - 1));
                    SP a(create(ids[i].kind, ids[i].v, dirOf(e, 0))), b(create(ids[j].kind, ids[j].v, dirOf(e, 1)));
                    bool ok = true; int calls = 0, at = 0;
                    for (; ok && at < from; at++) ok = step(e, *b, ids[j], at);
                    t_hook = [&] { if (calls++ != n) return; auto mine = t_hook; t_hook = nullptr; for (; ok && at < to; at++) ok = step(e, *b, ids[j], at); t_hook = mine; };
                    for (int k = 0; ok && k < STEPS; k++) ok = step(e, *a, ids[i], k);
                    t_hook = nullptr;
                    for (; ok && at < STEPS; at++) ok = step(e, *b, ids[j], at);
                    e.count("callback_reached", calls > n);
                    e.state(Hash().u(i).u(j).u(n).u(from).u(to));
                    e.done();
                }
    }
    // (c) three sessions, two calls at a time
    for (size_t i = 0; i < ids.size(); i++) for (size_t j = 0; j < i; j++) for (size_t l = 0; l < j; l++)
    {
        if (ids[i].kind == ids[l].kind) continue;
        if (!e.thorough && (i + 2 * j + 4 * l) % 7) continue;
        std::vector<int> o(STEPS * 3 / 2); for (size_t k = 0; k < o.size(); k++) o[k] = k / (STEPS / 2);
        int cnt = 0;
        do
        {
            if ((cnt++ + i + j + l) % (e.thorough ? 3 : 5)) continue;
            if (!e.take()) continue;
            e.describe(fmt("interleave %s %d | %s %d | %s %d, order %s", NAME[ids[i].kind], ids[i].v, NAME[ids[j].kind], ids[j].v, NAME[ids[l].kind], ids[l].v, str(o).c_str()));
            Id id[3] = {ids[i], ids[j], ids[l]}; SP s[3]; int at[3] = {0, 0, 0}; bool ok = true;
            for (int x = 0; x < 3; x++) s[x].reset(create(id[x].kind, id[x].v, dirOf(e, x)));
            for (size_t k = 0; ok && k < o.size(); k++)
            {
                int x = o[k];
                for (int r = 0; ok && r < 2; r++) ok = step(e, *s[x], id[x], at[x]++);
                for (int y = 0; ok && y < 3; y++) if (y != x) ok = still(e, *s[y], id[y], at[y]);
                e.state(Hash().u(i).u(j).u(l).u(at[0]).u(at[1]).u(at[2]));
            }
            e.done();
        } while (std::next_permutation(o.begin(), o.end()));
    }
}
}
int mc_main(int argc, char** argv)
{
    char t[] = "/tmp/slsm_indep_XXXXXX";
    if (!mkdtemp(t)) { perror("mkdtemp"); return 3; }
    g_base = t;
    int rc = run(argc, argv, {{"C39", body, 60}}, {"callback_reached"});
    std::string cmd = "/bin/rm -rf " + g_base;
    if (g_base.compare(0, 16, "/tmp/slsm_indep_") == 0 && system(cmd.c_str())) {}
    return rc;
}
