// Stand-in for NLopt's C++ interface (the library is not installed here).  optimize() hands
// the registered problem to the harness, which evaluates the callbacks and picks the answer.
#ifndef STUB_NLOPT_HPP
#define STUB_NLOPT_HPP
#include <functional>
#include <new>
#include <stdexcept>
#include <vector>
#include <algorithm>
#include <cmath>
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <limits>
#include <numeric>
#include <string>
namespace nlopt
{
enum algorithm { GN_DIRECT = 0, LD_MMA = 24, LN_COBYLA = 25, LD_SLSQP = 40, NUM_ALGORITHMS = 43 };
enum result { FAILURE = -1, INVALID_ARGS = -2, OUT_OF_MEMORY = -3, ROUNDOFF_LIMITED = -4, FORCED_STOP = -5,
              SUCCESS = 1, STOPVAL_REACHED = 2, FTOL_REACHED = 3, XTOL_REACHED = 4, MAXEVAL_REACHED = 5, MAXTIME_REACHED = 6 };
class roundoff_limited : public std::runtime_error { public: roundoff_limited() : std::runtime_error("nlopt roundoff-limited") {} };
class forced_stop : public std::runtime_error { public: forced_stop() : std::runtime_error("nlopt forced stop") {} };
typedef double (*vfunc)(const std::vector<double>& x, std::vector<double>& grad, void* data);
struct Fn { vfunc f; void* d; double tol; bool equality; };
struct Problem
{
    algorithm alg; unsigned n;
    std::vector<double> lb, ub;
    bool has, isMax; vfunc obj; void* objData;
    std::vector<Fn> con;            // in the order in which they were registered
    int maxeval; double xtol;
    Problem() : alg(LD_SLSQP), n(0), has(false), isMax(false), obj(0), objData(0), maxeval(0), xtol(0) {}
};
extern std::function<result(Problem&, std::vector<double>&, double&)> g_optimize;
class opt
{
    Problem p; result last = FAILURE; double lastF = 0;
public:
    opt() {}
    opt(algorithm a, unsigned n) { p.alg = a; p.n = n; }
    unsigned get_dimension() const { return p.n; }
    algorithm get_algorithm() const { return p.alg; }
    void set_lower_bounds(const std::vector<double>& v) { if (v.size() != p.n) throw std::invalid_argument("dimension mismatch"); p.lb = v; }
    void set_upper_bounds(const std::vector<double>& v) { if (v.size() != p.n) throw std::invalid_argument("dimension mismatch"); p.ub = v; }
    void set_lower_bounds(double v) { p.lb.assign(p.n, v); }
    void set_upper_bounds(double v) { p.ub.assign(p.n, v); }
    void set_lower_bound(int i, double v) { p.lb.resize(p.n, -HUGE_VAL); p.lb.at(i) = v; }
    void set_upper_bound(int i, double v) { p.ub.resize(p.n, HUGE_VAL); p.ub.at(i) = v; }
    std::vector<double> get_lower_bounds() const { return p.lb; }
    std::vector<double> get_upper_bounds() const { return p.ub; }
    void set_maxeval(int m) { p.maxeval = m; }
    int get_maxeval() const { return p.maxeval; }
    void set_maxtime(double) {}
    void set_xtol_rel(double t) { p.xtol = t; }
    double get_xtol_rel() const { return p.xtol; }
    void set_xtol_abs(double) {}
    void set_xtol_abs(const std::vector<double>&) {}
    void set_ftol_rel(double) {}
    void set_ftol_abs(double) {}
    void set_stopval(double) {}
    void set_initial_step(double) {}
    void set_initial_step(const std::vector<double>&) {}
    void remove_inequality_constraints() { std::vector<Fn> k; for (size_t i = 0; i < p.con.size(); i++) if (p.con[i].equality) k.push_back(p.con[i]); p.con = k; }
    void remove_equality_constraints() { std::vector<Fn> k; for (size_t i = 0; i < p.con.size(); i++) if (!p.con[i].equality) k.push_back(p.con[i]); p.con = k; }
    result last_optimize_result() const { return last; }
    double last_optimum_value() const { return lastF; }
    void set_min_objective(vfunc f, void* d) { p.has = true; p.isMax = false; p.obj = f; p.objData = d; }
    void set_max_objective(vfunc f, void* d) { p.has = true; p.isMax = true; p.obj = f; p.objData = d; }
    void add_inequality_constraint(vfunc f, void* d, double tol = 0) { Fn q = {f, d, tol, false}; p.con.push_back(q); }
    void add_equality_constraint(vfunc f, void* d, double tol = 0) { Fn q = {f, d, tol, true}; p.con.push_back(q); }
    result optimize(std::vector<double>& x, double& f)
    {
        if (x.size() != p.n) throw std::invalid_argument("dimension mismatch");
        last = FAILURE;
        last = g_optimize(p, x, f); lastF = f;
        return last;
    }
    std::vector<double> optimize(const std::vector<double>& x0) { std::vector<double> x(x0); double f; optimize(x, f); return x; }
};
}
#endif
