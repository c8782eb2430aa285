// C03: every operation history of the heap up to a depth, against a reference
// priority queue, on the real slsm::Heap.
#include "mc.hpp"
#include "slsm_all.hpp"
using namespace mc;
using slsm::Heap;

namespace
{
struct Op { int k; int a; int b; };     // 0 push(value a) 1 pop 2 set(live #a, value b) 3 peek
struct Live { unsigned handle, addr; double v; };

const double VAL[] = {0.5, 1.25, 3.0, 7.75, -2.5, -0.125, 0.75, std::numeric_limits<double>::infinity(),
    // neighbouring, tiny and huge values
    1, 1 + 2.220446049250313e-16, 1 + 1e-12, 1 + 1e-7, 1e-300, 1.5e-300, -4e300, 4e300};
int base = 0;      // first value of the alphabet in use

std::string show(const std::vector<Op>& w)
{
    std::string s;
    for (auto& o : w)
        s += o.k == 0 ? fmt("push(%g) ", VAL[base + o.a]) : o.k == 1 ? "pop " : o.k == 2 ? fmt("set(#%d,%g) ", o.a, VAL[base + o.b]) : "peek ";
    return s;
}

struct Sim
{
    Explorer& e; Heap h; std::vector<Live> live; unsigned cap, nextAddr; Hash obs;
    Sim(Explorer& e_, unsigned cap_, bool test) : e(e_), h(cap_, test), cap(cap_), nextAddr(100) {}
    double minv() { double m = std::numeric_limits<double>::infinity(); for (auto& l : live) m = std::min(m, l.v); return m; }
    bool check()
    {
        if (!e.expect(h.size() == live.size(), fmt("size() is %u, expected %zu", h.size(), live.size()))) return false;
        if (!e.expect(h.empty() == live.empty(), "empty() disagrees with the number of entries")) return false;
        e.t(2);
        if (!live.empty())
        {
            double p = 0; bool r = refused([&] { p = h.peek(); });
            e.t();
            if (!e.expect(!r && p == minv(), r ? std::string("peek refused on a non-empty heap") : fmt("peek() is %g, minimum is %g", p, minv()))) return false;
        }
        Hash s; s.u(cap);
        for (auto& l : live) { s.u(l.handle); s.u(l.addr - 100); s.d(l.v > 1e9 ? 1e9 : l.v); }
        e.state(s);
        return true;
    }
    bool push(double v)
    {
        unsigned hd = 0, ad = nextAddr++;
        bool r = refused([&] { hd = h.push(ad, v); });
        e.t();
        if (live.size() == cap) { e.expect(r, "push beyond the capacity was not refused"); return false; }
        if (!e.expect(!r, "push within the capacity was refused")) return false;
        for (auto& l : live)
            if (!e.expect(l.handle != hd, "push returned the handle of a live entry")) return false;
        live.push_back(Live{hd, ad, v});
        return check();
    }
    bool pop()
    {
        unsigned a = 0; double v = -1;
        bool r = refused([&] { h.pop(a, v); });
        e.t();
        if (live.empty()) { e.expect(r, "pop on an empty heap was not refused"); return false; }
        if (!e.expect(!r, "pop on a non-empty heap was refused")) return false;
        double m = minv();
        if (!e.expect(v == m, fmt("pop gave value %g, minimum is %g", v, m))) return false;
        for (size_t i = 0; i < live.size(); i++)
            if (live[i].addr == a)
            {
                if (!e.expect(live[i].v == v, fmt("pop gave address %u with value %g, it holds %g", a, v, live[i].v))) return false;
                obs.u(a);
                live.erase(live.begin() + i);
                return check();
            }
        e.expect(false, fmt("pop gave address %u which is not in the heap", a));
        return false;
    }
    bool set(int i, double v)
    {
        bool r = refused([&] { h.set(live[i].handle, v); });
        e.t();
        if (!e.expect(!r, "set was refused")) return false;
        live[i].v = v;
        return check();
    }
    bool peekEmpty()
    {
        bool r = refused([&] { h.peek(); });
        e.t();
        e.expect(r, "peek on an empty heap was not refused");
        return false;
    }
    void drain()
    {
        while (!live.empty()) if (!pop()) return;
        pop();   // must be refused
        e.outcome(obs);
    }
};

void runWord(Explorer& e, unsigned cap, bool test, const std::vector<Op>& w)
{
    Sim s(e, cap, test);
    bool ok = s.check();
    for (size_t i = 0; ok && i < w.size(); i++)
    {
        const Op& o = w[i];
        if (o.k == 0) ok = s.push(VAL[base + o.a]);
        else if (o.k == 1) ok = s.pop();
        else if (o.k == 2) ok = s.set(o.a, VAL[base + o.b]);
        else ok = s.peekEmpty();
    }
    if (ok) s.drain();
    e.outcome(s.obs);
}

void dfs(Explorer& e, unsigned cap, bool test, int depth, int nv, std::vector<Op>& w, unsigned n)
{
    if (depth == 0)
    {
        if (e.take())
        {
            e.describe(fmt("cap=%u test=%d ops=%s", cap, (int)test, show(w).c_str()));
            runWord(e, cap, test, w);
            e.done();
        }
        return;
    }
    auto leaf = [&](Op o) { w.push_back(o); dfs(e, cap, test, 0, nv, w, n); w.pop_back(); };
    if (n == cap) leaf(Op{0, 0, 0});
    else for (int v = 0; v < nv; v++) { w.push_back(Op{0, v, 0}); dfs(e, cap, test, depth - 1, nv, w, n + 1); w.pop_back(); }
    if (n == 0) { leaf(Op{1, 0, 0}); leaf(Op{3, 0, 0}); }
    else { w.push_back(Op{1, 0, 0}); dfs(e, cap, test, depth - 1, nv, w, n - 1); w.pop_back(); }
    for (unsigned i = 0; i < n; i++)
        for (int v = 0; v < nv; v++) { w.push_back(Op{2, (int)i, v}); dfs(e, cap, test, depth - 1, nv, w, n); w.pop_back(); }
}

void body(Explorer& e)
{
    // (a) every history of mixed operations up to the depth
    int depth = e.thorough ? 7 : 6;
    for (unsigned cap = 0; cap <= 4; cap++)
        for (int test = 0; test < 2; test++)
        {
            int d = cap >= 4 ? depth - 1 : depth; if (test) d--;
            std::vector<Op> w;
            dfs(e, cap, test, d, cap == 4 ? 2 : 3, w, 0);
        }
    // (a') the same over values of either sign and infinity
    for (unsigned cap = 1; cap <= 3; cap++)
    {
        base = 4;
        std::vector<Op> w;
        dfs(e, cap, false, cap == 3 ? 4 : 5, 4, w, 0);
        base = 0;
    }
    // (a'') and over values that all but coincide
    for (int b : {8, 12})
        for (unsigned cap = 1; cap <= 4; cap++)
        {
            base = b;
            std::vector<Op> w;
            dfs(e, cap, false, cap >= 3 ? 4 : 5, 4, w, 0);
            base = 0;
        }
    // (c) deep trees: every (order pattern, key to move, new rank) of n entries
    for (int n : {15, 16, 17, 31, 33, 64})
        for (int pat = 0; pat < 6; pat++)
            for (int j = 0; j < n; j++)
                for (int r = 0; r <= 2 * n; r += e.thorough || n < 20 ? 1 : 3)
                {
                    if (!e.take()) continue;
                    e.describe(fmt("deep n=%d pattern=%d set=#%d rank=%d", n, pat, j, r));
                    Sim s(e, n + (r & 1), false);
                    bool ok = true;
                    for (int i = 0; ok && i < n; i++)
                    {
                        int q = pat == 0 ? i : pat == 1 ? n - 1 - i : pat == 2 ? (i % 2 ? i / 2 : n - 1 - i / 2) : pat == 3 ? (i * 7) % n : pat == 4 ? (int)(((i + 1) * 2654435761u) >> 8) % n : i / 3;
                        ok = s.push(2.0 * q + 1 - n);
                    }
                    if (ok) ok = s.set(j, (double)r - n);
                    int k = (j * 5 + r) % n;
                    for (int i = 0; ok && i < k; i++) ok = s.pop();
                    for (int i = 0; ok && i < k; i++) ok = s.push(((i * 11) % n) * 1.5 - n);
                    if (ok && k) ok = s.set(n - 1, (double)r - n) && s.set(0, (double)(j - r));
                    if (ok) s.drain();
                    e.done();
                }
    // (d) more entries than a 16-bit index can hold
    for (int n : {70000, 300000}) for (int pat = 0; pat < 3; pat++)
    {
        if (!e.take()) continue;
        e.describe(fmt("large n=%d pattern=%d", n, pat));
        Heap h(n, false);
        std::vector<double> val(n);
        std::vector<unsigned> hd(n);
        bool no = refused([&] {
            for (int i = 0; i < n; i++)
            {
                val[i] = pat == 0 ? i : pat == 1 ? n - i : std::fmod((i + 1) * 0.6180339887498949, 1.0);
                hd[i] = h.push(i, val[i]);
            }
            for (int i = 0; i < n; i += 7) { val[i] = pat == 2 ? std::fmod((i + 1) * 0.3819, 1.0) : n - val[i]; h.set(hd[i], val[i]); }
        });
        e.t(n);
        bool ok = e.expect(!no, "refused within the capacity");
        std::vector<char> seen(n, 0);
        double last = -1;
        for (int i = 0; ok && i < n; i++)
        {
            unsigned a = ~0u; double v = 0;
            ok = e.expect(!refused([&] { h.pop(a, v); }), "pop refused") && e.expect(a < (unsigned)n && !seen[a], fmt("pop %d gave address %u (again or never pushed)", i, a))
              && e.expect(v == val[a], fmt("address %u came with value %g instead of %g", a, v, val[a])) && e.expect(v >= last, "values out of order");
            if (ok) { seen[a] = 1; last = v; }
            e.t();
        }
        if (ok) e.expect(h.empty(), "not empty after popping everything");
        e.state(Hash().u(n).u(pat)); e.outcome(Hash().d(last).u(pat));
        e.done();
    }
    // (b) larger trees: every insertion order of n values (with ties), k pops,
    //     one refill, one re-keying of every handle to every rank, then drain
    int maxn = e.thorough ? 8 : 7;
    for (int ties = 0; ties < 2; ties++)
        for (int n = 4; n <= maxn; n++)
        {
            std::vector<int> perm(n);
            for (int i = 0; i < n; i++) perm[i] = i;
            do
            {
                for (int j = 0; j < n; j++)
                    for (int r = 0; r < 2 * n + 1; r++)
                    {
                        if (ties && r % 2) continue;
                        if (!e.take()) continue;
                        e.describe(fmt("tree n=%d ties=%d perm=%s set=#%d rank=%d", n, ties, str(perm).c_str(), j, r));
                        Sim s(e, n, false);
                        bool ok = true;
                        for (int i = 0; ok && i < n; i++) ok = s.push(ties ? 2.0 * (perm[i] / 2) + 1 : 2.0 * perm[i] + 1);
                        if (ok) ok = s.set(j, ties ? 2.0 * (r / 4) + 1 : (double)r);
                        int k = (j + r) % 3;
                        for (int i = 0; ok && i < k; i++) ok = s.pop();
                        for (int i = 0; ok && i < k; i++) ok = s.push(1.0 + 3 * i);
                        if (ok && k) ok = s.set(n - 1, (double)r);
                        if (ok) s.drain();
                        e.done();
                    }
            } while (std::next_permutation(perm.begin(), perm.end()));
        }
}
}
int mc_main(int argc, char** argv) { return run(argc, argv, {{"C03", body, 60}}); }
