// Reference fast marching: quadratic-time selection of the closest trial node,
// closed-form local solver.  Independent of slsm's heap, stencil code and order
// of evaluation.
#ifndef REF_FMM_HPP
#define REF_FMM_HPP
#include <cmath>
#include <vector>
#include <limits>

struct RefFMM
{
    enum St { FAR, TRIAL, FROZEN };
    int W, H;                     // nodes per row / column
    std::vector<double> in, phi, vel;
    std::vector<int> st;
    std::vector<int> order;       // acceptance order
    std::vector<char> border;     // known (zero or next to the contour)
    std::vector<char> active;     // empty: all
    bool isVel;
    bool noContour;
    // Ambiguity: a decision taken within rounding distance of the other outcome.
    bool amb;
    // Number of local updates without a real two-sided solution.
    int nFallback;
    double tol;

    RefFMM(int w, int h, const std::vector<double>& p) : W(w + 1), H(h + 1), in(p), phi(p), isVel(false), noContour(false), amb(false), nFallback(0), tol(1e-7) {}

    int nb(int i, int k) const    // left right down up
    {
        int x = i % W, y = i / W;
        if (k == 0) return x > 0 ? i - 1 : -1;
        if (k == 1) return x < W - 1 ? i + 1 : -1;
        if (k == 2) return y > 0 ? i - W : -1;
        return y < H - 1 ? i + W : -1;
    }
    bool near(double a, double b) const { return std::abs(a - b) <= tol * (1 + std::abs(a)); }
    bool isActive(int i) const { return active.empty() || active[i]; }

    void known()
    {
        int n = W * H, cnt = 0;
        st.assign(n, FAR); border.assign(n, 0);
        for (int i = 0; i < n; i++)
        {
            if (in[i] == 0) { st[i] = FROZEN; border[i] = 1; cnt++; continue; }
            double inv = 0; bool b = false;
            for (int dim = 0; dim < 2; dim++)
            {
                double best = -1;
                for (int k = 2 * dim; k < 2 * dim + 2; k++)
                {
                    int j = nb(i, k);
                    if (j < 0) continue;
                    if ((in[i] > 0 && in[j] < 0) || (in[i] < 0 && in[j] > 0))
                    {
                        double d = std::abs(in[i]) / (std::abs(in[i]) + std::abs(in[j]));
                        if (best < 0 || d < best) best = d;
                    }
                }
                if (best >= 0) { b = true; inv += 1 / (best * best); }
            }
            if (b)
            {
                double d = 1 / std::sqrt(inv);
                phi[i] = jit(i, in[i] < 0 ? -d : d);
                st[i] = FROZEN; border[i] = 1; cnt++;
            }
        }
        noContour = cnt == 0;
    }

    // Upwind data of one dimension, from frozen neighbours.
    // order 0: none, 1: first order with base b, 2: second order with base b.
    int upwind(int i, int dim, double& b)
    {
        int best = -1, bk = -1;
        for (int k = 2 * dim; k < 2 * dim + 2; k++)
        {
            int j = nb(i, k);
            if (j < 0 || st[j] != FROZEN) continue;
            if (best < 0) { best = j; bk = k; continue; }
            if (near(std::abs(phi[j]), std::abs(phi[best])))
            {
                // Equidistant on both sides: harmless only if both give the same data.
                double b1, b2; int o1 = second(best, bk, b1), o2 = second(j, k, b2);
                if (o1 != o2 || !near(b1, b2)) { amb = true; if (phi[j] == 0 || phi[best] == 0) hard = true; }
            }
            if (std::abs(phi[j]) < std::abs(phi[best])) { best = j; bk = k; }
        }
        if (best < 0) return 0;
        return second(best, bk, b);
    }
    int second(int j, int k, double& b)
    {
        int j2 = nb(j, k);
        b = phi[j];
        if (j2 >= 0 && st[j2] == FROZEN)
        {
            // |phi(j2)| == |phi(j)| (a contour through both, or rounding): decision is on the edge
            if (!(phi[j2] == 0 && phi[j] == 0) && near(std::abs(phi[j2]), std::abs(phi[j]))) amb = true;
            if (std::abs(phi[j2]) <= std::abs(phi[j])) { b = (4 * phi[j] - phi[j2]) / 3; return 2; }
        }
        return 1;
    }
    double one(int o, double b, double s) { return b + s * (o == 2 ? 2.0 / 3 : 1.0); }
    double update(int i)
    {
        double b[2]; int o[2];
        for (int d = 0; d < 2; d++) o[d] = upwind(i, d, b[d]);
        double s = in[i] > 0 ? 1 : -1;
        if (!o[0] && !o[1]) return phi[i];
        if (!o[0]) return one(o[1], b[1], s);
        if (!o[1]) return one(o[0], b[0], s);
        double a = 0, m = 0, c = -1;
        for (int d = 0; d < 2; d++)
        {
            double w = o[d] == 2 ? 2.25 : 1.0;
            a += w; m += w * b[d]; c += w * b[d] * b[d];
        }
        double q = m * m - a * c;          // quarter discriminant
        if (std::abs(q) <= tol) amb = true;
        if (q > 0) return (m + s * std::sqrt(q)) / a;
        nFallback++;
        return fallback(i, o, b, s);
    }
    // No point at distance one grid step from both upwind fronts: the nearer front alone decides.
    double fallback(int, int* o, double* b, double s)
    {
        double u = one(o[0], b[0], s), v = one(o[1], b[1], s);
        if (near(u, v)) {}
        return std::abs(u) < std::abs(v) ? u : v;
    }
    int jitter = 0;               // != 0: perturb every computed value at rounding scale
    double jit(int i, double v) const
    {
        if (!jitter) return v;
        if (jitter > 5 && jitter < 10)           // tilted: every tie is broken towards one side
        {
            double t = jitter < 8 ? i % W : i / W;
            return v * (1 + (jitter % 2 ? -1 : 1) * 1e-11 * (t + 0.1));
        }
        unsigned long long z = (i + 1) * 0x9e3779b97f4a7c15ULL * (2 * jitter + 1) + jitter;
        z ^= z >> 29; z *= 0xbf58476d1ce4e5b9ULL; z ^= z >> 32;
        return v * (1 + 4e-11 * ((double)(z & 0xffff) / 65536.0 - 0.5));
    }
    void finalVel(int i)
    {
        double num = 0, den = 0;
        for (int dim = 0; dim < 2; dim++)
        {
            int best = -1;
            for (int k = 2 * dim; k < 2 * dim + 2; k++)
            {
                int j = nb(i, k);
                if (j < 0 || st[j] != FROZEN) continue;
                if (best >= 0 && near(std::abs(phi[j]), std::abs(phi[best])))
                {
                    if (!near(vel[j], vel[best]) || !near(phi[j], phi[best])) { amb = true; if (phi[j] == 0 || phi[best] == 0) hard = true; }
                }
                if (best < 0 || std::abs(phi[j]) < std::abs(phi[best])) best = j;
            }
            if (best >= 0) { double d = std::abs(phi[i] - phi[best]); num += d * vel[best]; den += d; }
        }
        if (den < 1e-6) amb = true;
        vel[i] = num / den;
    }
    void push(int i)
    {
        if (st[i] == FROZEN) return;
        phi[i] = jit(i, update(i));
        if (!isVel || isActive(i)) st[i] = TRIAL;
    }
    void march()
    {
        known();
        if (noContour) return;
        int n = W * H;
        std::vector<int> first;
        for (int i = 0; i < n; i++)
            if (st[i] == FAR && (!isVel || isActive(i)))
                for (int k = 0; k < 4; k++) { int j = nb(i, k); if (j >= 0 && st[j] == FROZEN) { first.push_back(i); break; } }
        for (int i : first) push(i);
        while (true)
        {
            int best = -1;
            for (int i = 0; i < n; i++)
                if (st[i] == TRIAL && (best < 0 || std::abs(phi[i]) < std::abs(phi[best]))) best = i;
            if (best < 0) break;
            double v = std::abs(phi[best]);
            std::vector<int> batch;
            for (int i = 0; i < n; i++)
                if (st[i] == TRIAL)
                {
                    if (std::abs(phi[i]) == v) batch.push_back(i);
                    else if (near(std::abs(phi[i]), v)) amb = true;
                }
            // exact ties between nodes that influence each other: order matters
            for (size_t a = 0; a < batch.size(); a++)
                for (size_t b = a + 1; b < batch.size(); b++)
                {
                    int dx = std::abs(batch[a] % W - batch[b] % W), dy = std::abs(batch[a] / W - batch[b] / W);
                    if (dx + dy <= 2) tieNear = true;
                }
            for (int i : batch) { st[i] = FROZEN; order.push_back(i); }
            if (isVel)
            {
                // In a tie the impl. finalises one after the other; a tied neighbour has weight zero.
                for (int i : batch) finalVel(i);
            }
            for (int i : batch)
                for (int k = 0; k < 4; k++)
                {
                    int j = nb(i, k);
                    if (j < 0 || st[j] == FROZEN) continue;
                    push(j);
                    int j2 = nb(j, k);
                    if (j2 >= 0 && st[j2] == TRIAL) phi[j2] = jit(j2, update(j2));
                }
        }
    }
    bool tieNear = false;
    bool hard = false;            // two zero nodes on opposite sides with different data: the choice is free
};

// Is the reference solution insensitive to perturbations of rounding size?  If a
// decision was taken on the edge (ties, equidistant fronts), the solution is recomputed
// with every value perturbed by 2e-11; only if all agree is it binding for an
// implementation that may round differently.
inline bool robustFMM(const RefFMM& base, int w, int h, const std::vector<double>& in, const std::vector<double>* vel = 0, const std::vector<char>* active = 0)
{
    if (!base.amb && !base.tieNear) return true;
    if (base.hard) return false;
    for (int k = 1; k <= 20; k++)
    {
        RefFMM r(w, h, in);
        r.jitter = k;
        r.tol = base.tol;
        if (vel) { r.isVel = true; r.vel = *vel; }
        if (active) r.active = *active;
        r.march();
        for (size_t i = 0; i < in.size(); i++)
        {
            if (std::abs(r.phi[i] - base.phi[i]) > 1e-7) return false;
            if (vel && !(std::abs(r.vel[i] - base.vel[i]) <= 1e-7)) return false;
        }
    }
    return true;
}
#endif
