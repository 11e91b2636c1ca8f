// C17: integer least squares.  The oracle is either the exact separable solution of a problem that
// was disguised by a unimodular transform, or an exhaustive search in extended precision.
#include "vh.h"
#include <Eigen/LU>
#include "core/solver/lambda.h"
using namespace mc;
using namespace mc::core::solver;
using Eigen::MatrixXd;
using Eigen::VectorXd;
typedef long double LD;
typedef std::vector<std::vector<LD>> LM;

static std::string show(const VectorXd& a)
{
    std::string s = "[";
    for (int i = 0; i < a.size(); ++i) s += vh::strf("%s%.17g", i ? " " : "", a[i]);
    return s + "]";
}
static std::string show(const MatrixXd& m)
{
    std::string s;
    for (int i = 0; i < m.rows(); ++i) s += show(VectorXd(m.row(i).transpose()));
    return s;
}
// upper U with Q^-1 = U'U, from the extended-precision Cholesky factor of Q
struct Cost
{
    LM C;  // Q = C C', C lower
    int n;
    explicit Cost(const MatrixXd& Q) : n(Q.rows())
    {
        C.assign(n, std::vector<LD>(n, 0));
        for (int j = 0; j < n; ++j)
            for (int i = j; i < n; ++i)
            {
                LD s = Q(i, j);
                for (int k = 0; k < j; ++k) s -= C[i][k] * C[j][k];
                C[i][j] = i == j ? sqrtl(s) : s / C[j][j];
            }
    }
    LD operator()(const VectorXd& z, const VectorXd& a) const
    {
        std::vector<LD> y(n);
        LD s = 0;
        for (int i = 0; i < n; ++i)
        {
            y[i] = (LD)z[i] - (LD)a[i];
            for (int k = 0; k < i; ++k) y[i] -= C[i][k] * y[k];
            y[i] /= C[i][i];
            s += y[i] * y[i];
        }
        return s;
    }
    // the m smallest costs, by depth-first enumeration of all integers within the bound
    void best(const VectorXd& a, int m, std::vector<std::pair<LD, VectorXd>>& out, LD start) const
    {
        out.clear();
        VectorXd z(n);
        std::vector<LD> y(n);
        LD bound = start;
        long nodes = 0;
        std::function<void(int, LD)> rec = [&](int i, LD acc) {
            if (++nodes > 3000000) return;
            if (i == n)
            {
                out.push_back({acc, z});
                std::sort(out.begin(), out.end(), [](auto& p, auto& q) { return p.first < q.first; });
                if ((int)out.size() > m) out.pop_back();
                if ((int)out.size() == m) bound = std::min(bound, out.back().first);
                return;
            }
            LD center = a[i];
            for (int k = 0; k < i; ++k) center += C[i][k] * y[k];
            const LD r = C[i][i] * sqrtl(std::max<LD>(0, bound - acc)) + 1e-12L;
            const int64_t lo = (int64_t)ceill(center - r), hi = (int64_t)floorl(center + r);
            const int64_t mid = (int64_t)roundl(center);
            for (int64_t d = 0; mid - d >= lo || mid + d <= hi; ++d)
                for (int sgn = 0; sgn < (d ? 2 : 1); ++sgn)
                {
                    const int64_t v = sgn ? mid - d : mid + d;
                    if (v < lo || v > hi) continue;
                    const LD yi = ((LD)v - center) / C[i][i];
                    if (acc + yi * yi > bound * (1 + 1e-15L)) continue;
                    y[i] = yi;
                    z[i] = (double)v;
                    rec(i + 1, acc + yi * yi);
                }
        };
        rec(0, 0);
        if (nodes > 3000000) out.clear();
    }
};

static MatrixXd randomQ(vh::Rng& r, int n)
{
    MatrixXd M(n, n);
    for (int i = 0; i < n; ++i)
        for (int j = 0; j < n; ++j) M(i, j) = r.gauss();
    const double corr = std::pow(10.0, r.uni(-3, 0));
    MatrixXd Q = M * M.transpose() * (1 - corr) + corr * n * MatrixXd::Identity(n, n);
    Q *= std::pow(10.0, r.chance(0.05) ? r.uni(-24, -6) : r.uni(-6, 3));
    return 0.5 * (Q + Q.transpose().eval());
}
static VectorXd randomA(vh::Rng& r, int n, double mag)
{
    VectorXd a(n);
    for (int i = 0; i < n; ++i)
    {
        a[i] = std::round(r.uni(-mag, mag)) + r.uni(-0.5, 0.5);
        if (r.chance(0.05)) a[i] = std::round(a[i]);
        if (r.chance(0.02)) a[i] = std::round(a[i]) + 0.5;
    }
    return a;
}
static bool integers(const VectorXd& z)
{
    for (int i = 0; i < z.size(); ++i)
        if (!(z[i] == std::round(z[i]))) return false;
    return true;
}

VH_GROUP(exhaustive)
{
    const int N = c.n(6000, 150000);
    for (int i = 0; i < N; ++i)
    {
        if (!c.begin()) continue;
        const int n = c.rng.range(1, 5), nc = c.rng.range(2, 6);
        const MatrixXd Q = randomQ(c.rng, n);
        const VectorXd a = randomA(c.rng, n, std::pow(10.0, c.rng.uni(0, 11)));
        c.note(vh::strf("n=%d candidates=%d a=", n, nc) + show(a) + " Q=" + show(Q));
        VectorXd z = VectorXd::Constant(n, 99);
        double ratio = -1;
        lambda(a, Q, z, make_out(ratio), nc);
        const Cost cost(Q);
        if (!c.expect(z.allFinite() && integers(z), "not_integer", "lambda returned " + show(z))) continue;
        const LD got = cost(z, a);
        std::vector<std::pair<LD, VectorXd>> best;
        VectorXd near = a;
        for (int k = 0; k < n; ++k) near[k] = std::round(a[k]);
        LD start = cost(near, a);
        for (int k = 0; k < n; ++k)
        {
            VectorXd o = near;
            o[k] += 1;
            start = std::max(start, cost(o, a));
        }
        cost.best(a, 2, best, start * (1 + 1e-9L));
        if (best.size() < 2)
        {
            c.count("reference_gave_up");
            continue;
        }
        const LD rel = 1e-7L;
        c.expect(got <= best[0].first * (1 + rel) + 1e-12L, "not_best", vh::strf("cost %.9Lg, but ", got) + show(best[0].second) + vh::strf(" costs %.9Lg", best[0].first));
        const LD wr = best[0].first / best[1].first;
        c.expect(fabsl(ratio - wr) <= 1e-6L * (1 + wr) || best[1].first < 1e-9L, "ratio", vh::strf("ratio %.9g, expected %.9Lg", ratio, wr));
        c.nontrivial(vh::fnv(Q.data(), 8 * n * n, vh::fnv(a.data(), 8 * n)));
        if (i < 3) c.sample(vh::strf("n=%d best ", n) + show(z) + vh::strf(" ratio %.6g", ratio));
        c.count("solved");
    }
}

// Q = W D W' with W unimodular and D diagonal: then (z-a)'Q^-1(z-a) is separable in W^-1 z.
VH_GROUP(disguised)
{
    const int N = c.n(4000, 100000);
    for (int i = 0; i < N; ++i)
    {
        if (!c.begin()) continue;
        const int n = c.rng.chance(0.02) ? c.rng.range(20, 30) : c.rng.range(1, 14);
        Eigen::Matrix<LD, -1, -1> W = Eigen::Matrix<LD, -1, -1>::Identity(n, n), Wi = W;
        const int steps = n > 1 ? c.rng.range(0, 3 * n) : 0;
        for (int s = 0; s < steps; ++s)
        {
            const int p = c.rng.range(0, n - 1);
            int q = c.rng.range(0, n - 2);
            if (q >= p) ++q;
            const LD f = (LD)(c.rng.chance(.5) ? 1 : -1) * c.rng.range(1, 2);
            if (W.cwiseAbs().maxCoeff() > 300 || Wi.cwiseAbs().maxCoeff() > 300) break;
            W.row(p) += f * W.row(q);
            Wi.col(q) -= f * Wi.col(p);
        }
        std::vector<LD> D(n);
        MatrixXd Q(n, n);
        for (int k = 0; k < n; ++k) D[k] = ldexpl(1, c.rng.range(-8, 3));
        for (int r = 0; r < n; ++r)
            for (int k = 0; k < n; ++k)
            {
                LD s = 0;
                for (int m = 0; m < n; ++m) s += W(r, m) * D[m] * W(k, m);
                Q(r, k) = (double)s;
            }
        // float solution: an integer point plus the image of a known fractional part
        std::vector<LD> f(n);
        VectorXd a(n), truth(n);
        bool exact = true;
        for (int k = 0; k < n; ++k) f[k] = ldexpl((LD)c.rng.range(-1023, 1023), -11);  // (-0.5, 0.5)
        const double mag = std::pow(10.0, c.rng.uni(0, 10));
        for (int r = 0; r < n; ++r)
        {
            truth[r] = std::round(c.rng.uni(-mag, mag));
            LD s = truth[r];
            for (int k = 0; k < n; ++k) s += W(r, k) * f[k];
            a[r] = (double)s;
            exact = exact && (LD)a[r] == s;
        }
        c.note(vh::strf("n=%d a=", n) + show(a) + " Q=" + show(Q));
        VectorXd z = VectorXd::Constant(n, 99);
        double ratio = -1;
        const int nc = c.rng.range(2, 5);
        lambda(a, Q, z, make_out(ratio), nc);
        // best: W^-1(z - truth) = 0; second: the cheapest single step
        LD best = 0, step = 1e300L, first = 0;
        for (int k = 0; k < n; ++k)
        {
            best += f[k] * f[k] / D[k];
            const LD e = 1 - fabsl(f[k]);
            const LD d = (e * e - f[k] * f[k]) / D[k];
            if (d < step) step = d;
        }
        (void)first;
        const LD second = best + step;
        if (step < 1e-6L * best || !exact)
        {
            c.count("skipped_near_tie");
            continue;
        }
        c.expect(z.allFinite() && integers(z) && z == truth, "not_best", "lambda returned " + show(z) + ", the best is " + show(truth));
        if (second > 1e-9L)
            c.expect(fabsl(ratio - best / second) < 1e-5L, "ratio", vh::strf("ratio %.9g, expected %.9Lg", ratio, best / second));
        c.nontrivial(vh::fnv(Q.data(), 8 * n * n, vh::fnv(a.data(), 8 * n)));
        c.count("solved");
        if (n >= 20) c.count("solved_20_or_more");
        if (i < 3) c.sample(vh::strf("n=%d ratio %.6g", n, ratio));
    }
}

VH_GROUP(pieces)
{
    const int N = c.n(8000, 200000);
    for (int i = 0; i < N; ++i)
    {
        if (!c.begin()) continue;
        const int n = c.rng.range(1, 8);
        const MatrixXd Q = randomQ(c.rng, n);
        const VectorXd a = randomA(c.rng, n, 10);
        c.note(vh::strf("n=%d Q=", n) + show(Q));
        MatrixXd L = MatrixXd::Constant(n, n, 7), Z = MatrixXd::Constant(n, n, 7);
        VectorXd D = VectorXd::Constant(n, 7), z = VectorXd::Constant(n, 7);
        LTDL(Q, L, D);
        const MatrixXd back = L.transpose() * D.asDiagonal() * L;
        bool tri = true;
        for (int r = 0; r < n; ++r)
            for (int k = r; k < n; ++k) tri = tri && L(r, k) == (r == k ? 1.0 : 0.0);
        c.expect(tri, "LTDL_shape", "L is not unit lower triangular: " + show(L));
        c.expect((back - Q).cwiseAbs().maxCoeff() <= 1e-11 * Q.cwiseAbs().maxCoeff(), "LTDL", "L'DL differs from Q");
        L.setConstant(5), D.setConstant(5);
        reduction(Q, a, z, L, D, Z);
        Eigen::Matrix<LD, -1, -1> Zl = Z.cast<LD>();
        const LD det = Eigen::Matrix<LD, -1, -1>(Zl).determinant();
        bool integer = true;
        for (int r = 0; r < n; ++r) integer = integer && integers(Z.row(r).transpose());
        c.expect(integer && fabsl(fabsl(det) - 1) < 1e-6L, "not_unimodular", "Z is not a unimodular integer matrix: " + show(Z));
        const Eigen::Matrix<LD, -1, -1> Qz = Zl.transpose() * Q.cast<LD>() * Zl;
        const Eigen::Matrix<LD, -1, -1> Ll = L.cast<LD>();
        const Eigen::Matrix<LD, -1, -1> Dl = D.cast<LD>().asDiagonal();
        const Eigen::Matrix<LD, -1, -1> Qr = Ll.transpose() * Dl * Ll;
        const LD sc = (Zl.transpose().cwiseAbs() * Q.cwiseAbs().cast<LD>() * Zl.cwiseAbs()).maxCoeff();
        c.expect((Qz - Qr).cwiseAbs().maxCoeff() <= 1e-10L * sc, "reduction", "Z'QZ differs from L'DL");
        const Eigen::Matrix<LD, -1, 1> zw = Zl.transpose() * a.cast<LD>();
        c.expect((zw - z.cast<LD>()).cwiseAbs().maxCoeff() <= 1e-9L * (1 + (Zl.transpose().cwiseAbs() * a.cwiseAbs().cast<LD>()).maxCoeff()), "reduction_z", "z differs from Z'a");
        for (int k = 0; k + 1 < n; ++k)
        {
            const double delta = D(k) + L(k + 1, k) * L(k + 1, k) * D(k + 1);
            c.expect(delta >= D(k + 1) * (1 - 1e-9), "not_reduced", vh::strf("a swap at %d would still help", k));
        }
        // the search returns distinct candidates in order of cost
        const int nc = c.rng.range(2, 8);
        MatrixXd cand = MatrixXd::Constant(n, nc, 5);
        VectorXd norms = VectorXd::Constant(nc, 5);
        search(z, L, D, nc, cand, norms);
        for (int k = 0; k < nc; ++k)
        {
            // (cand - z)' (L'DL)^-1 (cand - z): y = L^-T (cand - z)
            std::vector<LD> y(n);
            LD s = 0;
            for (int r = n - 1; r >= 0; --r)
            {
                y[r] = (LD)cand(r, k) - (LD)z(r);
                for (int m = r + 1; m < n; ++m) y[r] -= (LD)L(m, r) * y[m];
                s += y[r] * y[r] / (LD)D(r);
            }
            c.expect(integers(cand.col(k)) && fabsl(s - norms(k)) <= 1e-7L * (1 + s), "search_norm", vh::strf("candidate %d has cost %.9Lg, reported %.9g", k, s, norms(k)));
            for (int m = 0; m < k; ++m)
                c.expect(cand.col(m) != cand.col(k), "search_repeats", vh::strf("candidates %d and %d are equal", m, k));
            if (k) c.expect(norms(k - 1) <= norms(k) * (1 + 1e-12), "search_order", "candidates are not sorted by cost");
        }
        c.nontrivial(vh::fnv(Q.data(), 8 * n * n));
        c.sample(vh::strf("n=%d D=", n) + show(D));
    }
}
