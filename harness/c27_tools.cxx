// C27: the shared numerical tools. Derivatives are judged by a sixth-order difference with a large
// step (an independent method, not the library's step and formula), matrices element by element,
// random matrices by their moments and range, strings by a scan of their characters.
#include <Eigen/Geometry>
#include <algorithm>
#include <cmath>
#include <set>

#include "common/defs.h"
#include "common/math/dquat.h"
#include "common/math/quat.h"
#include "common/math/se3.h"
#include "common/math/so3.h"
#include "common/numerical_jacobian.h"
#include "common/random.h"
#include "utils/split_string.h"
#include "utils/strip_string.h"
#include "vh.h"

using namespace mc;
using vh::strf;
using Q = math::Quat<double>;
using DQ = math::DQuat<double>;
using SO = math::SO3<double>;
using SE = math::SE3<double>;

template <typename T>
static T gen(vh::Ctx& c)
{
    if constexpr (detail::is_lie_group<T>::value)
    {
        Eigen::Matrix<double, T::DOF, 1> v;
        for (int i = 0; i < T::DOF; ++i) v(i) = c.rng.uni(-1, 1);
        const double m = c.rng.pick<double>({0., .3, 1., 1.6});
        return T::exp(v * m);
    }
    else
    {
        T v;
        for (int i = 0; i < v.size(); ++i) v(i) = c.rng.uni(-2, 2);
        return v;
    }
}

template <typename G>
static Mat3 rot(const G& g)
{
    if constexpr (std::is_same<G, Q>::value)
        return g.R();
    else if constexpr (std::is_same<G, DQ>::value)
        return g.real().R();
    else
        return g.matrix().template topLeftCorner<3, 3>();
}

// reference: d/dh at 0 of (f(x perturbed by h along i) minus f(x)) by a sixth-order stencil
template <bool Left, typename T, typename F>
static Eigen::MatrixXd oracle(const T& x, const F& f)
{
    using O = std::decay_t<decltype(f(x))>;
    const O y0 = f(x);
    constexpr int nin = dof<T>();
    constexpr int nout = dof<O>();
    Eigen::MatrixXd J(nout, nin);
    const double h = 1e-2;
    const double w[3] = {3. / 4, -3. / 20, 1. / 60};
    for (int i = 0; i < nin; ++i)
    {
        Eigen::Matrix<double, nout, 1> acc = Eigen::Matrix<double, nout, 1>::Zero();
        for (int k = 1; k <= 3; ++k)
            for (int s = -1; s <= 1; s += 2)
            {
                Eigen::Matrix<double, nin, 1> d = Eigen::Matrix<double, nin, 1>::Zero();
                d(i) = s * k * h;
                T xp = x;
                if constexpr (detail::is_lie_group<T>::value)
                    xp = Left ? T(T::exp(d) * x) : T(x * T::exp(d));
                else
                    xp = x + d;
                const O y = f(xp);
                Eigen::Matrix<double, nout, 1> dy;
                if constexpr (detail::is_lie_group<O>::value)
                    dy = Left ? O(y * y0.inverse()).log() : O(y0.inverse() * y).log();
                else
                    dy = y - y0;
                acc += s * w[k - 1] * dy;
            }
        J.col(i) = acc / h;
    }
    return J;
}

static bool near(const Eigen::MatrixXd& a, const Eigen::MatrixXd& b, double tol, std::string& why)
{
    if (a.rows() != b.rows() || a.cols() != b.cols())
    {
        why = strf("%ldx%ld instead of %ldx%ld", a.rows(), a.cols(), b.rows(), b.cols());
        return false;
    }
    const double e = (a - b).cwiseAbs().maxCoeff(), m = b.cwiseAbs().maxCoeff();
    why = strf("error %.3g of %.3g", e, m);
    return a.allFinite() && e <= tol * (1 + m);
}

template <typename T, typename F>
static void both(vh::Ctx& c, const char* what, const T& x, const F& f)
{
    using O = std::decay_t<decltype(f(x))>;
    const Eigen::MatrixXd L = oracle<true>(x, f), R = oracle<false>(x, f);
    std::string why;
    const double tol = 1e-6;
    const auto name = [&](const char* fn) { return std::string(fn) + " of " + what + ": "; };
    const auto jl = compute_jac(x, f);
    c.expect(near(jl, L, tol, why), "compute_jac", name("left") + why);
    const auto jl2 = compute_jac<JacobianSide::LEFT>(x, f, 1e-6);
    c.expect(near(jl2, L, tol, why), "compute_jac", name("left, step 1e-6") + why);
    const auto jr = compute_jac<JacobianSide::RIGHT>(x, f);
    c.expect(near(jr, R, tol, why), "compute_jac", name("right") + why);
    c.count("jacobians", 3);
    constexpr bool tin = detail::is_lie_group<T>::value, tout = detail::is_lie_group<O>::value;
    // a second argument passed through
    const auto f2 = [&](const T& a, const double&) { return f(a); };
    if constexpr (tin && tout)
    {
        c.expect(near(left_jac(x, f), L, tol, why), "left_jac", name("left_jac") + why);
        c.expect(near(right_jac(x, f2, 2.), R, tol, why), "right_jac", name("right_jac") + why);
        c.count("jacobians", 2);
    }
    if constexpr (tin && !tout)
    {
        c.expect(near(left_jac2(x, f2, 2.), L, tol, why), "left_jac2", name("left_jac2") + why);
        c.expect(near(right_jac2(x, f), R, tol, why), "right_jac2", name("right_jac2") + why);
        c.count("jacobians", 2);
    }
    if constexpr (!tin && tout)
    {
        c.expect(near(left_jac3(x, f), L, tol, why), "left_jac3", name("left_jac3") + why);
        c.expect(near(right_jac3(x, f2, 2.), R, tol, why), "right_jac3", name("right_jac3") + why);
        c.count("jacobians", 2);
    }
}

template <typename G>
static void group_cases(vh::Ctx& c, const char* what)
{
    using V = Eigen::Matrix<double, G::DOF, 1>;
    const G x = gen<G>(c), a = gen<G>(c), b = gen<G>(c);
    const V w = gen<V>(c) * .5;
    const Vec3 p = gen<Vec3>(c);
    c.note(std::string(what) + " " + strf("%.17g %.17g", w(0), p(0)));
    c.nontrivial(c.rng.u64() ^ vh::fnv(w.data(), sizeof(double) * w.size()));
    both(c, what, x, [&](const G& g) { return G(a * g * b); });
    both(c, what, x, [&](const G& g) { return G(a * g.inverse()); });
    both(c, what, x, [&](const G& g) { return G(g * a * g); });
    // group to vector
    both(c, what, x, [&](const G& g) -> Vec3 {
        return rot(g) * p;
    });
    both(c, what, x, [&](const G& g) -> Vec2 {
        const Mat3 m = rot(g);
        return Vec2(m(0, 1) * m(2, 2), std::sin(m(1, 0)));
    });
    // vector to group
    both(c, what, w, [&](const V& v) { return G(a * G::exp(v)); });
    const Vec2 u = gen<Vec2>(c);
    both(c, what, u, [&](const Vec2& v) {
        V t = V::Zero();
        t(0) = v(0) * v(1) * .3;
        t(G::DOF - 1) = std::sin(v(1)) * .5;
        return G(G::exp(t) * b);
    });
}

VH_GROUP(jacobian)
{
    for (int i = 0; i < c.n(600, 12000); ++i)
    {
        if (!c.begin()) continue;
        switch (i % 5)
        {
            case 0: group_cases<Q>(c, "Quat"); break;
            case 1: group_cases<SO>(c, "SO3"); break;
            case 2: group_cases<DQ>(c, "DQuat"); break;
            case 3: group_cases<SE>(c, "SE3"); break;
            default:
            {
                Eigen::Matrix<double, 4, 5> A;
                for (int k = 0; k < 20; ++k) A(k / 5, k % 5) = c.rng.uni(-2, 2);
                const Vec5 x = gen<Vec5>(c);
                c.nontrivial(vh::fnv(x.data(), sizeof x));
                both(c, "Vec5", x, [&](const Vec5& v) -> Vec4 { return A * v; });
                both(c, "Vec5", x, [&](const Vec5& v) -> Vec2 {
                    return Vec2(v.squaredNorm(), std::sin(v(0)) * v(4) + std::exp(v(2) * .3));
                });
                // one function whose result has another size at every call
                {
                    const SO g = gen<SO>(c);
                    const Vec3 p = gen<Vec3>(c);
                    Eigen::MatrixXd W = Eigen::MatrixXd::Zero(c.rng.range(1, 9), 3);
                    const auto f = [&](const SO& h) -> Eigen::VectorXd { return W * (rot(h) * p); };
                    const auto f3 = [&](const SO& h) -> Vec3 { return rot(h) * p; };
                    for (int q = 0; q < 2; ++q)
                    {
                        W.resize(c.rng.range(1, 9), 3);
                        for (int k = 0; k < W.size(); ++k) W(k / 3, k % 3) = c.rng.uni(-2, 2);
                        std::string why;
                        const Eigen::MatrixXd L = W * oracle<true>(g, f3), R = W * oracle<false>(g, f3);
                        c.expect(near(left_jac2(g, f), L, 1e-6, why), "left_jac2", why);
                        c.expect(near(right_jac2(g, f), R, 1e-6, why), "right_jac2", why);
                        c.count("jacobians", 2);
                    }
                }
                const Vec1 y = gen<Vec1>(c);
                both(c, "Vec1", y, [&](const Vec1& v) -> Vec3 {
                    return Vec3(std::cos(v(0)), v(0) * v(0), 3.);
                });
                // perturb and difference undo each other
                const DQ g = gen<DQ>(c);
                const Vec6 d = gen<Vec6>(c) * .4;
                const DQ gl = perturb<JacobianSide::LEFT>(g, d), gr = perturb<JacobianSide::RIGHT>(g, d);
                c.expect(Vec6(difference<JacobianSide::LEFT>(gl, g) - d).norm() < 1e-7, "difference",
                         "left difference does not undo left perturbation");
                c.expect(Vec6(difference<JacobianSide::RIGHT>(gr, g) - d).norm() < 1e-7, "difference",
                         "right difference does not undo right perturbation");
                c.expect(Vec6(DQ(gl * DQ(DQ::exp(d) * g).inverse()).log()).norm() < 1e-9, "perturb", "left");
                c.expect(Vec6(DQ(gr * DQ(g * DQ::exp(d)).inverse()).log()).norm() < 1e-9, "perturb", "right");
                const Vec5 e = gen<Vec5>(c);
                const Vec5 xe = perturb<JacobianSide::LEFT>(x, e);
                c.expect((xe - (x + e)).norm() < 1e-12, "perturb", "vector");
                const Vec5 df = difference<JacobianSide::RIGHT>(xe, x);
                c.expect((df - e).norm() < 1e-12, "difference", "vector");
            }
        }
    }
}

static double special(vh::Ctx& c)
{
    switch (c.rng.range(0, 9))
    {
        case 0: return 0;
        case 1: return -0.0;
        case 2: return c.rng.uni(-1e300, 1e300);
        case 3: return 5e-324;
        case 4: return (double)c.rng.range(-5, 5);
        case 5: return c.rng.range(-5, 5) + .5;
        default: return c.rng.uni(-10, 10);
    }
}

VH_GROUP(matrix)
{
    for (int i = 0; i < c.n(20000, 200000); ++i)
    {
        if (!c.begin()) continue;
        const int r = (int)c.rng.range(1, 6), k = (int)c.rng.range(1, 6), k2 = (int)c.rng.range(1, 6);
        const auto fill = [&](int rr, int cc) {
            Eigen::MatrixXd m(rr, cc);
            for (int a = 0; a < rr; ++a)
                for (int b = 0; b < cc; ++b) m(a, b) = special(c);
            return m;
        };
        const Eigen::MatrixXd A = fill(r, k), B = fill(r, k2), C = fill(k2, k);
        c.note(strf("%dx%d", r, k));
        c.nontrivial(vh::fnv(A.data(), sizeof(double) * A.size()));
        // stacking
        const Eigen::MatrixXd H = hstack(A, B), V = vstack(A, C);
        bool ok = H.rows() == r && H.cols() == k + k2 && V.rows() == r + k2 && V.cols() == k;
        for (int a = 0; ok && a < r; ++a)
            for (int b = 0; b < k + k2; ++b) ok &= H(a, b) == (b < k ? A(a, b) : B(a, b - k));
        c.expect(ok, "hstack", strf("%dx%d | %dx%d", r, k, r, k2));
        ok = true;
        for (int a = 0; a < r + k2; ++a)
            for (int b = 0; b < k; ++b) ok &= V(a, b) == (a < r ? A(a, b) : C(a - r, b));
        c.expect(ok, "vstack", strf("%dx%d over %dx%d", r, k, k2, k));
        const int tv = (int)c.rng.range(0, 4), th = (int)c.rng.range(0, 4);
        const Eigen::MatrixXd T = tile(A, tv, th);
        ok = T.rows() == r * tv && T.cols() == k * th;
        for (int a = 0; ok && a < T.rows(); ++a)
            for (int b = 0; b < T.cols(); ++b) ok &= T(a, b) == A(a % r, b % k);
        c.expect(ok, "tile", strf("%dx%d times %dx%d gives %ldx%ld", r, k, tv, th, T.rows(), T.cols()));
        c.count("matrices", 3);
        // finiteness
        Eigen::MatrixXd N = A;
        c.expect(!isNan(N), "is_nan", "a finite matrix");
        c.expect(isFinite(N), "is_finite", "a finite matrix");
        {
            // finite although the sum of the elements, or of their squares, is not
            Eigen::MatrixXd G = N;
            G(0, 0) = c.rng.chance(.5) ? 1.7e308 : -1.7e308;
            if (G.size() > 1) G(G.rows() - 1, G.cols() - 1) = G(0, 0);
            c.expect(isFinite(G) && !isNan(G), "is_finite", "elements close to the largest number");
        }
        const int pr = (int)c.rng.range(0, r - 1), pc = (int)c.rng.range(0, k - 1);
        const int bad = (int)c.rng.range(0, 2);
        N(pr, pc) = bad == 0 ? NAN : bad == 1 ? INFINITY : -INFINITY;
        c.expect(isNan(N) == (bad == 0), "is_nan", strf("%g at %d,%d", N(pr, pc), pr, pc));
        c.expect(!isFinite(N), "is_finite", strf("%g at %d,%d taken for finite", N(pr, pc), pr, pc));
        c.expect(isNan(N.col(pc)) == (bad == 0) && !isFinite(N.block(pr, 0, 1, k)), "is_finite", "blocks");
        DiagMat<4> D;
        for (int a = 0; a < 4; ++a) D.diagonal()(a) = special(c);
        c.expect(isFinite(D), "is_finite", "a finite diagonal");
        D.diagonal()(c.rng.range(0, 3)) = bad == 0 ? NAN : bad == 1 ? INFINITY : -INFINITY;
        c.expect(!isFinite(D), "is_finite", "a diagonal with a bad element");
        // skew
        Vec3 a, b;
        for (int q = 0; q < 3; ++q) a(q) = c.rng.uni(-5, 5), b(q) = c.rng.uni(-5, 5);
        const Vec3 axb(a(1) * b(2) - a(2) * b(1), a(2) * b(0) - a(0) * b(2), a(0) * b(1) - a(1) * b(0));
        c.expect((skew(a) * b - axb).norm() < 1e-12, "skew", "is not the cross product");
        const VecX ad = a;
        c.expect((skew(ad) * b - axb).norm() < 1e-12, "skew", "dynamic vector");
        c.expect((skew(A.size() >= 3 ? Vec3(a * 2) : a) * b - (A.size() >= 3 ? 2. : 1.) * axb).norm() < 1e-11,
                 "skew", "expression");
        // ranks
        const int n = (int)c.rng.range(1, 24);
        VecX x(n);
        const bool ties = c.rng.chance(.4);
        for (int q = 0; q < n; ++q) x(q) = ties ? (double)c.rng.range(-2, 2) : special(c);
        const VecX order = argsort(x);
        std::set<int> used;
        ok = order.size() == n;
        for (int q = 0; ok && q < n; ++q)
        {
            const int v = (int)order(q);
            ok &= v == order(q) && v >= 0 && v < n && used.insert(v).second;
        }
        for (int q = 0; ok && q < n; ++q)
            for (int w = 0; w < n; ++w)
                if (x(q) < x(w)) ok &= order(q) < order(w);
        c.expect(ok, "argsort", strf("the ranks of %d values do not order them", n));
        // integer and fractional parts
        VecX ip, fp = modf(x, &ip), fo = modf(x);
        ok = ip.size() == n && fp.size() == n;
        for (int q = 0; ok && q < n; ++q)
        {
            double whole;
            const double fr = std::modf(x(q), &whole);
            ok &= ip(q) == whole && fp(q) == fr && fo(q) == fr;
        }
        c.expect(ok, "modf", strf("%d values", n));
        // scalars
        const double s = special(c), lo = c.rng.uni(-5, 0), hi = c.rng.uni(0, 5);
        c.expect(sign(s) == (s < 0 ? -1. : 1.), "sign", strf("%g", s));
        c.expect(sign((int)c.rng.range(-9, -1)) == -1 && sign(0) == 1, "sign", "integers");
        const double cl = sat(s, lo, hi);
        c.expect(cl == std::min(std::max(s, lo), hi), "sat", strf("%g in %g..%g gives %g", s, lo, hi, cl));
        const int is = (int)c.rng.range(-20, 20);
        c.expect(sat(is, -7, 9) == std::min(std::max(is, -7), 9), "sat", strf("%d", is));
        const double dg = c.rng.uni(-720, 720);
        c.expect(std::abs(deg2Rad(dg) - dg * 0.017453292519943295769) < 1e-13, "angle", strf("%g deg", dg));
        c.expect(std::abs(rad2Deg(deg2Rad(dg)) - dg) < 1e-10, "angle", strf("%g deg there and back", dg));
    }
}

// moments of a sample and the correlation of neighbours
struct Mom
{
    double n = 0, s1 = 0, s2 = 0, s3 = 0, s4 = 0, lag = 0, prev = 0, lo = 1e300, hi = -1e300;
    void add(double v)
    {
        if (n) lag += v * prev;
        prev = v;
        ++n, s1 += v, s2 += v * v, s3 += v * v * v, s4 += v * v * v * v;
        lo = std::min(lo, v), hi = std::max(hi, v);
    }
};

static void normal(vh::Ctx& c, const Mom& m, const char* what)
{
    const double n = m.n, z = 7 / std::sqrt(n);
    c.expect(std::abs(m.s1 / n) < z, "normal_mean", strf("%s: mean %g of %g values", what, m.s1 / n, n));
    c.expect(std::abs(m.s2 / n - 1) < z * std::sqrt(2.), "normal_variance", strf("%s: variance %g", what, m.s2 / n));
    c.expect(std::abs(m.s3 / n) < z * std::sqrt(15.), "normal_shape", strf("%s: third moment %g", what, m.s3 / n));
    c.expect(std::abs(m.s4 / n - 3) < z * std::sqrt(96.), "normal_shape", strf("%s: fourth moment %g", what, m.s4 / n));
    c.expect(std::abs(m.lag / n) < z, "normal_correlation", strf("%s: neighbours correlate by %g", what, m.lag / n));
}

VH_GROUP(random)
{
    const int n = c.n(40000, 400000);
    if (c.begin("normal matrices"))
    {
        Mom a, b, d, f;
        bool shape = true;
        for (int i = 0; i < n / 6; ++i)
        {
            const Mat<2, 3> m = randomNormal<Mat<2, 3>>();
            for (int r = 0; r < 2; ++r)
                for (int k = 0; k < 3; ++k) a.add(m(r, k));
            const int r = (int)c.rng.range(1, 4), k = (int)c.rng.range(1, 4);
            const Eigen::MatrixXd x = randomNormal(r, k), v = randomNormal(r);
            shape &= x.rows() == r && x.cols() == k && v.rows() == r && v.cols() == 1;
            for (int q = 0; q < x.rows() * x.cols(); ++q) b.add(x(q / (int)x.cols(), q % (int)x.cols()));
            for (int q = 0; q < v.rows(); ++q) d.add(v(q));
            const Vec3f g = randomNormal<Vec3f>();
            for (int q = 0; q < 3; ++q) f.add(g(q));
        }
        c.expect(shape, "shape", "randomNormal has the wrong size");
        normal(c, a, "Mat<2, 3>");
        normal(c, b, "dynamic matrix");
        normal(c, d, "dynamic vector");
        normal(c, f, "Vec3f");
        c.count("random_values", (uint64_t)(a.n + b.n + d.n + f.n));
        c.nontrivial("normal");
    }
    for (int i = 0; i < c.n(400, 4000); ++i)
    {
        if (!c.begin()) continue;
        const double lo = c.rng.pick<double>({0., -1., c.rng.uni(-10, 10), -1e6, 1e-3, -.25, 7.5});
        const double width = c.rng.pick<double>({1., .5, .25, 1e-3, 2.75, c.rng.uni(.01, 9), 1e6, 3e9});
        const double hi = lo + width;
        c.note(strf("uniform %.17g..%.17g", lo, hi));
        c.nontrivial(c.rng.u64());
        Mom fixed, dyn;
        const double eps = 1e-9 * (std::abs(lo) + std::abs(hi));
        bool shape = true;
        for (int q = 0; q < 40; ++q)
        {
            const Mat<3, 4> m = randomUniformat<Mat<3, 4>>(lo, hi);
            for (int r = 0; r < 12; ++r) fixed.add(m(r / 4, r % 4));
            const int rr = 1 + q % 4, cc = 1 + q / 10;
            const Eigen::MatrixXd x = randomUniform(lo, hi, rr, cc), v = randomUniform(lo, hi, 3);
            shape &= x.rows() == rr && x.cols() == cc && v.rows() == 3 && v.cols() == 1;
            for (int r = 0; r < x.size(); ++r) dyn.add(x(r / cc, r % cc));
            for (int r = 0; r < 3; ++r) dyn.add(v(r));
        }
        c.count("random_values", (uint64_t)(fixed.n + dyn.n));
        c.expect(shape, "shape", "randomUniform has the wrong size");
        for (const Mom* m : {&fixed, &dyn})
        {
            const char* what = m == &fixed ? "fixed size" : "dynamic";
            c.expect(m->lo >= lo - eps && m->hi <= hi + eps, "uniform_range",
                     strf("%s: values %.9g..%.9g asked for in %.9g..%.9g", what, m->lo, m->hi, lo, hi));
            // 400 or more values: an empty eighth at either end has probability < 1e-20
            c.expect(m->lo < lo + width / 8 && m->hi > hi - width / 8, "uniform_spread",
                     strf("%s: values only within %.9g..%.9g of %.9g..%.9g", what, m->lo, m->hi, lo, hi));
            const double mean = m->s1 / m->n;
            c.expect(std::abs(mean - (lo + hi) / 2) < 7 * width / std::sqrt(12 * m->n) + eps, "uniform_mean",
                     strf("%s: mean %.9g in %.9g..%.9g", what, mean, lo, hi));
        }
        if (width > 1e-6 * (std::abs(lo) + std::abs(hi)) && c.rng.chance(.2))
        {
            // no part of the interval is favoured or left out, the ends included
            double lowest = 2, highest = -1;
            int bin[20] = {0};
            const int N = 24000;
            for (int q = 0; q < N / 240; ++q)
            {
                const Eigen::MatrixXd x = randomUniform(lo, hi, 12, 10);
                std::vector<double> z(x.data(), x.data() + x.size());
                for (int k = 0; k < 10; ++k)
                {
                    const Mat<3, 4> m = randomUniformat<Mat<3, 4>>(lo, hi);
                    z.insert(z.end(), m.data(), m.data() + 12);
                }
                for (double v : z)
                {
                    const double y = (v - lo) / width;
                    lowest = std::min(lowest, y), highest = std::max(highest, y);
                    ++bin[std::max(0, std::min(19, (int)(y * 20)))];
                }
            }
            c.expect(lowest < 2e-3 && highest > 1 - 2e-3, "uniform_ends", strf("from %.4f to %.4f of %.9g..%.9g", lowest, highest, lo, hi));
            for (int k = 0; k < 20; ++k)
                c.expect(std::abs(bin[k] - N / 20.) < 7 * std::sqrt(N / 20.), "uniform_even", strf("%d of %d values in bin %d of 20", bin[k], N, k));
            c.count("uniform_large");
        }
    }
}

VH_GROUP(strings)
{
    for (int i = 0; i < c.n(20000, 200000); ++i)
    {
        if (!c.begin()) continue;
        const char* alphabet = "ab ,\t.x\n";
        std::string s;
        for (int k = (int)c.rng.range(0, 24); k > 0; --k) s += alphabet[c.rng.range(0, 7)];
        if (c.rng.chance(.1)) s += '\0', s += "a b";
        const char d = c.rng.pick<char>({' ', ',', '.', '\n', 'a', 'q'});
        c.note("'" + s + "'");
        c.nontrivial(s + d);
        // the parts between delimiters; a trailing empty part may be left out
        std::vector<std::string> want(1);
        for (char ch : s)
            if (ch == d)
                want.emplace_back();
            else
                want.back() += ch;
        std::vector<std::string> got = d == ' ' ? utils::split_string(s) : utils::split_string(s, d);
        if (want.back().empty() && got.size() + 1 == want.size()) got.emplace_back();
        c.expect(got == want, "split", strf("%zu parts instead of %zu", got.size(), want.size()));
        std::vector<char> rm;
        for (int k = (int)c.rng.range(0, 3); k > 0; --k) rm.push_back(alphabet[c.rng.range(0, 7)]);
        std::string w;
        for (char ch : s)
            if (std::find(rm.begin(), rm.end(), ch) == rm.end()) w += ch;
        c.expect(strip_string(s, rm) == w, "strip", "characters missing or left over");
        std::string ws;
        for (char ch : s)
            if (ch != ' ') ws += ch;
        c.expect(strip_string(s) == ws, "strip", "blanks");
        c.count("strings", 3);
    }
}
