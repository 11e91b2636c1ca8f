// C18: filters generated from random configurations (harness/ekf/random_cfg.py), compared with dense
// algebra assembled here.  any_desc.h says what the configuration asked for, nothing more.
#include "any_desc.h"
#include <Eigen/Eigenvalues>
#include <cmath>
#define DESC_NS mc::ekf::CFG_NS
namespace mc {
namespace ekf {
namespace CFG_NS {

static Eigen::MatrixXd gA, gB, gH;
static Eigen::VectorXd gXdot, gRes;
static int gArg, gTag;
static double gWeight;

struct Put
{
    const Eigen::MatrixXd& m;
    template <class B>
    void operator()(B&& b, int r, int c) const
    {
        if (b.rows() && b.cols()) b = m.block(r, c, b.rows(), b.cols());
    }
};
struct Get
{
    Eigen::MatrixXd& m;
    template <class B>
    void operator()(const B& b, int r, int c) const
    {
        m.block(r, c, b.rows(), b.cols()) = b;
    }
};
static Lay full()
{
    std::array<int, NS> c;
    for (int i = 0; i < NS; ++i) c[i] = std::max(1, MAXN[i]);
    return Lay(c);
}
static Eigen::MatrixXd denseP(const Covariance& c, const Lay& l)
{
    Eigen::MatrixXd m = Eigen::MatrixXd::Zero(l.N, l.N);
    blocksP(c, l, Get{m});
    for (int s = 0; s < NS; ++s)
    {
        const int a = l.at[s], b = a + l.n[s] * BASE[s];
        m.block(b, a, l.N - b, b - a) = m.block(a, b, b - a, l.N - b).transpose();
    }
    return m;
}
static Eigen::VectorXd denseDx(const AError& d, const Lay& l)
{
    Eigen::MatrixXd m = Eigen::MatrixXd::Zero(l.N, 1);
    blocksDx(d, l, Get{m});
    return m.col(0);
}
static AError makeDx(const Eigen::VectorXd& v, const Lay& l)
{
    AError d = AError::Zero();
    const Eigen::MatrixXd m = v;
    blocksDx(d, l, Put{m});
    return d;
}
AError dynamics(const AState& x, const AInput&, StateJac* dxdx, InputJac* dxdu)
{
    const Lay l = lay(x);
    blocksA(*dxdx, l, Put{gA});
    blocksB(*dxdu, l, Put{gB});
    return makeDx(gXdot, l);
}
template <class M>
typename M::Residual measured(const typename M::ZType& z, const AState& x, typename M::Jac* j, int arg)
{
    gArg = arg;
    int n = 1;
    if constexpr (MT<M>::MAX > 0)
    {
        n = (int)z.size();
        if constexpr (MT<M>::META)
            if (n) gTag = z.back().tag, gWeight = z.back().weight_x;
    }
    else if constexpr (MT<M>::META)
        gTag = z.tag, gWeight = z.weight_x;
    MT<M>::blocks(*j, n, lay(x), Put{gH});
    typename M::Residual r;
    r.setZero();
    r.head(gRes.size()) = gRes;
    return r;
}

static Eigen::MatrixXd rnd(vh::Rng& r, int a, int b, double s = 1)
{
    Eigen::MatrixXd m(a, b);
    for (int i = 0; i < a; ++i)
        for (int j = 0; j < b; ++j) m(i, j) = s * r.uni(-1, 1);
    return m;
}
// ------------------------------------------------------------------ elements of every kind
template <int N>
static void fill(vh::Rng& r, Eigen::Matrix<double, N, 1>& v) { v = rnd(r, N, 1, 5); }
static Eigen::Vector3d rv(vh::Rng& r, double s) { return rnd(r, 3, 1, s); }
static void fill(vh::Rng& r, math::Quat<double>& q) { q = math::Quat<double>::exp(rv(r, 1.7)); }
static void fill(vh::Rng& r, math::DQuat<double>& q) { q = math::DQuat<double>(math::Quat<double>::exp(rv(r, 1.7)), rv(r, 9)); }
static void fill(vh::Rng& r, math::SO3<double>& q) { q = math::SO3<double>::exp(rv(r, 1.7)); }
static void fill(vh::Rng& r, math::SE3<double>& q)
{
    Vec6 w;
    w << rv(r, 3), rv(r, 1.7);
    q = math::SE3<double>::exp(w);
}
template <int N>
static double gap(const Eigen::Matrix<double, N, 1>& a, const Eigen::Matrix<double, N, 1>& b) { return (a - b).norm(); }
static double gap(const math::Quat<double>& a, const math::Quat<double>& b) { return std::min((a.arr_ - b.arr_).norm(), (a.arr_ + b.arr_).norm()); }
static double gap(const math::DQuat<double>& a, const math::DQuat<double>& b) { return gap(math::Quat<double>(a.real()), math::Quat<double>(b.real())) + (a.translation() - b.translation()).norm(); }
static double gap(const math::SO3<double>& a, const math::SO3<double>& b) { return (a.matrix() - b.matrix()).norm(); }
static double gap(const math::SE3<double>& a, const math::SE3<double>& b) { return (a.matrix() - b.matrix()).norm(); }
template <int N>
static Eigen::Matrix<double, N, 1> moved(const Eigen::Matrix<double, N, 1>& a, const Eigen::VectorXd& d) { return a + d; }
template <class G>
static G moved(const G& a, const Eigen::VectorXd& d)
{
    using T = decltype(a.log());
    T w = d;
    return a * G::exp(w);
}
// one stored number of an element
template <int N>
static double& number(vh::Rng& r, Eigen::Matrix<double, N, 1>& v) { return v[(int)r.range(0, N - 1)]; }
static double& number(vh::Rng& r, math::Quat<double>& q) { return q.arr_[(int)r.range(0, 3)]; }
static double& number(vh::Rng& r, math::DQuat<double>& q) { return q.arr_[(int)r.range(0, 7)]; }
static double& number(vh::Rng& r, math::SO3<double>& q) { return q.matrix()((int)r.range(0, 2), (int)r.range(0, 2)); }
static double& number(vh::Rng& r, math::SE3<double>& q)
{
    return r.chance(.5) ? q.t()[(int)r.range(0, 2)] : q.R().matrix()((int)r.range(0, 2), (int)r.range(0, 2));
}

static int cnt(vh::Rng& r, int max) { return r.chance(.25) ? 0 : r.chance(.35) ? max : (int)r.range(0, max); }
static void randomState(vh::Rng& r, AState& x, const Lay* sizes = nullptr)
{
    x.t = UTCTime(r.range(1500000000, 1600000000), r.range(0, 999999999));
    elems(x, [&](int, int, auto& e) { fill(r, e); });
    for (int k = 0; k < NS; ++k)
        if (MAXN[k]) setCount(x, k, sizes ? sizes->n[k] : cnt(r, MAXN[k]));
}
static std::string differs(const AState& a, const AState& b, double tol)
{
    const Lay l = lay(a), m = lay(b);
    for (int k = 0; k < NS; ++k)
        if (l.n[k] != m.n[k]) return "sizes";
    if (std::abs(((UTCTime)a.t - (UTCTime)b.t).toSec()) > 1.5e-9) return vh::strf("time by %.9f", ((UTCTime)a.t - (UTCTime)b.t).toSec());
    std::vector<double> g;
    std::string bad;
    // pair the elements by walking both states in the same order
    elems(a, [&](int k, int i, const auto& e) {
        elems(b, [&](int k2, int i2, const auto& e2) {
            if constexpr (std::is_same<decltype(e), decltype(e2)>::value)
                if (k == k2 && i == i2 && i < l.n[k])
                {
                    const double d = gap(e, e2);
                    if (!(d <= tol * 20)) bad = vh::strf("%s[%d] by %.3g", NAME[k], i, d);
                }
        });
    });
    return bad;
}
static AState refPlus(const AState& x, const Eigen::VectorXd& d)
{
    const Lay l = lay(x);
    AState y;
    y.t = x.t;
    for (int k = 0; k < NS; ++k)
        if (MAXN[k]) setCount(y, k, l.n[k]);
    elems(y, [&](int k, int i, auto& e) {
        elems(x, [&](int k2, int i2, const auto& e2) {
            using A = typename std::decay<decltype(e)>::type;
            using B = typename std::decay<decltype(e2)>::type;
            if constexpr (std::is_same<A, B>::value)
                if (k == k2 && i == i2 && i < l.n[k]) e = moved(e2, d.segment(l.at[k] + i * BASE[k], BASE[k]));
        });
    });
    return y;
}
static Eigen::MatrixXd randomSpd(vh::Rng& r, int n)
{
    const Eigen::MatrixXd m = rnd(r, n, n);
    Eigen::MatrixXd p = m * m.transpose() / n;
    p.diagonal().array() += r.uni(0.01, 0.5);
    const Eigen::VectorXd d = rnd(r, n, 1).array().abs() * 3 + 0.02;
    return d.asDiagonal() * p * d.asDiagonal();
}
static void putP(vh::Rng& r, Covariance& c, const Eigen::MatrixXd& p, const Lay& l)
{
    const Lay f = full();
    blocksP(c, f, Put{rnd(r, f.N, f.N, 1e3)});
    blocksP(c, l, Put{p});
}
static double rel(const Eigen::MatrixXd& a, const Eigen::MatrixXd& b, const Eigen::MatrixXd& scale)
{
    return (a - b).norm() / (scale.norm() + 1e-300);
}
static std::string dims(const Lay& l)
{
    std::string s;
    for (int k = 0; k < NS; ++k) s += vh::strf("%s%s=%d", k ? " " : "", NAME[k], l.n[k]);
    return s;
}
static void noise(vh::Rng& r, ProcessCovariance& Q, InputCovariance& Qu, const Lay& l, Eigen::VectorXd& q, Eigen::VectorXd& qu)
{
    q = Eigen::VectorXd::Zero(l.N), qu = Eigen::VectorXd::Zero(NU);
    variances(Q, [&](int k, auto& v) {
        v = rnd(r, BASE[k], 1).array().abs();
        for (int i = 0; i < l.n[k]; ++i) q.segment(l.at[k] + i * BASE[k], BASE[k]) = v;
    });
    inputVariances(Qu, [&](int at, auto& v) {
        v = rnd(r, (int)v.size(), 1).array().abs();
        qu.segment(at, v.size()) = v;
    });
}
static void couplings(vh::Rng& r, const Lay& l, double a, double b)
{
    StateJac j;
    InputJac jb;
    gA = Eigen::MatrixXd::Zero(l.N, l.N), gB = Eigen::MatrixXd::Zero(l.N, NU);
    blocksA(j, l, Put{rnd(r, l.N, l.N, a)});
    blocksA(j, l, Get{gA});
    blocksB(jb, l, Put{rnd(r, l.N, NU, b)});
    blocksB(jb, l, Get{gB});
}
static Eigen::VectorXd inputDense(const AInput& u)
{
    Eigen::VectorXd v(NU);
    inputs(u, [&](int at, const auto& e) { v.segment(at, e.size()) = e; });
    return v;
}

static void predictCase(vh::Ctx& c)
{
    auto& r = c.rng;
    Snapshot in;
    randomState(r, in.x);
    const Lay l = lay(in.x);
    const Eigen::MatrixXd P = randomSpd(r, l.N);
    putP(r, in.cov, P, l);
    const int64_t ndt = (int64_t)(1e9 * (r.chance(.3) ? r.uni(1e-4, 1e-2) : r.uni(0.01, 1.0)));
    const double dt = ndt * 1e-9;
    couplings(r, l, r.chance(.2) ? 0.1 : 1.5, 1);
    gXdot = rnd(r, l.N, 1, 1.0);
    AInput u;
    inputs(u, [&](int, auto& e) { fill(r, e); });
    ProcessCovariance Qx;
    InputCovariance Qu;
    Eigen::VectorXd q, qu;
    noise(r, Qx, Qu, l, q, qu);
    c.note(vh::strf("predict dt=%.6f %s", dt, dims(l).c_str()));
    Snapshot out;
    randomState(r, out.x);
    putP(r, out.cov, randomSpd(r, lay(out.x).N), lay(out.x));
    const AState before = in.x;
    const Error e = predict(in, (UTCTime)in.x.t + UTCTime(0, ndt), u, Qx, Qu, make_out(out));
    c.expect(e.ok(), "predict_ok", "");
    const Eigen::MatrixXd I = Eigen::MatrixXd::Identity(l.N, l.N);
    const Eigen::MatrixXd Ab = I + gA * dt + 0.5 * dt * dt * gA * gA, Bb = dt * (I + 0.5 * dt * gA) * gB;
    Eigen::MatrixXd want = Ab * P * Ab.transpose() + Bb * qu.asDiagonal() * Bb.transpose();
    want.diagonal() += q;
    AState wx = refPlus(before, gXdot * dt);
    wx.t = (UTCTime)before.t + UTCTime(0, ndt);
    const std::string d = differs(out.x, wx, 1e-9);
    c.expect(d.empty(), "predict_state", d);
    if (lay(out.x).N != l.N) return;
    const Eigen::MatrixXd got = denseP(out.cov, l);
    c.expect(rel(got, want, want) < 1e-10, "predict_cov", vh::strf("%s relative error %.3g", dims(l).c_str(), rel(got, want, want)));
    c.expect((got - got.transpose()).norm() < 1e-10 * want.norm(), "predict_symmetric", dims(l));
    c.expect((inputDense(out.u) - inputDense(u)).norm() < 1e-15, "predict_input", "");
    c.expect(rel(denseP(in.cov, l), P, P) < 1e-14 && differs(in.x, before, 1e-15).empty(), "predict_input_kept", "");
    const Eigen::MatrixXd gd = out.cov.dense(COUNTS(l));
    c.expect(gd.rows() == l.N && gd.cols() == l.N && rel(gd, got, got) < 1e-12, "cov_dense", dims(l));
    StateJac j;
    InputJac jb;
    blocksA(j, l, Put{gA});
    blocksB(jb, l, Put{gB});
    const Eigen::MatrixXd ja = j.dense(COUNTS(l)), jd = jb.dense(COUNTS(l));
    c.expect(ja.rows() == l.N && ja.cols() == l.N && rel(ja, gA, gA) < 1e-15, "statejac_dense", dims(l));
    c.expect(jd.rows() == l.N && jd.cols() == NU && rel(jd, gB, gB) < 1e-15, "inputjac_dense", dims(l));
    c.count("predictions");
    c.nontrivial(vh::fnv(&dt, sizeof dt, l.N));
}

template <class M>
static void fillZ(vh::Rng& r, typename M::ZType& z, int n, int tag)
{
    const auto one = [&](auto& e) {
        if constexpr (MT<M>::META)
            fill(r, e.z), e.tag = tag, e.weight_x = tag * .5;
        else
            fill(r, e);
    };
    if constexpr (MT<M>::MAX > 0)
    {
        z.resize(n);
        for (auto& e : z) one(e);
    }
    else
        one(z);
}
template <class M>
static Eigen::MatrixXd measDense(const typename M::Jac& j, int n, const Lay& l)
{
    if constexpr (MT<M>::MAX > 0)
        return j.dense(COUNTS_WITH(n, l));
    else
        return j.dense(COUNTS(l));
}
static double chi2cdf(double x, int k)
{
    const double a = 0.5 * k, y = 0.5 * x;
    double term = 1 / a, sum = term;
    for (int i = 1; i < 2000 && term > 1e-18 * sum; ++i) term *= y / (a + i), sum += term;
    return sum * std::exp(-y + a * std::log(y) - std::lgamma(a));
}
template <class M>
static void configured(vh::Ctx& c)
{
    using T = MT<M>;
    c.expect(M::MAX_PROB == T::PROB && M::MAX_SIZE == T::TOTAL && M::DISABLED == T::DISABLED, "meas_configured", T::NAME);
    if constexpr (T::MAGIC) c.expect(M::magic == 4711, "meas_constant", T::NAME);
    if (T::PROB < 1)
    {
        const double lo = M::MAX_MAHAL > .02 ? chi2cdf(M::MAX_MAHAL - .02, T::TOTAL - 1) : 0, hi = chi2cdf(M::MAX_MAHAL + .02, T::TOTAL - 1);
        c.expect(lo <= T::PROB && T::PROB <= hi, "gate_quantile", vh::strf("%s %.6g is the quantile of %.6g..%.6g, not of %.6g", T::NAME, M::MAX_MAHAL, lo, hi, T::PROB));
    }
    else
        c.expect(M::MAX_MAHAL > 1e300, "gate_open", T::NAME);
    c.expect(limitsAsConfigured(), "bundle_limits", "");
    c.count("limits");
    c.nontrivial(vh::fnv(T::NAME, strlen(T::NAME)));
}

// the dense update; false if the distance is too close to the gate to call
template <class M>
static bool updateStep(vh::Ctx& c, Snapshot& s, const Lay& l, const Eigen::MatrixXd& P, double hs, double rs)
{
    auto& r = c.rng;
    using T = MT<M>;
    constexpr bool VAR = T::MAX > 0;
    const Eigen::VectorXd u0 = inputDense(s.u);
    const int n = VAR ? (r.chance(.08) ? 0 : (int)r.range(1, T::MAX)) : 1;
    const int m = n * T::ROWS;
    typename M::ZType z;
    const int tag = (int)r.range(1, 1000);
    fillZ<M>(r, z, n, tag);
    typename M::Covariance R;
    R = rnd(r, (int)R.size(), 1).array().abs() + 0.05;
    if (r.chance(.15)) R *= 0.01;
    gH = Eigen::MatrixXd::Zero(m, l.N);
    typename M::Jac j;
    T::blocks(j, n, l, Put{rnd(r, m, l.N, hs)});
    T::blocks(j, n, l, Get{gH});
    gRes = rnd(r, m, 1, rs);
    c.note(vh::strf("update %s n=%d %s", T::NAME, n, dims(l).c_str()));
    const AState x0 = s.x;
    Eigen::MatrixXd S = gH * P * gH.transpose();
    for (int i = 0; i < m; ++i) S(i, i) += R[i % R.size()];
    const Eigen::MatrixXd K = m ? Eigen::MatrixXd(P * gH.transpose() * S.inverse()) : Eigen::MatrixXd::Zero(l.N, 0);
    const double mahal = m ? gRes.dot(S.inverse() * gRes) : 0;
    gArg = gTag = 0;
    const auto res = [&] {
        if constexpr (T::ARG)
            return update<M, int>(make_out(s), z, R, 4711);
        else
            return update<M>(make_out(s), z, R);
    }();
    const Eigen::MatrixXd got = denseP(s.cov, l);
    const bool untouched = differs(s.x, x0, 1e-15).empty() && rel(got, P, P) < 1e-15;
    if (T::ARG) c.expect(gArg == 4711, "argument", "the extra argument did not reach h()");
    if (T::META && n) c.expect(gTag == tag && gWeight == tag * .5, "metadata", "the measurement's own data did not reach h()");
    if (m == 0)
    {
        c.count("empty");
        c.expect(!res.ok() && untouched, "empty_rejected", T::NAME);
        return true;
    }
    if (std::abs(mahal - M::MAX_MAHAL) < 1e-6 * M::MAX_MAHAL) return false;
    if (mahal > M::MAX_MAHAL)
    {
        c.count("gated");
        c.expect(!res.ok(), "gated_rejected", vh::strf("%s distance %.6g, limit %.6g", T::NAME, mahal, M::MAX_MAHAL));
        c.expect(untouched, "gated_untouched", T::NAME);
        return true;
    }
    c.expect(res.ok(), "accepted", vh::strf("%s distance %.6g, limit %.6g", T::NAME, mahal, M::MAX_MAHAL));
    if (!res.ok()) return false;
    const Eigen::VectorXd back = res.res();
    c.expect((back.head(m) - gRes).norm() < 1e-15, "residual", T::NAME);
    c.expect((inputDense(s.u) - u0).norm() < 1e-15, "input_kept", T::NAME);
    const Eigen::MatrixXd hd = measDense<M>(j, n, l);
    c.expect(hd.rows() == m && hd.cols() == l.N && rel(hd, gH, gH) < 1e-15, "measjac_dense", vh::strf("%s n=%d", T::NAME, n));
    Eigen::MatrixXd w = Eigen::MatrixXd::Zero(m, l.N);
    T::whole(j, n, l, Get{w});
    c.expect(rel(w, gH, gH) < 1e-15, "measjac_whole", T::NAME);
    if (T::DISABLED)
    {
        c.count("disabled");
        c.expect(untouched, "disabled_untouched", T::NAME);
        return true;
    }
    c.count("applied");
    const Eigen::MatrixXd want = P - K * gH * P;
    const double bad = rel(got, want, P);
    c.expect(bad < 1e-9, "update_cov", vh::strf("%s n=%d %s relative error %.3g", T::NAME, n, dims(l).c_str(), bad));
    c.expect((got - got.transpose()).norm() < 1e-9 * P.norm(), "update_symmetric", T::NAME);
    const std::string d = differs(s.x, refPlus(x0, K * gRes), 1e-8 * (1 + (K * gRes).norm()));
    c.expect(d.empty(), "update_state", vh::strf("%s n=%d %s: %s", T::NAME, n, dims(l).c_str(), d.c_str()));
    const Eigen::MatrixXd lo = got.selfadjointView<Eigen::Upper>();
    c.expect(lo.ldlt().isPositive() || Eigen::SelfAdjointEigenSolver<Eigen::MatrixXd>(lo).eigenvalues().minCoeff() > -1e-9 * P.norm(), "update_psd", T::NAME);
    c.nontrivial(vh::fnv(&mahal, sizeof mahal, l.N));
    return true;
}
template <class M>
static void updateCase(vh::Ctx& c)
{
    auto& r = c.rng;
    Snapshot s;
    randomState(r, s.x);
    const Lay l = lay(s.x);
    const Eigen::MatrixXd P = randomSpd(r, l.N);
    putP(r, s.cov, P, l);
    inputs(s.u, [&](int, auto& e) { fill(r, e); });
    updateStep<M>(c, s, l, P, r.chance(.2) ? .05 : 1, r.chance(.3) ? 0.1 : r.chance(.5) ? 1 : 6);
}

template <class M>
static void finiteMeas(vh::Ctx& c, double bad)
{
    auto& r = c.rng;
    using T = MT<M>;
    const int n = std::max(1, (int)r.range(1, std::max(1, T::MAX)));
    if constexpr (T::MAX > 0)
    {
        typename M::ZType z;
        fillZ<M>(r, z, n, 1);
        c.expect(mc::isFinite(z), "finite_meas", T::NAME);
        const int at = (int)r.range(0, n - 1);
        if constexpr (T::META)
            number(r, z[at].z) = bad;
        else
            number(r, z[at]) = bad;
        c.expect(!mc::isFinite(z), "finite_meas_missed", vh::strf("%s element %d of %d", T::NAME, at, n));
    }
    const Lay l = full();
    typename M::Jac j = M::Jac::Zero();
    T::blocks(j, n, l, Put{rnd(r, n * T::ROWS, l.N)});
    c.expect(mc::isFinite(j), "finite_measjac", T::NAME);
    int k = 0, total = 0;
    T::blocks(j, n, l, [&](auto&&, int, int) { ++total; });
    const int pick = (int)r.range(0, total - 1);
    T::blocks(j, n, l, [&](auto&& b, int, int) {
        if (k++ == pick) b((int)r.range(0, b.rows() - 1), (int)r.range(0, b.cols() - 1)) = bad;
    });
    c.expect(!mc::isFinite(j), "finite_measjac_missed", vh::strf("%s block %d", T::NAME, pick));
    j.setZero();
    c.expect(measDense<M>(j, n, l).norm() == 0 && measDense<M>(M::Jac::Zero(), n, l).norm() == 0, "measjac_zero", T::NAME);
}
// one number of one block made bad; false if that block is empty
template <class W>
static bool spoil(vh::Rng& r, double bad, W walk)
{
    int total = 0, k = 0;
    walk([&](auto&& b, int, int) { total += b.rows() > 0 && b.cols() > 0; });
    if (!total) return false;
    const int pick = (int)r.range(0, total - 1);
    walk([&](auto&& b, int, int) {
        if (b.rows() > 0 && b.cols() > 0 && k++ == pick) b(r.range(0, b.rows() - 1), r.range(0, b.cols() - 1)) = bad;
    });
    return true;
}
static void stateCase(vh::Ctx& c)
{
    auto& r = c.rng;
    AState a;
    randomState(r, a);
    const Lay l = lay(a), f = full();
    c.note("state " + dims(l));
    c.expect(a.size() == l.N, "size", vh::strf("%d instead of %d: %s", a.size(), l.N, dims(l).c_str()));
    c.expect((int)AState::DOF == f.N && (int)AError::DOF == f.N && (int)AInput::DOF == NU, "dof", "");
    const Eigen::VectorXd d1 = rnd(r, l.N, 1, r.chance(.3) ? 1e-3 : 1.0), d2 = rnd(r, l.N, 1, 1.0);
    const AError e1 = makeDx(d1, l), e2 = makeDx(d2, l);
    const AState b = a + e1;
    std::string s = differs(b, refPlus(a, d1), 1e-12);
    c.expect(s.empty(), "plus", s);
    AState b2 = a;
    b2 += e1;
    s = differs(b2, b, 1e-12);
    c.expect(s.empty(), "plus_inplace", s);
    const Eigen::VectorXd back = denseDx(b - a, l);
    c.expect((back - d1).norm() < 1e-7 * (1 + d1.norm()), "minus_plus", vh::strf("%.3g", (back - d1).norm()));
    AState g;
    randomState(r, g, &l);
    g.t = a.t;
    s = differs(a + (g - a), g, 1e-7);
    c.expect(s.empty(), "plus_minus", s);
    c.expect(denseDx(a - a, l).norm() < 1e-7, "minus_self", "");
    AState k;
    randomState(r, k);
    k = a;
    s = differs(k, a, 1e-15);
    c.expect(s.empty(), "assign", s);
    const AState k2(a);
    s = differs(k2, a, 1e-15);
    c.expect(s.empty(), "copy", s);
    const double q = r.uni(-3, 3);
    c.expect((denseDx(e1 + e2, l) - (d1 + d2)).norm() < 1e-13, "dx_add", "");
    c.expect((denseDx(e1 - e2, l) - (d1 - d2)).norm() < 1e-13, "dx_sub", "");
    c.expect((denseDx(e1 * q, l) - d1 * q).norm() < 1e-13, "dx_mul", "");
    if (std::abs(q) > .01) c.expect((denseDx(e1 / q, l) - d1 / q).norm() < 1e-11, "dx_div", "");
    AError e3 = e1;
    e3 += e2;
    c.expect((denseDx(e3, l) - (d1 + d2)).norm() < 1e-13, "dx_addto", "");
    c.expect(denseDx(AError::Zero(), f).norm() == 0, "dx_zero", "");
    c.expect((denseDx(AError::Constant(q), f).array() - q).matrix().norm() < 1e-13, "dx_constant", "");
    const Eigen::VectorXd dd = e1.dense(COUNTS(l));
    c.expect(dd.size() == l.N && (dd - d1).norm() < 1e-15, "dx_dense", dims(l));
    {
        Eigen::MatrixXd v = d1;
        bundlesDx(e1, l, Get{v});
        c.expect((v - d1).norm() < 1e-15, "dx_bundles", dims(l));
    }
    const Eigen::Matrix<double, AState::DOF, 1> dv = rnd(r, AState::DOF, 1);
    AError ef = AError::fromDense(dv);
    c.expect((denseDx(ef, f) - dv).norm() < 1e-15, "dx_fromdense", "");
    ef.setZero();
    c.expect(denseDx(ef, f).norm() == 0, "dx_setzero", "");
    // inputs
    AInput u, v;
    inputs(u, [&](int, auto& e) { fill(r, e); });
    inputs(v, [&](int, auto& e) { fill(r, e); });
    const Eigen::VectorXd ud = inputDense(u), vd = inputDense(v);
    c.expect((u.dense() - ud).norm() < 1e-15, "input_dense", "");
    c.expect((inputDense(u + v) - (ud + vd)).norm() < 1e-13, "input_add", "");
    c.expect((inputDense(u * q) - ud * q).norm() < 1e-13, "input_mul", "");
    c.expect((inputDense(AInput::fromDense(ud)) - ud).norm() < 1e-15, "input_fromdense", "");
    AInput w = u;
    w += v;
    c.expect((inputDense(w) - (ud + vd)).norm() < 1e-13, "input_addto", "");
    w.setZero();
    c.expect(inputDense(w).norm() == 0 && inputDense(AInput::Zero()).norm() == 0, "input_zero", "");
    // noise
    ProcessCovariance pq;
    InputCovariance iq;
    Eigen::VectorXd qd, qi;
    noise(r, pq, iq, l, qd, qi);
    const Covariance cq(pq);
    c.expect((denseP(cq, l) - Eigen::MatrixXd(qd.asDiagonal())).norm() < 1e-15, "cov_from_variances", dims(l));
    c.expect((Eigen::MatrixXd(pq.dense(COUNTS(l))) - Eigen::MatrixXd(qd.asDiagonal())).norm() < 1e-15, "variances_dense", dims(l));
    c.expect((Eigen::MatrixXd(iq.dense()) - Eigen::MatrixXd(qi.asDiagonal())).norm() < 1e-15, "input_variances_dense", "");
    pq.setIdentity();
    double off = 0;
    variances(pq, [&](int, auto& x) { off += (x.array() - 1).matrix().norm(); });
    variances(ProcessCovariance::Identity(), [&](int, const auto& x) { off += (x.array() - 1).matrix().norm(); });
    pq.setZero();
    variances(pq, [&](int, auto& x) { off += x.norm(); });
    variances(ProcessCovariance::Zero(), [&](int, const auto& x) { off += x.norm(); });
    iq.setZero();
    inputVariances(iq, [&](int, auto& x) { off += x.norm(); });
    c.expect(off == 0, "variances_reset", "");
    // resets leave no trace
    AState id;
    randomState(r, id);
    id.setIdentity();
    double far = 0;
    elems(id, [&](int k, int i, const auto& e) {
        using G = typename std::decay<decltype(e)>::type;
        G one;
        if constexpr (std::is_base_of<Eigen::MatrixBase<G>, G>::value)
            one = G::Zero();
        else
            one = G::Identity();
        far = std::max(far, gap(e, one));
    });
    c.expect(far < 1e-15, "state_identity", vh::strf("%.3g", far));
    Covariance ci;
    putP(r, ci, randomSpd(r, l.N), l);
    ci.setIdentity();
    c.expect((denseP(ci, f) - Eigen::MatrixXd::Identity(f.N, f.N)).norm() < 1e-15, "cov_identity", "");
    StateJac sj;
    InputJac ij;
    blocksA(sj, f, Put{rnd(r, f.N, f.N)});
    blocksB(ij, f, Put{rnd(r, f.N, NU)});
    sj.setZero(), ij.setZero();
    c.expect(sj.dense(COUNTS(f)).norm() == 0 && StateJac::Zero().dense(COUNTS(f)).norm() == 0, "statejac_zero", "");
    c.expect(ij.dense(COUNTS(f)).norm() == 0 && InputJac::Zero().dense(COUNTS(f)).norm() == 0, "inputjac_zero", "");
    // non-finite members
    const double bad = r.chance(.5) ? std::nan("") : (r.chance(.5) ? 1 : -1) * std::numeric_limits<double>::infinity();
    c.expect(mc::isFinite(a) && mc::isFinite(u) && mc::isFinite(e1) && mc::isFinite(cq) && mc::isFinite(pq) && mc::isFinite(iq) && mc::isFinite(sj) && mc::isFinite(ij), "finite", "");
    {
        AState y = a;
        int used = 0, n = 0;
        elems(y, [&](int k, int i, auto&) { used += i < l.n[k]; });
        const int pick = (int)r.range(0, used - 1);
        int which = -1;
        elems(y, [&](int k, int i, auto& e) {
            if (i < l.n[k] && n++ == pick) number(r, e) = bad, which = k;
        });
        c.expect(!mc::isFinite(y), "finite_state_missed", NAME[which]);
    }
    AError eb = e1;
    if (spoil(r, bad, [&](auto fn) { blocksDx(eb, l, fn); })) c.expect(!mc::isFinite(eb), "finite_dx_missed", "");
    Covariance cb = cq;
    if (spoil(r, bad, [&](auto fn) { blocksP(cb, l, fn); })) c.expect(!mc::isFinite(cb), "finite_cov_missed", "");
    if (spoil(r, bad, [&](auto fn) { blocksA(sj, l, fn); })) c.expect(!mc::isFinite(sj), "finite_jac_missed", "");
    if (spoil(r, bad, [&](auto fn) { blocksB(ij, l, fn); })) c.expect(!mc::isFinite(ij), "finite_inputjac_missed", "");
    if (spoil(r, bad, [&](auto fn) { inputs(u, [&](int at, auto& e) { fn(e, at, 0); }); })) c.expect(!mc::isFinite(u), "finite_input_missed", "");
    if (spoil(r, bad, [&](auto fn) { variances(pq, [&](int at, auto& e) { fn(e, at, 0); }); })) c.expect(!mc::isFinite(pq), "finite_variances_missed", "");
    if (spoil(r, bad, [&](auto fn) { inputVariances(iq, [&](int at, auto& e) { fn(e, at, 0); }); })) c.expect(!mc::isFinite(iq), "finite_input_variances_missed", "");
#define X(M) finiteMeas<M>(c, bad);
    CFG_MEAS(X)
#undef X
    c.nontrivial(vh::fnv(d1.data(), 8 * d1.size()));
}

// a filter at work: predictions, updates of every kind and bundles that grow and shrink
static void runCase(vh::Ctx& c)
{
    auto& r = c.rng;
    Snapshot s;
    randomState(r, s.x);
    inputs(s.u, [&](int, auto& e) { fill(r, e); });
    Lay l = lay(s.x);
    putP(r, s.cov, randomSpd(r, l.N), l);
    const int steps = (int)r.range(3, 10);
    for (int k = 0; k < steps; ++k)
    {
        Eigen::MatrixXd P = denseP(s.cov, l).selfadjointView<Eigen::Upper>();
        blocksP(s.cov, l, Put{P});
        if (r.chance(.4))
        {
            const int64_t ndt = r.range(5000000, 200000000);
            const double dt = ndt * 1e-9;
            couplings(r, l, .7, .7);
            gXdot = rnd(r, l.N, 1);
            AInput u;
            inputs(u, [&](int, auto& e) { fill(r, e); });
            ProcessCovariance Qx;
            InputCovariance Qu;
            Eigen::VectorXd q, qu;
            noise(r, Qx, Qu, l, q, qu);
            AState want = refPlus(s.x, gXdot * dt);
            want.t = (UTCTime)s.x.t + UTCTime(0, ndt);
            Snapshot out;
            c.note(vh::strf("run predict %d of %d %s", k, steps, dims(l).c_str()));
            if (!predict(s, want.t, u, Qx, Qu, make_out(out)).ok())
            {
                c.violate("run_predict", "refused");
                return;
            }
            s = out;
            const Eigen::MatrixXd I = Eigen::MatrixXd::Identity(l.N, l.N);
            const Eigen::MatrixXd Ab = I + gA * dt + 0.5 * dt * dt * gA * gA, Bb = dt * (I + 0.5 * dt * gA) * gB;
            Eigen::MatrixXd wp = Ab * P * Ab.transpose() + Bb * qu.asDiagonal() * Bb.transpose();
            wp.diagonal() += q;
            const std::string d = differs(s.x, want, 1e-9);
            c.expect(d.empty(), "run_state", d);
            c.expect(rel(denseP(s.cov, l), wp, wp) < 1e-9, "run_cov", dims(l));
        }
        else if (r.chance(.7))
        {
            int total = 0, i = 0;
#define X(M) ++total;
            CFG_MEAS(X)
#undef X
            const int pick = (int)r.range(0, total - 1);
#define X(M) if (i++ == pick) updateStep<M>(c, s, l, P, 1, .5);
            CFG_MEAS(X)
#undef X
        }
        else
        {
            // other sizes: the survivors keep their entries, the new ones start uncorrelated
            AState to = s.x;
            elems(to, [&](int b, int i, auto& e) { if (MAXN[b] && i >= l.n[b]) fill(r, e); });
            for (int b = 0; b < NS; ++b)
                if (MAXN[b]) setCount(to, b, cnt(r, MAXN[b]));
            const Lay t = lay(to);
            Eigen::MatrixXd Q = Eigen::MatrixXd::Identity(t.N, t.N);
            std::vector<std::pair<int, int>> keep;
            for (int b = 0; b < NS; ++b)
                for (int i = 0; i < BASE[b] * std::min(l.n[b], t.n[b]); ++i) keep.push_back({l.at[b] + i, t.at[b] + i});
            for (auto& a : keep)
                for (auto& b : keep) Q(a.second, b.second) = P(a.first, b.first);
            for (int b = 0; b < NS; ++b)
                if (MAXN[b]) setCount(s.x, b, t.n[b]);
            elems(s.x, [&](int b, int i, auto& e) { if (MAXN[b] && i >= l.n[b]) fill(r, e); });
            l = t;
            blocksP(s.cov, l, Put{Q});
            c.count("resized");
        }
    }
    c.nontrivial(vh::fnv(&s.x.t, sizeof(int), c.rng.u64()));
}
static void all(vh::Ctx& c, int which)
{
    const int N = which == 0 ? c.n(400, 6000) : which == 1 ? c.n(300, 4000) : which == 2 ? c.n(400, 6000) : c.n(120, 2000);
    for (int i = 0; i < N; ++i)
    {
        if (which == 1)
        {
#define X(M) if (c.begin()) updateCase<M>(c);
            CFG_MEAS(X)
#undef X
            continue;
        }
        if (!c.begin()) continue;
        if (which == 0) predictCase(c);
        if (which == 2) stateCase(c);
        if (which == 3) runCase(c);
    }
}
static void limits(vh::Ctx& c)
{
#define X(M) if (c.begin()) c.note(std::string("configured ") + MT<M>::NAME), configured<M>(c);
    CFG_MEAS(X)
#undef X
}
}  // namespace CFG_NS
}  // namespace ekf
}  // namespace mc
VH_GROUP(predict) { DESC_NS::all(c, 0); }
VH_GROUP(update) { DESC_NS::all(c, 1); }
VH_GROUP(state) { DESC_NS::all(c, 2); }
VH_GROUP(run) { DESC_NS::all(c, 3); }
VH_GROUP(limits) { DESC_NS::limits(c); }
