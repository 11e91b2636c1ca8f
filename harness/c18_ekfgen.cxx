// C18: a filter generated by core/ekf/ekf_gen from harness/ekf/mon.yaml.  The reference is plain
// dense algebra assembled here; nothing of it comes from the generator.
#include "vh.h"
#include "gen_mon/mon.h"
#include <Eigen/Eigenvalues>
namespace mc {
namespace ekf {
namespace mon {

static Eigen::MatrixXd gA, gB;  // what the next call of dynamics() reports
static Eigen::VectorXd gXdot;

struct Lay
{
    int na, nq, ns;  // numbers of bundled states
    int pose = 0, va = 6, wa = 9, wq, ws, N;
    Lay(int a, int q, int s) : na(a), nq(q), ns(s), wq(9 + 2 * a), ws(9 + 2 * a + 3 * q), N(9 + 2 * a + 3 * q + s) {}
};
template <class X>
static Lay lay(const X& x)
{
    return Lay((int)x.num_wa, (int)x.num_wq, (int)x.num_ws);
}

// every block of the structures named in the configuration, with its place in the dense matrix
template <class J, class F>
static void blocksA(J& j, const Lay& l, F f)
{
    f(j.dPose_dPose, l.pose, l.pose);
    f(j.dPose_dVa, l.pose, l.va);
    f(j.dPose_dWa(l.na), l.pose, l.wa);
    f(j.dVa_dPose, l.va, l.pose);
    f(j.dVa_dWs(l.ns), l.va, l.ws);
    f(j.dWa_dWa(l.na), l.wa, l.wa);
    f(j.dWa_dWs(l.na, l.ns), l.wa, l.ws);
    f(j.dWa_dVa(l.na), l.wa, l.va);
    f(j.dWq_dWq(l.nq), l.wq, l.wq);
    f(j.dWq_dWa(l.nq, l.na), l.wq, l.wa);
}
template <class J, class F>
static void blocksB(J& j, const Lay& l, F f)
{
    f(j.dPose_dIa, l.pose, 0);
    f(j.dVa_dIa, l.va, 0);
    f(j.dVa_dIb, l.va, 3);
    f(j.dWa_dIb(l.na), l.wa, 3);
    f(j.dWq_dIa(l.nq), l.wq, 0);
}
template <class C, class F>
static void blocksP(C& c, const Lay& l, F f)
{
    f(c.pose_pose, l.pose, l.pose);
    f(c.pose_va, l.pose, l.va);
    f(c.pose_wa(l.na), l.pose, l.wa);
    f(c.pose_wq(l.nq), l.pose, l.wq);
    f(c.pose_ws(l.ns), l.pose, l.ws);
    f(c.va_va, l.va, l.va);
    f(c.va_wa(l.na), l.va, l.wa);
    f(c.va_wq(l.nq), l.va, l.wq);
    f(c.va_ws(l.ns), l.va, l.ws);
    f(c.wa_wa(l.na), l.wa, l.wa);
    f(c.wa_wq(l.na, l.nq), l.wa, l.wq);
    f(c.wa_ws(l.na, l.ns), l.wa, l.ws);
    f(c.wq_wq(l.nq), l.wq, l.wq);
    f(c.wq_ws(l.nq, l.ns), l.wq, l.ws);
    f(c.ws_ws(l.ns), l.ws, l.ws);
}
template <class X, class F>
static void blocksDx(X& d, const Lay& l, F f)
{
    f(d.pose, l.pose, 0);
    f(d.va, l.va, 0);
    for (int i = 0; i < l.na; ++i) f(d.wa(i), l.wa + 2 * i, 0);
    for (int i = 0; i < l.nq; ++i) f(d.wq(i), l.wq + 3 * i, 0);
    for (int i = 0; i < l.ns; ++i) f(d.ws(i), l.ws + i, 0);
}
struct Put  // dense -> block
{
    const Eigen::MatrixXd& m;
    template <class B>
    void operator()(B&& b, int r, int c) const
    {
        if (b.rows() && b.cols()) b = m.block(r, c, b.rows(), b.cols());
    }
};
struct Get  // block -> dense
{
    Eigen::MatrixXd& m;
    template <class B>
    void operator()(const B& b, int r, int c) const
    {
        m.block(r, c, b.rows(), b.cols()) = b;
    }
};
static Eigen::MatrixXd denseP(const Covariance& c, const Lay& l)
{
    Eigen::MatrixXd m = Eigen::MatrixXd::Zero(l.N, l.N);
    blocksP(c, l, Get{m});
    for (int i = 0; i < l.N; ++i)
        for (int j = 0; j < i; ++j)
        {
            // blocks on the diagonal are stored whole, the others only above it
            const int at[] = {l.va, l.wa, l.wq, l.ws};
            int bi = 0, bj = 0;
            for (int a : at) bi += i >= a, bj += j >= a;
            if (bi != bj) m(i, j) = m(j, i);
        }
    return m;
}
static Eigen::VectorXd denseDx(const ErrorState& d, const Lay& l)
{
    Eigen::MatrixXd m = Eigen::MatrixXd::Zero(l.N, 1);
    blocksDx(d, l, Get{m});
    return m.col(0);
}
static ErrorState makeDx(const Eigen::VectorXd& v, const Lay& l)
{
    ErrorState d = ErrorState::Zero();
    const Eigen::MatrixXd m = v;
    blocksDx(d, l, Put{m});
    return d;
}

ErrorState dynamics(const State& x, const Input& u, StateJac* dxdx, InputJac* dxdu)
{
    const Lay l = lay(x);
    blocksA(*dxdx, l, Put{gA});
    blocksB(*dxdu, l, Put{gB});
    return makeDx(gXdot, l);
}

// measurements: Jacobian blocks, rows per element, residual
template <class M>
struct MT;
template <>
struct MT<fixMeas>
{
    static constexpr int ROWS = 3, MAX = 0;
    template <class J, class F>
    static void blocks(J& j, int, const Lay& l, F f)
    {
        f(j.dPose, 0, l.pose), f(j.dVa, 0, l.va), f(j.dWa(l.na), 0, l.wa), f(j.dWq(l.nq), 0, l.wq);
    }
};
template <>
struct MT<manyMeas>
{
    static constexpr int ROWS = 2, MAX = 4;
    template <class J, class F>
    static void blocks(J& j, int n, const Lay& l, F f)
    {
        for (int i = 0; i < n; ++i)
            f(j.dWs(i, l.ns), 2 * i, l.ws), f(j.dWa(i, l.na), 2 * i, l.wa), f(j.dPose(i), 2 * i, l.pose);
    }
};
template <>
struct MT<singleMeas>
{
    static constexpr int ROWS = 1, MAX = 6;
    template <class J, class F>
    static void blocks(J& j, int n, const Lay& l, F f)
    {
        for (int i = 0; i < n; ++i) f(j.dWq(i, l.nq), i, l.wq);
    }
};
template <>
struct MT<gateMeas>
{
    static constexpr int ROWS = 3, MAX = 2;
    template <class J, class F>
    static void blocks(J& j, int n, const Lay& l, F f)
    {
        for (int i = 0; i < n; ++i) f(j.dWq(i, l.nq), 3 * i, l.wq), f(j.dVa(i), 3 * i, l.va);
    }
};
template <>
struct MT<idleMeas>
{
    static constexpr int ROWS = 4, MAX = 0;
    template <class J, class F>
    static void blocks(J& j, int, const Lay& l, F f)
    {
        f(j.dPose, 0, l.pose), f(j.dWs(l.ns), 0, l.ws);
    }
};
static Eigen::MatrixXd gH;
static Eigen::VectorXd gRes;
static const void* gSeenX;
static int gArg;
template <class M>
static typename M::Residual meas(const State& x, typename M::Jac* j, int n)
{
    gSeenX = &x;
    MT<M>::blocks(*j, n, lay(x), Put{gH});
    typename M::Residual r;
    r.setZero();
    r.head(gRes.size()) = gRes;
    return r;
}
template <>
fixMeas::Residual h<fixMeas>(const fixMeas::ZType& z, const State& x, fixMeas::Jac* j) { return meas<fixMeas>(x, j, 1); }
template <>
manyMeas::Residual h<manyMeas>(const manyMeas::ZType& z, const State& x, manyMeas::Jac* j) { return meas<manyMeas>(x, j, (int)z.size()); }
template <>
singleMeas::Residual h<singleMeas>(const singleMeas::ZType& z, const State& x, singleMeas::Jac* j) { return meas<singleMeas>(x, j, (int)z.size()); }
template <>
gateMeas::Residual h<gateMeas>(const gateMeas::ZType& z, const State& x, gateMeas::Jac* j) { return meas<gateMeas>(x, j, (int)z.size()); }
template <>
idleMeas::Residual h<idleMeas, int>(const idleMeas::ZType& z, const State& x, idleMeas::Jac* j, const int& a)
{
    gArg = a;
    return meas<idleMeas>(x, j, 1);
}

static Eigen::MatrixXd rnd(vh::Rng& r, int a, int b, double s = 1)
{
    Eigen::MatrixXd m(a, b);
    for (int i = 0; i < a; ++i)
        for (int j = 0; j < b; ++j) m(i, j) = s * r.uni(-1, 1);
    return m;
}
static int cnt(vh::Rng& r, int max) { return r.chance(.25) ? 0 : r.chance(.35) ? max : (int)r.range(0, max); }
static math::Quat<double> rq(vh::Rng& r)
{
    return math::Quat<double>::exp(Vec3(r.uni(-1.8, 1.8), r.uni(-1.8, 1.8), r.uni(-1.8, 1.8)));
}
static void randomState(vh::Rng& r, State& x, bool keep_sizes = false)
{
    // everything first, so that what lies behind the used part is stale, not zero
    const size_t a = x.num_wa, q = x.num_wq, s = x.num_ws;
    x.setRandom();
    x.t = UTCTime(r.range(1500000000, 1600000000), r.range(0, 999999999));
    x.pose = math::DQuat<double>(rq(r), Vec3(r.uni(-9, 9), r.uni(-9, 9), r.uni(-9, 9)));
    x.va = rnd(r, 3, 1, 5);
    for (auto& e : x.wa) e = rnd(r, 2, 1, 5);
    for (auto& e : x.wq) e = rq(r);
    for (auto& e : x.ws) e = rnd(r, 1, 1, 5);
    x.num_wa = keep_sizes ? a : cnt(r, State::MAX_WA);
    x.num_wq = keep_sizes ? q : cnt(r, State::MAX_WQ);
    x.num_ws = keep_sizes ? s : cnt(r, State::MAX_WS);
}
static Eigen::MatrixXd randomSpd(vh::Rng& r, int n)
{
    const Eigen::MatrixXd m = rnd(r, n, n);
    Eigen::MatrixXd p = m * m.transpose() / n;
    p.diagonal().array() += r.uni(0.01, 0.5);
    const Eigen::VectorXd d = rnd(r, n, 1).array().abs() * 3 + 0.02;
    return d.asDiagonal() * p * d.asDiagonal();
}
static void putP(vh::Rng& r, Covariance& c, const Eigen::MatrixXd& p, const Lay& l)
{
    const Lay full(State::MAX_WA, State::MAX_WQ, State::MAX_WS);
    blocksP(c, full, Put{rnd(r, full.N, full.N, 1e3)});  // stale contents of a larger past
    blocksP(c, l, Put{p});
}
static bool samePose(const State& a, const State& b, double tol)
{
    if ((a.pose.real().arr_ - b.pose.real().arr_).norm() > tol && (a.pose.real().arr_ + b.pose.real().arr_).norm() > tol) return false;
    if ((a.pose.translation() - b.pose.translation()).norm() > tol * 20) return false;
    return true;
}
// whole-state comparison (attitudes up to the sign of the quaternion)
static std::string differs(const State& a, const State& b, double tol, bool with_time = true)
{
    if (a.num_wa != b.num_wa || a.num_wq != b.num_wq || a.num_ws != b.num_ws) return "sizes";
    if (with_time && std::abs(((UTCTime)a.t - (UTCTime)b.t).toSec()) > 1.5e-9) return vh::strf("time by %.9f", ((UTCTime)a.t - (UTCTime)b.t).toSec());
    if (!samePose(a, b, tol)) return "pose";
    if ((a.va - b.va).norm() > tol * 20) return "va";
    for (size_t i = 0; i < a.num_wa; ++i)
        if ((a.wa[i] - b.wa[i]).norm() > tol * 20) return "wa";
    for (size_t i = 0; i < a.num_wq; ++i)
        if (std::min((a.wq[i].arr_ - b.wq[i].arr_).norm(), (a.wq[i].arr_ + b.wq[i].arr_).norm()) > tol) return "wq";
    for (size_t i = 0; i < a.num_ws; ++i)
        if ((a.ws[i] - b.ws[i]).norm() > tol * 20) return "ws";
    return "";
}
static State refPlus(const State& x, const Eigen::VectorXd& d)
{
    const Lay l = lay(x);
    State y;
    y.t = x.t;
    y.num_wa = x.num_wa, y.num_wq = x.num_wq, y.num_ws = x.num_ws;
    y.pose = x.pose * math::DQuat<double>::exp(d.segment<6>(l.pose));
    y.va = x.va + d.segment<3>(l.va);
    for (int i = 0; i < l.na; ++i) y.wa[i] = x.wa[i] + d.segment<2>(l.wa + 2 * i);
    for (int i = 0; i < l.nq; ++i) y.wq[i] = x.wq[i] * math::Quat<double>::exp(d.segment<3>(l.wq + 3 * i));
    for (int i = 0; i < l.ns; ++i) y.ws[i] = x.ws[i] + d.segment<1>(l.ws + i);
    return y;
}
static double rel(const Eigen::MatrixXd& a, const Eigen::MatrixXd& b, const Eigen::MatrixXd& scale)
{
    return (a - b).norm() / (scale.norm() + 1e-300);
}
static std::string dims(const Lay& l) { return vh::strf("wa=%d wq=%d ws=%d", l.na, l.nq, l.ns); }

static void predictCase(vh::Ctx& c)
{
    auto& r = c.rng;
    Snapshot in;
    randomState(r, in.x);
    const Lay l = lay(in.x);
    const Eigen::MatrixXd P = randomSpd(r, l.N);
    putP(r, in.cov, P, l);
    // a whole number of nanoseconds, as instants are
    const int64_t ndt = (int64_t)(1e9 * (r.chance(.3) ? r.uni(1e-4, 1e-2) : r.uni(0.01, 1.0)));
    const double dt = ndt * 1e-9;
    gA = rnd(r, l.N, l.N, r.chance(.2) ? 0.1 : 1.5);
    // only the couplings the configuration declares exist
    {
        StateJac j;
        blocksA(j, l, Put{gA});
        gA.setZero();
        blocksA(j, l, Get{gA});
    }
    gB = rnd(r, l.N, 5);
    {
        InputJac j;
        blocksB(j, l, Put{gB});
        gB.setZero();
        blocksB(j, l, Get{gB});
    }
    gXdot = rnd(r, l.N, 1, 1.0);
    Input u;
    u.ia = rnd(r, 3, 1, 9);
    u.ib = rnd(r, 2, 1, 9);
    InputCovariance Qu;
    Qu.ia = rnd(r, 3, 1).array().abs();
    Qu.ib = rnd(r, 2, 1).array().abs();
    ProcessCovariance Qx;
    Qx.pose = rnd(r, 6, 1).array().abs();
    Qx.va = rnd(r, 3, 1).array().abs();
    Qx.wa = rnd(r, 2, 1).array().abs(), Qx.wq = rnd(r, 3, 1).array().abs(), Qx.ws = rnd(r, 1, 1).array().abs();
    Eigen::VectorXd q(l.N);
    q.segment<6>(l.pose) = Qx.pose, q.segment<3>(l.va) = Qx.va;
    for (int i = 0; i < l.na; ++i) q.segment<2>(l.wa + 2 * i) = Qx.wa;
    for (int i = 0; i < l.nq; ++i) q.segment<3>(l.wq + 3 * i) = Qx.wq;
    for (int i = 0; i < l.ns; ++i) q.segment<1>(l.ws + i) = Qx.ws;
    Eigen::VectorXd qu(5);
    qu << Qu.ia, Qu.ib;
    c.note(vh::strf("predict dt=%.6f %s", dt, dims(l).c_str()));

    Snapshot out;
    randomState(r, out.x);  // the receiving snapshot has another past
    {
        const Lay lo = lay(out.x);
        putP(r, out.cov, randomSpd(r, lo.N), lo);
    }
    const UTCTime t_new = (UTCTime)in.x.t + UTCTime(0, ndt);
    const State before = in.x;
    const Error e = predict(in, t_new, u, Qx, Qu, make_out(out));
    c.expect(e.ok(), "predict_ok", "");
    const Eigen::MatrixXd I = Eigen::MatrixXd::Identity(l.N, l.N);
    const Eigen::MatrixXd Ab = I + gA * dt + 0.5 * dt * dt * gA * gA;
    const Eigen::MatrixXd Bb = dt * (I + 0.5 * dt * gA) * gB;
    Eigen::MatrixXd want = Ab * P * Ab.transpose() + Bb * qu.asDiagonal() * Bb.transpose();
    want.diagonal() += q;
    const Eigen::MatrixXd got = denseP(out.cov, l);
    const double bad = rel(got, want, want);
    c.expect(bad < 1e-10, "predict_cov", vh::strf("%s relative error %.3g", dims(l).c_str(), bad));
    c.expect((got - got.transpose()).norm() < 1e-10 * want.norm(), "predict_symmetric", dims(l));
    State wx = refPlus(before, gXdot * dt);
    wx.t = t_new;
    const std::string d = differs(out.x, wx, 1e-9);
    c.expect(d.empty(), "predict_state", d);
    c.expect((out.u.ia - u.ia).norm() == 0 && (out.u.ib - u.ib).norm() == 0, "predict_input", "the snapshot does not carry the input that led to it");
    c.expect(rel(denseP(in.cov, l), P, P) < 1e-14 && differs(in.x, before, 1e-15).empty(), "predict_input_kept", "");
    const Eigen::MatrixXd gd = out.cov.dense(l.na, l.nq, l.ns);
    c.expect(gd.rows() == l.N && gd.cols() == l.N && rel(gd, got, got) < 1e-12, "cov_dense", dims(l));
    StateJac j;
    InputJac jb;
    blocksA(j, l, Put{gA});
    blocksB(jb, l, Put{gB});
    c.expect(rel(j.dense(l.na, l.nq, l.ns), gA, gA) < 1e-15, "statejac_dense", dims(l));
    c.expect(rel(jb.dense(l.na, l.nq, l.ns), gB, gB) < 1e-15, "inputjac_dense", dims(l));
    c.count("predictions");
    c.nontrivial(vh::fnv(&dt, sizeof dt, l.N));
}

template <class M>
static void updateCase(vh::Ctx& c, const char* name)
{
    auto& r = c.rng;
    constexpr bool VAR = MT<M>::MAX > 0;
    Snapshot s;
    randomState(r, s.x);
    const Lay l = lay(s.x);
    const Eigen::MatrixXd P = randomSpd(r, l.N);
    putP(r, s.cov, P, l);
    s.u.ia = rnd(r, 3, 1), s.u.ib = rnd(r, 2, 1);
    const Input u0 = s.u;
    const int n = VAR ? (r.chance(.08) ? 0 : (int)r.range(1, MT<M>::MAX)) : 1;
    const int m = n * MT<M>::ROWS;
    typename M::ZType z;
    if constexpr (VAR)
    {
        z.resize(n);
        for (auto& e : z) e = rnd(r, MT<M>::ROWS, 1, 5);
    }
    else
        z = rnd(r, MT<M>::ROWS, 1, 5);
    typename M::Covariance R;
    R = rnd(r, R.size(), 1).array().abs() + 0.05;
    if (r.chance(.15)) R *= 0.01;
    gH = rnd(r, m, l.N, r.chance(.2) ? 0.05 : 1.0);
    {
        typename M::Jac j;
        Eigen::MatrixXd k = Eigen::MatrixXd::Zero(m, l.N);
        MT<M>::blocks(j, n, l, Put{gH});
        MT<M>::blocks(j, n, l, Get{k});
        gH = k;
    }
    gRes = rnd(r, m, 1, r.chance(.3) ? 0.1 : r.chance(.5) ? 1 : 6);
    c.note(vh::strf("update %s n=%d %s", name, n, dims(l).c_str()));
    const State x0 = s.x;
    Eigen::VectorXd rr(m);
    for (int i = 0; i < m; ++i) rr[i] = R[i % R.size()];
    Eigen::MatrixXd S = gH * P * gH.transpose();
    S.diagonal() += rr;
    const Eigen::MatrixXd K = m ? Eigen::MatrixXd(P * gH.transpose() * S.inverse()) : Eigen::MatrixXd::Zero(l.N, 0);
    const double mahal = m ? gRes.dot(S.inverse() * gRes) : 0;
    gSeenX = nullptr;
    gArg = 0;
    const auto res = [&] {
        if constexpr (std::is_same<M, idleMeas>::value)
            return update<M, int>(make_out(s), z, R, 4711);
        else
            return update<M>(make_out(s), z, R);
    }();
    const Eigen::MatrixXd got = denseP(s.cov, l);
    const bool untouched = differs(s.x, x0, 1e-15).empty() && rel(got, P, P) < 1e-15;
    if constexpr (std::is_same<M, idleMeas>::value) c.expect(gArg == 4711, "argument", "the extra argument did not reach h()");
    if (m == 0)
    {
        c.count("empty");
        c.expect(!res.ok(), "empty_rejected", name);
        c.expect(untouched, "empty_untouched", name);
        return;
    }
    if (std::abs(mahal - M::MAX_MAHAL) < 1e-6 * M::MAX_MAHAL) return;  // too close to call
    if (mahal > M::MAX_MAHAL)
    {
        c.count("gated");
        c.expect(!res.ok(), "gated_rejected", vh::strf("%s distance %.6g, limit %.6g", name, mahal, M::MAX_MAHAL));
        c.expect(untouched, "gated_untouched", name);
        return;
    }
    c.expect(res.ok(), "accepted", vh::strf("%s distance %.6g, limit %.6g", name, mahal, M::MAX_MAHAL));
    if (!res.ok()) return;
    Eigen::VectorXd rv = res.res();
    c.expect((rv.head(m) - gRes).norm() == 0, "residual", "update() returned another residual than h()");
    c.expect((s.u.ia - u0.ia).norm() == 0 && (s.u.ib - u0.ib).norm() == 0, "input_kept", name);
    if (M::DISABLED)
    {
        c.count("disabled");
        c.expect(untouched, "disabled_untouched", name);
        return;
    }
    c.count("applied");
    const Eigen::MatrixXd want = P - K * gH * P;
    const double bad = rel(got, want, P);
    c.expect(bad < 1e-9, "update_cov", vh::strf("%s n=%d %s relative error %.3g", name, n, dims(l).c_str(), bad));
    c.expect((got - got.transpose()).norm() < 1e-9 * P.norm(), "update_symmetric", name);
    const std::string d = differs(s.x, refPlus(x0, K * gRes), 1e-8 * (1 + (K * gRes).norm()));
    c.expect(d.empty(), "update_state", vh::strf("%s n=%d %s: %s", name, n, dims(l).c_str(), d.c_str()));
    const Eigen::MatrixXd lo = got.selfadjointView<Eigen::Upper>();
    c.expect(lo.ldlt().isPositive() || Eigen::SelfAdjointEigenSolver<Eigen::MatrixXd>(lo).eigenvalues().minCoeff() > -1e-9 * P.norm(), "update_psd", name);
    typename M::Jac j;
    MT<M>::blocks(j, n, l, Put{gH});
    const Eigen::MatrixXd hd = [&]() -> Eigen::MatrixXd {
        if constexpr (VAR)
            return j.dense(n, l.na, l.nq, l.ns);
        else
            return j.dense(l.na, l.nq, l.ns);
    }();
    c.expect(hd.rows() == m && hd.cols() == l.N && rel(hd, gH, gH) < 1e-15, "measjac_dense", vh::strf("%s n=%d", name, n));
    c.nontrivial(vh::fnv(&mahal, sizeof mahal, l.N));
}

template <class M>
static Eigen::MatrixXd measDense(const typename M::Jac& j, int n, const Lay& l)
{
    if constexpr (MT<M>::MAX > 0)
        return j.dense(n, l.na, l.nq, l.ns);
    else
        return j.dense(l.na, l.nq, l.ns);
}
template <class M>
static void measZero(vh::Ctx& c, const Lay& l, const char* name)
{
    const int n = std::max(1, MT<M>::MAX);
    typename M::Jac j;
    MT<M>::blocks(j, n, l, Put{rnd(c.rng, n * MT<M>::ROWS, l.N)});
    j.setZero();
    c.expect(measDense<M>(j, n, l).norm() == 0 && measDense<M>(M::Jac::Zero(), n, l).norm() == 0, "measjac_zero", name);
}
// the probability that a chi-squared variable of k degrees of freedom stays below x
static double chi2cdf(double x, int k)
{
    const double a = 0.5 * k, y = 0.5 * x;
    double term = 1 / a, sum = term;
    for (int i = 1; i < 2000 && term > 1e-18 * sum; ++i) term *= y / (a + i), sum += term;
    return sum * std::exp(-y + a * std::log(y) - std::lgamma(a));
}
template <class M>
static void limit(vh::Ctx& c, const char* name, double prob, int size, bool disabled)
{
    c.expect(M::MAX_PROB == prob && M::MAX_SIZE == size && M::DISABLED == disabled, "meas_configured", name);
    if (prob < 1)
    {
        const double lo = chi2cdf(M::MAX_MAHAL - .02, size - 1), hi = chi2cdf(M::MAX_MAHAL + .02, size - 1);
        c.expect(lo <= prob && prob <= hi, "gate_quantile", vh::strf("%s %.6g is the quantile of %.6g..%.6g, not of %.6g", name, M::MAX_MAHAL, lo, hi, prob));
    }
    else
        c.expect(M::MAX_MAHAL > 1e300, "gate_open", name);
}
static void limits(vh::Ctx& c)
{
    c.note("the limits of the measurements");
    limit<fixMeas>(c, "fix", .95, 3, false);
    limit<manyMeas>(c, "many", .999, 8, false);
    limit<singleMeas>(c, "single", 1, 6, false);
    limit<gateMeas>(c, "gate", .7, 6, false);
    limit<idleMeas>(c, "idle", 1, 4, true);
    c.count("limits");
    c.nontrivial(1);
}

static void stateCase(vh::Ctx& c)
{
    auto& r = c.rng;
    State a;
    randomState(r, a);
    const Lay l = lay(a);
    c.note("state " + dims(l));
    Eigen::VectorXd d1 = rnd(r, l.N, 1, r.chance(.3) ? 1e-3 : 1.0), d2 = rnd(r, l.N, 1, 1.0);
    const ErrorState e1 = makeDx(d1, l), e2 = makeDx(d2, l);
    const State b = a + e1;
    std::string s = differs(b, refPlus(a, d1), 1e-12);
    c.expect(s.empty(), "plus", s);
    State b2 = a;
    b2 += e1;
    s = differs(b2, b, 1e-12);
    c.expect(s.empty(), "plus_inplace", s);
    const Eigen::VectorXd back = denseDx(b - a, l);
    c.expect((back - d1).norm() < 1e-9 * (1 + d1.norm()), "minus_plus", vh::strf("%.3g", (back - d1).norm()));
    State g;
    randomState(r, g);
    g.num_wa = a.num_wa, g.num_wq = a.num_wq, g.num_ws = a.num_ws;
    g.t = a.t;
    s = differs(a + (g - a), g, 1e-9);
    c.expect(s.empty(), "plus_minus", s);
    c.expect(denseDx(a - a, l).norm() < 1e-9, "minus_self", "");
    // copies into states with another history
    State k;
    randomState(r, k);
    k = a;
    s = differs(k, a, 1e-15);
    c.expect(s.empty(), "assign", s);
    const State k2(a);
    s = differs(k2, a, 1e-15);
    c.expect(s.empty(), "copy", s);
    const State* self = &k;
    k = *self;
    s = differs(k, a, 1e-15);
    c.expect(s.empty(), "self_assign", s);
    k.va[0] += 1;
    if (l.nq) k.wq[0] = rq(r);
    c.expect(differs(a, k2, 1e-15).empty(), "copy_is_independent", "");
    // error states are a vector space
    const double f = r.uni(-3, 3);
    c.expect((denseDx(e1 + e2, l) - (d1 + d2)).norm() < 1e-13, "dx_add", "");
    c.expect((denseDx(e1 - e2, l) - (d1 - d2)).norm() < 1e-13, "dx_sub", "");
    c.expect((denseDx(e1 * f, l) - d1 * f).norm() < 1e-13, "dx_mul", "");
    if (std::abs(f) > .01) c.expect((denseDx(e1 / f, l) - d1 / f).norm() < 1e-11, "dx_div", "");
    ErrorState e3 = e1;
    e3 += e2;
    c.expect((denseDx(e3, l) - (d1 + d2)).norm() < 1e-13, "dx_addto", "");
    c.expect(denseDx(ErrorState::Zero(), l).norm() == 0, "dx_zero", "");
    c.expect((denseDx(ErrorState::Constant(f), l).array() - f).matrix().norm() < 1e-13, "dx_constant", "");
    const Eigen::VectorXd dd = e1.dense(l.na, l.nq, l.ns);
    c.expect(dd.size() == l.N && (dd - d1).norm() < 1e-15, "dx_dense", dims(l));
    const Lay full(State::MAX_WA, State::MAX_WQ, State::MAX_WS);
    c.expect((int)State::DOF == full.N && (int)ErrorState::DOF == full.N, "dof", "");
    const Eigen::Matrix<double, State::DOF, 1> dv = rnd(r, State::DOF, 1);
    const ErrorState ef = ErrorState::fromDense(dv);
    c.expect((denseDx(ef, full) - dv).norm() < 1e-15, "dx_fromdense", "");
    // inputs
    Input u, v;
    u.ia = rnd(r, 3, 1), u.ib = rnd(r, 2, 1), v.ia = rnd(r, 3, 1), v.ib = rnd(r, 2, 1);
    Eigen::Matrix<double, 5, 1> ud, vd;
    ud << u.ia, u.ib;
    vd << v.ia, v.ib;
    c.expect((u.dense() - ud).norm() == 0, "input_dense", "");
    c.expect(((u + v).dense() - (ud + vd)).norm() < 1e-14, "input_add", "");
    c.expect(((u * f).dense() - ud * f).norm() < 1e-14, "input_mul", "");
    c.expect((Input::fromDense(ud).dense() - ud).norm() == 0, "input_fromdense", "");
    Input w = u;
    w += v;
    c.expect((w.dense() - (ud + vd)).norm() < 1e-14, "input_addto", "");
    // covariance from variances is diagonal, whatever sizes come later
    ProcessCovariance q;
    q.pose = rnd(r, 6, 1).array().abs(), q.va = rnd(r, 3, 1).array().abs();
    q.wa = rnd(r, 2, 1).array().abs(), q.wq = rnd(r, 3, 1).array().abs(), q.ws = rnd(r, 1, 1).array().abs();
    Eigen::VectorXd qd(l.N);
    qd.segment<6>(l.pose) = q.pose, qd.segment<3>(l.va) = q.va;
    for (int i = 0; i < l.na; ++i) qd.segment<2>(l.wa + 2 * i) = q.wa;
    for (int i = 0; i < l.nq; ++i) qd.segment<3>(l.wq + 3 * i) = q.wq;
    for (int i = 0; i < l.ns; ++i) qd.segment<1>(l.ws + i) = q.ws;
    const Covariance cq(q);
    c.expect((denseP(cq, l) - Eigen::MatrixXd(qd.asDiagonal())).norm() < 1e-15, "cov_from_variances", dims(l));
    c.expect((q.dense(l.na, l.nq, l.ns) - Eigen::MatrixXd(qd.asDiagonal())).norm() < 1e-15, "variances_dense", dims(l));
    const auto variances = [&](const ProcessCovariance& v, double want, const char* key) {
        const Eigen::MatrixXd m = v.dense(State::MAX_WA, State::MAX_WQ, State::MAX_WS);
        c.expect((m - want * Eigen::MatrixXd::Identity(full.N, full.N)).norm() < 1e-15, key, "");
    };
    ProcessCovariance qz = q;
    qz.setZero();
    variances(qz, 0, "variances_zero");
    variances(ProcessCovariance::Zero(), 0, "variances_zero");
    qz = q;
    qz.setIdentity();
    variances(qz, 1, "variances_identity");
    variances(ProcessCovariance::Identity(), 1, "variances_identity");
    InputCovariance iz;
    iz.ia.setConstant(f), iz.ib.setConstant(f);
    iz.setZero();
    c.expect(iz.ia.norm() == 0 && iz.ib.norm() == 0, "input_variances_zero", "");
    iz = InputCovariance::Zero();
    c.expect(iz.ia.norm() == 0 && iz.ib.norm() == 0, "input_variances_zero", "");
    // identities and zeros erase every trace of what was there, the unused elements included
    const auto isIdentity = [&](const State& y, const char* key) {
        double off = std::min((y.pose.real().arr_ - math::Quat<double>::Identity().arr_).norm(), 9.) + y.pose.translation().norm() + y.va.norm();
        for (auto& e : y.wa) off += e.norm();
        for (auto& e : y.wq) off += (e.arr_ - math::Quat<double>::Identity().arr_).norm();
        for (auto& e : y.ws) off += e.norm();
        c.expect(off < 1e-15, key, vh::strf("off by %.3g", off));
    };
    State id = k;
    randomState(r, id);
    id.setIdentity();
    isIdentity(id, "state_identity");
    isIdentity(State::Identity(), "state_identity");
    ErrorState ez = ef;
    ez.setZero();
    c.expect(denseDx(ez, full).norm() == 0, "dx_setzero", "");
    {
        StateJac j;
        blocksA(j, full, Put{rnd(r, full.N, full.N)});
        j.setZero();
        c.expect(j.dense(full.na, full.nq, full.ns).norm() == 0 && StateJac::Zero().dense(full.na, full.nq, full.ns).norm() == 0, "statejac_zero", "");
        InputJac jb;
        blocksB(jb, full, Put{rnd(r, full.N, 5)});
        jb.setZero();
        c.expect(jb.dense(full.na, full.nq, full.ns).norm() == 0 && InputJac::Zero().dense(full.na, full.nq, full.ns).norm() == 0, "inputjac_zero", "");
    }
    measZero<fixMeas>(c, full, "fix");
    measZero<manyMeas>(c, full, "many");
    measZero<singleMeas>(c, full, "single");
    measZero<gateMeas>(c, full, "gate");
    measZero<idleMeas>(c, full, "idle");
    Covariance ci;
    putP(r, ci, randomSpd(r, l.N), l);
    ci.setIdentity();
    c.expect((denseP(ci, full) - Eigen::MatrixXd::Identity(full.N, full.N)).norm() < 1e-15, "cov_identity", "");
    c.nontrivial(vh::fnv(d1.data(), 8 * d1.size()));
}

template <class M>
static void finiteMeas(vh::Ctx& c, double bad, const char* name)
{
    auto& r = c.rng;
    const int n = (int)r.range(1, MT<M>::MAX);
    typename M::ZType z(n);
    for (auto& e : z) e = rnd(r, MT<M>::ROWS, 1);
    c.expect(mc::isFinite(z), "finite_meas", name);
    const int at = (int)r.range(0, n - 1);
    z[at][(int)r.range(0, MT<M>::ROWS - 1)] = bad;
    c.expect(!mc::isFinite(z), "finite_meas_missed", vh::strf("%s element %d of %d", name, at, n));
    const Lay l(State::MAX_WA, State::MAX_WQ, State::MAX_WS);
    typename M::Jac j = M::Jac::Zero();
    MT<M>::blocks(j, n, l, Put{rnd(r, n * MT<M>::ROWS, l.N)});
    c.expect(mc::isFinite(j), "finite_measjac", name);
    int k = 0, total = 0;
    MT<M>::blocks(j, n, l, [&](auto&&, int, int) { ++total; });
    const int pick = (int)r.range(0, total - 1);
    MT<M>::blocks(j, n, l, [&](auto&& b, int, int) {
        if (k++ == pick) b((int)r.range(0, b.rows() - 1), (int)r.range(0, b.cols() - 1)) = bad;
    });
    c.expect(!mc::isFinite(j), "finite_measjac_missed", vh::strf("%s block %d", name, pick));
}

static void finiteCase(vh::Ctx& c)
{
    auto& r = c.rng;
    State x;
    randomState(r, x);
    const Lay l = lay(x);
    c.note("finite " + dims(l));
    c.expect(mc::isFinite(x), "finite_state", "a finite state is called not finite");
    const double bad = r.chance(.5) ? std::nan("") : (r.chance(.5) ? 1 : -1) * std::numeric_limits<double>::infinity();
    {
        State y;
        y = x;
        std::vector<double*> at = {&y.va[(int)r.range(0, 2)], &y.pose.arr_[(int)r.range(0, 7)]};
        if (l.na) at.push_back(&y.wa[r.range(0, l.na - 1)][(int)r.range(0, 1)]);
        if (l.nq) at.push_back(&y.wq[r.range(0, l.nq - 1)].arr_[(int)r.range(0, 3)]);
        if (l.ns) at.push_back(&y.ws[r.range(0, l.ns - 1)][0]);
        const int k = (int)r.range(0, (int)at.size() - 1);
        *at[k] = bad;
        c.expect(!mc::isFinite(y), "finite_state_missed", vh::strf("entry kind %d", k));
    }
    Covariance p;
    putP(r, p, randomSpd(r, l.N), l);
    c.expect(mc::isFinite(p), "finite_cov", "a finite covariance is called not finite");
    {
        int k = 0, pick = (int)r.range(0, 14);
        bool hit = false;
        blocksP(p, l, [&](auto&& b, int, int) {
            if (k++ == pick && b.rows() && b.cols()) b(r.range(0, b.rows() - 1), r.range(0, b.cols() - 1)) = bad, hit = true;
        });
        if (hit) c.expect(!mc::isFinite(p), "finite_cov_missed", vh::strf("block %d", pick));
    }
    Eigen::VectorXd dv = rnd(r, l.N, 1);
    c.expect(mc::isFinite(makeDx(dv, l)), "finite_dx", "");
    dv[r.range(0, l.N - 1)] = bad;
    c.expect(!mc::isFinite(makeDx(dv, l)), "finite_dx_missed", "");
    StateJac j;
    InputJac jb;
    blocksA(j, l, Put{rnd(r, l.N, l.N)});
    blocksB(jb, l, Put{rnd(r, l.N, 5)});
    c.expect(mc::isFinite(j) && mc::isFinite(jb), "finite_jac", "");
    int k = 0, pick = (int)r.range(0, 9);
    bool hit = false;
    blocksA(j, l, [&](auto&& b, int, int) {
        if (k++ == pick && b.rows() && b.cols()) b(r.range(0, b.rows() - 1), r.range(0, b.cols() - 1)) = bad, hit = true;
    });
    if (hit) c.expect(!mc::isFinite(j), "finite_jac_missed", vh::strf("block %d", pick));
    k = 0, pick = (int)r.range(0, 4), hit = false;
    blocksB(jb, l, [&](auto&& b, int, int) {
        if (k++ == pick && b.rows() && b.cols()) b(r.range(0, b.rows() - 1), r.range(0, b.cols() - 1)) = bad, hit = true;
    });
    if (hit) c.expect(!mc::isFinite(jb), "finite_inputjac_missed", vh::strf("block %d", pick));
    Input u = Input::Zero();
    c.expect(mc::isFinite(u), "finite_input", "");
    (r.chance(.5) ? u.ia[(int)r.range(0, 2)] : u.ib[(int)r.range(0, 1)]) = bad;
    c.expect(!mc::isFinite(u), "finite_input_missed", "");
    ProcessCovariance q = ProcessCovariance::Identity();
    InputCovariance qu = InputCovariance::Zero();
    c.expect(mc::isFinite(q) && mc::isFinite(qu), "finite_variances", "");
    {
        double* at[] = {&q.pose[(int)r.range(0, 5)], &q.va[(int)r.range(0, 2)], &q.wa[(int)r.range(0, 1)], &q.wq[(int)r.range(0, 2)], &q.ws[0]};
        const int w = (int)r.range(0, 4);
        *at[w] = bad;
        c.expect(!mc::isFinite(q), "finite_variances_missed", vh::strf("entry kind %d", w));
        double* bt[] = {&qu.ia[(int)r.range(0, 2)], &qu.ib[(int)r.range(0, 1)]};
        *bt[r.range(0, 1)] = bad;
        c.expect(!mc::isFinite(qu), "finite_input_variances_missed", "");
    }
    finiteMeas<manyMeas>(c, bad, "many");
    finiteMeas<singleMeas>(c, bad, "single");
    finiteMeas<gateMeas>(c, bad, "gate");
    c.nontrivial(vh::fnv(dv.data(), 8 * dv.size()));
}

// a long run of alternating predictions and updates with bundles growing and shrinking in between,
// followed by the dense filter on the side
static void runCase(vh::Ctx& c)
{
    auto& r = c.rng;
    Snapshot s;
    randomState(r, s.x);
    Lay l = lay(s.x);
    Eigen::MatrixXd P = randomSpd(r, l.N);
    putP(r, s.cov, P, l);
    State x = s.x;
    const int steps = (int)r.range(4, 20);
    for (int k = 0; k < steps; ++k)
    {
        c.note(vh::strf("run step %d of %d %s", k, steps, dims(l).c_str()));
        const int what = (int)r.range(0, 4);
        if (what <= 1)
        {
            const int64_t ndt = r.range(5000000, 200000000);
            const double dt = ndt * 1e-9;
            gA = Eigen::MatrixXd::Zero(l.N, l.N), gB = Eigen::MatrixXd::Zero(l.N, 5);
            StateJac j;
            blocksA(j, l, Put{rnd(r, l.N, l.N, 0.7)});
            blocksA(j, l, Get{gA});
            InputJac jb;
            blocksB(jb, l, Put{rnd(r, l.N, 5, 0.7)});
            blocksB(jb, l, Get{gB});
            gXdot = rnd(r, l.N, 1);
            Input u = Input::Zero();
            ProcessCovariance Qx = ProcessCovariance::Zero();
            InputCovariance Qu = InputCovariance::Zero();
            Qu.ia.setConstant(.01);
            Qx.ws.setConstant(.02);
            Snapshot out;
            const UTCTime t = (UTCTime)s.x.t + UTCTime(0, ndt);
            if (!predict(s, t, u, Qx, Qu, make_out(out)).ok()) { c.violate("run_predict", "refused"); return; }
            s = out;
            const Eigen::MatrixXd I = Eigen::MatrixXd::Identity(l.N, l.N);
            const Eigen::MatrixXd Ab = I + gA * dt + 0.5 * dt * dt * gA * gA, Bb = dt * (I + 0.5 * dt * gA) * gB;
            Eigen::VectorXd qu(5);
            qu << .01, .01, .01, 0, 0;
            P = Ab * P * Ab.transpose() + Bb * qu.asDiagonal() * Bb.transpose();
            for (int i = 0; i < l.ns; ++i) P(l.ws + i, l.ws + i) += .02;
            x = refPlus(x, gXdot * dt);
            x.t = t;
        }
        else if (what <= 3)
        {
            const int n = (int)r.range(1, MT<manyMeas>::MAX), m = 2 * n;
            gH = Eigen::MatrixXd::Zero(m, l.N);
            manyMeas::Jac j;
            MT<manyMeas>::blocks(j, n, l, Put{rnd(r, m, l.N)});
            MT<manyMeas>::blocks(j, n, l, Get{gH});
            gRes = rnd(r, m, 1);
            manyMeas::ZType z(n, Vec2(0, 0));
            const manyMeas::Covariance R(0.3, 0.4);
            Eigen::MatrixXd S = gH * P * gH.transpose();
            for (int i = 0; i < m; ++i) S(i, i) += R[i % 2];
            const double mahal = gRes.dot(S.inverse() * gRes);
            if (std::abs(mahal - manyMeas::MAX_MAHAL) < 1e-3 * manyMeas::MAX_MAHAL) continue;
            const bool ok = update<manyMeas>(make_out(s), z, R).ok();
            c.expect(ok == (mahal < manyMeas::MAX_MAHAL), "run_update", vh::strf("distance %.6g %s", mahal, ok ? "accepted" : "refused"));
            if (ok)
            {
                const Eigen::MatrixXd K = P * gH.transpose() * S.inverse();
                x = refPlus(x, K * gRes);
                P -= K * gH * P;
                P = (0.5 * (P + P.transpose())).eval();
            }
            else
                c.count("run_gated");
        }
        else
        {
            // a bundle gains or loses its last element
            Lay to(l);
            const int which = (int)r.range(0, 2);
            int& n = which == 0 ? to.na : which == 1 ? to.nq : to.ns;
            const int max = which == 0 ? State::MAX_WA : which == 1 ? State::MAX_WQ : State::MAX_WS;
            n = std::max(0, std::min(max, n + (r.chance(.5) ? 1 : -1)));
            to = Lay(to.na, to.nq, to.ns);
            Eigen::MatrixXd Q = Eigen::MatrixXd::Identity(to.N, to.N);
            // positions of the surviving entries
            std::vector<std::pair<int, int>> keep;
            for (int i = 0; i < 9; ++i) keep.push_back({i, i});
            for (int i = 0; i < 2 * std::min(l.na, to.na); ++i) keep.push_back({l.wa + i, to.wa + i});
            for (int i = 0; i < 3 * std::min(l.nq, to.nq); ++i) keep.push_back({l.wq + i, to.wq + i});
            for (int i = 0; i < std::min(l.ns, to.ns); ++i) keep.push_back({l.ws + i, to.ws + i});
            for (auto& a : keep)
                for (auto& b : keep) Q(a.second, b.second) = P(a.first, b.first);
            s.x.num_wa = x.num_wa = to.na, s.x.num_wq = x.num_wq = to.nq, s.x.num_ws = x.num_ws = to.ns;
            if (to.na > l.na) s.x.wa[to.na - 1] = x.wa[to.na - 1] = Vec2(1, 2);
            if (to.nq > l.nq) s.x.wq[to.nq - 1] = x.wq[to.nq - 1] = rq(r);
            if (to.ns > l.ns) s.x.ws[to.ns - 1] = x.ws[to.ns - 1] = Vec1::Constant(3);
            P = Q;
            l = to;
            blocksP(s.cov, l, Put{P});
            c.count("resized");
        }
        const double bad = rel(denseP(s.cov, l), P, P);
        c.expect(bad < 1e-7, "run_cov", vh::strf("step %d relative error %.3g", k, bad));
        const std::string d = differs(s.x, x, 1e-6);
        c.expect(d.empty(), "run_state", vh::strf("step %d: %s", k, d.c_str()));
        if (!d.empty() || bad >= 1e-7) return;
    }
    c.nontrivial(vh::fnv(P.data(), 8 * P.size()));
}

static void all(vh::Ctx& c, int which)
{
    const int N = which == 0 ? c.n(1200, 30000) : which == 1 ? c.n(400, 10000) : which == 2 ? c.n(2000, 60000) : which == 3 ? c.n(3000, 80000) : c.n(300, 8000);
    for (int i = 0; i < N; ++i)
    {
        if (which == 1)
        {
            if (c.begin()) updateCase<fixMeas>(c, "fix");
            if (c.begin()) updateCase<manyMeas>(c, "many");
            if (c.begin()) updateCase<singleMeas>(c, "single");
            if (c.begin()) updateCase<gateMeas>(c, "gate");
            if (c.begin()) updateCase<idleMeas>(c, "idle");
            continue;
        }
        if (!c.begin()) continue;
        if (which == 0) predictCase(c);
        if (which == 2) stateCase(c);
        if (which == 3) finiteCase(c);
        if (which == 4) runCase(c);
    }
}
}  // namespace mon
}  // namespace ekf
}  // namespace mc

using mc::ekf::mon::all;
VH_GROUP(predict) { all(c, 0); }
VH_GROUP(update) { all(c, 1); }
VH_GROUP(state) { all(c, 2); }
VH_GROUP(limits)
{
    if (c.begin()) mc::ekf::mon::limits(c);
}
VH_GROUP(finite) { all(c, 3); }
VH_GROUP(run) { all(c, 4); }
