// C21: IMU preintegration against an own recursion in rotation matrices, strapdown truth, and
// numerical derivatives of the residual.
#include <Eigen/Cholesky>
#include <Eigen/Eigenvalues>
#include <Eigen/LU>
#include "common/quantized_time.h"
#include "models/imu_model.h"
#include "vh.h"
namespace mc {
namespace models {
static const Vec3 G(0, 0, 9.80665);
typedef Eigen::Matrix3d M3;
typedef Eigen::Matrix<double, 9, 9> M9;
typedef Eigen::Matrix<double, 9, 6> M96;
static M3 hat(const Vec3& w)
{
    M3 m;
    m << 0, -w[2], w[1], w[2], 0, -w[0], -w[1], w[0], 0;
    return m;
}
static M3 expm(const Vec3& w)
{
    const double a = w.norm();
    const M3 k = hat(w);
    if (a < 1e-5) return M3::Identity() + k + k * k / 2 + k * k * k / 6;
    return M3::Identity() + std::sin(a) / a * k + (1 - std::cos(a)) / (a * a) * k * k;
}
static Vec3 logm(const M3& r)
{
    const Vec3 s = 0.5 * Vec3(r(2, 1) - r(1, 2), r(0, 2) - r(2, 0), r(1, 0) - r(0, 1));
    const double n = s.norm(), a = std::atan2(n, 0.5 * (r.trace() - 1));
    return n < 1e-9 ? s : Vec3(s * (a / n));
}
static M3 axes(const math::Quat<double>& q)
{
    const double w = q.arr_[0], x = q.arr_[1], y = q.arr_[2], z = q.arr_[3];
    M3 r;
    r << 1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y), 2 * (x * y + w * z), 1 - 2 * (x * x + z * z),
        2 * (y * z - w * x), 2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y);
    return r;
}
static Vec3 v3(vh::Rng& r, double s) { return Vec3(r.uni(-s, s), r.uni(-s, s), r.uni(-s, s)); }
static math::Quat<double> rq(vh::Rng& r, double s = 1.8)
{
    return math::Quat<double>::exp(r.chance(.1) ? Vec3(0, 0, 0) : v3(r, s));
}
struct Pre  // own preintegration
{
    Vec3 a = Vec3::Zero(), b = Vec3::Zero();
    M3 R = M3::Identity();
    M9 P = M9::Zero();
    M96 D = M96::Zero();
    void step(const meas::ImuSample& s, const meas::ImuSample& e, const Vec6& bias, const Vec6& cov)
    {
        const double dt = (double)(e.t.sec - s.t.sec) + 1e-9 * (double)(e.t.nsec - s.t.nsec);
        const Vec3 acc = (s.accel + e.accel) / 2 - bias.head<3>(), w = (s.gyro + e.gyro) / 2 - bias.tail<3>();
        M9 F = M9::Zero();
        F.block<3, 3>(0, 3).setIdentity();
        F.block<3, 3>(3, 6) = -R * hat(acc);
        F.block<3, 3>(6, 6) = -hat(w);
        M96 B = M96::Zero();
        B.block<3, 3>(3, 0) = -R;
        B.block<3, 3>(6, 3) = -M3::Identity();
        const M9 A = M9::Identity() + F * dt + F * F * (dt * dt / 2);
        P = (A * P * A.transpose() + dt * dt * B * cov.asDiagonal() * B.transpose()).eval();
        D = (A * D + dt * B).eval();
        a += b * dt;
        b += R * acc * dt;
        R = R * expm(w * dt);
    }
    void run(const std::vector<meas::ImuSample>& s, const Vec6& bias, const Vec6& cov)
    {
        for (size_t i = 1; i < s.size(); ++i) step(s[i - 1], s[i], bias, cov);
    }
};
static bool same(const Pre& p, const ImuModel& m, double tol, std::string& what)
{
    const double e[5] = {(p.a - m.state().alpha).norm() / (1 + p.a.norm()), (p.b - m.state().beta).norm() / (1 + p.b.norm()),
                         (p.R - axes(m.state().gamma)).norm(), (p.P - m.covariance()).norm() / (1e-300 + p.P.norm()),
                         (p.D - m.dStatedBias()).norm() / (1e-300 + p.D.norm())};
    const char* n[5] = {"position", "velocity", "attitude", "covariance", "bias_derivative"};
    for (int i = 0; i < 5; ++i)
        if (!(e[i] < tol * (i > 2 ? 100 : 1)))
        {
            what = vh::strf("%s off by %.3g", n[i], e[i]);
            return false;
        }
    return true;
}
struct Case
{
    std::vector<meas::ImuSample> s;
    Vec6 bias, cov;
    double T, amax = 0, wmax = 0, hmax = 0;
};
static Case make(vh::Rng& r, int nmin, bool smooth)
{
    Case c;
    const int n = nmin + (int)(r.chance(.3) ? r.range(0, 3) : r.range(0, 60));
    const double h = r.pick<double>({0.0005, 0.001, 0.0025, 0.01, 0.05}), A = r.pick<double>({1, 10, 50}), W = r.pick<double>({0.05, 1, 6});
    const bool jitter = r.chance(.5);
    c.bias << v3(r, .5), v3(r, .2);
    if (r.chance(.2)) c.bias.setZero();
    for (int i = 0; i < 6; ++i) c.cov[i] = std::pow(10, r.uni(-4, 0));
    meas::ImuSample s;
    s.t = UTCTime(1600000000 + r.range(0, 100000), jitter ? r.range(0, 999999999) : r.range(0, 9999) * 100000);
    s.accel = -G + v3(r, A), s.gyro = v3(r, W);
    for (int i = 0; i <= n; ++i)
    {
        c.s.push_back(s);
        const int64_t ns = jitter ? (int64_t)(h * 1e9 * r.uni(.6, 1.4)) : (int64_t)std::llround(h * 1e9);
        s.t = s.t + UTCTime(0, ns);
        const double k = smooth ? std::min(1.0, h * 5) : 1;
        if (smooth)
            s.accel += v3(r, A * k), s.gyro += v3(r, W * k);
        else
            s.accel = -G + v3(r, A), s.gyro = v3(r, W);
    }
    for (size_t i = 1; i < c.s.size(); ++i)
    {
        const double dt = (c.s[i].t - c.s[i - 1].t).toSec();
        c.hmax = std::max(c.hmax, dt);
    }
    for (auto& x : c.s)
        c.amax = std::max(c.amax, (x.accel - c.bias.head<3>()).norm()), c.wmax = std::max(c.wmax, (x.gyro - c.bias.tail<3>()).norm());
    c.T = (c.s.back().t - c.s.front().t).toSec();
    return c;
}
static ImuModel feed(const Case& c)
{
    ImuModel m(c.s.front(), c.bias, c.cov);
    for (size_t i = 1; i < c.s.size(); ++i) m.integrate(c.s[i]);
    return m;
}

VH_GROUP(integration)
{
    for (int i = 0; i < c.n(1500, 60000); ++i)
    {
        if (!c.begin()) continue;
        auto& r = c.rng;
        const Case k = make(r, 1, r.chance(.3));
        ImuModel m = feed(k);
        Pre p;
        p.run(k.s, k.bias, k.cov);
        c.note(vh::strf("%zu samples over %g s", k.s.size(), k.T));
        std::string what;
        c.expect(same(p, m, 1e-9, what), "preintegration", what);
        c.expect(m.numUpdates() == (int)k.s.size() - 1 && m.t0() == k.s.front().t && m.tf() == k.s.back().t, "interval", "");
        c.expect((m.covariance() - m.covariance().transpose()).norm() < 1e-12 * m.covariance().norm(), "covariance_symmetric", "");
        // where it takes a pose
        const math::DQuat<double> x0(rq(r), v3(r, 1000));
        const Vec3 v0 = v3(r, 40);
        math::DQuat<double> x1;
        Vec3 v1;
        const auto e = m.computeEndState(x0, v0, Out<math::DQuat<double>>(x1), Out<Vec3>(v1));
        const M3 R0 = axes(x0.real());
        const Vec3 P0 = x0.translation();
        const Vec3 pw = P0 + R0 * (v0 * k.T + p.a) + G * (k.T * k.T / 2);
        const Vec3 vw = p.R.transpose() * (v0 + R0.transpose() * G * k.T + p.b);
        c.expect(e.ok(), "end_state_error", "");
        c.expect((axes(x1.real()) - R0 * p.R).norm() < 1e-9 && (x1.translation() - pw).norm() < 1e-9 * (1 + pw.norm()) && (v1 - vw).norm() < 1e-9 * (1 + vw.norm()),
                 "end_state", vh::strf("%.3g m, %.3g m/s", (x1.translation() - pw).norm(), (v1 - vw).norm()));
        // before a second sample nothing moves, and the caller hears of it
        const ImuModel still(k.s.front(), k.bias, k.cov);
        math::DQuat<double> x2(rq(r), v3(r, 1000));
        Vec3 v2 = v3(r, 40);
        const auto e2 = still.computeEndState(x0, v0, Out<math::DQuat<double>>(x2), Out<Vec3>(v2));
        c.expect(!e2.ok() && (x2.translation() - x0.translation()).norm() < 1e-9 && (axes(x2.real()) - R0).norm() < 1e-12 && (v2 - v0).norm() < 1e-12,
                 "end_state_without_time", "");
        // strapdown truth for samples joined by straight lines
        M3 R = R0;
        Vec3 pos = P0, vel = R0 * v0;
        for (size_t j = 1; j < k.s.size(); ++j)
        {
            const double dt = (k.s[j].t - k.s[j - 1].t).toSec(), h = dt / 16;
            for (int q = 0; q < 16; ++q)
            {
                const double l = (q + .5) / 16;
                const Vec3 a = k.s[j - 1].accel * (1 - l) + k.s[j].accel * l - k.bias.head<3>();
                const Vec3 w = k.s[j - 1].gyro * (1 - l) + k.s[j].gyro * l - k.bias.tail<3>();
                const Vec3 acc = G + R * expm(w * (h / 2)) * a;
                pos += vel * h + acc * (h * h / 2);
                vel += acc * h;
                R = R * expm(w * h);
            }
        }
        const double T = k.T, h = k.hmax, A = k.amax, W = k.wmax;
        // first-order integrator: error proportional to the step
        const double ew = T * h * W * W * (.5 + W * h), ev = T * h * A * W + ew * A * T, ep = T * h * A + ev * T;
        c.expect(logm(R.transpose() * axes(x1.real())).norm() < 1e-7 + ew, "truth_attitude",
                 vh::strf("%.3g rad, bound %.3g", logm(R.transpose() * axes(x1.real())).norm(), ew));
        c.expect((axes(x1.real()) * v1 - vel).norm() < 1e-7 * (1 + vel.norm()) + ev, "truth_velocity", vh::strf("%.3g m/s, bound %.3g", (axes(x1.real()) * v1 - vel).norm(), ev));
        c.expect((x1.translation() - pos).norm() < 1e-7 * (1 + pos.norm()) + ep, "truth_position", vh::strf("%.3g m, bound %.3g", (x1.translation() - pos).norm(), ep));
        c.count("samples", k.s.size());
        // weighting
        m.finished();
        const M9 X = m.Xi(), C = m.covariance();
        const double cond = Eigen::JacobiSVD<M9>(C).singularValues()[0] / Eigen::JacobiSVD<M9>(C).singularValues()[8];
        if (cond < 1e12)
        {
            c.expect((X * C * X.transpose() - M9::Identity()).norm() < 1e-8 + cond * 1e-13, "information", vh::strf("%.3g, condition %.3g", (X * C * X.transpose() - M9::Identity()).norm(), cond));
            c.count("weighted");
        }
        c.expect((C - p.P).norm() <= 1e-7 * p.P.norm() + (k.s.size() <= 3 ? 1e-14 : 0), "finish_changes_covariance", "");
        if (W > 0.1) c.nontrivial(vh::fnv(&x1, sizeof x1));
    }
}

VH_GROUP(residual)
{
    for (int i = 0; i < c.n(1500, 60000); ++i)
    {
        if (!c.begin()) continue;
        auto& r = c.rng;
        const Case k = make(r, 4, true);
        ImuModel m = feed(k);
        Pre p;
        p.run(k.s, k.bias, k.cov);
        const bool near = r.chance(.5);
        const math::DQuat<double> x0(rq(r), v3(r, r.chance(.5) ? 10 : 1000));
        const Vec3 v0 = v3(r, 30);
        math::DQuat<double> x1;
        Vec3 v1;
        m.computeEndState(x0, v0, Out<math::DQuat<double>>(x1), Out<Vec3>(v1));
        Vec6 b = k.bias;
        double res[9];
        const double* prm[5] = {x0.data(), x1.data(), v0.data(), v1.data(), b.data()};
        Eigen::Map<Vec9> z(res);
        // the motion it predicts fits the samples
        c.expect(m.Evaluate(prm, res, nullptr), "evaluates", "");
        c.expect(z.norm() < 1e-8 * (1 + x0.translation().norm() + x1.translation().norm()), "zero_at_prediction", vh::strf("%.3g", z.norm()));
        // anywhere else it says by how much it does not
        if (near)
            x1 = x1 * math::DQuat<double>::exp((Vec6() << v3(r, .3), v3(r, 1)).finished());
        else
            x1 = math::DQuat<double>(rq(r), v3(r, 50));
        v1 = v3(r, 30);
        b << k.bias + (Vec6() << v3(r, .05), v3(r, .02)).finished();
        m.Evaluate(prm, res, nullptr);
        const double T = k.T;
        const Vec9 adj = p.D * (b - k.bias);
        const M3 R0 = axes(x0.real()), R1 = axes(x1.real()), Ga = p.R * expm(adj.tail<3>());
        const M3 E = Ga.transpose() * R0.transpose() * R1;
        const Vec3 wr = logm(E);
        if (wr.norm() > 2.9) continue;
        Vec9 want;
        want << R0.transpose() * (x1.translation() - x0.translation() - G * (T * T / 2)) - v0 * T - (p.a + adj.head<3>()),
            Ga * v1 - v0 - R0.transpose() * G * T - (p.b + adj.segment<3>(3)), wr;
        c.expect((z - want).norm() < 1e-8 * (1 + want.norm() + x0.translation().norm()), "value", vh::strf("%.3g of %.3g", (z - want).norm(), want.norm()));
        // derivatives
        Eigen::Matrix<double, 9, 8, Eigen::RowMajor> J0, J1;
        Eigen::Matrix<double, 9, 3, Eigen::RowMajor> J2, J3;
        Eigen::Matrix<double, 9, 6, Eigen::RowMajor> J4;
        J0.setConstant(NAN), J1 = J0, J2.setConstant(NAN), J3 = J2, J4.setConstant(NAN);
        double res2[9];
        double* jac[5] = {J0.data(), J1.data(), J2.data(), J3.data(), J4.data()};
        const int only = r.chance(.5) ? -1 : r.range(0, 4);
        if (only >= 0)
            for (int j = 0; j < 5; ++j)
                if (j != only) jac[j] = nullptr;
        m.Evaluate(prm, res2, jac);
        c.expect((Eigen::Map<Vec9>(res2) - z).norm() < 1e-12 * (1 + z.norm()), "value_with_jacobian", "");
        auto at = [&](const math::DQuat<double>& a, const math::DQuat<double>& e, const Vec3& u, const Vec3& w, const Vec6& bb) {
            Vec9 o;
            const double* q[5] = {a.data(), e.data(), u.data(), w.data(), bb.data()};
            m.Evaluate(q, o.data(), nullptr);
            return o;
        };
        const double e = 1e-5, reach = 1 + x0.translation().norm() + x1.translation().norm();
        const double tol = 1e-6 * (1 + want.norm()) + 1e-9 * reach + 1e-14 * reach / e;
        auto chk = [&](const char* key, const Eigen::MatrixXd& J, const Eigen::MatrixXd& N) {
            c.expect((J - N).norm() < tol * 5 + 2e-5 * N.norm(), key, vh::strf("off by %.3g of %.3g (tolerance %.3g)", (J - N).norm(), N.norm(), tol));
        };
        Eigen::MatrixXd N(9, 6);
        if (jac[0])
        {
            for (int j = 0; j < 6; ++j)
            {
                const Vec6 d = Vec6::Unit(j) * e;
                N.col(j) = (at(x0 * math::DQuat<double>::exp(d), x1, v0, v1, b) - at(x0 * math::DQuat<double>::exp(-d), x1, v0, v1, b)) / (2 * e);
            }
            chk("start_pose_jacobian", J0 * x0.dParamDGen(), N);
        }
        if (jac[1])
        {
            for (int j = 0; j < 6; ++j)
            {
                const Vec6 d = Vec6::Unit(j) * e;
                N.col(j) = (at(x0, x1 * math::DQuat<double>::exp(d), v0, v1, b) - at(x0, x1 * math::DQuat<double>::exp(-d), v0, v1, b)) / (2 * e);
            }
            chk("end_pose_jacobian", J1 * x1.dParamDGen(), N);
        }
        if (jac[4])
        {
            for (int j = 0; j < 6; ++j)
            {
                const Vec6 d = Vec6::Unit(j) * e;
                N.col(j) = (at(x0, x1, v0, v1, b + d) - at(x0, x1, v0, v1, b - d)) / (2 * e);
            }
            chk("bias_jacobian", J4, N);
        }
        Eigen::MatrixXd N3(9, 3);
        if (jac[2])
        {
            for (int j = 0; j < 3; ++j) N3.col(j) = (at(x0, x1, v0 + Vec3::Unit(j) * e, v1, b) - at(x0, x1, v0 - Vec3::Unit(j) * e, v1, b)) / (2 * e);
            chk("start_velocity_jacobian", J2, N3);
        }
        if (jac[3])
        {
            for (int j = 0; j < 3; ++j) N3.col(j) = (at(x0, x1, v0, v1 + Vec3::Unit(j) * e, b) - at(x0, x1, v0, v1 - Vec3::Unit(j) * e, b)) / (2 * e);
            chk("end_velocity_jacobian", J3, N3);
        }
        c.nontrivial(vh::fnv(res, sizeof res));
    }
}

VH_GROUP(bias_correction)
{
    for (int i = 0; i < c.n(800, 30000); ++i)
    {
        if (!c.begin()) continue;
        auto& r = c.rng;
        const Case k = make(r, 30, true);
        if (k.wmax * k.hmax > 0.05) continue;  // the bias derivative is integrated to second order in the angle per step
        ImuModel m = feed(k);
        Case k2 = k;
        k2.bias += (Vec6() << v3(r, 1e-4), v3(r, 1e-4)).finished();
        ImuModel m2 = feed(k2);
        const math::DQuat<double> x0(rq(r), v3(r, 10));
        const Vec3 v0 = v3(r, 30);
        math::DQuat<double> x1;
        Vec3 v1;
        m2.computeEndState(x0, v0, Out<math::DQuat<double>>(x1), Out<Vec3>(v1));
        const double* prm[5] = {x0.data(), x1.data(), v0.data(), v1.data(), k2.bias.data()};
        Vec9 z;
        m.Evaluate(prm, z.data(), nullptr);
        // first-order correction: wrong by a fraction (step / interval) of itself
        const double T = k.T, d = (k2.bias - k.bias).norm(), n = k.s.size() - 1;
        const double ang = d * T, vel = d * T * (1 + k.amax * T) + d * T * v1.norm() , pos = vel * T;
        const double q = 4 * (1 + k.wmax * T) / n + 1e-3 * (1 + T * (1 + k.wmax));
        c.expect(z.tail<3>().norm() < q * ang + 1e-10, "attitude", vh::strf("%.3g of %.3g", z.tail<3>().norm(), ang));
        c.expect(z.segment<3>(3).norm() < q * vel + 1e-9, "velocity", vh::strf("%.3g of %.3g", z.segment<3>(3).norm(), vel));
        c.expect(z.head<3>().norm() < q * pos + 1e-9, "position", vh::strf("%.3g of %.3g", z.head<3>().norm(), pos));
        c.nontrivial(vh::fnv(z.data(), 72));
    }
}

VH_GROUP(splitting)
{
    for (int i = 0; i < c.n(1500, 100000); ++i)
    {
        if (!c.begin()) continue;
        auto& r = c.rng;
        Case k = make(r, 2, r.chance(.5));
        ImuModel whole = feed(k);
        std::vector<ImuModel> parts;
        parts.reserve(4);
        parts.push_back(feed(k));
        std::vector<std::vector<meas::ImuSample>> want{k.s};
        double slack = 0;
        for (int q = r.range(1, 3); q > 0; --q)
        {
            std::vector<meas::ImuSample>& s = want.back();
            if (s.size() < 3) break;
            const size_t j = r.range(1, s.size() - 2);
            UTCTime t = s[j].t;
            switch (r.range(0, 3))
            {
            case 0: break;                                                              // on a sample
            case 1: t = t + UTCTime(0, r.range(-140000, 140000)); break;                // next to one
            default: t = t + UTCTime(0, (int64_t)((s[j + 1].t - s[j].t).toSec() * 1e9 * r.unit()));
            }
            t = t.quantized();
            const auto ns = [](const UTCTime& x) { return x.sec * 1000000000LL + x.nsec; };
            if (ns(t) - ns(s.front().t) < 60000 || ns(s.back().t) - ns(t) < 60000) continue;
            c.note(vh::strf("split %zu samples %lld ns after sample %zu", s.size(), (long long)(ns(t) - ns(s[j].t)), j));
            parts.push_back(parts.back().split(t));
            // own split
            size_t hi = 0;
            while (ns(s[hi].t) - ns(t) <= 50000) ++hi;
            const bool on = ns(t) - ns(s[hi - 1].t) <= 50000 ;
            const double l = (double)(ns(t) - ns(s[hi - 1].t)) / (double)(ns(s[hi].t) - ns(s[hi - 1].t));
            meas::ImuSample x;
            x.t = t;
            x.accel = s[hi - 1].accel * (1 - l) + s[hi].accel * l;
            x.gyro = s[hi - 1].gyro * (1 - l) + s[hi].gyro * l;
            std::vector<meas::ImuSample> second{x};
            second.insert(second.end(), s.begin() + hi, s.end());
            s.resize(hi);
            if (!on) s.push_back(x);
            if (on) slack += 1e-9 * std::abs((double)(ns(t) - ns(s.back().t)));
            want.push_back(second);
            c.count(on ? "on_sample" : "between");
        }
        for (size_t q = 0; q < parts.size(); ++q)
        {
            Pre p;
            p.run(want[q], k.bias, k.cov);
            std::string what;
            c.expect(same(p, parts[q], 1e-9, what), "part", vh::strf("part %zu of %zu: %s", q + 1, parts.size(), what.c_str()));
            c.expect(parts[q].t0() == want[q].front().t && parts[q].tf() == want[q].back().t && parts[q].numUpdates() == (int)want[q].size() - 1, "part_interval",
                     vh::strf("part %zu of %zu", q + 1, parts.size()));
        }
        // together they cover the whole
        math::DQuat<double> x(rq(r), v3(r, 100)), y, y2;
        Vec3 v = v3(r, 20), w, w2;
        whole.computeEndState(x, v, Out<math::DQuat<double>>(y), Out<Vec3>(w));
        for (auto& m : parts)
        {
            const auto e = m.computeEndState(x, v, Out<math::DQuat<double>>(y2), Out<Vec3>(w2));
            c.expect(e.ok(), "part_end_state", "");
            x = y2, v = w2;
        }
        const double h = k.hmax, A = k.amax + 10, W = k.wmax, T = k.T;
        const double ea = (h * h * W * W + slack * W) * (parts.size() - 1) * 1.5 + 1e-9;
        const double ev = ((h * h * A * W + slack * A) + ea * A * T) * (parts.size() - 1) * 2 + ea * (v.norm() + 1) + 1e-8, ep = ev * T * 2 + (h * h * A + slack * 40) * (parts.size() - 1) + 1e-8;
        c.expect(logm(axes(x.real()).transpose() * axes(y.real())).norm() < ea, "composed_attitude", vh::strf("%.3g rad, bound %.3g", logm(axes(x.real()).transpose() * axes(y.real())).norm(), ea));
        c.expect((v - w).norm() < ev, "composed_velocity", vh::strf("%.3g m/s, bound %.3g", (v - w).norm(), ev));
        c.expect((x.translation() - y.translation()).norm() < ep, "composed_position", vh::strf("%.3g m, bound %.3g", (x.translation() - y.translation()).norm(), ep));
        if (parts.size() > 1) c.nontrivial(vh::fnv(&x, sizeof x));
    }
}

// the rate at which two motions drift apart
VH_GROUP(error_rate)
{
    for (int i = 0; i < c.n(1500, 40000); ++i)
    {
        if (!c.begin()) continue;
        auto& r = c.rng;
        meas::ImuSample u;
        u.t = UTCTime(1600000000 + r.range(0, 1000), r.range(0, 999999999));
        u.accel = v3(r, 20), u.gyro = v3(r, 3);
        Vec6 bias = (Vec6() << v3(r, 1), v3(r, .3)).finished();
        if (r.chance(.2)) bias.setZero();
        const ImuModel model(u, bias, Vec6::Constant(1e-4));
        ImuState x;
        x.alpha = v3(r, 100), x.beta = v3(r, 30), x.gamma = rq(r);
        Vec9 dv = (Vec9() << v3(r, 1), v3(r, 1), v3(r, 1)).finished();
        Vec6 eta = (Vec6() << v3(r, 1), v3(r, 1)).finished();
        if (r.chance(.2)) dv.setZero();
        if (r.chance(.2)) eta.setZero();
        ImuErrorState d, rate;
        d = dv;
        rate = Vec9(Vec9::Constant(NAN));
        model.errorStateDynamics(x, d, u, eta, Out<ImuErrorState>(rate));
        // nominal and true motion over a short time; the true one has no bias and no noise
        struct M { Vec3 a, b; M3 R; };
        const double s = 1e-4, e = 1e-4;
        auto apart = [&](double k, double h) {
            auto go = [&](M m, const Vec3& acc, const Vec3& w) { return M{m.a + h * m.b + .5 * h * h * (m.R * acc), m.b + h * (m.R * acc), m.R * expm(h * w)}; };
            const Vec3 acc = u.accel - bias.head<3>(), w = u.gyro - bias.tail<3>();
            const M n = go({x.alpha, x.beta, axes(x.gamma)}, acc, w);
            const M t = go({x.alpha + k * dv.head<3>(), x.beta + k * dv.segment<3>(3), axes(x.gamma) * expm(k * dv.tail<3>())}, acc - k * eta.head<3>(), w - k * eta.tail<3>());
            return (Vec9() << t.a - n.a, t.b - n.b, logm(n.R.transpose() * t.R)).finished();
        };
        const Vec9 want = ((apart(s, e) - apart(-s, e)) - (apart(s, -e) - apart(-s, -e))) / (4 * s * e);
        const double tol = 1e-4 * (1 + u.accel.norm() + u.gyro.norm());
        c.expect((want - rate).head<3>().norm() < tol, "error_rate_position", vh::strf("%.3g", (want - rate).head<3>().norm()));
        c.expect((want - rate).segment<3>(3).norm() < tol, "error_rate_velocity", vh::strf("%.3g", (want - rate).segment<3>(3).norm()));
        c.expect((want - rate).tail<3>().norm() < tol, "error_rate_attitude", vh::strf("%.3g", (want - rate).tail<3>().norm()));
        // and as the model's own matrices say
        ImuErrorState f;
        Mat9 A = Mat9::Constant(NAN);
        Mat96 B = Mat96::Constant(NAN);
        model.dynamics(x, u, Out<ImuErrorState>(f), Out<Mat9>(A), Out<Mat96>(B));
        const Vec9 lin = A * dv + B * eta;
        c.expect((lin - want).norm() < tol, "error_rate_matrices", vh::strf("%.3g", (lin - want).norm()));
        c.nontrivial(vh::fnv(dv.data(), 72, vh::fnv(eta.data(), 48)));
    }
}

VH_GROUP(states)
{
    for (int i = 0; i < c.n(2000, 50000); ++i)
    {
        if (!c.begin()) continue;
        auto& r = c.rng;
        ImuState x, y;
        x.alpha = v3(r, 10), x.beta = v3(r, 10), x.gamma = rq(r);
        y.alpha = v3(r, 10), y.beta = v3(r, 10), y.gamma = rq(r);
        ImuErrorState d;
        const Vec9 dv = (Vec9() << v3(r, 3), v3(r, 3), v3(r, r.chance(.2) ? 1e-6 : 1.7)).finished();
        d = dv;
        const ImuState xd = x + d;
        ImuState x2 = x;
        x2 += d;
        c.expect((xd.alpha - x.alpha - dv.head<3>()).norm() < 1e-12 && (xd.beta - x.beta - dv.segment<3>(3)).norm() < 1e-12 &&
                     (axes(xd.gamma) - axes(x.gamma) * expm(dv.tail<3>())).norm() < 1e-12,
                 "plus", "");
        c.expect((xd.alpha - x2.alpha).norm() + (xd.beta - x2.beta).norm() + (axes(xd.gamma) - axes(x2.gamma)).norm() < 1e-12, "plus_in_place", "");
        const ImuErrorState back = xd - x;
        c.expect((back - dv).norm() < 1e-8, "minus_undoes_plus", vh::strf("%.3g", (back - dv).norm()));
        const ImuErrorState yx = y - x;
        const ImuState y2 = x + yx;
        c.expect((y2.alpha - y.alpha).norm() + (y2.beta - y.beta).norm() + (axes(y2.gamma) - axes(y.gamma)).norm() < 1e-8, "plus_undoes_minus", "");
        // a copy of an error is one's own
        auto own = [&](ImuErrorState& e) {
            return (const double*)e.alpha.data() == e.data() && (const double*)e.beta.data() == e.data() + 3 && (const double*)e.gamma.data() == e.data() + 6;
        };
        ImuErrorState cp = d;
        cp.alpha += Vec3(1, 2, 3);
        cp.gamma = Vec3(0, 0, 0);
        c.expect(own(cp) && (d - dv).norm() == 0 && (cp.head<3>() - dv.head<3>() - Vec3(1, 2, 3)).norm() < 1e-12 && cp.tail<3>().norm() == 0, "copy", "");
        ImuErrorState as;
        as = d;
        c.expect(own(as) && (as - dv).norm() == 0 && (Vec3(as.beta) - dv.segment<3>(3)).norm() == 0, "assignment", "");
        std::vector<ImuErrorState> vec(3, d);
        vec.push_back(d);
        bool ok = true;
        for (auto& e : vec) ok = ok && own(e) && (e - dv).norm() == 0;
        c.expect(ok, "container", "");
        Eigen::Matrix<double, 10, 1> flat;
        for (int j = 0; j < 10; ++j) flat[j] = x(j);
        const ImuState x3(flat);
        c.expect((x3.alpha - x.alpha).norm() + (x3.beta - x.beta).norm() + (x3.gamma.arr_ - x.gamma.arr_).norm() == 0, "elements", "");
        c.nontrivial(vh::fnv(dv.data(), 72));
    }
}
}  // namespace models
}  // namespace mc
