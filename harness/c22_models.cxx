// C22: the factor-graph sensor models (pseudorange/Doppler, relative carrier phase, clock dynamics,
// pose anchor) against the observation equations, and their derivatives against central differences.
#include <Eigen/Cholesky>
#include <Eigen/LU>
#include "models/gnss_dynamics_model.h"
#include "models/pose_error_model.h"
#include "models/prange_model.h"
#include "models/relative_carrier_phase_model.h"
#include "sat_common.h"
#include "utils/wgs84.h"
namespace mc {
namespace models {
using DQ = math::DQuat<double>;
typedef Eigen::Matrix3d M3;
static const double CL = 299792458.0, OE = 7.2921151467e-5;
static M3 axes(const math::Quat<double>& q)
{
    const double w = q.arr_[0], x = q.arr_[1], y = q.arr_[2], z = q.arr_[3];
    M3 r;
    r << 1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y), 2 * (x * y + w * z), 1 - 2 * (x * x + z * z),
        2 * (y * z - w * x), 2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y);
    return r;
}
static Vec3 v3(vh::Rng& r, double s) { return Vec3(r.uni(-s, s), r.uni(-s, s), r.uni(-s, s)); }
static math::Quat<double> rq(vh::Rng& r) { return math::Quat<double>::exp(r.chance(.1) ? Vec3(0, 0, 0) : v3(r, 1.8)); }
static Vec3 at(const DQ& T, const Vec3& p) { return T.translation() + axes(T.real()) * p; }

struct World
{
    DQ e2r;
    Vec3 rec;
    std::unique_ptr<satellite::SatelliteBase> sat;
    UTCTime t;
    int freq;
    double lambda;
};
static World world(vh::Rng& r)
{
    World w;
    const int sys = r.range(0, 2);
    KeplerianEphemeris dummy;
    auto gps = std::make_unique<satellite::Satellite<GPSEphemeris>>(GnssID::GPS, 5);
    auto gal = std::make_unique<satellite::Satellite<GalileoEphemeris>>(GnssID::Galileo, 5);
    auto glo = std::make_unique<satellite::Satellite<GlonassEphemeris>>(GnssID::Glonass, 5);
    if (sys == 0)
    {
        GPSEphemeris e(5);
        kepler(r, e, false);
        e.gnssID = GnssID::GPS, e.sat = 5;
        gps->addEph(e);
        w.t = e.toe;
        w.freq = r.pick<int>({(int)GPSEphemeris::L1, (int)GPSEphemeris::L2, (int)GPSEphemeris::L5});
        w.lambda = CL / (w.freq == GPSEphemeris::L1 ? 1575.42e6 : w.freq == GPSEphemeris::L2 ? 1227.6e6 : 1176.45e6);
        w.sat = std::move(gps);
    }
    else if (sys == 1)
    {
        GalileoEphemeris e(5);
        kepler(r, e, true);
        e.gnssID = GnssID::Galileo, e.sat = 5;
        gal->addEph(e);
        w.t = e.toe;
        struct Band { int id; double hz; };
        const Band b = r.pick<Band>({{GalileoEphemeris::E1, 1575.42e6}, {GalileoEphemeris::E1, 1575.42e6}, {GalileoEphemeris::E5a, 1176.45e6},
                                     {GalileoEphemeris::E5b, 1207.14e6}, {GalileoEphemeris::E5ab, 1191.795e6}, {GalileoEphemeris::E6, 1278.75e6}});
        w.freq = b.id;
        w.lambda = CL / b.hz;
        w.sat = std::move(gal);
    }
    else
    {
        GlonassEphemeris e(5);
        glonass(r, e);
        e.gnssID = GnssID::Glonass, e.sat = 5;
        glo->addEph(e);
        w.t = e.toe;
        w.freq = r.pick<int>({(int)GlonassEphemeris::L1, (int)GlonassEphemeris::L2, (int)GlonassEphemeris::L3});
        w.lambda = CL / (w.freq == GlonassEphemeris::L1 ? 1602e6 + 562500.0 * e.slot : w.freq == GlonassEphemeris::L2 ? 1246e6 + 437500.0 * e.slot : 1202.025e6);
        w.sat = std::move(glo);
    }
    w.t = w.t + UTCTime(r.range(-800, 800), r.range(0, 999999999));
    satellite::SatelliteState s;
    w.sat->getState(w.t, Out<satellite::SatelliteState>(s));
    // a receiver that sees it
    Vec3 up = (s.pos.normalized() + v3(r, .5)).normalized();
    w.rec = up * 6.37e6;
    Vec3 lla = utils::WGS84::ecef2lla(w.rec);
    lla[2] = r.uni(-50, 5000);
    w.rec = utils::WGS84::lla2ecef(lla);
    w.e2r = utils::WGS84::dq_ecef2ned(w.rec);
    return w;
}
// transmission time by bisection-free fixed point, iterated to convergence
static satellite::SatelliteState sent(const World& w, const UTCTime& t, const Vec3& rec)
{
    satellite::SatelliteState s;
    double tau = 0.07;
    for (int i = 0; i < 12; ++i)
    {
        w.sat->getState(t - tau, Out<satellite::SatelliteState>(s));
        const double sag = OE * (s.pos.x() * rec.y() - s.pos.y() * rec.x()) / CL;
        tau = ((s.pos - rec).norm() + sag) / CL;
    }
    return s;
}
static double num(const std::function<double(double)>& f, double e) { return (f(e) - f(-e)) / (2 * e); }

VH_GROUP(pseudorange)
{
    for (int i = 0; i < c.n(1200, 50000); ++i)
    {
        if (!c.begin()) continue;
        auto& r = c.rng;
        World w = world(r);
        meas::GnssObservation obs;
        obs.setZero();
        obs.t = w.t;
        obs.gnss_id = w.sat->gnssId(), obs.sat_num = 5;
        obs.pseudorange = r.uni(1.9e7, 2.9e7), obs.doppler = r.uni(-4000, 4000);
        M3 cov = Vec3(std::pow(10, r.uni(-2, 2)), std::pow(10, r.uni(-3, 1)), std::pow(10, r.uni(-4, 1))).asDiagonal();
        const bool corr = r.chance(.4);
        if (corr)
        {
            M3 L = M3::Identity();
            L(1, 0) = r.uni(-.8, .8), L(2, 0) = r.uni(-.8, .8), L(2, 1) = r.uni(-.8, .8);
            const M3 d = cov.diagonal().cwiseSqrt().asDiagonal();
            cov = (d * L * L.transpose() * d).eval();
        }
        PseudorangeModel f(obs, *w.sat, w.rec, cov, w.e2r);
        const satellite::SatelliteState s = sent(w, w.t, w.rec);
        satellite::AtmosphericCorrection atm;
        satellite::computeAtmCorrection(w.t, w.rec, s, Out<satellite::AtmosphericCorrection>(atm));
        const double sag = OE * (s.pos.x() * w.rec.y() - s.pos.y() * w.rec.x()) / CL;
        const DQ n2b(rq(r), v3(r, r.chance(.5) ? 5 : 2000)), r2n(math::Quat<double>::exp(Vec3(v3(r, .1) + Vec3(0, 0, r.uni(-3, 3)))), v3(r, r.chance(.3) ? 0 : 50));
        const Vec3 v = v3(r, 40), arm = v3(r, 2);
        const Vec2 clk(r.uni(-1e6, 1e6), r.uni(-1e3, 1e3));
        const double sw = r.chance(.2) ? 0 : r.chance(.3) ? 1 : r.uni(0, 1);
        const M3 W = cov.inverse();
        struct P { DQ n2b; Vec3 v; Vec2 clk; DQ r2n; double sw; Vec3 arm; } x{n2b, v, clk, r2n, sw, arm};
        auto model = [&](const P& y, double sg) {
            const Vec3 p = at(w.e2r, at(y.r2n, at(y.n2b, y.arm)));
            const Vec3 ve = axes(w.e2r.real()) * (axes(y.r2n.real()) * (axes(y.n2b.real()) * y.v));
            const Vec3 los = s.pos - p, e = los.normalized();
            const double rho = los.norm() + sag + atm.ionospheric_delay_m + atm.tropospheric_delay_m + CL * (y.clk[0] * 1e-9 - s.clk[0]);
            const double rot = OE / CL * (s.vel.x() * p.y() + s.pos.x() * ve.y() - s.vel.y() * p.x() - s.pos.y() * ve.x());
            const double dop = (s.vel - ve).dot(e) + sg * rot + CL * (y.clk[1] * 1e-9 - s.clk[1]);
            return Vec3(y.sw * (rho - obs.pseudorange), y.sw * (dop - obs.doppler), 1 - y.sw);
        };
        auto eval = [&](const P& y) {
            const double* prm[6] = {y.n2b.data(), y.v.data(), y.clk.data(), y.r2n.data(), &y.sw, y.arm.data()};
            Vec3 o;
            c.expect(f.Evaluate(prm, o.data(), nullptr), "evaluates", "");
            return o;
        };
        const Vec3 res = eval(x), a = model(x, 1), b = model(x, -1);
        auto cost = [&](const Vec3& q) { return std::sqrt(q.dot(W * q)); };
        // the line of sight may be divided by the range with the Earth-rotation term in it
        const Vec3 pr = at(w.e2r, at(r2n, at(n2b, arm)));
        const double rr = sw * 3e-6 * std::abs((s.vel - axes(w.e2r.real()) * (axes(r2n.real()) * (axes(n2b.real()) * v))).dot((s.pos - pr).normalized()));
        // weighting: whatever square root is used, the weighted length is fixed
        const double ca = cost(a), cb = cost(b), got = res.norm(), sc = std::sqrt(W.diagonal().maxCoeff());
        c.expect(std::min(std::abs(got - ca), std::abs(got - cb)) < (2e-3 + 3e-5) * std::sqrt(W(0, 0)) + (1e-4 + rr) * std::sqrt(W(1, 1)) + 1e-9 * ca, "cost",
                 vh::strf("%.9g, expected %.9g or %.9g", got, ca, cb));
        if (!corr)
        {
            Vec3 u;
            for (int k = 0; k < 3; ++k) u[k] = std::abs(res[k]) * std::sqrt(cov(k, k));
            c.expect(std::abs(u[0] - std::abs(a[0])) < 2e-3, "range", vh::strf("%.6f m off", u[0] - std::abs(a[0])));
            c.expect(std::min(std::abs(u[1] - std::abs(a[1])), std::abs(u[1] - std::abs(b[1]))) < 1e-4 + rr, "doppler",
                     vh::strf("%.6f or %.6f m/s off", u[1] - std::abs(a[1]), u[1] - std::abs(b[1])));
            c.expect(std::abs(u[2] - (1 - sw)) < 1e-9, "switch", "");
        }
        // derivatives
        MatRM38 J0, J3;
        Eigen::Matrix<double, 3, 3, Eigen::RowMajor> J1, J5;
        Eigen::Matrix<double, 3, 2, Eigen::RowMajor> J2;
        Vec3 J4;
        J0.setConstant(NAN), J3 = J0, J1.setConstant(NAN), J5 = J1, J2.setConstant(NAN), J4.setConstant(NAN);
        double* jac[6] = {J0.data(), J1.data(), J2.data(), J3.data(), J4.data(), J5.data()};
        if (r.chance(.4))
        {
            const int only = r.range(0, 5);
            for (int k = 0; k < 6; ++k)
                if (k != only) jac[k] = nullptr;
        }
        const double* prm[6] = {x.n2b.data(), x.v.data(), x.clk.data(), x.r2n.data(), &x.sw, x.arm.data()};
        Vec3 res2;
        f.Evaluate(prm, res2.data(), jac);
        c.expect((res2 - res).norm() < 1e-12 * (1 + res.norm()), "value_with_jacobian", "");
        // compare in unweighted units: undo the weighting with the square root found numerically
        M3 Wm;  // W = Wm^T Wm, upper triangular as documented
        Wm = W.llt().matrixL().transpose();
        const M3 un = Wm.inverse();
        const double los = (s.pos - w.rec).norm(), slip = 1.3 * (s.vel.norm() + 60) / los + OE / CL * 2e4, spin = OE / CL * 3e7 * 2;
        auto chk = [&](const char* key, const Eigen::MatrixXd& J, const std::function<void(P&, int, double)>& mv, int n, const std::function<double(int)>& step,
                       const std::function<double(int)>& reach, const std::function<double(int)>& speed) {
            for (int k = 0; k < n; ++k)
            {
                const double e = step(k);
                P p = x, m = x;
                mv(p, k, e), mv(m, k, -e);
                const Vec3 N = un * (eval(p) - eval(m)) / (2 * e), G = un * J.col(k), d = (N - G).cwiseAbs();
                const double noise = 1e-8 / e * (1 + (corr ? 30 : 0));
                c.expect(d[0] < 1e-6 * (std::abs(N[0]) + reach(k)) + noise, vh::strf("%s_range", key), vh::strf("column %d: %.6g, expected %.6g", k, G[0], N[0]));
                c.expect(d[1] < slip * reach(k) + (spin + 1e-5) * (speed(k) + std::abs(N[1])) + noise, vh::strf("%s_doppler", key),
                         vh::strf("column %d: %.6g, expected %.6g", k, G[1], N[1]));
                c.expect(d[2] < 1e-6 * (1 + std::abs(N[2])) + noise * 1e-3, vh::strf("%s_switch", key), vh::strf("column %d: %.6g, expected %.6g", k, G[2], N[2]));
            }
        };
        const double R = n2b.translation().norm() + arm.norm();
        auto one = [](double q) { return [q](int) { return q; }; };
        auto pose = [&](double rot) { return [rot](int k) { return k < 3 ? rot : 1.0; }; };
        auto dq = [](const DQ& q, int k, double e) { return q * DQ::exp(Vec6(Vec6::Unit(k) * e)); };
        auto spd = [&](int k) { return k < 3 ? v.norm() : 0.0; };
        auto est = [&](double rr) { return [rr](int k) { return k < 3 ? std::min(1e-3, .1 / (1e-2 + rr)) : .1; }; };
        if (jac[0]) chk("pose", J0 * n2b.dParamDGen(), [&](P& y, int k, double e) { y.n2b = dq(n2b, k, e); }, 6, est(arm.norm()), pose(arm.norm()), spd);
        if (jac[3]) chk("level_frame", J3 * r2n.dParamDGen(), [&](P& y, int k, double e) { y.r2n = dq(r2n, k, e); }, 6, est(R), pose(R), spd);
        if (jac[1]) chk("velocity", J1, [&](P& y, int k, double e) { y.v[k] += e; }, 3, one(.1), one(0), one(1));
        if (jac[2]) chk("clock", J2, [&](P& y, int k, double e) { y.clk[k] += e; }, 2, one(1), one(0), one(0));
        if (jac[4]) chk("switch", J4, [&](P& y, int, double e) { y.sw += e; }, 1, one(.01), one(0), one(0));
        if (jac[5]) chk("lever_arm", J5, [&](P& y, int k, double e) { y.arm[k] += e; }, 3, one(.1), one(1), one(0));
        c.count(corr ? "correlated" : "diagonal");
        if (sw != 0) c.nontrivial(vh::fnv(res.data(), 24));
    }
}

VH_GROUP(carrier_phase)
{
    for (int i = 0; i < c.n(1200, 50000); ++i)
    {
        if (!c.begin()) continue;
        auto& r = c.rng;
        World w = world(r);
        const UTCTime t2 = w.t + r.pick<double>({0.1, 1, 5, 30});
        meas::GnssObservation o1, o2;
        o1.setZero(), o2.setZero();
        o1.t = w.t, o2.t = t2;
        o1.gnss_id = o2.gnss_id = w.sat->gnssId();
        o1.sat_num = o2.sat_num = 5;
        o1.freq = o2.freq = w.freq;
        const satellite::SatelliteState s[2] = {sent(w, w.t, w.rec), sent(w, t2, w.rec)};
        struct P { DQ a, b; Vec2 ca, cb; double sa, sb; DQ r2n; Vec3 arm; };
        const P x{DQ(rq(r), v3(r, 1000)), DQ(rq(r), v3(r, 1000)), Vec2(r.uni(-1e6, 1e6), 1), Vec2(r.uni(-1e6, 1e6), 1), r.uni(0, 1), r.uni(0, 1),
                  DQ(math::Quat<double>::exp(Vec3(v3(r, .1) + Vec3(0, 0, r.uni(-3, 3)))), v3(r, 50)), v3(r, 2)};
        auto metres = [&](const P& y) {
            double m[2];
            for (int k = 0; k < 2; ++k)
            {
                const Vec3 p = at(w.e2r, at(y.r2n, at(k ? y.b : y.a, y.arm)));
                m[k] = (s[k].pos - p).norm() + OE * (s[k].pos.x() * p.y() - s[k].pos.y() * p.x()) / CL + CL * ((k ? y.cb : y.ca)[0] * 1e-9 - s[k].clk[0]);
            }
            return m[1] - m[0];
        };
        const double Xi = std::pow(10, r.uni(-1, 2));
        // the phases a receiver without noise would report
        const double dPhi = metres(x) / w.lambda + r.uni(-50, 50);
        o1.carrier_phase = r.range(-1000000, 1000000);
        o2.carrier_phase = o1.carrier_phase + dPhi;
        RelativeCarrierPhase f(o1, o2, *w.sat, w.rec, w.e2r, Xi);
        auto eval = [&](const P& y) {
            const double* prm[8] = {y.a.data(), y.b.data(), y.ca.data(), y.cb.data(), &y.sa, &y.sb, y.r2n.data(), y.arm.data()};
            double o;
            f.Evaluate(prm, &o, nullptr);
            return o;
        };
        const double got = eval(x), gain = Xi * x.sa * x.sb, m = metres(x);
        const double want = gain * (dPhi - m / w.lambda), wrongUnit = gain * (dPhi - m * w.lambda);
        const double tol = gain * (3e-3 / w.lambda + 1e-9 * std::abs(dPhi)) + 1e-9;
        if (std::abs(got - want) >= tol)
            c.expect(false, std::abs(got - wrongUnit) < tol ? "metres_times_wavelength" : "value", vh::strf("%.9g, expected %.9g (%.9g were cycles metres times wavelength)", got, want, wrongUnit));
        c.expect(std::abs(w.sat->carrierWavelength(w.freq) - w.lambda) < 1e-9, "wavelength", "");
        // derivatives of the value returned
        Vec8 J0, J1, J6;
        Vec2 J2, J3;
        double J4 = NAN, J5 = NAN;
        Vec3 J7;
        J0.setConstant(NAN), J1 = J0, J6 = J0, J2.setConstant(NAN), J3 = J2, J7.setConstant(NAN);
        double* jac[8] = {J0.data(), J1.data(), J2.data(), J3.data(), &J4, &J5, J6.data(), J7.data()};
        if (r.chance(.4))
        {
            const int only = r.range(0, 7);
            for (int k = 0; k < 8; ++k)
                if (k != only) jac[k] = nullptr;
        }
        const double* prm[8] = {x.a.data(), x.b.data(), x.ca.data(), x.cb.data(), &x.sa, &x.sb, x.r2n.data(), x.arm.data()};
        double res2;
        f.Evaluate(prm, &res2, jac);
        c.expect(std::abs(res2 - got) < 1e-12 * (1 + std::abs(got)), "value_with_jacobian", "");
        // in metres, whatever the unit of the residual; noise of the cancellation of two ranges
        const double per = gain * (w.lambda), lim = 1e-8;
        auto chk = [&](const char* key, const Eigen::VectorXd& J, const std::function<void(P&, int, double)>& mv, const std::function<double(int)>& step,
                       const std::function<double(int)>& reach) {
            for (int k = 0; k < J.size(); ++k)
            {
                const double e = step(k), N = num([&](double d) { P y = x; mv(y, k, d); return eval(y); }, e);
                const double sc = std::abs(per) * std::max(1.0, std::pow(w.lambda, -2));
                c.expect(std::abs(N - J[k]) < 1e-5 * std::abs(N) + sc * (2.5e-5 * reach(k) + lim / e) + 1e-9, key, vh::strf("column %d: %.6g, expected %.6g", k, J[k], N));
            }
        };
        auto dq = [](const DQ& q, int k, double e) { return q * DQ::exp(Vec6(Vec6::Unit(k) * e)); };
        auto one = [](double q) { return [q](int) { return q; }; };
        auto reach = [&](double q) { return [q](int k) { return k < 3 ? q : 1.0; }; };
        auto est = [&](double rr) { return [rr](int k) { return k < 3 ? std::min(1e-3, .1 / (1e-2 + rr)) : .1; }; };
        // the Earth-rotation term of the range is not differentiated (2e-6 per metre); rotations couple
        // to it through the distance they move the antenna
        const double R = std::max(x.a.translation().norm(), x.b.translation().norm()) + 3;
        if (jac[0]) chk("pose_1", J0.transpose() * x.a.dParamDGen(), [&](P& y, int k, double e) { y.a = dq(x.a, k, e); }, est(x.arm.norm()), reach(x.arm.norm()));
        if (jac[1]) chk("pose_2", J1.transpose() * x.b.dParamDGen(), [&](P& y, int k, double e) { y.b = dq(x.b, k, e); }, est(x.arm.norm()), reach(x.arm.norm()));
        if (jac[6]) chk("level_frame", J6.transpose() * x.r2n.dParamDGen(), [&](P& y, int k, double e) { y.r2n = dq(x.r2n, k, e); }, est(R), reach(R));
        if (jac[2]) chk("clock_1", J2, [&](P& y, int k, double e) { y.ca[k] += e; }, one(10), one(0));
        if (jac[3]) chk("clock_2", J3, [&](P& y, int k, double e) { y.cb[k] += e; }, one(10), one(0));
        if (jac[4]) chk("switch_1", Vec1(J4), [&](P& y, int, double e) { y.sa += e; }, one(.1), one(0));
        if (jac[5]) chk("switch_2", Vec1(J5), [&](P& y, int, double e) { y.sb += e; }, one(.1), one(0));
        if (jac[7]) chk("lever_arm", J7, [&](P& y, int k, double e) { y.arm[k] += e; }, one(.1), one(1));
        c.nontrivial(vh::fnv(&got, 8));
    }
}

VH_GROUP(clock_dynamics)
{
    for (int i = 0; i < c.n(1500, 50000); ++i)
    {
        if (!c.begin()) continue;
        auto& r = c.rng;
        const UTCTime t0(1600000000, r.range(0, 999999999));
        const double dt = r.uni(0, 10);
        const UTCTime t1 = t0 + dt;
        const Vec3 Xi(std::pow(10, r.uni(-3, 3)), std::pow(10, r.uni(-3, 3)), std::pow(10, r.uni(-3, 3)));
        GnssDynamics f(t0, t1, Xi);
        double p[6] = {r.uni(-1e6, 1e6), r.uni(-1e3, 1e3), 0, r.uni(-1e3, 1e3), r.uni(0, 1), r.uni(0, 1)};
        p[2] = p[0] + r.uni(-1e3, 1e3);
        const double* prm[4] = {p, p + 2, p + 4, p + 5};
        auto eval = [&] {
            Vec3 o;
            f.Evaluate(prm, o.data(), nullptr);
            return o;
        };
        const Vec3 z = eval();
        const Vec3 want = Xi.cwiseProduct(Vec3(p[2] - p[0] - dt * (p[1] + p[3]) / 2, p[3] - p[1], p[5] - p[4]));
        c.expect((z - want).cwiseQuotient(Xi).cwiseAbs().maxCoeff() < 1e-5, "value", "");
        Eigen::Matrix<double, 3, 2, Eigen::RowMajor> A, B;
        Vec3 C, D;
        A.setConstant(NAN), B = A, C.setConstant(NAN), D = C;
        double* jac[4] = {A.data(), B.data(), C.data(), D.data()};
        if (r.chance(.5)) jac[r.range(0, 3)] = nullptr;
        Vec3 z2;
        f.Evaluate(prm, z2.data(), jac);
        c.expect((z2 - z).norm() <= 1e-12 * (1 + z.norm()), "value_with_jacobian", "");
        for (int k = 0; k < 6; ++k)
        {
            if (!jac[k < 2 ? 0 : k < 4 ? 1 : k - 2]) continue;
            const double keep = p[k], e = 1;
            p[k] = keep + e;
            const Vec3 up = eval();
            p[k] = keep - e;
            const Vec3 N = (up - eval()) / (2 * e);
            p[k] = keep;
            const Vec3 J = k < 2 ? Vec3(A.col(k)) : k < 4 ? Vec3(B.col(k - 2)) : k == 4 ? C : D;
            c.expect((J - N).cwiseQuotient(Xi).norm() < 1e-7, "jacobian", vh::strf("column %d", k));
        }
        c.nontrivial(vh::fnv(p, 48));
    }
}

VH_GROUP(pose_anchor)
{
    for (int i = 0; i < c.n(1500, 50000); ++i)
    {
        if (!c.begin()) continue;
        auto& r = c.rng;
        const DQ anchor(rq(r), v3(r, 100));
        Vec6 Xi, d;
        for (int k = 0; k < 6; ++k) Xi[k] = std::pow(10, r.uni(-3, 3));
        Vec3 w = v3(r, 1);
        w = w.normalized() * (r.chance(.2) ? 0 : r.chance(.2) ? r.uni(0, 1e-5) : r.uni(0, 2.8));
        d << w, v3(r, r.chance(.2) ? 0 : 20);
        DQ x = anchor * DQ::exp(d);
        if (r.chance(.5)) x.arr_ = -x.arr_;  // the same pose
        PoseError f(anchor, Xi);
        const double* prm[1] = {x.data()};
        auto eval = [&](const DQ& q) {
            const double* pp[1] = {q.data()};
            Vec6 o;
            f.Evaluate(pp, o.data(), nullptr);
            return o;
        };
        const Vec6 z = eval(x);
        c.expect((z.cwiseQuotient(Xi) - d).norm() < 1e-8 * (1 + d.norm()) * (1 + anchor.translation().norm()), "value", vh::strf("off by %.3g", (z.cwiseQuotient(Xi) - d).norm()));
        MatRM68 J;
        J.setConstant(NAN);
        Vec6 z2;
        double* jac[1] = {J.data()};
        f.Evaluate(prm, z2.data(), jac);
        c.expect((z2 - z).cwiseQuotient(Xi).norm() < 1e-9 * (1 + d.norm()) * (1 + anchor.translation().norm()), "value_with_jacobian", "");
        double* none[1] = {nullptr};
        f.Evaluate(prm, z2.data(), none);
        c.expect((z2 - z).cwiseQuotient(Xi).norm() < 1e-12 * (1 + d.norm()), "value_without_jacobian", "");
        const Eigen::Matrix<double, 6, 6> G = Xi.cwiseInverse().asDiagonal() * (J * x.dParamDGen());
        for (int k = 0; k < 6; ++k)
        {
            const double e = 1e-4;
            const Vec6 u = Vec6::Unit(k) * e;
            const Vec6 N = (eval(x * DQ::exp(u)) - eval(x * DQ::exp(Vec6(-u)))).cwiseQuotient(Xi) / (2 * e);
            c.expect((N - G.col(k)).norm() < 1e-5 * (1 + d.norm()), "jacobian", vh::strf("column %d off by %.3g", k, (N - G.col(k)).norm()));
        }
        c.nontrivial(vh::fnv(d.data(), 48));
    }
}
}  // namespace models
}  // namespace mc
