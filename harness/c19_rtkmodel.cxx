// C19: the models of the RTK filter against strapdown mechanics and the GNSS observation equations,
// written with rotation matrices; derivatives by central differences of the true flow.
#include "core/ekf/rtk_ekf.h"
#include "common/satellite/satellite_cache.h"
#include "vh.h"
namespace mc {
namespace ekf {
static const double GRAV = 9.80665, CL = 299792458.0, OE = 7.2921151467e-5;
typedef Eigen::Matrix3d M3;

struct Flow  // truth, in plain matrices
{
    M3 R;  // body to inertial
    Vec3 p, v, ba, bg;
    Vec2 clk[3];
};
static M3 hat(const Vec3& w)
{
    M3 m;
    m << 0, -w[2], w[1], w[2], 0, -w[0], -w[1], w[0], 0;
    return m;
}
static M3 expm(const Vec3& w)
{
    const double a = w.norm();
    const M3 k = hat(w);
    if (a < 1e-5) return M3::Identity() + k + k * k / 2 + k * k * k / 6;
    return M3::Identity() + std::sin(a) / a * k + (1 - std::cos(a)) / (a * a) * k * k;
}
static Vec3 logm(const M3& r)
{
    const Vec3 s = 0.5 * Vec3(r(2, 1) - r(1, 2), r(0, 2) - r(2, 0), r(1, 0) - r(0, 1));
    const double n = s.norm(), a = std::atan2(n, 0.5 * (r.trace() - 1));
    return n < 1e-9 ? s : Vec3(s * (a / n));
}
// own reading of the quaternion: body axes expressed in the parent frame
static M3 axes(const math::Quat<double>& q)
{
    const double w = q.arr_[0], x = q.arr_[1], y = q.arr_[2], z = q.arr_[3];
    M3 r;
    r << 1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y), 2 * (x * y + w * z), 1 - 2 * (x * x + z * z),
        2 * (y * z - w * x), 2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y);
    return r;
}
static Flow read(const State& x)
{
    Flow f;
    f.R = axes(x.pose.real());
    f.p = x.pose.translation();
    f.v = x.vel, f.ba = x.acc_bias, f.bg = x.gyro_bias;
    f.clk[0] = x.gps_clk, f.clk[1] = x.gal_clk, f.clk[2] = x.glo_clk;
    return f;
}
// strapdown mechanics with the velocity in body axes, gravity along +z of the inertial frame
static Flow advance(Flow f, const Input& u, double dt)
{
    const int n = 4;
    const double h = dt / n;
    const Vec3 w = u.gyro - f.bg, a = u.accel - f.ba, g(0, 0, GRAV);
    // inertial velocity integrates specific force and gravity
    for (int i = 0; i < n; ++i)
    {
        const M3 Rm = f.R * expm(w * h / 2), R1 = f.R * expm(w * h);
        const Vec3 V = f.R * f.v;
        // Simpson on R(t) a, exact to O(h^5)
        const Vec3 dV = h * g + h / 6 * (f.R + 4 * Rm + R1) * a;
        const Vec3 Vm = V + h / 2 * g + h / 2 * (f.R * a * 5 + Rm * a * 8 - R1 * a) / 12;
        const Vec3 V1 = V + dV;
        f.p += h / 6 * (V + 4 * Vm + V1);
        f.R = R1;
        f.v = R1.transpose() * V1;
    }
    for (auto& c : f.clk) c[0] += c[1] * dt;
    return f;
}
static const int NE = 21;  // pose 6, vel 3, acc 3, gyro 3, clocks 6
static Eigen::VectorXd diff(const Flow& b, const Flow& a)
{
    Eigen::VectorXd d(NE);
    d.segment<3>(0) = logm(a.R.transpose() * b.R);
    d.segment<3>(3) = a.R.transpose() * (b.p - a.p);
    d.segment<3>(6) = b.v - a.v;
    d.segment<3>(9) = b.ba - a.ba;
    d.segment<3>(12) = b.bg - a.bg;
    for (int i = 0; i < 3; ++i) d.segment<2>(15 + 2 * i) = b.clk[i] - a.clk[i];
    return d;
}
static Eigen::VectorXd dense(const ErrorState& e)
{
    Eigen::VectorXd d(NE);
    d << e.pose, e.vel, e.acc_bias, e.gyro_bias, e.gps_clk, e.gal_clk, e.glo_clk;
    return d;
}
static ErrorState err(const Eigen::VectorXd& d)
{
    ErrorState e = ErrorState::Zero();
    e.pose = d.segment<6>(0), e.vel = d.segment<3>(6), e.acc_bias = d.segment<3>(9), e.gyro_bias = d.segment<3>(12);
    e.gps_clk = d.segment<2>(15), e.gal_clk = d.segment<2>(17), e.glo_clk = d.segment<2>(19);
    return e;
}
static Eigen::MatrixXd denseA(const StateJac& j)
{
    Eigen::MatrixXd A = Eigen::MatrixXd::Zero(NE, NE);
    A.block<6, 6>(0, 0) = j.dPose_dPose;
    A.block<6, 3>(0, 6) = j.dPose_dVel;
    A.block<6, 3>(0, 12) = j.dPose_dGyroBias;
    A.block<3, 6>(6, 0) = j.dVel_dPose;
    A.block<3, 3>(6, 6) = j.dVel_dVel;
    A.block<3, 3>(6, 9) = j.dVel_dAccBias;
    A.block<3, 3>(6, 12) = j.dVel_dGyroBias;
    A.block<2, 2>(15, 15) = j.dGpsClk_dGpsClk;
    A.block<2, 2>(17, 17) = j.dGalClk_dGalClk;
    A.block<2, 2>(19, 19) = j.dGloClk_dGloClk;
    return A;
}
static Vec3 v3(vh::Rng& r, double s) { return Vec3(r.uni(-s, s), r.uni(-s, s), r.uni(-s, s)); }
static math::Quat<double> rq(vh::Rng& r)
{
    return math::Quat<double>::exp(r.chance(.1) ? Vec3(0, 0, 0) : v3(r, 1.8));
}
static State someState(vh::Rng& r, bool earth)
{
    State x;
    x.t = UTCTime(1600000000, 0);
    x.pose = math::DQuat<double>(rq(r), v3(r, r.chance(.5) ? 20 : 500));
    x.vel = r.chance(.1) ? Vec3(0, 0, 0) : v3(r, 30);
    x.acc_bias = v3(r, 0.5), x.gyro_bias = v3(r, 0.2);
    x.gps_clk << r.uni(-1e6, 1e6), r.uni(-1e3, 1e3);
    x.gal_clk << r.uni(-1e6, 1e6), r.uni(-1e3, 1e3);
    x.glo_clk << r.uni(-1e6, 1e6), r.uni(-1e3, 1e3);
    x.p_b2g = v3(r, 2);
    // origin of the local frame somewhere on the ground, seen from the local frame
    const Vec3 up = v3(r, 1).normalized() * 6371e3;
    const math::Quat<double> q = rq(r);
    x.T_I2e = earth ? math::DQuat<double>(q, -(axes(q) * up)) : math::DQuat<double>(q, v3(r, 50));
    x.num_sd = r.chance(.2) ? 0 : r.chance(.2) ? 30 : r.range(0, 30);
    for (auto& s : x.sd) s[0] = r.uni(-100, 100);
    return x;
}
static Input someInput(vh::Rng& r)
{
    Input u;
    u.accel = v3(r, 15), u.gyro = r.chance(.1) ? Vec3(0, 0, 0) : v3(r, 3);
    return u;
}

VH_GROUP(dynamics)
{
    const double junk = 1234.5;
    const int N = c.n(3000, 200000);
    for (int i = 0; i < N; ++i)
    {
        if (!c.begin()) continue;
        auto& r = c.rng;
        const State x = someState(r, false);
        const Input u = someInput(r);
        c.note(vh::strf("v=%.4g w=%.4g a=%.4g", x.vel.norm(), u.gyro.norm(), u.accel.norm()));
        StateJac A;
        InputJac B;
        A.setRandom(), B.setRandom();
        // the result is built where other numbers were: a part that is not set shows
        alignas(64) static unsigned char room[sizeof(ErrorState)];
        for (size_t k = 0; k + 8 <= sizeof room; k += 8) memcpy(room + k, &junk, 8);
        const ErrorState& xd = *new (room) ErrorState(dynamics(x, u, &A, &B));
        const Flow f = read(x);
        // the derivative is that of the true motion
        const double e = 1e-3;
        const Eigen::VectorXd num = (diff(advance(f, u, e), f) - diff(advance(f, u, -e), f)) / (2 * e);
        const Eigen::VectorXd got = dense(xd);
        const double scale = 1 + x.vel.norm() * u.gyro.norm() + u.accel.norm() + x.vel.norm();
        const double eps = 1e-5 * scale * (1 + (u.gyro - x.gyro_bias).squaredNorm());
        c.expect((num - got).head<3>().norm() < eps, "attitude_rate", vh::strf("%.3g", (num - got).head<3>().norm()));
        c.expect((num - got).segment<3>(3).norm() < eps, "position_rate", vh::strf("%.3g", (num - got).segment<3>(3).norm()));
        c.expect((num - got).segment<3>(6).norm() < eps, "velocity_rate", vh::strf("%.3g", (num - got).segment<3>(6).norm()));
        c.expect((num - got).segment<6>(9).norm() < 1e-12, "bias_rate", "");
        c.expect((num - got).tail<6>().norm() < 1e-5 * (1 + x.gps_clk.norm()), "clock_rate", "");
        c.expect(xd.p_b2g.norm() == 0 && xd.T_I2e.norm() == 0 && xd.sd_vec((int)x.num_sd).norm() == 0, "constant_states", "");
        const ErrorState again = dynamics(x, u, nullptr, nullptr);
        c.expect((dense(again) - got).norm() < 1e-12 * (1 + got.norm()), "without_jacobians", "");

        // errors evolve as the Jacobians say
        const Eigen::MatrixXd a = denseA(A);
        Eigen::VectorXd d(NE);
        for (int k = 0; k < NE; ++k) d[k] = r.chance(.3) ? 0 : r.uni(-1, 1);
        if (d.norm() == 0) d[r.range(0, NE - 1)] = 1;
        const double sd = 1e-4, st = 1e-3;
        auto err_at = [&](double s, double t) {
            State y = x + err(s * d);
            return diff(advance(read(y), u, t), advance(f, u, t));
        };
        const Eigen::VectorXd rate = ((err_at(sd, st) - err_at(-sd, st)) - (err_at(sd, -st) - err_at(-sd, -st))) / (4 * sd * st);
        const Eigen::VectorXd want = a * d;
        const double sc = (1 + x.vel.norm() + u.gyro.norm() + GRAV) * d.norm();
        const double tol = 2e-5 * sc * (1 + (u.gyro - x.gyro_bias).squaredNorm()) + 1e-6 * x.pose.translation().norm();
        const double bad = (rate - want).head<15>().norm();
        c.expect(bad < tol, "state_jacobian", vh::strf("error %.3g of %.3g", bad, want.head<15>().norm()));
        const double badc = (rate - want).tail<6>().norm();
        c.expect(badc < 1e-2 * d.norm(), "clock_jacobian", vh::strf("error %.3g of %.3g", badc, want.tail<6>().norm()));

        Input du;
        du.accel = v3(r, 1), du.gyro = v3(r, 1);
        auto in_at = [&](double s, double t) {
            Input y = u;
            y.accel += s * du.accel, y.gyro += s * du.gyro;
            return diff(advance(f, y, t), advance(f, u, t));
        };
        const Eigen::VectorXd ri = ((in_at(sd, st) - in_at(-sd, st)) - (in_at(sd, -st) - in_at(-sd, -st))) / (4 * sd * st);
        Eigen::VectorXd wi = Eigen::VectorXd::Zero(NE);
        wi.head<6>() = B.dPose_dGyro * du.gyro;
        wi.segment<3>(6) = B.dVel_dAccel * du.accel + B.dVel_dGyro * du.gyro;
        c.expect((ri - wi).head<15>().norm() < tol + 1e-5 * sc, "input_jacobian", vh::strf("error %.3g of %.3g", (ri - wi).norm(), wi.norm()));

        // the error-state dynamics are the same linear map
        const ErrorState es = errorStateDynamics(err(d), x, u, du);
        c.expect((dense(es) - want - wi).norm() < 1e-9 * (1 + want.norm() + wi.norm()), "error_dynamics", vh::strf("%.3g", (dense(es) - want - wi).norm()));
        c.nontrivial(vh::fnv(&x.vel[0], 24));
        c.count("states");
    }
}

struct Geo
{
    Vec3 p, v;
    M3 Rbe;
};
static Geo antenna(const State& x, const Input& u)
{
    const M3 Rb = axes(x.pose.real()), Re = axes(x.T_I2e.real());
    Geo g;
    g.p = Re.transpose() * (x.pose.translation() + Rb * x.p_b2g - x.T_I2e.translation());
    g.Rbe = Re.transpose() * Rb;
    g.v = g.Rbe * (x.vel + u.gyro.cross(x.p_b2g));
    return g;
}
// every state the configuration declares for a measurement is moved in turn
template <class F>
static void perturb(vh::Rng& r, ErrorState& d, F which)
{
    d.setZero();
    which(d);
    (void)r;
}
template <class Jac>
static void garbage(Jac& j)
{
    j.setRandom();
}

VH_GROUP(point_position)
{
    const int N = c.n(3000, 100000);
    for (int i = 0; i < N; ++i)
    {
        if (!c.begin()) continue;
        auto& r = c.rng;
        const bool earth = r.chance(.5);
        const State x = someState(r, earth);
        const Input u = someInput(r);
        const double reach = earth ? 6.4e6 : 600;
        pointPosMeas::ZType z;
        z << v3(r, reach), v3(r, 50);
        auto model = [&](const State& y) {
            const Geo g = antenna(y, u);
            Vec6 zh;
            zh << g.p, g.v;
            return Vec6(z - zh);
        };
        c.note(vh::strf("earth=%d", (int)earth));
        pointPosMeas::Jac j;
        garbage(j);
        const Vec6 res = h<pointPosMeas>(z, x, &j, u), want = model(x), res0 = h<pointPosMeas>(z, x, nullptr, u);
        c.expect((res - want).head<3>().norm() < 1e-9 * (reach + z.norm()) + 1e-9, "position", vh::strf("%.3g m", (res - want).head<3>().norm()));
        c.expect((res - want).tail<3>().norm() < 1e-9 * (60 + z.tail<3>().norm()), "velocity", vh::strf("%.3g m/s", (res - want).tail<3>().norm()));
        c.expect((res - res0).norm() < 1e-12 * (1 + res.norm()), "without_jacobian", "");
        for (int k = 0; k < 18; ++k)
        {
            const double e = k >= 9 && k < 12 ? 1e-6 : k < 3 ? 1e-5 : 1e-3;
            ErrorState d = ErrorState::Zero();
            Vec6 col;
            if (k < 6) d.pose[k] = e, col = j.dPose.col(k);
            else if (k < 9) d.vel[k - 6] = e, col = j.dVel.col(k - 6);
            else if (k < 15) d.T_I2e[k - 9] = e, col = j.dTI2e.col(k - 9);
            else d.p_b2g[k - 15] = e, col = j.dPB2g.col(k - 15);
            const Vec6 num = (model(x + d) - model(x + d * -1.0)) / (2 * e);
            const double tol = 1e-6 * (reach * 0.2 + 100) * (1e-6 / e * 1e-2 + 1) / (k >= 9 && k < 12 ? 1 : 1e2) + 1e-6 * num.norm() + 2e-16 * reach / e;
            c.expect((num - col).norm() < tol, vh::strf("jacobian_%s", k < 6 ? "pose" : k < 9 ? "vel" : k < 15 ? "TI2e" : "p_b2g"),
                     vh::strf("column %d differs by %.3g of %.3g", k, (num - col).norm(), num.norm()));
        }
        c.nontrivial(vh::fnv(&z[0], 48));
    }
}

VH_GROUP(observation)
{
    const int N = c.n(1500, 60000);
    for (int i = 0; i < N; ++i)
    {
        if (!c.begin()) continue;
        auto& r = c.rng;
        const State x = someState(r, true);
        const Input u = someInput(r);
        const Geo g0 = antenna(x, u);
        const int n = r.chance(.1) ? 30 : (int)r.range(0, 8);
        std::vector<satellite::SatelliteCache> sats(n);
        obsMeas::ZType z;
        std::vector<int> id(n);
        for (int k = 0; k < n; ++k)
        {
            auto& s = sats[k];
            s.cache_rec_pos = g0.p;
            s.state.t = x.t;
            s.state.pos = (g0.p.normalized() * 0.7 + v3(r, 1)).normalized() * r.uni(2.5e7, 3e7);
            s.state.vel = v3(r, 3000);
            s.state.clk << r.uni(-1e-3, 1e-3), r.uni(-1e-10, 1e-10);
            s.sagnac = OE * (s.state.pos.x() * g0.p.y() - s.state.pos.y() * g0.p.x()) / CL;
            s.atm.ionospheric_delay_m = r.uni(0, 30), s.atm.tropospheric_delay_m = r.uni(0, 30);
            id[k] = (int[]){GnssID::GPS, GnssID::Galileo, GnssID::Glonass}[r.range(0, 2)];
            z.push_back({Vec2(r.uni(2e7, 3e7), r.uni(-4000, 4000)), s, id[k]});
        }
        // observation equations; the Earth-rotation part of the range rate is published with either
        // sign, so it is not judged (0.01 m/s)
        auto model = [&](const State& y, int k, double sg) {
            const Geo g = antenna(y, u);
            const auto& s = sats[k];
            const Vec2 clk = id[k] == GnssID::GPS ? y.gps_clk : id[k] == GnssID::Galileo ? y.gal_clk : y.glo_clk;
            const Vec3 los = s.state.pos - g.p, e = los.normalized();
            const double rho = los.norm() + s.sagnac + s.atm.ionospheric_delay_m + s.atm.tropospheric_delay_m + CL * (clk[0] * 1e-9 - s.state.clk[0]);
            const double rot = OE / CL * (s.state.vel.x() * g.p.y() + s.state.pos.x() * g.v.y() - s.state.vel.y() * g.p.x() - s.state.pos.y() * g.v.x());
            const double dop = (s.state.vel - g.v).dot(e) + sg * rot + CL * (clk[1] * 1e-9 - s.state.clk[1]);
            return Vec2(z[k].z - Vec2(rho, dop));
        };
        c.note(vh::strf("%d observations", n));
        auto j = std::make_unique<obsMeas::Jac>();
        garbage(*j);
        const obsMeas::Residual res = h<obsMeas>(z, x, j.get(), u), res0 = h<obsMeas>(z, x, nullptr, u);
        c.expect((res - res0).norm() < 1e-12 * (1 + res.norm()), "without_jacobian", "");
        c.expect(res.tail(60 - 2 * n).norm() == 0, "unused_zero", "");
        for (int k = 0; k < n; ++k)
        {
            const Vec2 a = model(x, k, 1), b = model(x, k, -1), got = res.segment<2>(2 * k);
            c.expect(std::abs(got[0] - a[0]) < 1e-6, "pseudorange", vh::strf("satellite %d of %d: %.6g m off", k, n, got[0] - a[0]));
            c.expect(std::min(std::abs(got[1] - a[1]), std::abs(got[1] - b[1])) < 1e-6, "doppler",
                     vh::strf("satellite %d of %d: %.6g or %.6g m/s off", k, n, got[1] - a[1], got[1] - b[1]));
            c.count("observations");
            const double los = (sats[k].state.pos - g0.p).norm();
            const double slip = 1.3 * (sats[k].state.vel - g0.v).norm() / los + OE / CL * 4e3 * 3;  // neglected: m/s per metre
            for (int m = 0; m < 24; ++m)
            {
                const double e = m >= 15 && m < 18 ? 1e-6 : m < 3 ? 1e-3 : m >= 9 && m < 15 ? 1e3 : 0.1;
                ErrorState d = ErrorState::Zero();
                Vec2 col;
                double arm = 0;  // metres the antenna moves per unit
                const char* nm = "pose";
                if (m < 6) d.pose[m] = e, col = j->dPose(k).col(m), arm = m < 3 ? x.p_b2g.norm() : 1;
                else if (m < 9) d.vel[m - 6] = e, col = j->dVel(k).col(m - 6), nm = "vel";
                else if (m < 11) d.gps_clk[m - 9] = e, col = j->dGpsClk(k).col(m - 9), nm = "gps_clk";
                else if (m < 13) d.gal_clk[m - 11] = e, col = j->dGalClk(k).col(m - 11), nm = "gal_clk";
                else if (m < 15) d.glo_clk[m - 13] = e, col = j->dGloClk(k).col(m - 13), nm = "glo_clk";
                else if (m < 21) d.T_I2e[m - 15] = e, col = j->dTI2e(k).col(m - 15), nm = "TI2e", arm = m < 18 ? g0.p.norm() : 1;
                else d.p_b2g[m - 21] = e, col = j->dPB2g(k).col(m - 21), nm = "p_b2g", arm = 1;
                const Vec2 num = (model(x + d, k, -1) - model(x + d * -1.0, k, -1)) / (2 * e);
                const Vec2 bad = (num - col).cwiseAbs();
                const double spin = OE / CL * 3e7 * 2;  // neglected: Earth rotation per m/s
                c.expect(bad[0] < 1e-6 * arm + 3e-8 / e + 1e-6 * std::abs(num[0]), vh::strf("range_jacobian_%s", nm),
                         vh::strf("column %d differs by %.3g of %.3g", m, bad[0], num[0]));
                c.expect(bad[1] < slip * arm + 1e-6 / e + (spin + 1e-6) * (1 + std::abs(num[1])) * (m < 3 || (m >= 15 && m < 18) ? 60 : m >= 21 ? 6 : 1),
                         vh::strf("doppler_jacobian_%s", nm), vh::strf("column %d differs by %.3g of %.3g", m, bad[1], num[1]));
                if (m >= 15 && m < 18)
                {
                    // turning the local frame moves the antenna by its distance from the centre of the
                    // Earth: the bound above is loose.  With the turn of the line of sight, or without it
                    // (neglected by the model), the rest is small.
                    const Vec3 los0 = (sats[k].state.pos - g0.p).normalized();
                    const double fixed = (antenna(x + d, u).v - antenna(x + d * -1.0, u).v).dot(los0) / (2 * e);
                    c.expect(std::min(std::abs(fixed - col[1]), bad[1]) < 0.05 + 1e-5 * std::abs(num[1]) + 1e-3 * g0.v.norm() + 1e-6 / e * 1e-3,
                             "doppler_jacobian_turn", vh::strf("column %d is %.6g, with a fixed line of sight %.6g", m, col[1], fixed));
                }
            }
        }
        if (n) c.nontrivial(vh::fnv(&sats[0].state.pos[0], 24));
    }
}

VH_GROUP(fix_and_hold)
{
    const int N = c.n(600, 20000);
    for (int i = 0; i < N; ++i)
    {
        if (!c.begin()) continue;
        auto& r = c.rng;
        State x = someState(r, false);
        x.num_sd = i % 31;
        const int n = (int)x.num_sd;
        c.note(vh::strf("%d differences", n));
        fixAndHoldMeas::ZType z(n);
        for (auto& e : z) e[0] = r.uni(-100, 100);
        fixAndHoldMeas::Jac j;
        garbage(j);
        const fixAndHoldMeas::Residual res = h<fixAndHoldMeas>(z, x, &j), res0 = h<fixAndHoldMeas>(z, x, nullptr);
        bool ok = true;
        for (int k = 0; k < 30; ++k) ok = ok && std::abs(res[k] - (k < n ? z[k][0] - x.sd[k][0] : 0)) < 1e-12 && res0[k] == res[k];
        c.expect(ok, "residual", "");
        const Eigen::MatrixXd H = j.dSd_all(n, n);
        c.expect((H + Eigen::MatrixXd::Identity(n, n)).norm() == 0, "jacobian", "");
        c.nontrivial(vh::strf("%d", i));
    }
}
}  // namespace ekf
}  // namespace mc
