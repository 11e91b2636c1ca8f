// C24: the simulator - its sensors against the state they sense, its ephemeris feed, its vehicle and controllers,
// and whole runs whose recorded measurements must reproduce the recorded truth.
#include "sim_common.h"
namespace mc {
VH_GROUP(imu)
{
    for (int i = 0; i < c.n(300, 20000); ++i)
    {
        if (!c.begin()) continue;
        auto& r = c.rng;
        sim::sensors::ImuSim::Options o;
        o.accel_noise_stdev = o.accel_walk_stdev = o.gyro_noise_stdev = o.gyro_walk_stdev = 0;
        o.update_rate_hz = r.pick<double>({1, 10, 100, 250, 400, 1000});
        UTCTime t = when(r), last = t;
        sim::sensors::ImuSim s(o, t);
        for (int k = 0; k < 60; ++k)
        {
            t = t + UTCTime(0, (int)(r.chance(.2) ? 1e9 / o.update_rate_hz : r.uni(1e4, std::min(9e8, 2.5e9 / o.update_rate_hz))));
            const auto x = state(r);
            meas::ImuSample m, sentinel;
            m.t = UTCTime(7, 7), m.accel << 1, 2, 3, m.gyro << 4, 5, 6;
            sentinel = m;
            const double since = secs(t, last);
            const bool got = s.sample(t, x, Out<meas::ImuSample>(m));
            const int d = due(since, o.update_rate_hz);
            c.expect(d == 0 || got == (d > 0), "rate", vh::strf("%.9f s after the last at %g Hz: %d", since, o.update_rate_hz, (int)got));
            if (!got)
            {
                c.expect(m.t == sentinel.t && m.accel == sentinel.accel && m.gyro == sentinel.gyro, "untouched", "");
                continue;
            }
            last = t;
            c.count("imu samples");
            c.expect(m.t == t, "stamp", "");
            const M3 R = axes(x.x.real());
            const Vec3 v = x.dx.linear(), w = x.dx.angular(), a = x.d2x.linear();
            // the force an accelerometer at the origin of the body feels
            const Vec3 f = a + w.cross(v) - R.transpose() * Vec3(0, 0, G);
            c.expect((m.accel - f).norm() < 1e-9 * (1 + f.norm()), "specific_force", vh::strf("%.6f %.6f %.6f, expected %.6f %.6f %.6f", m.accel[0], m.accel[1], m.accel[2], f[0], f[1], f[2]));
            c.expect((m.gyro - w).norm() < 1e-12 * (1 + w.norm()), "angular_rate", "");
            c.nontrivial(vh::fnv(&m.accel, sizeof m.accel));
        }
    }
}

// asked again exactly one period later (of whole seconds, which are exact), a sensor answers every time
VH_GROUP(period)
{
    for (int i = 0; i < c.n(40, 1000); ++i)
    {
        if (!c.begin()) continue;
        auto& r = c.rng;
        const int T = r.pick<int>({1, 2, 4});
        sim::sensors::ImuSim::Options oi;
        oi.update_rate_hz = 1. / T;
        const Sky s = sky(c, 40000 + i);
        auto og = quietOptions(r, s);
        og.update_rate_hz_ = 1. / T;
        UTCTime t = s.t0;
        sim::sensors::ImuSim imu(oi, t);
        std::unique_ptr<sim::sensors::GnssSim> g;
        {
            Quiet q;
            g = std::make_unique<sim::sensors::GnssSim>(og, t);
        }
        for (int k = 0; k < 8; ++k)
        {
            t = t + UTCTime(T, 0);
            meas::ImuSample m;
            std::vector<meas::GnssObservation> obs;
            const auto x = state(r);
            c.expect(imu.sample(t, x, Out<meas::ImuSample>(m)), "imu_period", vh::strf("period %d s, answer %d withheld", T, k));
            c.expect(g->sample(t, x, Out<std::vector<meas::GnssObservation>>(obs)), "gnss_period", vh::strf("period %d s, answer %d withheld", T, k));
        }
        c.count("periods", 8);
        c.nontrivial(i);
    }
}

VH_GROUP(imu_noise)
{
    for (int i = 0; i < c.n(24, 400); ++i)
    {
        if (!c.begin()) continue;
        auto& r = c.rng;
        sim::sensors::ImuSim::Options o;
        const bool white = r.chance(.5);
        o.accel_noise_stdev = white ? std::pow(10, r.uni(-3, 0)) : 0;
        o.gyro_noise_stdev = white ? std::pow(10, r.uni(-3, 0)) : 0;
        o.accel_walk_stdev = white ? 0 : std::pow(10, r.uni(-3, 0));
        o.gyro_walk_stdev = white ? 0 : std::pow(10, r.uni(-3, 0));
        o.update_rate_hz = r.pick<double>({1, 1, 4});
        UTCTime t = when(r);
        sim::sensors::ImuSim s(o, t);
        const auto x = state(r);
        const M3 R = axes(x.x.real());
        const Vec3 f = x.d2x.linear() + x.dx.angular().cross(x.dx.linear()) - R.transpose() * Vec3(0, 0, G), w = x.dx.angular();
        const int N = 3000;
        std::vector<Vec6> e;
        for (int k = 0; k < N; ++k)
        {
            t = t + UTCTime(1, 0);
            meas::ImuSample m;
            if (!s.sample(t, x, Out<meas::ImuSample>(m))) continue;
            Vec6 d;
            d << m.accel - f, m.gyro - w;
            e.push_back(d);
        }
        c.expect((int)e.size() == N, "rate", vh::strf("%zu of %d", e.size(), N));
        for (int a = 0; a < 6 && (int)e.size() == N; ++a)
        {
            const double sn = a < 3 ? o.accel_noise_stdev : o.gyro_noise_stdev, sw = a < 3 ? o.accel_walk_stdev : o.gyro_walk_stdev;
            double m = 0, q = 0, dd = 0, h1 = 0, h2 = 0;
            for (int k = 0; k < N; ++k) m += e[k][a] / N, (k < N / 2 ? h1 : h2) += e[k][a] * 2 / N;
            for (int k = 0; k < N; ++k) q += (e[k][a] - m) * (e[k][a] - m) / N;
            for (int k = 1; k < N; ++k) dd += std::pow(e[k][a] - e[k - 1][a], 2) / (N - 1);
            if (white)
            {
                // independent noise of the stated deviation about the truth, and no drift when the walk is zero
                c.expect(std::abs(m) < 7 * sn / std::sqrt(N) && std::abs(h1) < 9 * sn / std::sqrt(N) && std::abs(h2) < 9 * sn / std::sqrt(N), "noise_mean",
                         vh::strf("axis %d: %.3g (halves %.3g, %.3g) with deviation %.3g", a, m, h1, h2, sn));
                c.expect(std::abs(std::sqrt(q) / sn - 1) < .1, "noise_stdev", vh::strf("axis %d: %.3g for %.3g", a, std::sqrt(q), sn));
                c.expect(std::abs(dd / (2 * sn * sn) - 1) < .2, "noise_white", vh::strf("axis %d", a));
            }
            else
                // a bias that walks with the stated deviation and nothing else (one-second steps)
                c.expect(std::abs(std::sqrt(dd) / sw - 1) < .1, "walk_stdev", vh::strf("axis %d: steps %.3g for %.3g", a, std::sqrt(dd), sw));
        }
        c.nontrivial(vh::fnv(&e[0], sizeof(Vec6)));
    }
}

VH_GROUP(gnss)
{
    for (int i = 0; i < c.n(60, 3000); ++i)
    {
        if (!c.begin()) continue;
        auto& r = c.rng;
        const Sky s = sky(c, i);
        const auto o = quietOptions(r, s);
        UTCTime t = s.t0, last = t;
        std::unique_ptr<sim::sensors::GnssSim> g;
        {
            Quiet q;
            g = std::make_unique<sim::sensors::GnssSim>(o, t);
        }
        std::map<std::pair<int, int>, double> ambiguity;
        Vec2 clk = g->clock_bias_;
        for (int k = 0; k < 40; ++k)
        {
            t = t + UTCTime(0, (int)(r.chance(.2) ? 1e9 / o.update_rate_hz_ : r.uni(1e5, 9e8)));
            const auto x = state(r);
            std::vector<meas::GnssObservation> obs(3);
            for (auto& z : obs) z.setZero(), z.sat_num = 77;
            const double since = secs(t, last);
            const bool got = g->sample(t, x, Out<std::vector<meas::GnssObservation>>(obs));
            const int d = due(since, o.update_rate_hz_);
            c.expect(d == 0 || got == (d > 0), "rate", vh::strf("%.9f s after the last at %g Hz: %d", since, o.update_rate_hz_, (int)got));
            // antenna
            const M3 Rn = axes(x.x.real()), Re = axes(o.T_e2n.real());
            const Vec3 p = o.T_e2n.translation() + Re * (x.x.translation() + Rn * o.p_b2g);
            const Vec3 v = Re * (Rn * (x.dx.linear() + x.dx.angular().cross(o.p_b2g)));
            c.expect((g->T_e2g_.translation() - p).norm() < 1e-6, "antenna_truth", vh::strf("%.6f m off", (g->T_e2g_.translation() - p).norm()));
            c.expect((axes(g->T_e2g_.real()) - Re * Rn).norm() < 1e-9, "antenna_attitude", "");
            if (!got)
            {
                c.expect(obs.size() == 3 && obs[0].sat_num == 77 && g->clock_bias_ == clk, "untouched", "");
                continue;
            }
            const Vec2 next = g->clock_bias_;
            c.expect(std::abs(next[0] - clk[0] - (clk[1] + next[1]) / 2 * since) < 1e-15 + 1e-9 * std::abs(next[0]), "clock", vh::strf("%.4g s off", next[0] - clk[0] - (clk[1] + next[1]) / 2 * since));
            c.expect(std::abs(next[1] - clk[1]) <= 8 * o.clock_walk_stdev_ * since, "clock_walk", vh::strf("%.3g", next[1] - clk[1]));
            clk = next, last = t;
            std::set<std::pair<int, int>> seen;
            for (auto& z : obs)
            {
                const std::pair<int, int> id{z.gnss_id, z.sat_num};
                const auto it = s.sats.find(id);
                c.expect(it != s.sats.end(), "unknown_satellite", vh::strf("%d/%d", id.first, id.second));
                c.expect(seen.insert(id).second, "twice", vh::strf("%d/%d", id.first, id.second));
                if (it == s.sats.end()) continue;
                const Expected e = observe(*it->second, t, p, v, clk);
                c.expect(z.t == t, "stamp", vh::strf("%.3f s off", secs(z.t, t)));
                c.expect(std::abs(z.pseudorange - e.pr) < 5e-3, "pseudorange", vh::strf("sat %d/%d: %.4f m off", id.first, id.second, z.pseudorange - e.pr));
                c.expect(std::min(std::abs(z.doppler - e.d1), std::abs(z.doppler - e.d2)) < 1e-2 + 4e-6 * std::abs(e.d1), "doppler", vh::strf("sat %d/%d: %.4f m/s off", id.first, id.second, z.doppler - e.d1));
                const double amb = z.carrier_phase - z.pseudorange / e.lambda;
                c.expect(std::abs(amb - std::round(amb)) < 1e-5, "phase_fraction", vh::strf("%.6f cycles", amb));
                const auto a = ambiguity.emplace(id, amb).first;
                c.expect(std::abs(amb - a->second) < 1e-5, "phase_jump", vh::strf("%.6f then %.6f", a->second, amb));
                c.count("observations");
                c.nontrivial(vh::fnv(&z.pseudorange, 8));
            }
            c.expect(seen.size() == s.sats.size(), "missing", vh::strf("%zu of %zu satellites", seen.size(), s.sats.size()));
        }
    }
}

VH_GROUP(gnss_noise)
{
    for (int i = 0; i < c.n(6, 100); ++i)
    {
        if (!c.begin()) continue;
        auto& r = c.rng;
        const Sky s = sky(c, 10000 + i);
        auto o = quietOptions(r, s);
        o.pseudorange_stdev_ = r.uni(.5, 8), o.doppler_stdev_ = r.uni(.2, 3), o.carrier_phase_stdev_ = r.uni(.005, .1);
        UTCTime t = s.t0;
        std::unique_ptr<sim::sensors::GnssSim> g;
        {
            Quiet q;
            g = std::make_unique<sim::sensors::GnssSim>(o, t);
        }
        std::map<std::pair<int, int>, double> ambiguity;
        double m[3] = {}, q[3] = {};
        int n = 0;
        const auto x = state(r);
        const M3 Rn = axes(x.x.real()), Re = axes(o.T_e2n.real());
        const Vec3 p = o.T_e2n.translation() + Re * (x.x.translation() + Rn * o.p_b2g);
        const Vec3 v = Re * (Rn * (x.dx.linear() + x.dx.angular().cross(o.p_b2g)));
        while (n < 2000)
        {
            t = t + 1.0 / o.update_rate_hz_ + 1e-6;
            std::vector<meas::GnssObservation> obs;
            if (!g->sample(t, x, Out<std::vector<meas::GnssObservation>>(obs)) || obs.empty())
            {
                c.violate("rate", "no observation when one is due");
                break;
            }
            for (auto& z : obs)
            {
                const auto it = s.sats.find({z.gnss_id, z.sat_num});
                if (it == s.sats.end()) continue;
                const Expected e = observe(*it->second, t, p, v, g->clock_bias_);
                const double amb = z.carrier_phase - e.pr / e.lambda;
                const auto a = ambiguity.emplace(it->first, std::round(amb)).first;
                const double d[3] = {(z.pseudorange - e.pr) / o.pseudorange_stdev_, (z.doppler - (e.d1 + e.d2) / 2) / o.doppler_stdev_, (amb - a->second) / o.carrier_phase_stdev_};
                for (int k = 0; k < 3; ++k) m[k] += d[k], q[k] += d[k] * d[k];
                ++n;
            }
        }
        const char* nm[3] = {"pseudorange_noise", "doppler_noise", "phase_noise"};
        for (int k = 0; k < 3 && n; ++k)
            c.expect(std::abs(m[k] / n) < 7 / std::sqrt(n) + (k ? .05 : .01) && std::abs(std::sqrt(q[k] / n) - 1) < .15, nm[k], vh::strf("mean %.3f, deviation %.3f of the stated one", m[k] / n, std::sqrt(q[k] / n)));
        c.nontrivial(vh::fnv(m, sizeof m));
    }
}

template <class E, class F>
static void feed(vh::Ctx& c, const char* sys, const std::vector<std::pair<UTCTime, E>>& v, const UTCTime& t0, F sample)
{
    auto& r = c.rng;
    size_t next = 0;
    UTCTime t = t0 - UTCTime(25, 0);
    for (int k = 0; k < 400; ++k)
    {
        if (next < v.size() && v[next].first > t && r.chance(.3))
            t = v[next].first;  // the very instant it comes
        else
            t = t + UTCTime(0, (int)(r.chance(.1) ? 0 : r.range(1, 600000000)));
        E e;
        e.iode = -5;
        const bool got = sample(t, e), want = next < v.size() && !(v[next].first > t);
        c.expect(got == want, "feed", vh::strf("%s: ephemeris %zu of %zu %s %.3f s after its time", sys, next, v.size(), got ? "given" : "withheld", next < v.size() ? secs(t, v[next].first) : 0.));
        if (got != want) return;
        if (!got) continue;
        c.expect(e.iode == v[next].second.iode && e.sat == v[next].second.sat, "feed_order", vh::strf("%s: %zu", sys, next));
        ++next;
        c.count("ephemerides delivered");
        c.nontrivial(vh::fnv(&t, sizeof t));
    }
    c.expect(next == v.size(), "feed_complete", vh::strf("%s: %zu of %zu", sys, next, v.size()));
}
VH_GROUP(ephemerides)
{
    for (int i = 0; i < c.n(80, 4000); ++i)
    {
        if (!c.begin()) continue;
        const Sky s = sky(c, 20000 + i, true);
        const auto o = quietOptions(c.rng, s);
        std::unique_ptr<sim::sensors::GnssSim> g;
        {
            Quiet q;
            g = std::make_unique<sim::sensors::GnssSim>(o, s.t0);
        }
        feed(c, "GPS", s.gps, s.t0, [&](const UTCTime& t, GPSEphemeris& e) { return g->sampleGpsEph(t, Out<GPSEphemeris>(e)); });
        feed(c, "Galileo", s.gal, s.t0, [&](const UTCTime& t, GalileoEphemeris& e) { return g->sampleGalEph(t, Out<GalileoEphemeris>(e)); });
        feed(c, "GLONASS", s.glo, s.t0, [&](const UTCTime& t, GlonassEphemeris& e) { return g->sampleGloEph(t, Out<GlonassEphemeris>(e)); });
    }
}

// ---------------------------------------------------------------- vehicle and controllers
VH_GROUP(vehicle)
{
    for (int i = 0; i < c.n(3000, 200000); ++i)
    {
        if (!c.begin()) continue;
        auto& r = c.rng;
        sim::dynamics::SimCar::Options o;
        o.t0 = when(r);
        o.mass = r.uni(.5, 5), o.inertia_ = Vec3(r.uni(.5, 5), r.uni(.5, 5), r.uni(.5, 5));
        o.wheel_radius = r.uni(.05, .5), o.axle_width = r.uni(.5, 2), o.track = r.uni(.5, 3);
        sim::dynamics::SimCar car(o);
        c.expect(car.x.x.translation().norm() < 1e-12 && car.x.dx.norm() < 1e-12 && car.t() == o.t0, "start", "");
        car.x = state(r);
        const auto x0 = car.x;
        Eigen::VectorXd u(2);
        u << r.uni(-3, 3), r.uni(-3, 3);
        const double dt = r.pick<double>({1e-3, 2e-3, 1e-2});
        const UTCTime t1 = o.t0 + dt;
        car.step(t1, u);
        c.expect(car.t() == t1, "time", "");
        const Vec3 F(u[0] / o.wheel_radius + u[1] / o.wheel_radius, 0, 0);
        const double tz = o.axle_width / 2 * (u[1] - u[0]) / o.wheel_radius;
        c.expect((car.x.d2x.linear() - F / o.mass).norm() < 1e-9 * (1 + F.norm()), "force", "");
        c.expect((car.x.d2x.angular() - Vec3(0, 0, tz / o.inertia_[2])).norm() < 1e-9 * (1 + std::abs(tz)), "torque", "");
        const double h = secs(t1, o.t0);
        c.expect((car.x.dx.linear() - x0.dx.linear() - car.x.d2x.linear() * h).norm() < 1e-9, "velocity", "");
        c.expect((car.x.dx.angular() - x0.dx.angular() - car.x.d2x.angular() * h).norm() < 1e-9, "spin", "");
        // the pose moves with the velocity it reports; which of the two accelerations bends the step is left open
        const double jerk = h * h * (car.x.d2x - x0.d2x).norm();
        const M3 R0 = axes(x0.x.real()), R1 = axes(car.x.x.real()), D = R0.transpose() * R1;
        const Vec3 wm = (x0.dx.angular() + car.x.dx.angular()) / 2, vm = (x0.dx.linear() + car.x.dx.linear()) / 2;
        const Vec3 turn(D(2, 1) - D(1, 2), D(0, 2) - D(2, 0), D(1, 0) - D(0, 1));
        const double sc = 1 + x0.dx.norm() + car.x.d2x.norm();
        c.expect((turn / 2 - wm * h).norm() < jerk + 2 * h * h * h * std::pow(sc, 3) + 1e-10, "attitude", vh::strf("%.3g", (turn / 2 - wm * h).norm()));
        const Vec3 mv = R0.transpose() * (car.x.x.translation() - x0.x.translation());
        c.expect((mv - (vm + wm.cross(vm) * h / 2) * h).norm() < jerk + 2 * h * h * h * std::pow(sc, 3) + 1e-10, "position", vh::strf("%.3g", (mv - vm * h).norm()));
        c.nontrivial(vh::fnv(u.data(), 16));
    }
}

// what the controller asks of the wheels is the force and the turning moment its gains call for
VH_GROUP(steering)
{
    for (int i = 0; i < c.n(3000, 100000); ++i)
    {
        if (!c.begin()) continue;
        auto& r = c.rng;
        sim::dynamics::SimCar::Options o;
        o.t0 = when(r);
        o.wheel_radius = r.uni(.05, .5), o.axle_width = r.uni(.5, 2), o.track = r.uni(.5, 3);
        auto &hv = o.heading_controller_gains, &vv = o.velocity_controller_gains;
        hv.kp = r.uni(.1, 10), vv.kp = r.uni(.1, 10), hv.kd = vv.kd = hv.ki = vv.ki = 0;
        if (r.chance(.5)) hv.max = r.uni(.1, 5), vv.max = r.uni(.1, 5);
        sim::dynamics::SimCar car(o);
        double gain = 0;
        for (int k = 0; k < 5; ++k)
        {
            car.x = state(r);
            const Vec2 vw(r.uni(-10, 10), r.uni(-2, 2));
            const Vec2 u = car.controller(o.t0 + .01 * (k + 1), vw);
            math::DQuat<double>::TangentVector w;
            car.compute_wrench(car.x, Eigen::VectorXd(u), Out<math::DQuat<double>::TangentVector>(w));
            const auto clip = [](double x, double m) { return std::max(-m, std::min(m, x)); };
            const double push = clip(vv.kp * (vw[0] - car.x.dx.linear()[0]), vv.max), turn = clip(hv.kp * (vw[1] - car.x.dx.angular()[2]), hv.max);
            c.expect(std::abs(w.linear()[0] - push) < 1e-9 * (1 + std::abs(push)) && w.linear().tail<2>().norm() < 1e-12, "push", vh::strf("%.9g, expected %.9g", w.linear()[0], push));
            c.expect(w.angular().head<2>().norm() < 1e-9 && w.angular()[2] * turn >= 0, "turn_sense", vh::strf("%.9g for %.9g", w.angular()[2], turn));
            if (std::abs(turn) > 1e-6)
            {
                const double q = w.angular()[2] / turn;
                c.expect(gain == 0 || std::abs(q - gain) < 1e-6 * std::abs(gain), "turn_linear", vh::strf("ratio %.9g then %.9g", gain, q));
                c.expect(q > .1 && q < 10, "turn_size", vh::strf("ratio %.9g", q));
                gain = q;
            }
        }
        c.nontrivial(vh::fnv(&gain, 8));
    }
}

// the disturbance of the wheels is as large as configured, whatever the step
VH_GROUP(disturbance)
{
    for (int i = 0; i < c.n(12, 300); ++i)
    {
        if (!c.begin()) continue;
        auto& r = c.rng;
        const Sky s = sky(c, 50000 + i);
        sim::Sim::Options o;
        o.input_noise = r.chance(.15) ? 0 : r.uni(.01, 2);
        o.car_options.t0 = s.t0;
        for (auto* g : {&o.car_options.heading_controller_gains, &o.car_options.velocity_controller_gains}) g->kp = g->ki = g->kd = 0;
        o.car_options.wheel_radius = r.uni(.05, .5), o.car_options.axle_width = r.uni(.5, 2), o.car_options.mass = r.uni(.5, 5);
        o.car_options.inertia_ = Vec3(1, 1, r.uni(.5, 5));
        o.gnss_options = quietOptions(r, s);
        o.gnss_options.update_rate_hz_ = .01, o.imu_options.update_rate_hz = .01;
        std::unique_ptr<sim::Sim> sim;
        {
            Quiet z;
            sim = std::make_unique<sim::Sim>(o);
        }
        const double dt = r.pick<double>({1e-4, 1e-3, 1e-2});
        const int n = 1500;
        double sum[2] = {0, 0}, sq[2] = {0, 0}, cross = 0, lag = 0, prev = 0;
        for (int k = 0; k < n; ++k)
        {
            sim->step(dt);
            // back from the motion to the wheels
            const double F = sim->x().d2x.linear()[0] * o.car_options.mass * o.car_options.wheel_radius;
            const double M = sim->x().d2x.angular()[2] * o.car_options.inertia_[2] * o.car_options.wheel_radius * 2 / o.car_options.axle_width;
            const double u[2] = {(F - M) / 2, (F + M) / 2};
            for (int j = 0; j < 2; ++j) sum[j] += u[j], sq[j] += u[j] * u[j];
            cross += u[0] * u[1], lag += u[0] * prev, prev = u[0];
        }
        const double v = o.input_noise * o.input_noise;
        for (int j = 0; j < 2; ++j)
            c.expect(v == 0 ? sq[j] < 1e-18 : std::abs(std::sqrt(sq[j] / n) / o.input_noise - 1) < .15 && std::abs(sum[j] / n) < 7 * o.input_noise / std::sqrt(n), "size",
                     vh::strf("wheel %d: mean %.4g, deviation %.4g, configured %.4g", j, sum[j] / n, std::sqrt(sq[j] / n), o.input_noise));
        if (v > 0) c.expect(std::abs(cross / n) < 7 * v / std::sqrt(n) && std::abs(lag / n) < 7 * v / std::sqrt(n), "independent", vh::strf("%.3g %.3g", cross / n / v, lag / n / v));
        c.count("disturbed steps", n);
        c.nontrivial(vh::fnv(sq, sizeof sq));
    }
}

VH_GROUP(pid)
{
    for (int i = 0; i < c.n(3000, 100000); ++i)
    {
        if (!c.begin()) continue;
        auto& r = c.rng;
        sim::controllers::PID::Options o;
        o.kp = r.uni(0, 10), o.ki = r.chance(.3) ? 0 : r.uni(.01, 5), o.kd = r.chance(.3) ? 0 : r.uni(0, 2);
        const bool bounded = r.chance(.6);
        if (bounded) o.max = r.uni(.1, 5);
        o.tau = r.uni(.02, .2);
        sim::controllers::PID pid(o);
        double I = 0, x = r.uni(-3, 3), xd = 0, stuck = 0;
        const double dt = r.uni(.001, .02);
        bool clean = true;
        const bool push = r.chance(.5);  // a demand the actuator can never meet
        double u = 0;
        for (int k = 0; k < 200; ++k)
        {
            const double goal = push ? 50 : r.uni(-2, 2), e = goal - x;
            const bool upd = r.chance(.8);
            if (upd && o.ki > 0) I += e * dt;
            u = pid.run(dt, x, goal, upd, xd);
            const double P = o.kp * e, D = o.kd * xd;
            c.expect(std::abs(u) <= o.max, "bounded", vh::strf("%.6f beyond %.6f", u, o.max));
            if (clean)
            {
                const double raw = P - D + (upd && o.ki > 0 ? o.ki * I : 0), ref = std::min(o.max, std::max(-o.max, raw));
                c.expect(std::abs(u - ref) < 1e-9 * (1 + std::abs(ref)), "law", vh::strf("%.9g, expected %.9g", u, ref));
            }
            if (clean && std::abs(u) >= o.max && o.ki > 0) clean = false;
            // once saturated the stored integral does not exceed what saturation needs
            if (upd && o.ki > 0 && std::abs(u) >= o.max)
            {
                const double need = std::abs(u - P + D);
                c.expect(o.ki * std::abs(pid.integrator_) <= need * (1 + 1e-9) + 1e-12, "windup", vh::strf("integral term %.4g with an output of %.4g (%.4g would saturate)", o.ki * pid.integrator_, u, need));
            }
            xd = r.uni(-1, 1), x += xd * dt;
        }
        c.nontrivial(vh::fnv(&u, 8));
        (void)stuck;
    }
    // the derivative it forms itself tends to the slope of what it is given
    for (int i = 0; i < c.n(200, 5000); ++i)
    {
        if (!c.begin()) continue;
        auto& r = c.rng;
        sim::controllers::PID::Options o;
        o.kp = 0, o.ki = 0, o.kd = r.uni(.1, 3), o.tau = r.uni(.02, .1);
        sim::controllers::PID pid(o);
        const double slope = r.uni(-5, 5), dt = r.uni(.001, .01), x0 = r.uni(-2, 2);
        double u = 0;
        for (int k = 0; k < 20 * (int)(o.tau / dt + 1); ++k) u = pid.run(dt, x0 + slope * dt * k, 0, true);
        c.expect(std::abs(u + o.kd * slope) < 1e-3 * (1 + std::abs(o.kd * slope)), "derivative", vh::strf("%.6f, expected %.6f", u, -o.kd * slope));
        c.nontrivial(vh::fnv(&u, 8));
    }
}

VH_GROUP(follower)
{
    for (int i = 0; i < c.n(2000, 60000); ++i)
    {
        if (!c.begin()) continue;
        auto& r = c.rng;
        sim::dynamics::SimCar::WaypointFollower::Options o;
        o.waypoints.clear();
        const int n = (int)r.range(1, 6);
        for (int k = 0; k < n; ++k) o.waypoints.push_back(Vec3(r.uni(-50, 50), r.uni(-50, 50), 0));
        o.close_enough_threshold = r.uni(.2, 3), o.max_speed = r.uni(1, 20), o.max_omega = r.uni(.2, 2);
        alignas(16) char mem[sizeof(sim::dynamics::SimCar::WaypointFollower)];
        std::memset(mem, (int)r.range(0, 255), sizeof mem);  // whatever was there before
        auto& f = *new (mem) sim::dynamics::SimCar::WaypointFollower(o);
        int at = 0;
        for (int k = 0; k < 60; ++k)
        {
            const int from = at % n;
            c.expect((f.current_waypoint() - o.waypoints[from]).norm() < 1e-12, "order", vh::strf("step %d, expected waypoint %d", k, from));
            const bool reach = r.chance(.3);
            const double yaw = r.uni(-3.1, 3.1);
            const double rad = reach ? o.close_enough_threshold * r.uni(0, .99) : o.close_enough_threshold * r.uni(1.01, 30), th = r.uni(-M_PI, M_PI);
            const Vec3 p = o.waypoints[from] + Vec3(rad * cos(th), rad * sin(th), 0);
            const Vec2 vw = f.follow(DQ(math::Quat<double>::exp(Vec3(0, 0, yaw)), p));
            if (reach) ++at;
            const Vec3 to = o.waypoints[at % n] - p;
            if (to.norm() < 1e-6) continue;
            const double bear = std::remainder(std::atan2(to.y(), to.x()) - yaw, 2 * M_PI);
            c.expect(std::isfinite(vw[0]) && std::abs(vw[1]) <= o.max_omega * (1 + 1e-9) && vw[0] >= 0 && vw[0] <= std::max(1., o.max_speed) * (1 + 1e-9), "limits", vh::strf("%g %g", vw[0], vw[1]));
            if (std::abs(std::sin(bear)) > 1e-6) c.expect(vw[1] * std::sin(bear) > 0, "steers_towards", vh::strf("bearing %.3f, rate %.3f", bear, vw[1]));
            c.nontrivial(vh::fnv(&p, sizeof p));
        }
        using W = sim::dynamics::SimCar::WaypointFollower;
        f.~W();
    }
}

// ---------------------------------------------------------------- whole runs
// every number an ephemeris holds
struct Put
{
    std::string& o;
    template <class T>
    void num(const T& v) { o += vh::strf("%.17g ", (double)v); }
};
static void put(std::string& o, const KeplerianEphemeris& e)
{
    Put p{o};
    p.num(e.gnssID), p.num(e.sat), p.num(e.toe.sec), p.num(e.toe.nsec), p.num(e.toc.sec), p.num(e.toc.nsec);
    for (double v : {e.sqrta, e.ecc, e.i0, e.omega0, e.w, e.m0, e.delta_n, e.idot, e.omegadot, e.cus, e.cuc, e.cis, e.cic, e.crs, e.crc, e.af0, e.af1, e.af2}) p.num(v);
}
static void put(std::string& o, const GlonassEphemeris& e)
{
    Put p{o};
    p.num(e.gnssID), p.num(e.sat), p.num(e.toe.sec), p.num(e.toe.nsec), p.num(e.slot), p.num(e.taun), p.num(e.gamn);
    for (int k = 0; k < 3; ++k) p.num(e.pos[k]), p.num(e.vel[k]), p.num(e.acc[k]);
}
VH_GROUP(runs)
{
    for (int i = 0; i < c.n(16, 300); ++i)
    {
        if (!c.begin()) continue;
        auto& r = c.rng;
        const Sky s = sky(c, 30000 + i, true);
        sim::Sim::Options o;
        o.input_noise = r.chance(.3) ? 0 : .01;
        o.car_options.t0 = s.t0;
        o.car_options.heading_controller_gains.kp = 10, o.car_options.velocity_controller_gains.kp = r.uni(2, 10);
        o.car_options.heading_controller_gains.kd = o.car_options.velocity_controller_gains.kd = 1;
        o.wp_options.waypoints.clear();
        Vec3 q(0, 0, 0);
        for (int k = 0; k < 6; ++k) q += Vec3(r.uni(-30, 30), r.uni(-30, 30), 0), o.wp_options.waypoints.push_back(q);
        o.wp_options.max_speed = r.uni(2, 10), o.wp_options.max_omega = r.uni(.5, 1.2);
        o.gnss_options = quietOptions(r, s);
        o.imu_options.accel_noise_stdev = o.imu_options.accel_walk_stdev = o.imu_options.gyro_noise_stdev = o.imu_options.gyro_walk_stdev = 0;
        o.imu_options.update_rate_hz = 5000;
        std::unique_ptr<sim::Sim> sim;
        {
            Quiet z;
            sim = std::make_unique<sim::Sim>(o);
        }
        const double dt = r.pick<double>({1e-3, 2e-3});
        std::vector<meas::ImuSample> imu;
        size_t batches = 0, ephs = 0;
        sim->registerImuCB([&](meas::ImuSample m) {
            c.expect(m.t == sim->t(), "imu_stamp", "");
            imu.push_back(m);
        });
        sim->registerGnssCB([&](std::vector<meas::GnssObservation> obs) {
            ++batches;
            if (batches % 7) return;
            const auto& x = sim->x();
            const Vec3 p = sim->T_e2g().translation();
            const Vec3 v = axes(sim->T_e2g().real()) * (x.dx.linear() + x.dx.angular().cross(o.gnss_options.p_b2g));
            for (auto& z : obs)
            {
                const auto it = s.sats.find({z.gnss_id, z.sat_num});
                if (it == s.sats.end()) continue;
                const Expected e = observe(*it->second, sim->t(), p, v, sim->clk());
                c.expect(std::abs(z.pseudorange - e.pr) < 5e-3, "run_pseudorange", vh::strf("%.4f m off the recorded truth", z.pseudorange - e.pr));
                c.expect(std::min(std::abs(z.doppler - e.d1), std::abs(z.doppler - e.d2)) < 1e-2 + 4e-6 * std::abs(e.d1), "run_doppler", vh::strf("%.4f m/s off", z.doppler - e.d1));
                c.expect(z.t == sim->t(), "gnss_stamp", "");
            }
        });
        size_t nth[3] = {0, 0, 0};
        const auto told = [&](const auto& feed, const auto& e, size_t& k, const char* sys) {
            ++ephs;
            if (k >= feed.size()) { c.violate("run_ephemeris", vh::strf("%s: one more than there are", sys)); return; }
            std::string a, b;
            put(a, e), put(b, feed[k++].second);
            c.expect(a == b, "run_ephemeris", vh::strf("%s %zu is not the one recorded", sys, k - 1));
        };
        sim->registerGPSEphCb([&](const GPSEphemeris& e) { told(s.gps, e, nth[0], "GPS"); });
        sim->registerGalEphCb([&](const GalileoEphemeris& e) { told(s.gal, e, nth[1], "Galileo"); });
        sim->registerGloEphCb([&](const GlonassEphemeris& e) { told(s.glo, e, nth[2], "GLONASS"); });
        const UTCTime start = sim->t();
        M3 R = axes(sim->x().x.real());
        Vec3 p = sim->x().x.translation(), v = R * sim->x().dx.linear();
        double moved = 0, worst = 0, worstv = 0, turned = 0;
        const double T = r.uni(8, 15);
        int steps = 0;
        while (secs(sim->t(), start) < T)
        {
            const UTCTime before = sim->t();
            sim->step(dt);
            ++steps;
            c.expect(std::abs(secs(sim->t(), before) - dt) < 2e-9, "step", "");
            if ((int)imu.size() != steps)
            {
                c.violate("imu_every_step", vh::strf("%zu samples in %d steps", imu.size(), steps));
                break;
            }
            // carry the recorded start forward with the recorded inertial measurements alone
            const auto& m = imu.back();
            const double h = secs(sim->t(), before);
            const Vec3 w = steps > 1 ? Vec3((m.gyro + imu[imu.size() - 2].gyro) / 2) : m.gyro;
            const double a = w.norm() * h;
            M3 K = M3::Zero(), E = M3::Identity(), Eh = M3::Identity();
            if (a > 1e-12)
            {
                const Vec3 n = w.normalized();
                K << 0, -n[2], n[1], n[2], 0, -n[0], -n[1], n[0], 0;
                E += std::sin(a) * K + (1 - std::cos(a)) * K * K;
                Eh += std::sin(a / 2) * K + (1 - std::cos(a / 2)) * K * K;
            }
            const Vec3 acc = R * Eh * m.accel + Vec3(0, 0, G);
            p += v * h + acc * h * h / 2, v += acc * h;
            R = R * E;
            moved += acc.norm() * h, turned += a;
            worst = std::max(worst, (p - sim->x().x.translation()).norm());
            worstv = std::max(worstv, (v - axes(sim->x().x.real()) * sim->x().dx.linear()).norm());
        }
        c.expect(worstv < .02 + .01 * moved, "inertial_velocity", vh::strf("%.3f m/s apart after %.0f m/s of acceleration", worstv, moved));
        c.expect(worst < .05 + .01 * moved * T, "inertial_position", vh::strf("%.3f m apart", worst));
        c.expect((R - axes(sim->x().x.real())).norm() < .02 + .002 * turned, "inertial_attitude", vh::strf("%.4f", (R - axes(sim->x().x.real())).norm()));
        c.expect(std::abs((double)batches - T * o.gnss_options.update_rate_hz_) < 2 + .02 * T * o.gnss_options.update_rate_hz_, "gnss_rate", vh::strf("%zu batches in %.1f s at %g Hz", batches, T, o.gnss_options.update_rate_hz_));
        size_t past = 0;
        auto cnt = [&](auto& v) { for (auto& e : v) past += !(e.first > sim->t()); };
        cnt(s.gps), cnt(s.gal), cnt(s.glo);
        c.expect(ephs == past, "run_ephemerides", vh::strf("%zu delivered, %zu had come", ephs, past));
        c.count("simulated steps", steps);
        c.sample(vh::strf("run %d: %.1f s, %.0f m/s of acceleration, %.1f rad turned, drift %.4f m, %.4f m/s", i, T, moved, turned, worst, worstv));
        c.nontrivial(vh::fnv(&p, sizeof p));
    }
}

// driven around, the car gets to its waypoints
VH_GROUP(arrives)
{
    for (int i = 0; i < c.n(30, 1000); ++i)
    {
        if (!c.begin()) continue;
        auto& r = c.rng;
        sim::dynamics::SimCar::Options o;
        o.t0 = when(r);
        o.heading_controller_gains.kp = o.velocity_controller_gains.kp = 10;
        o.heading_controller_gains.kd = o.velocity_controller_gains.kd = 1;
        sim::dynamics::SimCar car(o);
        sim::dynamics::SimCar::WaypointFollower::Options wo;
        wo.waypoints.clear();
        double len = 0;
        Vec3 q(0, 0, 0);
        for (int k = 0; k < 4; ++k)
        {
            const double d = r.uni(8, 25), th = r.uni(-M_PI, M_PI);
            q += Vec3(d * cos(th), d * sin(th), 0), len += d;
            wo.waypoints.push_back(q);
        }
        wo.close_enough_threshold = 1.5, wo.max_speed = r.uni(2, 4), wo.max_omega = 1;
        sim::dynamics::SimCar::WaypointFollower f(wo);
        double T = 0;
        std::set<int> been;
        const double dt = 5e-3, limit = 30 + 4 * len;
        while (T < limit && been.size() < 4)
        {
            for (int k = 0; k < 4; ++k)
                if ((wo.waypoints[k] - car.x.x.translation()).norm() < wo.close_enough_threshold && k == (int)been.size()) been.insert(k);
            const Vec2 u = car.controller(car.t() + dt, f.follow(car.x.x));
            car.step(car.t() + dt, u);
            T += dt;
        }
        c.expect(been.size() == 4, "visits", vh::strf("%zu of 4 waypoints in %.0f s", been.size(), T));
        c.sample(vh::strf("4 waypoints over %.0f m in %.0f s", len, T));
        c.nontrivial(vh::fnv(&T, 8));
    }
}
}  // namespace mc
