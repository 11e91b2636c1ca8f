// C26: the programs end to end - what `simulate` records under its configuration is what it simulated, and what
// `post_process` estimates from such a recording is the recorded truth, started, stamped and logged as declared.
#include <sys/stat.h>
#include <sys/wait.h>
#include <fstream>
#include <sstream>
#include "common/logging/log_reader.h"
#include "core/ekf/rtk_ekf_estimator.h"
#include "sim_common.h"
extern "C" int simulate_main(int, char**);
extern "C" int post_process_main(int, char**);
extern "C" int verify_ephemeris_main(int, char**);

// What post_process hands to the filter, seen on its way
struct Handed
{
    int seen;
    double t0, pose[7], vel[3], ba[3], bg[3], lever[3], TI2e[7], clk[6];
    double P_pose[36], P_vel[9], P_ba[9], P_bg[9], P_gps[4], P_gal[4], P_glo[4], P_lever[9], P_TI2e[36], P_cross;
    double Q_pose[6], Q_vel[3], Q_ba[3], Q_bg[3], Q_gps[2], Q_gal[2], Q_glo[2], Q_lever[3], Q_TI2e[6], Q_sd;
    double point[6], obs[2], fix, R_acc[3], R_gyr[3];
};
static std::string g_handed;
#define INIT_SYM _ZN2mc3ekf15RtkEkfEstimator4initERKNS_7UTCTimeERKNS0_5StateERKNS0_10CovarianceERKN5Eigen6MatrixIdLi6ELi1ELi0ELi6ELi1EEERKNSC_IdLi2ELi1ELi0ELi2ELi1EEERKNSC_IdLi1ELi1ELi0ELi1ELi1EEERKNS0_15InputCovarianceERKNS0_17ProcessCovarianceEPNS_7logging6LoggerE
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
using namespace mc::ekf;
extern "C" __attribute__((weak)) void CAT(__real_, INIT_SYM)(RtkEkfEstimator*, const mc::UTCTime&, const State&, const Covariance&, const pointPosMeas::Covariance&, const obsMeas::Covariance&, const fixAndHoldMeas::Covariance&, const InputCovariance&, const ProcessCovariance&, mc::logging::Logger*);
template <class M>
static void put(double* to, const M& m) { for (int i = 0; i < m.rows(); ++i) for (int j = 0; j < m.cols(); ++j) *to++ = m(i, j); }
template <class M>
static void diag(double* to, const M& m) { for (int i = 0; i < m.size(); ++i) *to++ = m(i); }
static void put(double* to, const mc::math::DQuat<double>& q) { put(to, mc::Vec4(q.real().arr_)), put(to + 4, mc::Vec3(q.translation())); }
extern "C" void CAT(__wrap_, INIT_SYM)(RtkEkfEstimator* self, const mc::UTCTime& t0, const State& x, const Covariance& P, const pointPosMeas::Covariance& pp, const obsMeas::Covariance& ob,
                                       const fixAndHoldMeas::Covariance& fh, const InputCovariance& im, const ProcessCovariance& q, mc::logging::Logger* log)
{
    if (!g_handed.empty())
    {
        static Handed h;
        h.seen = 1;
        h.t0 = (double)t0.sec + 1e-9 * t0.nsec;
        put(h.pose, x.pose), put(h.vel, x.vel), put(h.ba, x.acc_bias), put(h.bg, x.gyro_bias), put(h.lever, x.p_b2g), put(h.TI2e, x.T_I2e);
        put(h.clk, x.gps_clk), put(h.clk + 2, x.gal_clk), put(h.clk + 4, x.glo_clk);
        put(h.P_pose, P.pose_pose), put(h.P_vel, P.vel_vel), put(h.P_ba, P.accBias_accBias), put(h.P_bg, P.gyroBias_gyroBias), put(h.P_gps, P.gpsClk_gpsClk);
        put(h.P_gal, P.galClk_galClk), put(h.P_glo, P.gloClk_gloClk), put(h.P_lever, P.pB2g_pB2g), put(h.P_TI2e, P.TI2e_TI2e);
        h.P_cross = P.pose_vel.norm() + P.pose_TI2e.norm() + P.vel_accBias.norm() + P.pB2g_TI2e.norm();
        put(h.Q_pose, q.pose), put(h.Q_vel, q.vel), put(h.Q_ba, q.accBias), put(h.Q_bg, q.gyroBias), put(h.Q_gps, q.gpsClk), put(h.Q_gal, q.galClk), put(h.Q_glo, q.gloClk);
        put(h.Q_lever, q.pB2g), put(h.Q_TI2e, q.TI2e), h.Q_sd = q.sd(0);
        diag(h.point, pp), diag(h.obs, ob), h.fix = fh(0), diag(h.R_acc, im.accel), diag(h.R_gyr, im.gyro);
        std::ofstream(g_handed, std::ios::binary).write((const char*)&h, sizeof h);
    }
    CAT(__real_, INIT_SYM)(self, t0, x, P, pp, ob, fh, im, q, log);
}

namespace mc {
struct Out_ { int rc; std::string text; };
static std::string slurp(const std::string& f)
{
    std::ifstream i(f, std::ios::binary);
    std::stringstream s;
    s << i.rdbuf();
    return s.str();
}
// runs a program in a process and directory of its own
static Out_ run(const std::string& dir, int (*prog)(int, char**), std::vector<std::string> args)
{
    const std::string log = dir + "/output.txt";
    fflush(stdout), fflush(stderr), std::cout.flush();
    const pid_t p = fork();
    if (p == 0)
    {
        if (chdir(dir.c_str())) _exit(99);
        const int f = open(log.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
        dup2(f, 1), dup2(f, 2);
        alarm(240);
        std::vector<char*> argv;
        for (auto& a : args) argv.push_back(&a[0]);
        argv.push_back(nullptr);
        int rc = 254;
        try
        {
            rc = prog((int)args.size(), argv.data());
        }
        catch (const std::exception& e)
        {
            fprintf(stderr, "uncaught exception: %s\n", e.what());
        }
        std::cout.flush(), fflush(stdout);
        _exit(rc);
    }
    int st = 0;
    waitpid(p, &st, 0);
    return {WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st), slurp(log)};
}
static std::string tail(const std::string& s) { return s.size() > 600 ? s.substr(s.size() - 600) : s; }
static bool fine(vh::Ctx& c, const char* what, const Out_& o)
{
    const bool bad = o.text.find("runtime error:") != std::string::npos || o.text.find("AddressSanitizer") != std::string::npos;
    const size_t at = std::min(o.text.find("runtime error:"), o.text.find("AddressSanitizer"));
    c.expect(!bad, std::string(what) + ":memory", bad ? o.text.substr(at > 200 ? at - 200 : 0, 700) : "");
    c.expect(o.rc == 0, std::string(what) + ":ends", vh::strf("ended with %d: ", o.rc) + tail(o.text));
    return !bad && o.rc == 0;
}
static std::string list(const Vec3& v) { return vh::strf("[%.17g, %.17g, %.17g]", v[0], v[1], v[2]); }

struct Truth { double t; double x[28]; Vec3 p() const { return Vec3(x[4], x[5], x[6]); } M3 R() const { return axes(math::Quat<double>(Vec4(x[0], x[1], x[2], x[3]))); }
    Vec3 w() const { return Vec3(x[7], x[8], x[9]); } Vec3 v() const { return Vec3(x[10], x[11], x[12]); } Vec3 a() const { return Vec3(x[16], x[17], x[18]); }
    Vec3 wd() const { return Vec3(x[13], x[14], x[15]); } M3 Rg() const { return axes(math::Quat<double>(Vec4(x[19], x[20], x[21], x[22]))); } Vec3 pg() const { return Vec3(x[23], x[24], x[25]); } Vec2 clk() const { return Vec2(x[26], x[27]); } };
struct Imu { double t; Vec3 a, w; };
struct Est { double t; double x[25]; };
struct Res { double t; int sat; double x[6]; };
struct Recording
{
    std::string dir;
    std::vector<Truth> truth;
    std::vector<Imu> imu;
    std::vector<std::pair<double, meas::GnssObservation>> obs;
    UTCTime t0;
};
static double rel(const UTCTime& t, const UTCTime& t0) { return secs(t, t0); }
template <class R, class F>
static bool raw(const std::string& file, size_t doubles, const UTCTime& t0, bool sat, std::vector<R>& out, F f)
{
    const std::string s = slurp(file);
    const size_t n = 16 + (sat ? 4 : 0) + 8 * doubles;
    for (size_t i = 0; i + n <= s.size(); i += n)
    {
        int64_t st[2];
        memcpy(st, &s[i], 16);
        std::vector<double> d(doubles);
        int id = 0;
        if (sat) memcpy(&id, &s[i + 16], 4);
        memcpy(d.data(), &s[i + n - 8 * doubles], 8 * doubles);
        out.push_back(f(rel(UTCTime(st[0], st[1]), t0), id, d.data()));
    }
    return s.size() % n == 0;
}
static std::string only(const std::string& root)
{
    std::string r;
    for (auto& e : std::experimental::filesystem::directory_iterator(root)) r = e.path().string();
    return r;
}
static Recording readRun(vh::Ctx& c, const std::string& dir, const UTCTime& t0)
{
    Recording r;
    r.dir = dir, r.t0 = t0;
    c.expect(raw<Truth>(dir + "/TRUTH_POSE.log", 28, t0, false, r.truth, [](double t, int, const double* d) { Truth x; x.t = t; memcpy(x.x, d, sizeof x.x); return x; }), "truth_layout", "");
    logging::LogReader l(dir);
    l.setCallback(logging::IMU_SAMPLE, [&](const UTCTime& t, int, logging::StreamReader& s) {
        meas::ImuSample m;
        s.get(m);
        c.expect(m.t == t, "imu_record_stamp", "");
        r.imu.push_back({rel(t, t0), m.accel, m.gyro});
    });
    l.setCallback(logging::GNSS_OBS, [&](const UTCTime& t, int, logging::StreamReader& s) {
        meas::GnssObservation m;
        s.get(m);
        c.expect(m.t == t, "gnss_record_stamp", "");
        r.obs.emplace_back(rel(t, t0), m);
    });
    l.read();
    return r;
}
struct SimCfg
{
    double dt, tmax, gnss, imu, speed, omega, pr = 0, cp = 0, dop = 0, walk = 0, clk = 0, an = 0, aw = 0, gn = 0, gw = 0;
    Vec3 lever, lla;
    std::vector<Vec3> way;
    bool place = true, drive = true;
    std::string text(const Sky& s, const std::string& out, vh::Rng& r) const
    {
        std::vector<std::string> l{vh::strf("input_noise: 0"), vh::strf("dt: %.17g", dt), vh::strf("tmax: %.17g", tmax), vh::strf("gnss_update_rate: %g", gnss), vh::strf("update_rate: %g", imu),
            vh::strf("max_speed: %.17g", speed), vh::strf("max_omega: %.17g", omega), vh::strf("prange_stdev: %.17g", pr), vh::strf("cphase_stdev: %.17g", cp), vh::strf("doppler_stdev: %.17g", dop),
            vh::strf("clock_walk_stdev: %.17g", walk), vh::strf("clock_init_stdev: %.17g", clk), vh::strf("accel_noise_stdev: %.17g", an), vh::strf("accel_walk_stdev: %.17g", aw),
            vh::strf("gyro_noise_stdev: %.17g", gn), vh::strf("gyro_walk_stdev: %.17g", gw), "p_b2g: " + list(lever), "eph_log: \"" + s.dir + "\"", "output_dir: \"" + out + "\""};
        if (place) l.push_back("ref_lla: " + list(lla));
        if (drive)
        {
            std::string w = "waypoints: [";
            for (size_t k = 0; k < way.size(); ++k) w += (k ? ", " : "") + list(way[k]);
            l.push_back(w + "]");
        }
        for (size_t k = l.size(); k > 1; --k) std::swap(l[k - 1], l[r.range(0, k - 1)]);
        std::string o;
        for (auto& x : l) o += x + "\n";
        return o;
    }
};
static SimCfg simCfg(vh::Rng& r)
{
    SimCfg s;
    s.dt = r.pick<double>({.002, .004, .005, .01}), s.tmax = r.uni(2, 8), s.gnss = r.pick<double>({1, 2, 5, 10, 25, 40}), s.imu = r.pick<double>({50, 100, 250, 1000});
    s.speed = r.uni(2, 15), s.omega = r.uni(.2, 1), s.lever = v3(r, r.chance(.2) ? 0 : 2), s.lla = Vec3(r.uni(-1.5, 1.5), r.uni(-3.1, 3.1), r.uni(-50, 3000));
    s.place = r.chance(.8), s.drive = r.chance(.7);
    if (!s.place) s.lla = Vec3(40.246184 * M_PI / 180, -111.647769 * M_PI / 180, 1387.998309);
    Vec3 q(0, 0, 0);
    for (int k = (int)r.range(1, 5); k--;) q += Vec3(r.uni(-40, 40), r.uni(-40, 40), 0), s.way.push_back(q);
    return s;
}
static std::string fresh(vh::Ctx& c, const char* name, int i)
{
    const std::string d = c.scratch + vh::strf("/%s%d", name, i);
    mkdir(d.c_str(), 0700), mkdir((d + "/work").c_str(), 0700), mkdir((d + "/logs").c_str(), 0700), mkdir((d + "/sim").c_str(), 0700);
    return d;
}
static bool simulate(vh::Ctx& c, const std::string& d, const Sky& s, const SimCfg& k, Recording* rec)
{
    std::ofstream(d + "/sim.yaml") << k.text(s, d + "/sim", c.rng);
    if (!fine(c, "simulate", run(d + "/work", simulate_main, {"simulate", "--config_file", d + "/sim.yaml"}))) return false;
    *rec = readRun(c, only(d + "/sim"), s.t0);
    c.count("truth records", rec->truth.size()), c.count("observations", rec->obs.size()), c.count("inertial samples", rec->imu.size());
    return true;
}
static void clean(const std::string& d) { std::experimental::filesystem::remove_all(d); }
static UTCTime start(const Sky& s)
{
    logging::LogReader l(s.dir);
    return l.startTime();
}
static Sky skyOf(vh::Ctx& c, int id)
{
    Sky s = sky(c, id);
    s.t0 = start(s);
    return s;
}

// what is recorded is what was simulated, with the configured rates, place, lever arm, limits and noise
VH_GROUP(simulate)
{
    for (int i = 0; i < c.n(24, 1200); ++i)
    {
        if (!c.begin()) continue;
        auto& r = c.rng;
        const Sky s = skyOf(c, i);
        SimCfg k = simCfg(r);
        const std::string d = fresh(c, "s", i);
        Recording rec;
        if (!simulate(c, d, s, k, &rec)) { clean(d), clean(std::string(s.dir).erase(s.dir.rfind('/'))); continue; }
        // length and steps
        c.expect(!rec.truth.empty() && std::abs((double)rec.truth.size() - k.tmax / k.dt) < 1.5, "run_length", vh::strf("%zu steps of %g s for %.3f s", rec.truth.size(), k.dt, k.tmax));
        for (size_t n = 0; n < rec.truth.size(); ++n)
            if (std::abs(rec.truth[n].t - (n + 1) * k.dt) > 1e-9 + 2e-9 * n) { c.violate("steps", vh::strf("step %zu at %.9f", n, rec.truth[n].t)); break; }
        // the same vehicle, driven without the program
        sim::Sim::Options o;
        o.input_noise = 0;
        o.car_options.t0 = s.t0;
        o.wp_options.max_speed = k.speed, o.wp_options.max_omega = k.omega;
        if (k.drive) o.wp_options.waypoints = k.way;
        o.gnss_options.ephemeris_log = s.dir, o.gnss_options.update_rate_hz_ = k.gnss, o.gnss_options.p_b2g = k.lever;
        o.gnss_options.T_e2n = utils::WGS84::dq_ecef2ned(utils::WGS84::lla2ecef(k.lla));
        o.gnss_options.pseudorange_stdev_ = o.gnss_options.carrier_phase_stdev_ = o.gnss_options.doppler_stdev_ = o.gnss_options.clock_walk_stdev_ = o.gnss_options.clock_init_stdev_ = 0;
        o.imu_options.accel_noise_stdev = o.imu_options.accel_walk_stdev = o.imu_options.gyro_noise_stdev = o.imu_options.gyro_walk_stdev = 0, o.imu_options.update_rate_hz = k.imu;
        std::unique_ptr<sim::Sim> sim;
        {
            Quiet q;
            sim = std::make_unique<sim::Sim>(o);
        }
        double far = 0;
        for (auto& t : rec.truth)
        {
            sim->step(k.dt);
            far = std::max({far, (sim->x().x.translation() - t.p()).norm(), (axes(sim->x().x.real()) - t.R()).norm(), (sim->x().dx.linear() - t.v()).norm(), (sim->x().dx.angular() - t.w()).norm()});
            const M3 Re = axes(o.gnss_options.T_e2n.real());
            const Vec3 pg = o.gnss_options.T_e2n.translation() + Re * (t.p() + t.R() * k.lever);
            if (!c.expect((t.pg() - pg).norm() < 1e-5 && (t.Rg() - Re * t.R()).norm() < 1e-8, "antenna_record", vh::strf("%.6f m off", (t.pg() - pg).norm()))) break;
        }
        c.expect(far < 1e-6, "same_drive", vh::strf("%.3g apart", far));
        // every sample as simulated, at the configured rate
        size_t at = 0;
        double last = 0;
        for (auto& m : rec.imu)
        {
            while (at < rec.truth.size() && rec.truth[at].t < m.t - 1e-12) ++at;
            if (!c.expect(at < rec.truth.size() && std::abs(rec.truth[at].t - m.t) < 1e-12, "imu_on_truth", vh::strf("%.9f", m.t))) break;
            const Truth& x = rec.truth[at];
            const Vec3 f = x.a() + x.w().cross(x.v()) - x.R().transpose() * Vec3(0, 0, G);
            if (!c.expect((m.a - f).norm() < 1e-6 && (m.w - x.w()).norm() < 1e-9, "imu_truth", vh::strf("%.6f m/s2, %.6f rad/s", (m.a - f).norm(), (m.w - x.w()).norm()))) break;
            if (!c.expect(m.t - last < 1 / k.imu + k.dt + 1e-8 && m.t - last > 1 / k.imu - 1e-8, "imu_rate", vh::strf("%.6f s apart at %g Hz", m.t - last, k.imu))) break;
            last = m.t;
        }
        c.expect(rec.truth.empty() || rec.truth.back().t - last < 1 / k.imu + k.dt + 1e-8, "imu_end", "");
        at = 0, last = 0;
        for (size_t n = 0; n < rec.obs.size();)
        {
            size_t e = n;
            std::set<std::pair<int, int>> seen;
            while (at < rec.truth.size() && rec.truth[at].t < rec.obs[n].first - 1e-12) ++at;
            if (!c.expect(at < rec.truth.size() && std::abs(rec.truth[at].t - rec.obs[n].first) < 1e-12, "gnss_on_truth", "")) break;
            const Truth& x = rec.truth[at];
            const Vec3 v = axes(o.gnss_options.T_e2n.real()) * (x.R() * (x.v() + x.w().cross(k.lever)));
            for (; e < rec.obs.size() && rec.obs[e].first == rec.obs[n].first; ++e)
            {
                const auto& z = rec.obs[e].second;
                seen.insert({z.gnss_id, z.sat_num});
                const auto it = s.sats.find({z.gnss_id, z.sat_num});
                if (!c.expect(it != s.sats.end(), "gnss_unknown", "") || e % 5) continue;
                const Expected w = observe(*it->second, z.t, x.pg(), v, x.clk());
                c.expect(std::abs(z.pseudorange - w.pr) < 5e-3, "gnss_truth_range", vh::strf("%.4f m", z.pseudorange - w.pr));
                c.expect(std::min(std::abs(z.doppler - w.d1), std::abs(z.doppler - w.d2)) < 1e-2 + 4e-6 * std::abs(w.d1), "gnss_truth_rate", vh::strf("%.4f m/s", z.doppler - w.d1));
            }
            c.expect(seen.size() == s.sats.size() && e - n == seen.size(), "gnss_all", vh::strf("%zu of %zu", seen.size(), s.sats.size()));
            c.expect(rec.obs[n].first - last < 1 / k.gnss + k.dt + 1e-8 && rec.obs[n].first - last > 1 / k.gnss - 1e-8, "gnss_rate", vh::strf("%.6f s apart at %g Hz", rec.obs[n].first - last, k.gnss));
            last = rec.obs[n].first, n = e;
        }
        c.expect(rec.truth.empty() || rec.truth.back().t - last < 1 / k.gnss + k.dt + 1e-8, "gnss_end", "");
        c.sample(vh::strf("run %d: %.2f s at %g s, %zu inertial samples, %zu observations of %zu satellites", i, k.tmax, k.dt, rec.imu.size(), rec.obs.size(), s.sats.size()));
        c.nontrivial(vh::fnv(&rec.truth.back(), sizeof(Truth)));
        clean(d), clean(std::string(s.dir).erase(s.dir.rfind('/')));
    }
}

// each noise option reaches its own sensor, in its own size, and no other
VH_GROUP(noise)
{
    for (int i = 0; i < c.n(18, 400); ++i)
    {
        if (!c.begin()) continue;
        auto& r = c.rng;
        const Sky s = skyOf(c, 5000 + i);
        SimCfg k = simCfg(r);
        k.dt = .01, k.imu = 1000, k.gnss = 20, k.tmax = 12;
        double* opt[9] = {&k.pr, &k.cp, &k.dop, &k.walk, &k.clk, &k.an, &k.aw, &k.gn, &k.gw};
        const int on = i % 9;
        *opt[on] = on == 3 || on == 4 ? std::pow(10., r.uni(-9, -6)) : std::pow(10., r.uni(-2, 0));
        const std::string d = fresh(c, "n", i);
        Recording rec;
        if (!simulate(c, d, s, k, &rec)) { clean(d); continue; }
        const M3 Re = axes(utils::WGS84::dq_ecef2ned(utils::WGS84::lla2ecef(k.lla)).real());
        double q[9] = {0};
        long n[9] = {0};
        auto take = [&](int a, double v) { q[a] += v * v, ++n[a]; };
        size_t at = 0;
        Vec3 pa = Vec3::Zero(), pw = Vec3::Zero();
        bool first = true;
        for (auto& m : rec.imu)
        {
            while (at + 1 < rec.truth.size() && rec.truth[at].t < m.t - 1e-12) ++at;
            const Truth& x = rec.truth[at];
            const Vec3 ea = m.a - (x.a() + x.w().cross(x.v()) - x.R().transpose() * Vec3(0, 0, G)), ew = m.w - x.w();
            for (int a = 0; a < 3; ++a)
            {
                take(5, ea[a]), take(7, ew[a]);
                if (!first) take(6, (ea[a] - pa[a]) / k.dt), take(8, (ew[a] - pw[a]) / k.dt);
            }
            pa = ea, pw = ew, first = false;
        }
        at = 0;
        Vec2 pc = Vec2::Zero();
        double pt = -1;
        std::map<std::pair<int, int>, double> amb;
        for (auto& z : rec.obs)
        {
            while (at + 1 < rec.truth.size() && rec.truth[at].t < z.first - 1e-12) ++at;
            const Truth& x = rec.truth[at];
            const auto it = s.sats.find({z.second.gnss_id, z.second.sat_num});
            if (it == s.sats.end()) continue;
            if (pt != z.first)
            {
                if (pt >= 0) take(3, (x.clk()[1] - pc[1]) / (z.first - pt));
                else take(4, x.clk()[0]);
                pc = x.clk(), pt = z.first;
            }
            const Vec3 v = Re * (x.R() * (x.v() + x.w().cross(k.lever)));
            const Expected w = observe(*it->second, z.second.t, x.pg(), v, x.clk());
            take(0, z.second.pseudorange - w.pr);
            take(2, std::abs(z.second.doppler - w.d1) < std::abs(z.second.doppler - w.d2) ? z.second.doppler - w.d1 : z.second.doppler - w.d2);
            const double a = z.second.carrier_phase - w.pr / w.lambda;
            take(1, a - std::round(a));
        }
        static const char* name[9] = {"prange_stdev", "cphase_stdev", "doppler_stdev", "clock_walk_stdev", "clock_init_stdev", "accel_noise_stdev", "accel_walk_stdev", "gyro_noise_stdev", "gyro_walk_stdev"};
        const double floor[9] = {5e-3, 2e-3, 2e-2, 1e-13, 1e-13, 1e-5, 1e-3, 1e-6, 1e-4};
        for (int a = 0; a < 9; ++a)
        {
            const double sd = n[a] ? std::sqrt(q[a] / n[a]) : 0;
            if (*opt[a] == 0)
            {
                // a clock drift that walks also moves the clock; a walk shows in the raw sample and noise in its increments
                if ((a == 4 && on == 3) || (a == 5 && on == 6) || (a == 6 && on == 5) || (a == 7 && on == 8) || (a == 8 && on == 7) || (a == 3 && on == 4) || (a == 1 && on < 5)) continue;
                c.expect(sd < floor[a], std::string("clean:") + name[a], vh::strf("%.3g with only %s", sd, name[on]));
            }
            else if (a == 4)
                c.expect(n[a] && sd < 6 * *opt[a] + 1e-12 && sd > 1e-3 * *opt[a], std::string("size:") + name[a], vh::strf("%.3g for %.3g", sd, *opt[a]));
            else if (a == 1 && *opt[a] > .12)
                c.expect(sd > .1, std::string("size:") + name[a], "");
            else
                c.expect(n[a] > 20 && std::abs(sd / *opt[a] - 1) < 5 / std::sqrt(2. * n[a]) + .02 + (a == 1 || a == 0 || a == 2 ? floor[a] / *opt[a] : 0), std::string("size:") + name[a], vh::strf("%.3g for %.3g (%ld)", sd, *opt[a], n[a]));
        }
        c.nontrivial(vh::fnv(q, sizeof q));
        clean(d), clean(std::string(s.dir).erase(s.dir.rfind('/')));
    }
}

struct PP
{
    Vec3 rot, trans, vel, ba, bg, lever;
    Vec2 gps, gal, glo;
    Vec6 TI;
    double sd;
    static PP random(vh::Rng& r, double size)
    {
        PP p;
        auto any = [&](auto& v) { for (int k = 0; k < v.size(); ++k) v[k] = r.chance(.1) ? 0 : size * r.uni(.1, 1); };
        any(p.rot), any(p.trans), any(p.vel), any(p.ba), any(p.bg), any(p.lever), any(p.gps), any(p.gal), any(p.glo), any(p.TI);
        p.sd = size * r.uni(.1, 1);
        return p;
    }
    template <class V>
    static std::string l(const V& v)
    {
        std::string o = "[";
        for (int k = 0; k < v.size(); ++k) o += vh::strf(k ? ", %.17g" : "%.17g", v[k]);
        return o + "]";
    }
    std::string text() const
    {
        return "{translation: " + l(trans) + ", rotation: " + l(rot) + ", vel: " + l(vel) + ", acc_bias: " + l(ba) + ", gyro_bias: " + l(bg) + ", gps_clk: " + l(gps) + ", gal_clk: " + l(gal) + ", glo_clk: " +
               l(glo) + ", p_b2g: " + l(lever) + ", T_I2e: " + l(TI) + vh::strf(", sd: %.17g}", sd);
    }
};
template <class V>
static bool squares(const double* got, const V& sd, bool matrix)
{
    const int n = (int)sd.size();
    for (int i = 0; i < n; ++i)
        for (int j = 0; j < (matrix ? n : 1); ++j)
        {
            const double g = matrix ? got[i * n + j] : got[i], w = !matrix || i == j ? sd[i] * sd[i] : 0;
            if (!(std::abs(g - w) <= 1e-12 * std::abs(w))) return false;
        }
    return true;
}
static Vec6 join(const Vec3& a, const Vec3& b)
{
    Vec6 v;
    v << a, b;
    return v;
}

// The estimate follows the recorded truth
VH_GROUP(estimate)
{
    for (int i = 0; i < c.n(24, 1000); ++i)
    {
        if (!c.begin()) continue;
        auto& r = c.rng;
        const Sky s = skyOf(c, 10000 + i);
        SimCfg k = simCfg(r);
        if (i % 8 == 7) k.tmax = 30;
        if (r.chance(.5)) k.clk = 1e-8;
        if (k.imu < 100) k.imu = 100;
        const bool quiet = r.chance(.6);
        if (!quiet) k.an = r.uni(0, .3), k.gn = r.uni(0, .03), k.aw = r.uni(0, .3), k.gw = r.uni(0, .03);
        const std::string d = fresh(c, "e", i);
        Recording rec;
        if (!simulate(c, d, s, k, &rec)) { clean(d); continue; }
        const PP P0 = PP::random(r, .01), Q = PP::random(r, 1e-3);
        const Vec3 ig = v3(r, .01), ia = v3(r, .1);
        const Vec6 point = Vec6::Constant(r.uni(.1, 3));
        const Vec2 ob(r.uni(.5, 3), r.uni(.01, 1));
        const bool sim = !r.chance(.3);
        const Vec3 lla = Vec3(r.uni(-89, 89), r.uni(-179, 179), r.uni(-50, 3000)), tr = v3(r, 20), v0 = v3(r, 5);
        const double hdg = r.uni(-180, 180);
        const math::Quat<double> q0 = math::Quat<double>::exp(v3(r, 1));
        const Vec4 qa = q0.arr_;
        std::ofstream(d + "/pp.yaml") << "use_init_sim_state: " << (sim ? "true" : "false") << "\np_b2g0: " << list(k.lever) << "\nP0_stdev: " << P0.text() << "\nprocess_stdev: " << Q.text()
                                      << "\npoint_pos_stdev: " << PP::l(point) << "\nobs_stdev: " << PP::l(ob) << "\nfix_and_hold_stdev: 0.25\nimu_stdev: {gyro: " << list(ig) << ", accel: " << list(ia) << "}\n"
                                      << "translation0: " << list(tr) << "\nrotation0: " << PP::l(qa) << "\nvel0: " << list(v0) << "\nlla0_deg: " << list(lla) << "\nheading0_deg: " << vh::strf("%.17g", hdg) << "\n";
        g_handed = d + "/handed";
        const bool ok = fine(c, "post_process", run(d + "/work", post_process_main, {"post_process", "--config_file", d + "/pp.yaml", "--log", rec.dir}));
        g_handed.clear();
        if (!ok || rec.truth.empty()) { clean(d); continue; }
        const std::string out = only(d + "/logs/post_process");
        // what went into the filter
        Handed h;
        memset(&h, 0, sizeof h);
        const std::string hs = slurp(d + "/handed");
        if (hs.size() == sizeof h)
        {
            memcpy(&h, hs.data(), sizeof h);
            const bool P = squares(h.P_pose, join(P0.rot, P0.trans), true) && squares(h.P_vel, P0.vel, true) && squares(h.P_ba, P0.ba, true) && squares(h.P_bg, P0.bg, true) && squares(h.P_gps, P0.gps, true) &&
                           squares(h.P_gal, P0.gal, true) && squares(h.P_glo, P0.glo, true) && squares(h.P_lever, P0.lever, true) && squares(h.P_TI2e, P0.TI, true) && h.P_cross == 0;
            c.expect(P, "initial_covariance", "is not the configured one");
            const bool q = squares(h.Q_pose, join(Q.rot, Q.trans), false) && squares(h.Q_vel, Q.vel, false) && squares(h.Q_ba, Q.ba, false) && squares(h.Q_bg, Q.bg, false) && squares(h.Q_gps, Q.gps, false) &&
                           squares(h.Q_gal, Q.gal, false) && squares(h.Q_glo, Q.glo, false) && squares(h.Q_lever, Q.lever, false) && squares(h.Q_TI2e, Q.TI, false) && std::abs(h.Q_sd - Q.sd * Q.sd) < 1e-15;
            c.expect(q, "process_covariance", "is not the configured one");
            c.expect(squares(h.point, point, false) && squares(h.obs, ob, false) && std::abs(h.fix - .0625) < 1e-12 && squares(h.R_acc, ia, false) && squares(h.R_gyr, ig, false), "measurement_covariance", "is not the configured one");
            Vec3 gone(h.ba[0], h.ba[1], h.ba[2]);
            c.expect(gone.norm() == 0 && Vec3(h.bg[0], h.bg[1], h.bg[2]).norm() == 0 && Vec3(h.clk[0], h.clk[1], h.clk[2]).norm() == 0 && Vec3(h.clk[3], h.clk[4], h.clk[5]).norm() == 0, "initial_rest", "");
            c.expect((Vec3(h.lever[0], h.lever[1], h.lever[2]) - k.lever).norm() < 1e-12, "initial_lever", "");
            c.expect(std::abs(h.t0 - (double)s.t0.sec - 1e-9 * s.t0.nsec - (sim ? rec.truth[0].t : h.t0 - (double)s.t0.sec - 1e-9 * s.t0.nsec)) < 1e-6, "initial_time", vh::strf("%.6f s", h.t0 - s.t0.sec));
            c.count("filter set-ups seen");
        }
        // what came out
        std::vector<Est> est;
        c.expect(raw<Est>(out + "/ESTIMATE.log", 25, s.t0, false, est, [](double t, int, const double* d) { Est e; e.t = t; memcpy(e.x, d, sizeof e.x); return e; }), "estimate_layout", "file is not a whole number of declared records");
        std::vector<Res> res;
        c.expect(raw<Res>(out + "/GPS_OBS_RESIDUAL.log", 6, s.t0, true, res, [](double t, int id, const double* d) { Res e; e.t = t, e.sat = id; memcpy(e.x, d, sizeof e.x); return e; }), "residual_layout", "file is not a whole number of declared records");
        const double T = rec.truth.back().t;
        if (!c.expect((double)est.size() < T / .01 + 3 && (double)est.size() > T / (.01 + k.dt) - 3, "estimates", vh::strf("%zu in %.2f s", est.size(), T))) { clean(d); continue; }
        c.count("estimates", est.size()), c.count("residuals", res.size());
        const double period = std::max(1 / k.imu, k.dt) + 1 / k.imu + k.dt;
        c.expect(std::abs(est[0].t - (sim ? rec.truth[0].t : 0)) < period + .011, "first_stamp", vh::strf("%.4f s", est[0].t));
        for (size_t n = 1; n < est.size(); ++n)
            if (!c.expect(est[n].t >= est[n - 1].t && est[n].t - est[n - 1].t < .011 + period, "stamps", vh::strf("%.4f then %.4f", est[n - 1].t, est[n].t))) break;
        c.expect(T - est.back().t < .03 + 2 * period, "last_stamp", vh::strf("%.3f s before the end", T - est.back().t));
        // the rates and forces told are the sample last seen, or those of the start
        {
            size_t m = 0;
            long told = 0, early = 0;
            for (auto& e : est)
            {
                while (m < rec.imu.size() && rec.imu[m].t < e.t + 1e-6) ++m;  // m samples not later
                const Vec3 w(e.x[10], e.x[11], e.x[12]), f(e.x[13], e.x[14], e.x[15]);
                bool good = false;
                for (size_t q = m > 2 ? m - 2 : 0; q < m; ++q)
                    if (rec.imu[q].t > e.t - 1 / k.imu - 2 * k.dt - 1e-3) good |= (w - rec.imu[q].w).norm() < 1e-9 && (f - rec.imu[q].a).norm() < 1e-9;
                if (m <= 1 && !good)
                {
                    // nothing measured yet
                    const Vec3 w0 = sim ? rec.truth[0].w() : Vec3(0, 0, 0);
                    good = (w - w0).norm() < 1e-9 && (sim ? f.allFinite() && std::abs(f.norm() - G) < 30 : (f - Vec3(0, 0, -G)).norm() < 1e-9);
                    early += good;
                }
                told += good;
                if (!c.expect(good, m <= 1 ? "initial_input" : "input", vh::strf("%.6f s: rate %.6g %.6g %.6g, force %.6g %.6g %.6g (%zu samples seen)", e.t, w[0], w[1], w[2], f[0], f[1], f[2], m))) break;
            }
            c.count("inputs told", told), c.count("inputs before any sample", early);
        }
        if (!sim)
        {
            // the configured start: position on Earth of the antenna, axes turned by the heading
            const Vec3 L(lla[0] * M_PI / 180, lla[1] * M_PI / 180, lla[2]);
            const auto T0 = utils::WGS84::dq_ecef2ned(utils::WGS84::lla2ecef(L));
            M3 H;
            const double a = hdg * M_PI / 180;
            H << std::cos(a), -std::sin(a), 0, std::sin(a), std::cos(a), 0, 0, 0, 1;
            const Est& e = est[0];
            if (e.t < 1e-9)
            {
                const M3 R0 = axes(q0);
                c.expect((axes(math::Quat<double>(Vec4(e.x[0], e.x[1], e.x[2], e.x[3]))) - R0).norm() < 1e-9 && (Vec3(e.x[4], e.x[5], e.x[6]) - tr).norm() < 1e-9 && (Vec3(e.x[7], e.x[8], e.x[9]) - v0).norm() < 1e-12, "configured_start", "");
                // (the sense in which the heading turns is documented nowhere: either)
                const Vec3 got(e.x[16], e.x[17], e.x[18]), l = tr + R0 * k.lever;
                const double off = std::min((got - T0.translation() - axes(T0.real()) * (H * l)).norm(), (got - T0.translation() - axes(T0.real()) * (H.transpose() * l)).norm());
                c.expect(off < 1e-5, "configured_place", vh::strf("%.4f m off", off));
                c.count("configured starts");
            }
            clean(d), clean(std::string(s.dir).erase(s.dir.rfind('/')));
            c.nontrivial(vh::fnv(&est.back(), sizeof(Est)));
            continue;
        }
        // Dead reckoning of the recorded inertial samples, done again here: every sample holds since the measurement
        // before it; the filter's own integration may differ from this finely divided one by its first-order error.
        struct Ref { double t; M3 R; Vec3 p, V; double bp, bv, ba; M3 R2; Vec3 V2; };
        std::vector<Ref> ref;
        {
            std::map<long, const Imu*> ev;
            std::set<long> gnss;
            for (auto& z : rec.obs) ev[std::lround(z.first * 1e6)] = nullptr, gnss.insert(std::lround(z.first * 1e6));
            for (auto& m : rec.imu) ev[std::lround(m.t * 1e6)] = &m;
            const Truth& x0 = rec.truth[0];
            Ref f{x0.t, x0.R(), x0.p(), x0.R() * x0.v(), 0, 0, 0, x0.R(), x0.R() * x0.v()};
            ref.push_back(f);
            Imu held{0, x0.a() + x0.w().cross(x0.v()) - x0.R().transpose() * Vec3(0, 0, G), x0.w()};
            bool guess = true;
            for (auto& e : ev)
            {
                const double t = e.first * 1e-6, h = t - f.t;
                if (h < 1e-5) continue;
                auto carry = [&](Ref g, const Imu& u, double H) {
                    const int N = 4;
                    for (int n = 0; n < N; ++n)
                    {
                        const double q = H / N;
                        const math::Quat<double> half = math::Quat<double>::exp(u.w * q / 2);
                        const M3 E = axes(half);
                        const Vec3 acc = g.R * E * u.a + Vec3(0, 0, G);
                        g.p += g.V * q + acc * q * q / 2, g.V += acc * q, g.R = g.R * E * E;
                    }
                    g.t += H;
                    return g;
                };
                // an estimate may be logged between the observations and the sample of one instant
                const Ref early = carry(f, held, h);
                if (e.second) held = *e.second, guess = false;
                f = carry(f, held, h);
                f.t = t, f.R2 = gnss.count(e.first) ? early.R : f.R, f.V2 = gnss.count(e.first) ? early.V : f.V;
                const double w = held.w.norm(), acc = (held.a + f.R.transpose() * Vec3(0, 0, G)).norm(), v = f.V.norm();
                f.ba += std::pow(w * h, 3);
                f.bv += .35 * h * h * w * (acc + w * v + G) + h * f.ba * G + (guess ? 20 * h : 0);
                f.bp += .5 * h * h * (acc + w * v) + h * f.bv;
                ref.push_back(f);
            }
        }
        double dp = 0, dv = 0, da = 0, de = 0, tp = 0, tv = 0, bp = 0, bv = 0, ba = 0, wmax = 0;
        size_t at = 0, rt_ = 0;
        bool tracked = true;
        for (auto& t : rec.truth) wmax = std::max(wmax, t.w().norm());
        for (size_t n = 0; n < est.size(); ++n)
        {
            while (at + 1 < rec.truth.size() && rec.truth[at].t < est[n].t - 1e-6) ++at;
            while (rt_ + 1 < ref.size() && ref[rt_].t < est[n].t - 1e-6) ++rt_;
            const Est& e = est[n];
            const Ref& f = ref[rt_];
            if (!c.expect(std::abs(f.t - e.t) < 2e-6, "estimate_time", vh::strf("an estimate for %.6f s, when nothing was measured", e.t))) { tracked = false; break; }
            const M3 R = axes(math::Quat<double>(Vec4(e.x[0], e.x[1], e.x[2], e.x[3])));
            const Vec3 p(e.x[4], e.x[5], e.x[6]), V = R * Vec3(e.x[7], e.x[8], e.x[9]), pe(e.x[16], e.x[17], e.x[18]);
            const double ep = (p - f.p).norm(), ev = std::min((V - f.V).norm(), (V - f.V2).norm()), ea = std::min((R - f.R).norm(), (R - f.R2).norm());
            const M3 Re = axes(utils::WGS84::dq_ecef2ned(utils::WGS84::lla2ecef(k.lla)).real());
            const Vec3 oe = utils::WGS84::dq_ecef2ned(utils::WGS84::lla2ecef(k.lla)).translation();
            const double ee = (pe - oe - Re * (p + R * k.lever)).norm();
            bp = std::max(bp, f.bp), bv = std::max(bv, f.bv), ba = std::max(ba, f.ba);
            dp = std::max(dp, ep), dv = std::max(dv, ev), da = std::max(da, ea), de = std::max(de, ee);
            if (std::abs(rec.truth[at].t - e.t) < 1e-6) tp = std::max(tp, (p - rec.truth[at].p()).norm()), tv = std::max(tv, (V - rec.truth[at].R() * rec.truth[at].v()).norm());
            const bool good = c.expect(ea < 1e-6 + f.ba, "attitude", vh::strf("%.6f at %.3f s (allowed %.6f)", ea, e.t, 1e-6 + f.ba)) & c.expect(ev < 1e-3 + f.bv, "velocity", vh::strf("%.4f m/s at %.3f s (allowed %.4f)", ev, e.t, f.bv)) &
                              c.expect(ep < 1e-3 + f.bp, "position", vh::strf("%.4f m at %.3f s (allowed %.4f)", ep, e.t, f.bp)) & c.expect(ee < 1e-4 + 2 * k.lever.norm() * 1e-6, "earth_position", vh::strf("%.4f m at %.3f s", ee, e.t));
            if (!good) { tracked = false; break; }
        }
        if (quiet && tracked && k.imu * k.dt > .99) c.expect(tp < .1 + .1 * T && tv < .1 + .01 * T, "truth", vh::strf("%.3f m, %.3f m/s from the truth after %.1f s", tp, tv, T));
        // residuals: every observation looked at, as recorded, and small but for the receiver's clock
        std::map<std::pair<long, int>, std::vector<const meas::GnssObservation*>> seen;
        for (auto& z : rec.obs) seen[{std::lround(z.first * 1e6), z.second.sat_num}].push_back(&z.second);
        std::set<std::pair<long, int>> logged;
        double dr = 0, dd = 0;
        for (auto& e : res)
        {
            if (!tracked) break;
            const auto it = seen.find({std::lround(e.t * 1e6), e.sat});
            if (!c.expect(it != seen.end(), "residual_of", vh::strf("satellite %d at %.3f s was not observed", e.sat, e.t))) break;
            logged.insert(it->first);
            bool same = false;
            for (auto* z : it->second) same |= z->pseudorange == e.x[2] && z->doppler == e.x[3];
            c.expect(same, "residual_z", vh::strf("%.3f m, %.3f m/s of satellite %d at %.3f s", e.x[2], e.x[3], e.sat, e.t));
            c.expect(std::abs(e.x[2] - e.x[0] - e.x[4]) < 1e-6 && std::abs(e.x[3] - e.x[1] - e.x[5]) < 1e-6, "residual_sum", "");
            size_t a2 = std::min(rec.truth.size() - 1, (size_t)std::max(0l, std::lround(e.t / k.dt) - 1));
            const double clk = CL * std::abs(rec.truth[a2].clk()[0]), drift = CL * std::abs(rec.truth[a2].clk()[1]);
            dr = std::max(dr, std::abs(e.x[0])), dd = std::max(dd, std::abs(e.x[1]));
            // (the tropospheric model has a pole at the horizon)
            bool low = false;
            for (auto* z : it->second)
            {
                satellite::SatelliteState st;
                const auto sat = s.sats.find({z->gnss_id, z->sat_num});
                if (sat == s.sats.end()) continue;
                sat->second->getState(z->t, Out<satellite::SatelliteState>(st));
                low |= std::abs((st.pos - rec.truth[a2].pg()).normalized().dot(rec.truth[a2].pg().normalized())) < .06;
            }
            if (low) continue;
            if (!c.expect(std::abs(e.x[0]) < .1 + tp + clk, "range_residual", vh::strf("%.3f m at %.3f s (allowed %.3f)", e.x[0], e.t, .1 + tp + clk))) break;
            if (!c.expect(std::abs(e.x[1]) < .1 + tv + drift + .1 * k.lever.norm() * (1 + wmax) + 2e-3 * tp, "rate_residual", vh::strf("%.3f m/s at %.3f s (allowed %.3f)", e.x[1], e.t, .1 + tv + drift))) break;
        }
        size_t due_ = 0;
        for (auto& z : seen) due_ += z.first.first * 1e-6 < est.back().t - .05 && z.first.first * 1e-6 > rec.truth[0].t + 1e-6;
        if (tracked) c.expect(logged.size() >= due_, "residuals_missing", vh::strf("%zu of %zu observations", logged.size(), due_));
        c.sample(vh::strf("run %d: %.1f s (dt %g, imu %g Hz), estimate within %.4f m (allowed %.3f), %.4f m/s (%.3f), %.5f (%.4f), earth %.4f m, truth %.4f m %.4f m/s, residuals %.3f m %.3f m/s", i, T, k.dt, k.imu, dp, bp, dv, bv, da, ba, de, tp, tv, dr, dd));
        c.nontrivial(vh::fnv(&est.back(), sizeof(Est)));
        clean(d), clean(std::string(s.dir).erase(s.dir.rfind('/')));
    }
}

// the shipped configurations are accepted by the programs they are for
VH_GROUP(shipped)
{
    for (int i = 0; i < c.n(2, 20); ++i)
    {
        if (!c.begin()) continue;
        const Sky s = skyOf(c, 20000 + i);
        const std::string repo = getenv("VH_REPO") ? getenv("VH_REPO") : "/repo", d = fresh(c, "c", i);
        std::stringstream in(slurp(repo + "/sim/config/truth.yaml"));
        std::string line, text;
        while (std::getline(in, line))
            if (line.find("eph_log") == std::string::npos && line.find("output_dir") == std::string::npos && line.find("tmax") == std::string::npos) text += line + "\n";
        std::ofstream(d + "/sim.yaml") << text << "eph_log: \"" << s.dir << "\"\noutput_dir: \"" << d << "/sim\"\ntmax: 4\n";
        if (!fine(c, "simulate", run(d + "/work", simulate_main, {"simulate", "--config_file", d + "/sim.yaml"}))) continue;
        const auto rec = readRun(c, only(d + "/sim"), s.t0);
        c.expect(rec.truth.size() > 100 && rec.imu.size() > 100 && !rec.obs.empty(), "recorded", "");
        fine(c, "post_process", run(d + "/work", post_process_main, {"post_process", "--config_file", repo + "/config/rtk_ekf_post_process.yaml", "--log", rec.dir}));
        std::vector<Est> est;
        raw<Est>(only(d + "/logs/post_process") + "/ESTIMATE.log", 25, s.t0, false, est, [](double t, int, const double* d) { Est e; e.t = t; memcpy(e.x, d, sizeof e.x); return e; });
        c.expect(est.size() > 180, "estimated", vh::strf("%zu", est.size()));
        c.nontrivial(vh::fnv(s.dir.data(), s.dir.size()));
        clean(d), clean(std::string(s.dir).erase(s.dir.rfind('/')));
    }
}

// verify_ephemeris names every ephemeris of a recording once and flags exactly those far from their reference time
VH_GROUP(verify)
{
    for (int i = 0; i < c.n(40, 1000); ++i)
    {
        if (!c.begin()) continue;
        auto& r = c.rng;
        Sky s = sky(c, 30000 + i);
        const std::string d = fresh(c, "v", i), root = d + "/eph";
        long odd = 0, all = 0;
        {
            logging::Logger lg(s.t0, root);
            auto redo = [&](int key, auto& v) {
                lg.initStream<typename std::decay_t<decltype(v)>::value_type::second_type>(key, {"eph"});
                for (auto& e : v)
                {
                    const double off = r.chance(.5) ? r.uni(-7199, 7199) : (r.chance(.5) ? 1 : -1) * r.pick<double>({7201, 7300, 14000, 86400, 604800, 604800. * 1024, 7200.5});
                    e.second.toe = e.first - off;
                    odd += std::abs(off) > 7200, ++all;
                    lg.log(key, e.first, e.second);
                }
            };
            redo(logging::GPS_EPH, s.gps), redo(logging::GAL_EPH, s.gal), redo(logging::GLO_EPH, s.glo);
            s.dir = root + "/" + lg.logId();
            lg.close(s.t0 + 1000.0);
        }
        const auto o = run(d + "/work", verify_ephemeris_main, {"verify_ephemeris", "--log", s.dir});
        fine(c, "verify_ephemeris", o);
        auto count = [&](const std::string& w) { long n = 0; for (size_t p = 0; (p = o.text.find(w, p)) != std::string::npos; ++p) ++n; return n; };
        c.expect(count("Unusual") == odd, "flagged", vh::strf("%ld of %ld", count("Unusual"), odd));
        c.expect(count("TOE") == all, "listed", vh::strf("%ld of %ld", count("TOE"), all));
        c.count("ephemerides", all);
        c.nontrivial(vh::fnv(o.text.data(), o.text.size()));
        clean(d);
    }
}
}  // namespace mc
