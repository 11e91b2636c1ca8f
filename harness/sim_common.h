// Shared by C24 and C26: random vehicle states and skies, recorded ephemerides, an independent receiver model.
#pragma once
#include "common/logging/log_key.h"
#include "common/logging/log_writer.h"
#include "common/satellite/atm_correction.h"
#include "sat_common.h"
#include "sim/sim.h"
#include "utils/wgs84.h"
namespace mc {
using DQ = math::DQuat<double>;
typedef Eigen::Matrix3d M3;
static const double CL = 299792458.0, OE = 7.2921151467e-5, G = 9.80665;
inline M3 axes(const math::Quat<double>& q)
{
    const double w = q.arr_[0], x = q.arr_[1], y = q.arr_[2], z = q.arr_[3];
    M3 r;
    r << 1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y), 2 * (x * y + w * z), 1 - 2 * (x * x + z * z),
        2 * (y * z - w * x), 2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y);
    return r;
}
inline Vec3 v3(vh::Rng& r, double s) { return Vec3(r.uni(-s, s), r.uni(-s, s), r.uni(-s, s)); }
inline math::TwoJet<double> state(vh::Rng& r, bool level = false)
{
    math::TwoJet<double> x = math::TwoJet<double>::Identity();
    x.x = DQ(math::Quat<double>::exp(level || r.chance(.1) ? Vec3(0, 0, r.uni(-3, 3)) : v3(r, 1.8)), v3(r, r.chance(.3) ? 0 : 300));
    x.dx.linear() = v3(r, r.chance(.2) ? 0 : 30);
    x.dx.angular() = v3(r, r.chance(.2) ? 0 : 2);
    x.d2x.linear() = v3(r, r.chance(.2) ? 0 : 10);
    x.d2x.angular() = v3(r, r.chance(.2) ? 0 : 3);
    return x;
}
inline UTCTime when(vh::Rng& r) { return UTCTime(r.range(1200000000, 1900000000), r.chance(.3) ? 0 : r.range(0, 999999999)); }
inline double secs(const UTCTime& a, const UTCTime& b) { return (double)(a.sec - b.sec) + 1e-9 * (double)(a.nsec - b.nsec); }

// when a sensor must, may and must not answer: +1, 0, -1
inline int due(double since, double rate) { return since > 1 / rate + 2e-9 ? 1 : since < 1 / rate - 2e-9 ? -1 : 0; }

// ---------------------------------------------------------------- GNSS
struct Sky
{
    std::vector<std::pair<UTCTime, GPSEphemeris>> gps;
    std::vector<std::pair<UTCTime, GalileoEphemeris>> gal;
    std::vector<std::pair<UTCTime, GlonassEphemeris>> glo;
    std::map<std::pair<int, int>, std::shared_ptr<satellite::SatelliteBase>> sats;
    UTCTime t0;
    std::string dir;
};
template <class E>
inline void add(Sky& s, std::vector<std::pair<UTCTime, E>>& v, const UTCTime& t, const E& e)
{
    v.emplace_back(t, e);
    auto& p = s.sats[{(int)e.gnssID, (int)e.sat}];
    if (!p) p = std::make_shared<satellite::Satellite<E>>(e.gnssID, e.sat);
    static_cast<satellite::Satellite<E>*>(p.get())->addEph(e);
}
template <class E>
inline void file(logging::Logger& lg, int key, const std::vector<std::pair<UTCTime, E>>& v)
{
    lg.initStream<E>(key, {"eph"});
    for (auto& x : v) lg.log(key, x.first, x.second);
}
inline Sky sky(vh::Ctx& c, int rep, bool feed = false)
{
    auto& r = c.rng;
    Sky s;
    const int mask = (int)r.range(1, 7), week = (int)r.range(1950, 2500), toes = (int)r.range(5, 80) * 7200;
    s.t0 = UTCTime::fromGPS(week, toes * 1000) + UTCTime((int)r.range(-1500, 1500), r.range(0, 999999999));
    auto stamps = [&](int n) {
        std::vector<UTCTime> t;
        for (int i = 0; i < n; ++i) t.push_back(s.t0 + UTCTime(feed ? (int)r.range(-20, 40) : (int)r.range(0, 900), r.range(0, 999999999)));
        std::sort(t.begin(), t.end());
        if (feed && n > 2 && r.chance(.5)) t[1] = t[0];
        return t;
    };
    int uid = 0;
    if (mask & 1)
        for (auto& t : stamps((int)r.range(1, 10)))
        {
            GPSEphemeris e((int)r.range(1, 32));
            kepler(r, e, false);
            e.gnssID = GnssID::GPS;
            e.week = week, e.toes = toes + (int)r.range(0, 1) * 3600, e.toe = UTCTime::fromGPS(week, e.toes * 1000);
            e.tocs = e.toes, e.toc = e.toe, e.iode = ++uid;
            add(s, s.gps, t, e);
        }
    if (mask & 2)
        for (auto& t : stamps((int)r.range(1, 8)))
        {
            GalileoEphemeris e((int)r.range(1, 36));
            kepler(r, e, true);
            e.gnssID = GnssID::Galileo;
            e.week = week, e.toes = toes, e.toe = UTCTime::fromGPS(week, e.toes * 1000), e.tocs = e.toes, e.toc = e.toe, e.iode = ++uid;
            add(s, s.gal, t, e);
        }
    if (mask & 4)
        for (auto& t : stamps((int)r.range(1, 8)))
        {
            GlonassEphemeris e((int)r.range(1, 24));
            glonass(r, e);
            e.gnssID = GnssID::Glonass;
            e.toe = UTCTime((s.t0.sec / 900) * 900 + 18, 0), e.tof = e.toe, e.iode = ++uid;
            add(s, s.glo, t, e);
        }
    const std::string root = c.scratch + vh::strf("/sky%d", rep);
    {
        logging::Logger lg(s.t0, root);
        if (mask & 1 || r.chance(.5)) file(lg, logging::GPS_EPH, s.gps);
        if (mask & 2 || r.chance(.5)) file(lg, logging::GAL_EPH, s.gal);
        if (mask & 4 || r.chance(.5)) file(lg, logging::GLO_EPH, s.glo);
        s.dir = root + "/" + lg.logId();
        lg.close(s.t0 + 1000.0);
    }
    return s;
}
struct Quiet  // the simulator reports every ephemeris it loads on stdout
{
    int keep;
    Quiet()
    {
        fflush(stdout);
        keep = dup(1);
        const int n = open("/dev/null", O_WRONLY);
        dup2(n, 1);
        close(n);
    }
    ~Quiet()
    {
        fflush(stdout);
        dup2(keep, 1);
        close(keep);
    }
};
struct Expected { double pr, d1, d2, lambda; };
inline Expected observe(const satellite::SatelliteBase& sat, const UTCTime& t, const Vec3& p, const Vec3& v, const Vec2& clk)
{
    satellite::SatelliteState s;
    double tau = 0.07, sag = 0;
    for (int i = 0; i < 12; ++i)
    {
        sat.getState(t - tau, Out<satellite::SatelliteState>(s));
        sag = OE * (s.pos.x() * p.y() - s.pos.y() * p.x()) / CL;
        tau = ((s.pos - p).norm() + sag) / CL;
    }
    satellite::AtmosphericCorrection atm;
    satellite::computeAtmCorrection(t, p, s, Out<satellite::AtmosphericCorrection>(atm));
    const Vec3 e = (s.pos - p).normalized();
    const double rot = OE / CL * (s.vel.x() * p.y() + s.pos.x() * v.y() - s.vel.y() * p.x() - s.pos.y() * v.x());
    const double d = (s.vel - v).dot(e) + CL * (clk[1] - s.clk[1]);
    return {(s.pos - p).norm() + sag + atm.ionospheric_delay_m + atm.tropospheric_delay_m + CL * (clk[0] - s.clk[0]), d + rot, d - rot, sat.carrierWavelength(0)};
}
inline sim::sensors::GnssSim::Options quietOptions(vh::Rng& r, const Sky& s)
{
    sim::sensors::GnssSim::Options o;
    o.ephemeris_log = s.dir;
    o.update_rate_hz_ = r.pick<double>({1, 2, 5, 10});
    o.pseudorange_stdev_ = o.carrier_phase_stdev_ = o.doppler_stdev_ = 0;
    const Vec3 lla(r.uni(-1.5, 1.5), r.uni(-3.1, 3.1), r.uni(-50, 4000));
    o.T_e2n = utils::WGS84::dq_ecef2ned(utils::WGS84::lla2ecef(lla));
    o.p_b2g = v3(r, r.chance(.3) ? 0 : 3);
    o.clock_walk_stdev_ = r.chance(.3) ? 0 : 1e-9;
    o.clock_init_stdev_ = r.chance(.3) ? 0 : 1e-6;
    return o;
}

}  // namespace mc
