// C14: what the sensor models take from a satellite: transmit time solves the light-time equation
// with Earth rotation, look angles and atmospheric delays follow the published models.
#include "sat_common.h"
#include "utils/wgs84.h"

static const double CL = 299792458.0, OE = 7.2921151467e-5;

static Vec3 randomLla(vh::Rng& r)
{
    const double lat = r.chance(0.1) ? 0 : r.chance(0.1) ? (r.chance(.5) ? 1 : -1) * r.uni(1.56, 1.5707) : std::asin(r.uni(-1, 1));
    const double lon = r.chance(0.1) ? M_PI * (r.chance(.5) ? 1 : -1) : r.uni(-M_PI, M_PI);
    return Vec3(lat, lon, r.chance(0.2) ? r.uni(-99, 0) : r.uni(0, 9900));
}
static Vec3 toEcef(const Vec3& lla)
{
    const double a = 6378137.0, f = 1 / 298.257223563, e2 = f * (2 - f);
    const double s = sin(lla[0]), n = a / std::sqrt(1 - e2 * s * s);
    return Vec3((n + lla[2]) * cos(lla[0]) * cos(lla[1]), (n + lla[2]) * cos(lla[0]) * sin(lla[1]),
                (n * (1 - e2) + lla[2]) * s);
}
static double refTropo(const Vec3& lla, double el)
{
    if (lla[2] < -100 || lla[2] > 1e4 || el <= 0) return 0;
    const double h = lla[2] < 0 ? 0 : lla[2];
    const double p = 1013.25 * std::pow(1 - 2.2557e-5 * h, 5.2568);
    const double T = 15.0 - 6.5e-3 * h + 273.16;
    const double e = 6.108 * 0.7 * std::exp((17.15 * T - 4684.0) / (T - 38.45));
    const double m = 1 / std::sin(el);
    return 0.0022768 * p / (1 - 0.00266 * std::cos(2 * lla[0]) - 0.00028 * h / 1e3) * m +
           0.002277 * (1255 / T + 0.05) * e * m;
}
// IS-GPS-200 figure 20-4, semicircles
static double refIono(double tow, const Vec3& lla, double az, double el)
{
    const double al[] = {0.1118E-07, -0.7451E-08, -0.5961E-07, 0.1192E-06};
    const double be[] = {0.1167E+06, -0.2294E+06, -0.1311E+06, 0.1049E+07};
    const double E = el / M_PI, psi = 0.0137 / (E + 0.11) - 0.022;
    double phi = lla[0] / M_PI + psi * cos(az);
    phi = std::min(0.416, std::max(-0.416, phi));
    const double lam = lla[1] / M_PI + psi * sin(az) / cos(phi * M_PI);
    const double pm = phi + 0.064 * cos((lam - 1.617) * M_PI);
    double t = std::fmod(4.32e4 * lam + tow, 86400.0);
    if (t < 0) t += 86400;
    double amp = 0, per = 0, pw = 1;
    for (int k = 0; k < 4; ++k, pw *= pm) amp += al[k] * pw, per += be[k] * pw;
    amp = std::max(amp, 0.0);
    per = std::max(per, 72000.0);
    const double x = 2 * M_PI * (t - 50400) / per, F = 1 + 16 * std::pow(0.53 - E, 3);
    return CL * F * (5e-9 + (std::abs(x) < 1.57 ? amp * (1 - x * x / 2 + x * x * x * x / 24) : 0));
}

VH_GROUP(azel)
{
    const int N = c.n(20000, 500000);
    for (int i = 0; i < N; ++i)
    {
        if (!c.begin()) continue;
        const Vec3 lla = randomLla(c.rng), r = toEcef(lla);
        const double az = c.rng.chance(0.1) ? c.rng.range(-1, 2) * M_PI / 2 : c.rng.uni(-M_PI, M_PI);
        const double el = c.rng.chance(0.1) ? 0 : c.rng.uni(-M_PI / 2, M_PI / 2) * 0.999;
        const double d = c.rng.chance(0.3) ? c.rng.uni(10, 1e4) : c.rng.uni(1e6, 3e7);
        const double sl = sin(lla[0]), cl = cos(lla[0]), so = sin(lla[1]), co = cos(lla[1]);
        const Vec3 n(-sl * co, -sl * so, cl), e(-so, co, 0), dn(-cl * co, -cl * so, -sl);
        const Vec3 los = d * (cos(el) * cos(az) * n + cos(el) * sin(az) * e - sin(el) * dn);
        c.note(vh::strf("lat=%.9g lon=%.9g h=%.3f az=%.9g el=%.9g", lla[0], lla[1], lla[2], az, el));
        SatelliteState s;
        s.pos = r + los;
        const AzimuthElevation g = getAzEl(r, s), g2 = los2AzEl(r, los);
        double da = std::remainder(g.az - az, 2 * M_PI) * cos(el);
        c.expect(std::abs(da) < 1e-6, "azimuth", vh::strf("%.12g", g.az));
        c.expect(std::abs(g.el - el) < 1e-6, "elevation", vh::strf("%.12g", g.el));
        c.expect(std::abs(g2.el - g.el) < 1e-6 && std::abs(std::remainder(g2.az - g.az, 2 * M_PI)) * cos(el) < 1e-6,
                 "agree", "the two entry points disagree");
        c.expect(g.az > -M_PI - 1e-12 && g.az <= M_PI + 1e-12, "az_range", vh::strf("%.12g", g.az));
        c.nontrivial(vh::fnv(&los[0], 8));
    }
}
VH_GROUP(delays)
{
    const int N = c.n(30000, 800000);
    for (int i = 0; i < N; ++i)
    {
        if (!c.begin()) continue;
        Vec3 lla = randomLla(c.rng);
        if (c.rng.chance(0.1)) lla[2] = c.rng.uni(-3000, 40000);
        const AzimuthElevation ae{c.rng.uni(-M_PI, M_PI), c.rng.chance(0.2) ? c.rng.uni(0.001, 0.1) : c.rng.uni(0.02, M_PI / 2)};
        const UTCTime t(c.rng.range(1400000000, 2000000000), c.rng.range(0, 999999999));
        c.note(vh::strf("t=%lld lat=%.9g lon=%.9g h=%.3f az=%.9g el=%.9g", (long long)t.sec, lla[0],
                        lla[1], lla[2], ae.az, ae.el));
        const double tr = computeTroposphericDelay(t, lla, ae), wt = refTropo(lla, ae.el);
        c.expect(std::abs(tr - wt) <= 1e-8 + 1e-10 * wt, "troposphere", vh::strf("%.12g, model %.12g", tr, wt));
        c.expect(computeTroposphericDelay(t, lla, {ae.az, -ae.el}) == 0, "below_horizon", "");
        const double io = computeIonosphericDelay(t, lla, ae);
        // the project adds the leap seconds once more to its time of week; the model is smooth in
        // time, so a second more or less is not judged, 18 s are
        const double wi = refIono(t.GpsTow() + 18, lla, ae.az, ae.el);
        c.expect(std::abs(io - wi) <= 1e-6 + 1e-9 * wi, "ionosphere", vh::strf("%.12g, model %.12g", io, wi));
        c.expect(io >= CL * 5e-9 * 0.99 && io < 200, "iono_range", vh::strf("%.12g", io));
        // both delays shrink towards the zenith
        const double el2 = ae.el + (M_PI / 2 - ae.el) * c.rng.unit();
        c.expect(computeTroposphericDelay(t, lla, {ae.az, el2}) <= tr + 1e-9, "tropo_monotone", "");
        c.nontrivial(vh::fnv(&lla[0], 8));
    }
}
template <class E>
static void lightTime(vh::Ctx& c, int gnss)
{
    const int N = c.n(2500, 60000);
    for (int i = 0; i < N; ++i)
    {
        if (!c.begin()) continue;
        // one cache sees a sequence of epochs, receivers and satellites: whatever it held before must
        // not show in the next result
        E es[2];
        for (int k = 0; k < 2; ++k)
        {
            if constexpr (std::is_same<E, GlonassEphemeris>::value)
                glonass(c.rng, es[k]);
            else
                kepler(c.rng, es[k], gnss == GnssID::Galileo);
            es[k].gnssID = gnss;
            es[k].sat = 7 + k;
            if constexpr (!std::is_same<E, GlonassEphemeris>::value) es[k].ecc = std::min(es[k].ecc, 0.1);
        }
        es[1].toe = es[0].toe;
        if constexpr (!std::is_same<E, GlonassEphemeris>::value) es[1].toc = es[0].toc, es[1].toes = es[0].toes;
        Satellite<E> sats[2] = {Satellite<E>(gnss, 7), Satellite<E>(gnss, 8)};
        sats[0].addEph(es[0]);
        sats[1].addEph(es[1]);
        SatelliteCache cache;
        const int reps = (int)c.rng.range(1, 6);
        int which = 0;
        Vec3 lla = randomLla(c.rng), rec = toEcef(lla);
        UTCTime t = es[0].toe + c.rng.uni(-1500, 1500);
        for (int k = 0; k < reps; ++k)
        {
            const int how = k == 0 ? 4 : (int)c.rng.range(0, 5);
            if (how == 0) which ^= 1;                                       // same epoch, other satellite
            if (how == 1) t += c.rng.uni(-.01, .01), which ^= (int)c.rng.range(0, 1);
            if (how == 2) lla = randomLla(c.rng), rec = toEcef(lla);        // same epoch, other receiver
            if (how == 3) t += 1.0;
            if (how == 4) lla = randomLla(c.rng), rec = toEcef(lla), t = es[0].toe + c.rng.uni(-1500, 1500);
            // how == 5: the very same call once more
            const E& e = es[which];
            const Satellite<E>& sat = sats[which];
            c.note(vh::strf("update %d sat %d t-toe=%.6f lat=%.6f lon=%.6f", k, which, (t - e.toe).toSec(), lla[0], lla[1]));
            cache.update(t, rec, sat);
            // independent light-time solution
            double tau = 0.07;
            SatelliteState s;
            double sag = 0;
            for (int it = 0; it < 8; ++it)
            {
                s = SatelliteState();
                eph2Sat(t - tau, e, Out<SatelliteState>(s));
                sag = OE * (s.pos.x() * rec.y() - s.pos.y() * rec.x()) / CL;
                tau = ((s.pos - rec).norm() + sag) / CL;
            }
            c.count("updates");
            c.expect(std::abs((t - cache.state.t).toSec() - tau) < 1e-8, "transmit_time",
                     vh::strf("%.12g s before reception, light time %.12g s", (t - cache.state.t).toSec(), tau));
            c.expect((cache.state.pos - s.pos).norm() < 2e-2, "sat_pos",
                     vh::strf("off by %.4f m", (cache.state.pos - s.pos).norm()));
            c.expect((cache.state.vel - s.vel).norm() < 1e-3, "sat_vel", "");
            c.expect((cache.state.clk - s.clk).norm() < 1e-12, "sat_clk", "");
            c.expect(std::abs(cache.sagnac - sag) < 2e-2, "sagnac", vh::strf("%.6f vs %.6f", cache.sagnac, sag));
            const AzimuthElevation ae = getAzEl(rec, cache.state);
            if (ae.el > 0.05)
            {
                const double wt = refTropo(lla, ae.el);
                c.expect(std::abs(cache.atm.tropospheric_delay_m - wt) < 1e-4 + 1e-5 * wt, "cache_tropo",
                         vh::strf("%.9f vs %.9f", cache.atm.tropospheric_delay_m, wt));
                const double wi = refIono(t.GpsTow() + 18, lla, ae.az, ae.el);
                c.expect(std::abs(cache.atm.ionospheric_delay_m - wi) < 1e-3, "cache_iono",
                         vh::strf("%.9f vs %.9f", cache.atm.ionospheric_delay_m, wi));
            }
        }
        c.nontrivial(vh::fnv(&es[0].toe, sizeof es[0].toe, (uint64_t)i));
    }
}
VH_GROUP(cache_gps) { lightTime<GPSEphemeris>(c, GnssID::GPS); }
VH_GROUP(cache_galileo) { lightTime<GalileoEphemeris>(c, GnssID::Galileo); }
VH_GROUP(cache_glonass) { lightTime<GlonassEphemeris>(c, GnssID::Glonass); }
