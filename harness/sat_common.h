#pragma once
#include <sys/wait.h>

#include "common/ephemeris/galileo.h"
#include "common/ephemeris/glonass.h"
#include "common/ephemeris/gps.h"
#include "common/satellite/satellite.h"
#include "common/satellite/satellite_cache.h"
#include "vh.h"
using namespace mc;
using namespace mc::satellite;
using ephemeris::GalileoEphemeris;
using ephemeris::GlonassEphemeris;
using ephemeris::GPSEphemeris;
using ephemeris::KeplerianEphemeris;
typedef long double LD;

// true if f ends the process through the project's check()
template <class F>
bool refuses(F f)
{
    fflush(stdout);
    fflush(stderr);
    const pid_t p = fork();
    if (p == 0)
    {
        const int nul = open("/dev/null", O_WRONLY);
        dup2(nul, 1);
        dup2(nul, 2);
        f();
        _exit(0);
    }
    int st = 0;
    waitpid(p, &st, 0);
    return WIFEXITED(st) && WEXITSTATUS(st) == 255;
}

inline void kepler(vh::Rng& r, KeplerianEphemeris& e, bool galileo)
{
    const int week = (int)r.range(1900, 2600);
    const int toes = (int)(r.chance(0.3) ? r.range(0, 3) * 7200 : r.range(0, 40319)) * (r.chance(.5) ? 15 : 16) % 604800;
    e.week = week;
    e.toes = toes;
    e.toe = UTCTime::fromGPS(week, toes * 1000);
    e.tocs = toes;
    e.toc = e.toe;
    if (r.chance(0.4))
    {
        // the clock reference may differ from the ephemeris reference
        e.toc = e.toe + (int)r.range(-3600, 3600);
        e.tocs = (uint32_t)((toes + (e.toc - e.toe).sec + 604800) % 604800);
    }
    e.sqrta = galileo ? r.uni(5440, 5441) : r.chance(0.8) ? r.uni(5153, 5154.5) : r.uni(4000, 6500);
    e.ecc = r.chance(0.1) ? 0 : r.chance(0.8) ? r.uni(0, 0.03) : r.uni(0, 0.5);
    e.m0 = r.chance(0.1) ? 0 : r.chance(0.1) ? M_PI : r.uni(-M_PI, M_PI);
    e.w = r.chance(0.1) ? 0 : r.uni(-M_PI, M_PI);
    e.omega0 = r.uni(-M_PI, M_PI);
    e.i0 = r.uni(0.85, 1.0);
    e.delta_n = r.uni(3e-9, 6e-9);
    e.omegadot = r.uni(-9e-9, -5e-9);
    e.idot = r.uni(-8e-10, 8e-10);
    e.cuc = r.uni(-1e-5, 1e-5);
    e.cus = r.uni(-1e-5, 1.5e-5);
    e.crc = r.uni(50, 400);
    e.crs = r.uni(-150, 150);
    e.cic = r.uni(-3e-7, 3e-7);
    e.cis = r.uni(-3e-7, 3e-7);
    if (r.chance(0.1)) e.cuc = e.cus = e.crc = e.crs = e.cic = e.cis = 0;
    e.af0 = r.uni(-8e-4, 8e-4);
    e.af1 = r.uni(-3e-11, 3e-11);
    e.af2 = r.chance(0.5) ? 0 : r.uni(-1e-17, 1e-17);
    e.iode = e.iodc = (int)r.range(0, 255);
    e.tow = 0;
}

struct Ref
{
    LD p[3], clk;
};
// Interface-specification algorithm in extended precision, bisection for Kepler's equation
inline Ref keplerRef(const KeplerianEphemeris& e, LD tk, LD tc, bool galileo)
{
    const LD GM = galileo ? 3.986004418e14L : 3.986005e14L, OE = 7.2921151467e-5L, C = 299792458.0L;
    const LD A = (LD)e.sqrta * e.sqrta;
    const LD n = sqrtl(GM / (A * A * A)) + e.delta_n;
    const LD M = e.m0 + n * tk;
    LD lo = M - 1, hi = M + 1;
    for (int i = 0; i < 80; ++i)
    {
        const LD mid = (lo + hi) / 2;
        (mid - e.ecc * sinl(mid) < M ? lo : hi) = mid;
    }
    const LD E = (lo + hi) / 2;
    const LD nu = 2 * atan2l(sqrtl(1 + (LD)e.ecc) * sinl(E / 2), sqrtl(1 - (LD)e.ecc) * cosl(E / 2));
    const LD ph = nu + e.w, s2 = sinl(2 * ph), c2 = cosl(2 * ph);
    const LD u = ph + e.cus * s2 + e.cuc * c2;
    const LD r = A * (1 - e.ecc * cosl(E)) + e.crs * s2 + e.crc * c2;
    const LD in = e.i0 + e.idot * tk + e.cis * s2 + e.cic * c2;
    const LD Om = e.omega0 + (e.omegadot - OE) * tk - OE * (LD)e.toes;
    const LD x = r * cosl(u), y = r * sinl(u);
    Ref o;
    o.p[0] = x * cosl(Om) - y * cosl(in) * sinl(Om);
    o.p[1] = x * sinl(Om) + y * cosl(in) * cosl(Om);
    o.p[2] = y * sinl(in);
    o.clk = e.af0 + e.af1 * tc + e.af2 * tc * tc - 2 * sqrtl(GM * A) / (C * C) * e.ecc * sinl(E);
    return o;
}

inline void glonass(vh::Rng& r, GlonassEphemeris& e)
{
    e.gnssID = GnssID::Glonass;
    e.toe = UTCTime(1500000000 / 900 * 900 + r.range(0, 200000) * 900, 0);
    e.tof = e.toe;
    // circular-ish orbit at 25510 km, 64.8 degrees, expressed in the rotating frame
    const double R = 25.508e6 + r.uni(-2e4, 2e4), u = r.uni(-M_PI, M_PI), O = r.uni(-M_PI, M_PI),
                 i = r.uni(1.09, 1.16), v = std::sqrt(3.9860044e14 / R), OE = 7.292115e-5;
    const double cu = cos(u), su = sin(u), cO = cos(O), sO = sin(O), ci = cos(i), si = sin(i);
    e.pos << R * (cu * cO - su * ci * sO), R * (cu * sO + su * ci * cO), R * su * si;
    e.vel << v * (-su * cO - cu * ci * sO) + OE * e.pos.y(),
        v * (-su * sO + cu * ci * cO) - OE * e.pos.x(), v * cu * si;
    e.acc << (int)r.range(-4, 4) * 9.313e-7, (int)r.range(-4, 4) * 9.313e-7, (int)r.range(-4, 4) * 9.313e-7;
    e.taun = r.uni(-4e-4, 4e-4);
    e.gamn = r.uni(-5e-12, 5e-12);
    e.dtaun = r.uni(-1e-8, 1e-8);
    e.iode = 1;
    e.slot = (int)r.range(-7, 6);
    e.svh = e.sva = e.age = 0;
}
// ICD equations of motion in extended precision, 10 s steps
inline void glonassRef(const GlonassEphemeris& e, LD dt, LD* x)
{
    for (int k = 0; k < 3; ++k) x[k] = e.pos[k], x[3 + k] = e.vel[k];
    auto f = [&](const LD* s, LD* d) {
        const LD mu = 3.9860044e14L, J2 = 1.0826257e-3L, ae = 6378136.0L, w = 7.292115e-5L;
        const LD r2 = s[0] * s[0] + s[1] * s[1] + s[2] * s[2], r = sqrtl(r2), z2 = s[2] * s[2] / r2;
        const LD g = mu / (r2 * r), j = 1.5L * J2 * mu * ae * ae / (r2 * r2 * r);
        d[0] = s[3], d[1] = s[4], d[2] = s[5];
        d[3] = -g * s[0] - j * s[0] * (1 - 5 * z2) + w * w * s[0] + 2 * w * s[4] + e.acc[0];
        d[4] = -g * s[1] - j * s[1] * (1 - 5 * z2) + w * w * s[1] - 2 * w * s[3] + e.acc[1];
        d[5] = -g * s[2] - j * s[2] * (3 - 5 * z2) + e.acc[2];
    };
    const int n = (int)ceill(fabsl(dt) / 10) + 1;
    const LD h = dt / n;
    for (int i = 0; i < n; ++i)
    {
        LD k1[6], k2[6], k3[6], k4[6], t[6];
        f(x, k1);
        for (int k = 0; k < 6; ++k) t[k] = x[k] + h / 2 * k1[k];
        f(t, k2);
        for (int k = 0; k < 6; ++k) t[k] = x[k] + h / 2 * k2[k];
        f(t, k3);
        for (int k = 0; k < 6; ++k) t[k] = x[k] + h * k3[k];
        f(t, k4);
        for (int k = 0; k < 6; ++k) x[k] += h / 6 * (k1[k] + 2 * k2[k] + 2 * k3[k] + k4[k]);
    }
}
