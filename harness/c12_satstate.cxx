// C12: broadcast orbits: position, velocity and clock are those of the interface specifications,
// are consistent derivatives of each other, and depend on the ephemeris and the time only.
#include "sat_common.h"

template <class E>
static void keplerCase(vh::Ctx& c, bool galileo)
{
    E e;
    e.gnssID = galileo ? GnssID::Galileo : GnssID::GPS;
    e.sat = 3;
    kepler(c.rng, e, galileo);
    double d = c.rng.chance(0.15) ? 0 : c.rng.chance(0.1) ? (c.rng.chance(.5) ? 7200 : -7200) : c.rng.uni(-7190, 7190);
    if (c.rng.chance(0.05)) d = (c.rng.chance(.5) ? 1 : -1) * std::pow(10.0, c.rng.uni(-9, 0));
    if (c.rng.chance(0.5)) d = std::round(d);
    const UTCTime t = e.toe + d;
    c.note(vh::strf("dt=%.9g ecc=%.9g m0=%.9g sqrta=%.9g toc-toe=%lld", d, e.ecc, e.m0, e.sqrta,
                    (long long)(e.toc.sec - e.toe.sec)));
    const LD tk = (LD)(t.sec - e.toe.sec) + (LD)(t.nsec - e.toe.nsec) * 1e-9L;
    const LD tc = (LD)(t.sec - e.toc.sec) + (LD)(t.nsec - e.toc.nsec) * 1e-9L;
    SatelliteState s;
    const Error er = eph2Sat(t, e, Out<SatelliteState>(s));
    c.expect(er.ok(), "error", "refused a current ephemeris");
    const Ref r = keplerRef(e, tk, tc, galileo);
    for (int k = 0; k < 3; ++k)
        c.expect(std::abs((double)(s.pos[k] - r.p[k])) < 1e-3, "position",
                 vh::strf("axis %d: %.6f, specification %.6Lf", k, s.pos[k], r.p[k]));
    c.expect(std::abs((double)(s.clk[0] - r.clk)) < 1e-13, "clock",
             vh::strf("%.15g, specification %.15Lg", s.clk[0], r.clk));
    c.expect(s.t == t, "time", "state is stamped with another time");
    // velocity and clock rate are the derivatives
    const LD h = 0.05L;
    const Ref a = keplerRef(e, tk + h, tc + h, galileo), b = keplerRef(e, tk - h, tc - h, galileo);
    for (int k = 0; k < 3; ++k)
        c.expect(std::abs((double)(s.vel[k] - (a.p[k] - b.p[k]) / (2 * h))) < 2e-3 + 2e-3 * e.ecc,
                 "velocity", vh::strf("axis %d: %.9g, derivative %.9Lg", k, s.vel[k],
                                      (a.p[k] - b.p[k]) / (2 * h)));
    // the rate of the broadcast polynomial, with or without the relativistic term
    const double rel = 2 * std::sqrt(3.986005e14) * e.sqrta / (299792458.0 * 299792458.0) * e.ecc *
                       std::sqrt(3.986005e14) / std::pow(e.sqrta, 3) / (1 - e.ecc);
    c.expect(std::abs(s.clk[1] - (double)(e.af1 + 2 * e.af2 * tc)) < 1e-16 + 1.01 * rel, "clock_rate",
             vh::strf("%.15g, polynomial rate %.15Lg", s.clk[1], e.af1 + 2 * e.af2 * tc));
    // nothing but ephemeris and time matters: a used output object gives the same
    SatelliteState u;
    u.t = t + c.rng.uni(-5000, 5000);
    u.pos.setConstant(1e7);
    u.vel.setConstant(NAN);
    u.clk.setConstant(5);
    eph2Sat(t, e, Out<SatelliteState>(u));
    c.expect(u.pos == s.pos && u.vel == s.vel && u.clk == s.clk, "history", "output object matters");
    c.nontrivial(vh::fnv(&e.m0, 8, vh::fnv(&d, 8)));
    if (c.evals < 3) c.sample(vh::strf("dt=%g ecc=%g", d, e.ecc));
}
VH_GROUP(gps)
{
    const int N = c.n(12000, 400000);
    for (int i = 0; i < N; ++i)
        if (c.begin()) keplerCase<GPSEphemeris>(c, false);
}
VH_GROUP(galileo)
{
    const int N = c.n(8000, 300000);
    for (int i = 0; i < N; ++i)
        if (c.begin()) keplerCase<GalileoEphemeris>(c, true);
}
VH_GROUP(clock_rate_polynomial)
{
    // large drift rates make the polynomial visible next to the relativistic term
    const int N = c.n(2000, 50000);
    for (int i = 0; i < N; ++i)
    {
        if (!c.begin()) continue;
        GPSEphemeris e;
        e.gnssID = GnssID::GPS;
        e.sat = 3;
        kepler(c.rng, e, false);
        e.ecc = 0;
        e.af2 = c.rng.uni(-3.5e-15, 3.5e-15);  // the broadcast range
        e.af1 = c.rng.uni(-3.7e-9, 3.7e-9);
        const UTCTime t = e.toe + c.rng.uni(-3000, 3000);
        SatelliteState s;
        eph2Sat(t, e, Out<SatelliteState>(s));
        const double tc = (t - e.toc).toSec();
        c.expect(std::abs(s.clk[1] - (e.af1 + 2 * e.af2 * tc)) < 1e-15, "rate",
                 vh::strf("%.12g vs %.12g", s.clk[1], e.af1 + 2 * e.af2 * tc));
        c.expect(std::abs(s.clk[0] - (e.af0 + e.af1 * tc + e.af2 * tc * tc)) < 1e-14, "bias",
                 vh::strf("%.12g vs %.12g", s.clk[0], e.af0 + e.af1 * tc + e.af2 * tc * tc));
        c.nontrivial(vh::fnv(&e.af1, 8));
    }
}
VH_GROUP(glonass)
{
    const int N = c.n(4000, 100000);
    for (int i = 0; i < N; ++i)
    {
        if (!c.begin()) continue;
        GlonassEphemeris e(5);
        glonass(c.rng, e);
        double d = c.rng.chance(0.1) ? 0 : c.rng.chance(0.3) ? 60.0 * c.rng.range(-30, 30) : c.rng.uni(-1800, 1800);
        // next to whole integration steps, from a nanosecond to a tenth of a second off
        if (c.rng.chance(0.25))
            d = 60.0 * c.rng.range(-29, 29) + (c.rng.chance(.5) ? 1 : -1) * std::pow(10.0, c.rng.uni(-9, -1));
        const UTCTime t = e.toe + d;
        const LD tk = (LD)(t.sec - e.toe.sec) + (LD)t.nsec * 1e-9L;
        c.note(vh::strf("dt=%.9g", d));
        SatelliteState s;
        const Error er = eph2Sat(t, e, Out<SatelliteState>(s));
        c.expect(er.ok(), "error", "refused");
        LD x[6];
        glonassRef(e, tk, x);
        for (int k = 0; k < 3; ++k)
        {
            c.expect(std::abs((double)(s.pos[k] - x[k])) < 5e-2, "position",
                     vh::strf("axis %d: %.6f, specification %.6Lf", k, s.pos[k], x[k]));
            c.expect(std::abs((double)(s.vel[k] - x[3 + k])) < 1e-4, "velocity",
                     vh::strf("axis %d: %.9g, specification %.9Lg", k, s.vel[k], x[3 + k]));
        }
        c.expect(std::abs(s.clk[0] - (double)(-e.taun + e.gamn * tk)) < 1e-15, "clock",
                 vh::strf("%.15g", s.clk[0]));
        c.expect(s.clk[1] == e.gamn, "clock_rate", vh::strf("%.15g", s.clk[1]));
        c.expect(s.t == t, "time", "state is stamped with another time");
        c.nontrivial(vh::fnv(&e.pos[0], 8));
    }
}
// the same output object reused across times, ephemerides and satellites
VH_GROUP(reuse)
{
    const int N = c.n(1500, 50000);
    for (int i = 0; i < N; ++i)
    {
        if (!c.begin()) continue;
        std::vector<GlonassEphemeris> es(3);
        for (auto& e : es)
        {
            glonass(c.rng, e);
            e.sat = 5;
        }
        // consecutive ephemerides of one satellite (half an hour apart), and another satellite
        LD x[6];
        glonassRef(es[0], 1800, x);
        es[1] = es[0];
        es[1].toe = es[0].toe + 1800;
        for (int k = 0; k < 3; ++k)
        {
            es[1].pos[k] = std::round((double)x[k] * 2.048) / 2.048 + c.rng.uni(-3, 3);
            es[1].vel[k] = (double)x[3 + k];
        }
        es[2].toe = es[0].toe;
        SatelliteState s;
        std::string seq;
        for (int k = 0; k < 6; ++k)
        {
            const int j = (int)c.rng.range(0, 2);
            const UTCTime t = es[j].toe + c.rng.uni(-1000, 1000);
            seq += vh::strf("%d@%.1f ", j, (t - es[0].toe).toSec());
            c.note(seq);
            eph2Sat(t, es[j], Out<SatelliteState>(s));
            SatelliteState fresh;
            eph2Sat(t, es[j], Out<SatelliteState>(fresh));
            c.expect((s.pos - fresh.pos).norm() < 5e-2 && (s.vel - fresh.vel).norm() < 1e-4 &&
                         s.clk == fresh.clk,
                     "history", vh::strf("off by %.3f m after %s", (s.pos - fresh.pos).norm(), seq.c_str()));
        }
        c.nontrivial(seq);
        if (i < 3) c.sample(seq);
    }
}
