// C01/C02: instants behave like exact integers of nanoseconds; oracle is 128-bit arithmetic.
#include "vh.h"

#include <sstream>

#include "common/quantized_time.h"
#include "common/utctime.h"

using namespace mc;
typedef __int128 i128;

static i128 ns(const UTCTime& t) { return (i128)t.sec * 1000000000 + t.nsec; }
static std::string S(const UTCTime& t)
{
    return vh::strf("(%lld,%lld)", (long long)t.sec, (long long)t.nsec);
}

// instants from several populations: small, today, far, near second edges, negative
static UTCTime gen(vh::Rng& r, bool neg = true)
{
    int64_t s = 0, n = 0;
    switch (r.range(0, 5))
    {
    case 0: s = r.range(0, 20); break;
    case 1: s = r.range(1500000000, 1700000000); break;
    case 2: s = r.range(neg ? -2000000 : 0, 2000000); break;
    case 3: s = r.range(315964818, 4000000000LL); break;
    case 4: s = 1563667200 + r.range(-3, 3); break;
    default: s = r.range(0, 3) * 604800 + UTCTime::GPS_UTC_OFFSET + r.range(-2, 2); break;
    }
    switch (r.range(0, 4))
    {
    case 0: n = 0; break;
    case 1: n = 999999999; break;
    case 2: n = r.range(0, 3); break;
    case 3: n = 999999999 - r.range(0, 3); break;
    default: n = r.range(0, 999999999); break;
    }
    return UTCTime(s, n);
}

static bool norm(const UTCTime& t) { return t.nsec >= 0 && t.nsec < 1000000000; }

VH_GROUP(order)
{
    const int N = c.n(60000, 2000000);
    for (int i = 0; i < N; ++i)
    {
        if (!c.begin()) continue;
        UTCTime a = gen(c.rng), b = gen(c.rng);
        switch (c.rng.range(0, 3))
        {
        case 0: b = a; break;
        case 1: b = UTCTime(a.sec, c.rng.range(0, 999999999)); break;
        case 2: b = UTCTime(a.sec + c.rng.range(-1, 1), c.rng.range(0, 999999999)); break;
        default: break;
        }
        c.note(S(a) + " vs " + S(b));
        i128 x = ns(a), y = ns(b);
        c.expect((a < b) == (x < y), "lt", S(a) + " < " + S(b));
        c.expect((a > b) == (x > y), "gt", S(a) + " > " + S(b));
        c.expect((a <= b) == (x <= y), "le", S(a) + " <= " + S(b) + " wrong");
        c.expect((a >= b) == (x >= y), "ge", S(a) + " >= " + S(b) + " wrong");
        c.expect((a == b) == (x == y), "eq", S(a) + " == " + S(b));
        c.expect((a != b) == (x != y), "ne", S(a) + " != " + S(b));
        if (a.sec == b.sec && a.nsec != b.nsec) c.count("same_second_pairs");
        if (x == y) c.count("equal_pairs");
        c.nontrivial(S(a) + S(b));
        if (i < 2) c.sample(S(a) + " vs " + S(b));
    }
}

VH_GROUP(arith)
{
    const int N = c.n(60000, 2000000);
    for (int i = 0; i < N; ++i)
    {
        if (!c.begin()) continue;
        UTCTime a = gen(c.rng), b = gen(c.rng);
        double d = 0;
        switch (c.rng.range(0, 4))
        {
        case 0: d = c.rng.uni(-1, 1); break;
        case 1: d = c.rng.range(-5000, 5000) * 1e-3; break;
        case 2: d = c.rng.uni(-1e5, 1e5); break;
        case 3: d = (double)c.rng.range(-100000, 100000); break;
        default: d = c.rng.range(-3, 3) * 1e-9; break;
        }
        int k = (int)c.rng.range(-1000000, 1000000);
        c.note(S(a) + " " + S(b) + vh::strf(" d=%.17g k=%d", d, k));
        i128 x = ns(a), y = ns(b);
        auto near = [](i128 got, i128 want, i128 tol) {
            i128 e = got > want ? got - want : want - got;
            return e <= tol;
        };
        auto chk = [&](const char* key, const UTCTime& r, i128 want, i128 tol) {
            c.expect(norm(r) && near(ns(r), want, tol), key,
                     vh::strf("%s: %s with %s d=%.17g k=%d gave %s", key, S(a).c_str(),
                              S(b).c_str(), d, k, S(r).c_str()));
        };
        chk("sub_time", a - b, x - y, 0);
        chk("add_time", a + b, x + y, 0);
        UTCTime t = a;
        t -= b;
        chk("isub_time", t, x - y, 0);
        t = a;
        t += b;
        chk("iadd_time", t, x + y, 0);
        chk("add_int", a + k, x + (i128)k * 1000000000, 0);
        chk("sub_int", a - k, x - (i128)k * 1000000000, 0);
        t = a;
        t += k;
        chk("iadd_int", t, x + (i128)k * 1000000000, 0);
        t = a;
        t -= k;
        chk("isub_int", t, x - (i128)k * 1000000000, 0);
        const i128 dn = (i128)llrint(d * 1e9);
        const i128 tol = 1 + (i128)(std::abs(d) * 1e9 * 4e-16);
        chk("add_dbl", a + d, x + dn, tol);
        chk("sub_dbl", a - d, x - dn, tol);
        t = a;
        t += d;
        chk("iadd_dbl", t, x + dn, tol);
        t = a;
        t -= d;
        chk("isub_dbl", t, x - dn, tol);
        // adding and removing the same step returns to the start
        UTCTime back = (a + d) - d;
        c.expect(back == a, "roundtrip_dbl", S(a) + vh::strf(" +- %.17g gave ", d) + S(back));
        // an instant expressed in seconds is close to its exact value
        const double want = (double)(long double)((long double)x * 1e-9L);
        c.expect(std::abs(a.toSec() - want) <= 1e-9 + std::abs(want) * 3e-16, "to_sec", S(a));
        // construction normalises, and every representation of one instant is the same instant
        const int64_t s0 = a.sec, n0 = c.rng.range(-3000000000LL, 3000000000LL);
        UTCTime u(s0, n0);
        c.expect(norm(u) && ns(u) == (i128)s0 * 1000000000 + n0, "construct_nsec",
                 vh::strf("UTCTime(%lld,%lld) gave ", (long long)s0, (long long)n0) + S(u));
        const double sd = c.rng.chance(0.5) ? c.rng.uni(-1000, 1000) : c.rng.range(-50, 50) * 0.1;
        UTCTime v(sd);
        c.expect(norm(v) && near(ns(v), (i128)llrint(sd * 1e9), 1), "construct_sec",
                 vh::strf("UTCTime(%.17g) gave ", sd) + S(v));
        c.nontrivial(S(a) + S(b) + std::to_string(d));
        if (i < 2) c.sample(S(a) + " " + S(b) + vh::strf(" d=%.17g", d));
    }
}

// Independent civil-date conversion (days from civil), for the calendar and text oracles.
static int64_t civil(int64_t y, int m, int d)
{
    y -= m <= 2;
    const int64_t era = (y >= 0 ? y : y - 399) / 400;
    const unsigned yoe = (unsigned)(y - era * 400);
    const unsigned doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1;
    const unsigned doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    return era * 146097 + (int64_t)doe - 719468;
}

VH_GROUP(scales)
{
    const int64_t W = 604800;
    const int64_t GPS0 = civil(1980, 1, 6) * 86400 + 18;  // the project's scale: UTC + 18 leap s
    const int N = c.n(60000, 2000000);
    for (int i = 0; i < N; ++i)
    {
        if (!c.begin()) continue;
        int week = (int)c.rng.range(0, c.rng.chance(0.3) ? 8000 : 3000);
        int tow = 0;
        switch (c.rng.range(0, 3))
        {
        case 0: tow = (int)c.rng.range(0, W - 1) * 1000; break;
        case 1: tow = (int)c.rng.range(0, W * 1000 - 1); break;
        case 2: tow = (int)(W * 1000 - 1 - c.rng.range(0, 1500)); break;
        default: tow = (int)c.rng.range(0, 1500); break;
        }
        c.note(vh::strf("week=%d tow_ms=%d", week, tow));
        const i128 wg = ((i128)(GPS0 + (int64_t)week * W)) * 1000000000 + (i128)tow * 1000000;
        UTCTime g = UTCTime::fromGPS(week, tow);
        c.expect(norm(g) && ns(g) == wg, "from_gps",
                 vh::strf("fromGPS(%d,%d) = ", week, tow) + S(g));
        UTCTime e = UTCTime::fromGalileo(week, tow);
        c.expect(ns(e) == wg, "from_galileo",
                 vh::strf("fromGalileo(%d,%d) = ", week, tow) + S(e));
        // exact inverse
        UTCTime gx(GPS0 + week * W + tow / 1000, (int64_t)(tow % 1000) * 1000000);
        c.expect(gx.GpsWeek() == week, "gps_week",
                 S(gx) + vh::strf(" GpsWeek=%d want %d", gx.GpsWeek(), week));
        {
            UTCTime gn = gx;
            gn.nsec += c.rng.range(0, 999999);
            const double want = tow * 1e-3 + (gn.nsec - gx.nsec) * 1e-9;
            c.expect(std::abs(gn.GpsTow() - want) < 2e-9, "gps_tow_ns", S(gn) + vh::strf(" GpsTow=%.12f want %.12f", gn.GpsTow(), want));
        }
        c.expect(std::abs(gx.GpsTow() - tow * 1e-3) < 2e-9, "gps_tow",
                 S(gx) + vh::strf(" GpsTow=%.9f want %.3f", gx.GpsTow(), tow * 1e-3));
        const i128 wr = ((i128)((int64_t)week * W - 3 * 3600)) * 1000000000 + (i128)tow * 1000000;
        UTCTime r = UTCTime::fromGlonass(week, tow);
        c.expect(norm(r) && ns(r) == wr, "from_glonass",
                 vh::strf("fromGlonass(%d,%d) = ", week, tow) + S(r));
        UTCTime rx((int64_t)week * W - 3 * 3600 + tow / 1000, (int64_t)(tow % 1000) * 1000000);
        c.expect(rx.GlonassWeek() == week && rx.GlonassDayOfWeek() == tow / 86400000,
                 "glonass_week_day", S(rx));
        // time of day -> the instant closest to the reference (three hours ahead of UTC)
        UTCTime ref = gen(c.rng, false) + 20000000;
        int tod = (int)c.rng.range(0, 86399) * 1000 + (int)(c.rng.chance(0.5) ? c.rng.range(0, 999) : 0);
        if (c.rng.chance(0.5))
        {
            // around midnight of the GLONASS day
            ref = UTCTime(((ref.sec + 10800) / 86400) * 86400 - 10800 + c.rng.range(-900, 900), 0);
            tod = (int)((86400000 + c.rng.range(-900, 900) * 1000) % 86400000);
        }
        else if (c.rng.chance(0.3))
        {
            // half a day apart
            const int64_t ms = ((ref.sec + 10800) % 86400) * 1000 + ref.nsec / 1000000;
            tod = (int)((ms + 43200000 + c.rng.range(-1200, 1200)) % 86400000);
        }
        c.note("ref=" + S(ref) + vh::strf(" tod_ms=%d", tod));
        UTCTime q = UTCTime::fromGlonassTimeOfDay(ref, tod);
        i128 off = ns(q) + (i128)10800 * 1000000000 - (i128)tod * 1000000;
        i128 gap = ns(q) - ns(ref);
        if (gap < 0) gap = -gap;
        const bool sameday = off % ((i128)86400 * 1000000000) == 0;
        c.expect(sameday, "glonass_tod_phase", "ref " + S(ref) + vh::strf(" tod %d -> ", tod) + S(q));
        c.expect(gap <= (i128)43200 * 1000000000, "glonass_tod_closest",
                 "ref " + S(ref) + vh::strf(" tod %d -> ", tod) + S(q));
        // calendar
        const int Y = (int)c.rng.range(1971, 2199), M = (int)c.rng.range(1, 12);
        const int dim[] = {31, (Y % 4 == 0 && (Y % 100 || Y % 400 == 0)) ? 29 : 28, 31, 30, 31, 30,
                           31, 31, 30, 31, 30, 31};
        const int D = (int)c.rng.range(1, dim[M - 1]), h = (int)c.rng.range(0, 23),
                  mi = (int)c.rng.range(0, 59);
        const double sec = c.rng.chance(0.5) ? (double)c.rng.range(0, 59)
                                             : c.rng.range(0, 59999) * 1e-3;
        UTCTime k = UTCTime::fromCalendar(Y, M, D, h, mi, sec);
        const i128 wk = (i128)(civil(Y, M, D) * 86400 + h * 3600 + mi * 60) * 1000000000 +
                        (i128)llrint(sec * 1e9);
        i128 ek = ns(k) - wk;
        c.expect(norm(k) && (ek < 0 ? -ek : ek) <= 1, "from_calendar",
                 vh::strf("%d/%d/%d %d:%d:%.9f -> ", Y, M, D, h, mi, sec) + S(k));
        c.nontrivial(vh::strf("%d,%d,%d,%d", week, tow, tod, D));
        if (i < 2) c.sample(vh::strf("week=%d tow_ms=%d", week, tow));
    }
}

// One physical instant named on different scales is one UTCTime (GPS time is UTC + 18 s).
VH_GROUP(leap)
{
    const int N = c.n(5000, 100000);
    for (int i = 0; i < N; ++i)
    {
        if (!c.begin()) continue;
        const int64_t utc = c.rng.range(1483228800LL + 86400, 2500000000LL);  // 18 leap seconds
        const int64_t g = utc - civil(1980, 1, 6) * 86400 + 18;
        const int64_t m = utc + 3 * 3600;
        const UTCTime gps = UTCTime::fromGPS((int)(g / 604800), (int)(g % 604800) * 1000);
        const UTCTime gal = UTCTime::fromGalileo((int)(g / 604800), (int)(g % 604800) * 1000);
        const UTCTime glo = UTCTime::fromGlonass((int)(m / 604800), (int)(m % 604800) * 1000);
        c.note(vh::strf("utc=%lld", (long long)utc));
        c.expect(gps == gal, "gps_galileo", S(gps) + " " + S(gal));
        c.expect(glo.sec == utc, "glonass_utc", S(glo) + vh::strf(" for utc=%lld", (long long)utc));
        const int64_t off = gps.sec - glo.sec;
        if (off == 36)
            c.violate("gps_36s_ahead", S(gps) + " from GPS, " + S(glo) + " from GLONASS");
        else if (off != 0)
            c.violate("gps_glonass", S(gps) + " from GPS, " + S(glo) + " from GLONASS");
        c.nontrivial((uint64_t)utc);
    }
}

// The text form identifies the instant to the millisecond.
VH_GROUP(text)
{
    const int N = c.n(20000, 400000);
    for (int i = 0; i < N; ++i)
    {
        if (!c.begin()) continue;
        UTCTime t(c.rng.range(31536000 + 400000, 7000000000LL),
                  c.rng.chance(0.4) ? c.rng.range(0, 99) * 1000000 : c.rng.range(0, 999999999));
        c.note(S(t));
        auto parse = [&](const std::string& s, const char* key) {
            int Y, M, D, h, m, sc;
            char frac[16] = {0};
            const bool ok =
                sscanf(s.c_str(), "%d/%d/%d %d:%d:%d.%12[0-9]", &Y, &M, &D, &h, &m, &sc, frac) == 7;
            double f = ok ? atof((std::string("0.") + frac).c_str()) : -1;
            const i128 got = ok ? (i128)(civil(Y, M, D) * 86400 + h * 3600 + m * 60 + sc) * 1000 +
                                      (i128)llrint(f * 1000)
                                : -1;
            c.expect(ok && got == ns(t) / 1000000, key, S(t) + " printed as " + s);
        };
        parse(t.str(), "str");
        std::stringstream ss;
        ss << t;
        parse(ss.str(), "stream");
        c.nontrivial(S(t));
        if (i < 2) c.sample(S(t) + " -> " + t.str());
    }
}
