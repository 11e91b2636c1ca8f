// C16: geodetic conversions against an extended-precision ellipsoid, over the whole domain.
#include "vh.h"
#include "utils/wgs84.h"
#include <sstream>
using namespace mc;
using utils::WGS84;
using V = Eigen::Vector3d;
typedef long double LD;

struct P
{
    LD x, y, z;
};
static const LD A = 6378137.0L, B = 6356752.314245L, E2 = 1 - (B / A) * (B / A);
static P ref(const V& l)
{
    const LD s = sinl(l[0]), co = cosl(l[0]), n = A / sqrtl(1 - E2 * s * s);
    return {(n + l[2]) * co * cosl(l[1]), (n + l[2]) * co * sinl(l[1]), (n * (1 - E2) + l[2]) * s};
}
static LD dist(const P& a, const V& b)
{
    return sqrtl((a.x - b[0]) * (a.x - b[0]) + (a.y - b[1]) * (a.y - b[1]) + (a.z - b[2]) * (a.z - b[2]));
}
static bool samept(const V& a, const V& b)
{
    const P p = ref(a);
    const P q = ref(b);
    return dist(p, V(q.x, q.y, q.z)) < 1e-5L + 1e-14L * (A + fabsl(a[2]));
}
static V dirs(const V& l, LD (&R)[3][3])  // rows: north, east, down
{
    const LD sp = sinl(l[0]), cp = cosl(l[0]), sl = sinl(l[1]), cl = cosl(l[1]);
    const LD r[3][3] = {{-sp * cl, -sp * sl, cp}, {-sl, cl, 0}, {-cp * cl, -cp * sl, -sp}};
    memcpy(R, r, sizeof r);
    return l;
}
static double lat(vh::Rng& r)
{
    switch (r.range(0, 9))
    {
    case 0: return 0;
    case 1: return (r.chance(.5) ? 1 : -1) * M_PI / 2;
    case 2: return (r.chance(.5) ? 1 : -1) * (M_PI / 2 - std::pow(10.0, r.uni(-14, -1)));
    case 3: return (r.chance(.5) ? 1 : -1) * std::pow(10.0, r.uni(-14, -1));
    default: return std::asin(r.uni(-1, 1));
    }
}
static double lon(vh::Rng& r)
{
    switch (r.range(0, 7))
    {
    case 0: return r.range(-2, 2) * M_PI / 2;
    case 1: return (r.chance(.5) ? 1 : -1) * (M_PI - std::pow(10.0, r.uni(-14, -1)));
    default: return r.uni(-M_PI, M_PI);
    }
}
static double alt(vh::Rng& r)
{
    switch (r.range(0, 5))
    {
    case 0: return 0;
    case 1: return r.uni(-11000, 0);
    case 2: return r.uni(1.9e7, 3.6e7);
    case 3: return std::pow(10.0, r.uni(-3, 8));
    default: return r.uni(-100, 10000);
    }
}
static std::string show(const V& a) { return vh::strf("(%.17g, %.17g, %.17g)", a[0], a[1], a[2]); }

VH_GROUP(geodetic)
{
    const int N = c.n(60000, 3000000);
    for (int i = 0; i < N; ++i)
    {
        if (!c.begin()) continue;
        const V l(lat(c.rng), lon(c.rng), alt(c.rng));
        c.note("lla " + show(l));
        const P want = ref(l);
        const LD tol = 1e-8L + 4e-16L * (A + fabsl(l[2]));
        const V e = WGS84::lla2ecef(l);
        c.expect(dist(want, e) < tol, "lla2ecef", "lla2ecef " + show(l) + " is off by " + vh::strf("%.3Lg m", dist(want, e)));
        V e2(1, 2, 3);
        WGS84::lla2ecef(l, &e2);
        c.expect((e - e2).norm() < 1e-6, "lla2ecef_overload", "the two lla2ecef overloads differ at " + show(l));
        // the inverse is judged on the point it names, from any Cartesian point
        V q = e;
        if (c.rng.chance(0.1)) q[0] = c.rng.chance(.5) ? 0.0 : -0.0;
        if (c.rng.chance(0.1)) q[1] = c.rng.chance(.5) ? 0.0 : -0.0;
        if (c.rng.chance(0.1)) q[2] = c.rng.chance(.5) ? 0.0 : -0.0;
        if (q.norm() < 6.3e6) q = e;
        const V b = WGS84::ecef2lla(q);
        c.note("ecef " + show(q));
        const P back = ref(b);
        c.expect(b.allFinite() && std::abs(b[0]) <= M_PI / 2 && std::abs(b[1]) <= M_PI, "ecef2lla_range",
                 "ecef2lla " + show(q) + " = " + show(b));
        c.expect(dist(back, q) < 1e-5L + 1e-15L * q.norm(), "ecef2lla", "ecef2lla " + show(q) + " = " + show(b) +
                 " which names a point " + vh::strf("%.3Lg m away", dist(back, q)));
        V b2(9, 9, 9);
        WGS84::ecef2lla(q, &b2);
        c.expect(samept(b, b2), "ecef2lla_overload", "the two ecef2lla overloads differ at " + show(q));
        c.nontrivial(vh::fnv(q.data(), 24));
        if (i < 3) c.sample("ecef " + show(q) + " -> " + show(b));
    }
}

VH_GROUP(local_frame)
{
    const int N = c.n(30000, 1000000);
    for (int i = 0; i < N; ++i)
    {
        if (!c.begin()) continue;
        const V l0(lat(c.rng), lon(c.rng), alt(c.rng));
        V l1(lat(c.rng), lon(c.rng), alt(c.rng));
        if (c.rng.chance(0.5))
            l1 = l0 + V(c.rng.uni(-1e-3, 1e-3), c.rng.uni(-1e-3, 1e-3), c.rng.uni(-500, 500));
        c.note("origin " + show(l0) + " point " + show(l1));
        const P o = ref(l0), p = ref(l1);
        LD R[3][3];
        dirs(l0, R);
        const LD d[3] = {p.x - o.x, p.y - o.y, p.z - o.z};
        LD ned[3];
        for (int k = 0; k < 3; ++k) ned[k] = R[k][0] * d[0] + R[k][1] * d[1] + R[k][2] * d[2];
        const double sc = 5e-8 + 1e-14 * (A + std::abs(l0[2]) + std::abs(l1[2]));
        auto dn = [&](const V& x) {
            return (double)sqrtl((x[0] - ned[0]) * (x[0] - ned[0]) + (x[1] - ned[1]) * (x[1] - ned[1]) + (x[2] - ned[2]) * (x[2] - ned[2]));
        };
        const V got = WGS84::lla2ned(l0, l1);
        c.expect(dn(got) < sc, "lla2ned", "lla2ned is off by " + vh::strf("%.3g m", dn(got)) + " at " + show(l0));
        V got2;
        WGS84::lla2ned(l0, l1, &got2);
        c.expect((got - got2).norm() < sc, "lla2ned_overload", "the two lla2ned overloads differ");
        // the frame quaternion
        const auto q = WGS84::q_e2n(l0);
        const Eigen::Matrix3d M = q.R();
        double err = 0;
        for (int r = 0; r < 3; ++r)
            for (int k = 0; k < 3; ++k) err = std::max(err, std::abs((double)(M(r, k) - R[r][k])));
        c.expect(err < 1e-13, "q_e2n", vh::strf("q_e2n is not the local frame (%.3g) at ", err) + show(l0));
        // a frame made from a Cartesian origin
        V o0 = WGS84::lla2ecef(l0);
        const auto dq = WGS84::dq_ecef2ned(o0);
        math::DQuat<double> dq2;
        WGS84::dq_ecef2ned(o0, &dq2);
        // the axes themselves turn by 1e-12 rad per micrometre
        const bool pole = std::abs(std::abs(l0[0]) - M_PI / 2) < 1e-6;
        const V e1 = WGS84::lla2ecef(l1);
        const V n1 = WGS84::ecef2ned(dq, e1), n2 = [&] { V x; WGS84::ecef2ned(dq2, e1, &x); return x; }();
        c.expect((n1 - n2).norm() < sc, "ecef2ned_overload", "the overloads of dq_ecef2ned/ecef2ned differ");
        const LD dl = sqrtl(d[0] * d[0] + d[1] * d[1] + d[2] * d[2]);
        if (!pole)
            c.expect(dn(n1) < sc + 3e-12 * (double)dl / std::cos(l0[0]), "ecef2ned", vh::strf("ecef2ned is off by %.3g m at ", dn(n1)) + show(l0));
        c.expect(std::abs(n1.norm() - (double)dl) < sc, "ecef2ned_length", "ecef2ned changes the distance");
        const V e3 = WGS84::ned2ecef(dq, n1);
        c.expect((e3 - e1).norm() < sc, "ned2ecef", vh::strf("ned2ecef(ecef2ned) is off by %.3g m", (e3 - e1).norm()));
        V e4;
        WGS84::ned2ecef(dq, n1, &e4);
        c.expect((e3 - e4).norm() < sc, "ned2ecef_overload", "the two ned2ecef overloads differ");
        const V l2 = WGS84::ned2lla(l0, got);
        V l3;
        WGS84::ned2lla(l0, got, &l3);
        c.expect(samept(l2, l3), "ned2lla_overload", "the two ned2lla overloads differ");
        const P p2 = ref(l2);
        const LD off = sqrtl((p2.x - p.x) * (p2.x - p.x) + (p2.y - p.y) * (p2.y - p.y) + (p2.z - p.z) * (p2.z - p.z));
        c.expect(off < 1e-5L + 2 * sc, "ned2lla", vh::strf("ned2lla names a point %.3Lg m away", off));
        c.nontrivial(vh::fnv(l0.data(), 24, vh::fnv(l1.data(), 24)));
        if (i < 3) c.sample("origin " + show(l0) + " ned " + show(got));
        const std::string s = utils::printLla(l0);
        double a = 1e9, b = 1e9, h = 1e9;
        if (sscanf(s.c_str(), "%lf, %lf, %lf", &a, &b, &h) == 3)
            c.expect(std::abs(a - l0[0] * 180 / M_PI) < 1e-3 && std::abs(b - l0[1] * 180 / M_PI) < 1e-3 &&
                         std::abs(h - l0[2]) <= 1e-3 + 1e-5 * std::abs(h),
                     "printLla", "printLla of " + show(l0) + " is " + s);
        else
            c.violate("printLla", "printLla of " + show(l0) + " is " + s);
    }
}
