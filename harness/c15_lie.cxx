// C15: rotations and poses: every representation is the same group, exp/log and their Jacobians
// are those of the group, views write through and copies share nothing.
#include "math_ref.h"

#include "common/math/dquat.h"
#include "common/math/jet.h"
#include "common/math/quat.h"
#include "common/math/rk4.h"
#include "common/math/se3.h"
#include "common/math/so3.h"
#include "common/math/two_jet.h"
#include "common/matrix_defs.h"

using namespace mc;
using Q = math::Quat<double>;
using DQ = math::DQuat<double>;
using SO = math::SO3<double>;
using SE = math::SE3<double>;

static std::string S(const Eigen::VectorXd& v)
{
    std::string s;
    for (int i = 0; i < v.size(); ++i) s += vh::strf("%.17g ", v[i]);
    return s;
}
static M3 refR(const Q& q)  // active rotation of a unit quaternion
{
    const LD w = q.w(), x = q.x(), y = q.y(), z = q.z(), n = w * w + x * x + y * y + z * z;
    return {{{1 - 2 * (y * y + z * z) / n, 2 * (x * y - w * z) / n, 2 * (x * z + w * y) / n},
             {2 * (x * y + w * z) / n, 1 - 2 * (x * x + z * z) / n, 2 * (y * z - w * x) / n},
             {2 * (x * z - w * y) / n, 2 * (y * z + w * x) / n, 1 - 2 * (x * x + y * y) / n}}};
}
static double maxAbs(const Eigen::MatrixXd& m)
{
    double d = 0;
    for (int i = 0; i < m.size(); ++i)
    {
        const double e = std::abs(m.data()[i]);
        if (!(e <= d)) d = e;
    }
    return d;
}
static Vec3 rv(vh::Rng& r, double s) { return Vec3(r.uni(-s, s), r.uni(-s, s), r.uni(-s, s)); }
static Q rq(vh::Rng& r)
{
    Q q = Q::exp(randomRotVec(r));
    if (r.chance(0.4)) q.arr_ *= -1;  // the other representative of the same rotation
    return q;
}

VH_GROUP(quat)
{
    const int N = c.n(5000, 300000);
    for (int i = 0; i < N; ++i)
    {
        if (!c.begin()) continue;
        const Vec3 w = randomRotVec(c.rng);
        c.note("w=" + S(w));
        const M3 R = expm(ldv(w));
        const Q q = Q::exp(w);
        c.expect(std::abs(q.norm() - 1) < 1e-14, "exp_norm", vh::strf("%.17g", q.norm()));
        c.expect(dist(refR(q), [&] { Mat3 m; for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) m(a, b) = (double)R.m[a][b]; return m; }()) < 1e-14,
                 "exp", S(q.arr_));
        c.expect(dist(tr(R), q.R().matrix()) < 1e-14, "to_matrix", "");
        for (int sgn = 1; sgn >= -1; sgn -= 2)
        {
            Q p = q;
            p.arr_ *= sgn;
            Vec3 l = p.log();
            c.expect(l.norm() <= M_PI + 1e-12, "log_shortest", vh::strf("|log|=%.17g of ", l.norm()) + S(p.arr_));
            c.expect(dist(expm(ldv(l)), [&] { Mat3 m = p.R().matrix().transpose(); return m; }()) < 1e-13, "log",
                     S(l) + " for " + S(p.arr_));
            Mat3 jl, jr;
            const Vec3 l2 = p.log<JacobianSide::LEFT>(&jl), l3 = p.log<JacobianSide::RIGHT>(&jr);
            c.expect(maxAbs(l2 - l) < 1e-14 && maxAbs(l3 - l) < 1e-14, "log_agree", S(l) + " / " + S(l2));
            const auto dl = dexp(ldv(l), V3{{0, 0, 0}}, true), dr = dexp(ldv(l), V3{{0, 0, 0}}, false);
            c.expect(maxAbs(jl * dl.block<3, 3>(0, 0) - Mat3::Identity()) < 1e-6, "log_jac_left",
                     vh::strf("|w|=%.12g off by %.3g", l.norm(), maxAbs(jl * dl.block<3, 3>(0, 0) - Mat3::Identity())));
            c.expect(maxAbs(jr * dr.block<3, 3>(0, 0) - Mat3::Identity()) < 1e-6, "log_jac_right", "");
        }
        Mat3 jl, jr;
        const Q e1 = Q::exp<JacobianSide::LEFT>(w, &jl), e2 = Q::exp<JacobianSide::RIGHT>(w, &jr);
        c.expect(maxAbs(e1.arr_ - q.arr_) < 1e-14 && maxAbs(e2.arr_ - q.arr_) < 1e-14, "exp_agree", "");
        c.expect(maxAbs(jl - dexp(ldv(w), V3{{0, 0, 0}}, true).block<3, 3>(0, 0)) < 1e-5, "exp_jac_left",
                 vh::strf("%.3g", maxAbs(jl - dexp(ldv(w), V3{{0, 0, 0}}, true).block<3, 3>(0, 0))));
        c.expect(maxAbs(jr - dexp(ldv(w), V3{{0, 0, 0}}, false).block<3, 3>(0, 0)) < 1e-5, "exp_jac_right", "");
        if (w.norm() < 1e-3 && w.norm() > 1e-14)  // what is left of the Jacobian beside the identity
        {
            const Mat3 half = 0.5 * skew(w);
            c.count("small_angles");
            c.expect(maxAbs(jl - Mat3::Identity() - half) < 1e-3 * w.norm() && maxAbs(jr - Mat3::Identity() + half) < 1e-3 * w.norm(), "exp_jac_small",
                     vh::strf("|w|=%.3g off by %.3g", w.norm(), maxAbs(jl - Mat3::Identity() - half)));
        }
        // group
        const Q b = rq(c.rng), a = rq(c.rng);
        const M3 A = refR(a), B = refR(b);
        const Vec3 v = rv(c.rng, 10);
        auto act = [&](const M3& m) { return mul(m, ldv(v)); };
        c.expect(distv(act(A), a.rota(v)) < 1e-13, "rota", "");
        c.expect(distv(act(tr(A)), a.rotp(v)) < 1e-13, "rotp", "");
        c.expect(distv(act(tr(A)), a.R() * v) < 1e-13, "matrix_passive", "");
        c.expect(dist(mul(A, B), (a * b).R().matrix().transpose().eval()) < 1e-14, "product", "");
        Eigen::Matrix<double, 3, 2> two;
        two << v, rv(c.rng, 3);
        c.expect(maxAbs(a.doublerota(two) - a.rota(two)) < 1e-13 && maxAbs(a.doublerotp(two) - a.rotp(two)) < 1e-13 &&
                     maxAbs(a.rota(two).col(1) - a.rota(Vec3(two.col(1)))) < 1e-13,
                 "columns", "");
        c.expect(dist(tr(A), a.inverse().R().matrix().transpose().eval()) < 1e-14, "inverse", "");
        Q t = a;
        t *= b;
        c.expect(maxAbs(t.arr_ - (a * b).arr_) < 1e-14, "imul", "");
        t = a;
        t *= t;
        c.expect(maxAbs(t.arr_ - (a * a).arr_) < 1e-15, "imul_self", S(t.arr_) + " vs " + S((a * a).arr_));
        t = a;
        t = t * t;
        c.expect(maxAbs(t.arr_ - (a * a).arr_) < 1e-14, "mul_assign", "");
        t = a;
        t.invert();
        c.expect(maxAbs(t.arr_ - a.inverse().arr_) < 1e-14, "invert", "");
        const Q f = Q::from_R(a.R().matrix());
        c.expect(std::min(maxAbs(f.arr_ - a.arr_), maxAbs(f.arr_ + a.arr_)) < 1e-12, "from_matrix",
                 S(a.arr_) + " came back as " + S(f.arr_));
        c.expect(maxAbs(SO(a).matrix() - a.R().matrix()) < 1e-14, "to_so3", "");
        const Q fs = SO(a.R()).q();
        c.expect(std::min(maxAbs(fs.arr_ - a.arr_), maxAbs(fs.arr_ + a.arr_)) < 1e-12, "from_so3", "");
        c.expect(maxAbs(a.Ad() - a.R().matrix().transpose()) < 1e-14, "adjoint", "");
        // parameter derivatives
        const auto P = a.dParamDGen();
        for (int k = 0; k < 3; ++k)
        {
            Q g(0, k == 0 ? .5 : 0, k == 1 ? .5 : 0, k == 2 ? .5 : 0);
            c.expect(maxAbs(P.col(k) - (a * g).arr_) < 1e-15, "param_jacobian", "");
        }
        c.expect(maxAbs(a.dGenDParam() * P - Mat3::Identity()) < 1e-14 &&
                     maxAbs(a.dGenDParam() * a.arr_) < 1e-14,
                 "gen_jacobian", "");
        const Vec3 ax = randomAxis(c.rng);
        const double an = c.rng.uni(-M_PI, M_PI);
        c.expect(dist(expm(ldv(Vec3(ax * an))), Q::from_axis_angle(ax, an).R().matrix().transpose().eval()) < 1e-13, "axis_angle", "");
        c.expect(maxAbs(SO::from_axis_angle(ax, an).matrix() - Q::from_axis_angle(ax, an).R().matrix()) < 1e-13,
                 "axis_angle_so3", "");
        c.nontrivial(vh::fnv(w.data(), 24, vh::fnv(a.data(), 32)));
        if (i < 2) c.sample("w=" + S(w));
    }
}
VH_GROUP(euler)
{
    const int N = c.n(15000, 400000);
    for (int i = 0; i < N; ++i)
    {
        if (!c.begin()) continue;
        const double r = c.rng.chance(.1) ? c.rng.range(-2, 2) * M_PI / 2 : c.rng.uni(-M_PI, M_PI);
        const double y = c.rng.chance(.1) ? c.rng.range(-2, 2) * M_PI / 2 : c.rng.uni(-M_PI, M_PI);
        const bool gimbal = c.rng.chance(.1);
        const double p = gimbal ? (c.rng.chance(.5) ? 1 : -1) * M_PI / 2 : c.rng.uni(-1.55, 1.55);
        c.note(vh::strf("%.17g %.17g %.17g", r, p, y));
        const M3 R = mul(expm({{0, 0, (LD)y}}), mul(expm({{0, (LD)p, 0}}), expm({{(LD)r, 0, 0}})));
        const Q a = Q::from_euler(r, p, y), b(r, p, y);
        c.expect(dist(R, a.R().matrix().transpose().eval()) < 1e-14, "from_euler", "");
        c.expect(dist(R, b.R().matrix().transpose().eval()) < 1e-14, "constructor", "");
        const Vec3 e = a.euler();
        c.expect(e[0] == a.roll() && e[1] == a.pitch() && e[2] == a.yaw(), "vector", "");
        if (!gimbal)
        {
            c.expect(std::abs(std::remainder(e[0] - r, 2 * M_PI)) < 1e-12 / std::cos(p), "roll", S(e));
            c.expect(std::abs(e[1] - p) < 1e-12 / std::cos(p), "pitch", S(e));
            c.expect(std::abs(std::remainder(e[2] - y, 2 * M_PI)) < 1e-12 / std::cos(p), "yaw", S(e));
        }
        else
            c.expect(std::abs(e[1] - p) < 1e-7, "pitch_limit", S(e));
        c.nontrivial(vh::strf("%a%a%a", r, p, y));
    }
}
VH_GROUP(two_vectors)
{
    const int N = c.n(15000, 300000);
    for (int i = 0; i < N; ++i)
    {
        if (!c.begin()) continue;
        const Vec3 u = randomAxis(c.rng);
        Vec3 v = randomAxis(c.rng);
        switch (c.rng.range(0, 5))
        {
        case 0: v = u; break;
        case 1: v = -u; break;
        case 2: v = (u + rv(c.rng, std::pow(10.0, c.rng.uni(-12, -3)))).normalized(); break;
        case 3: v = (-u + rv(c.rng, std::pow(10.0, c.rng.uni(-7, -3)))).normalized(); break;
        default: break;
        }
        c.note(S(u) + "-> " + S(v));
        const double tol = 1e-8;
        const Q q = Q::from_two_unit_vectors(u, v);
        c.expect(maxAbs(q.rotp(u) - v) < tol, "quat", "maps to " + S(q.rotp(u)));
        const SO R = SO::from_two_unit_vectors(u, v);
        c.expect(maxAbs(R.rotp(u) - v) < tol, "so3", "maps to " + S(R.rotp(u)));
        c.expect(maxAbs(R.matrix() * R.matrix().transpose() - Mat3::Identity()) < 1e-12, "so3_orthogonal", "");
        c.nontrivial(vh::fnv(u.data(), 24, vh::fnv(v.data(), 24)));
    }
}
VH_GROUP(so3)
{
    const int N = c.n(6000, 300000);
    for (int i = 0; i < N; ++i)
    {
        if (!c.begin()) continue;
        const Vec3 w = randomRotVec(c.rng);
        c.note("w=" + S(w));
        const M3 R = expm(ldv(w));
        Mat3 J;
        const SO a = SO::exp(w), a2 = SO::exp(w, &J);
        c.expect(dist(R, a.matrix()) < 2e-13, "exp", vh::strf("%.3g", dist(R, a.matrix())));
        c.expect(maxAbs(a.matrix() - a2.matrix()) < 1e-14, "exp_agree", "");
        const auto D = dexp(ldv(w), V3{{0, 0, 0}}, true);
        c.expect(maxAbs(J - D.block<3, 3>(0, 0)) < 1e-6, "exp_jac", vh::strf("%.3g", maxAbs(J - D.block<3, 3>(0, 0))));
        const Vec3 l = a.log();
        Mat3 JL;
        const Vec3 l2 = a.log(&JL);
        c.expect(dist(expm(ldv(l)), a.matrix()) < 2e-7, "log", S(l));
        c.expect(dist(expm(ldv(l2)), a.matrix()) < 2e-7, "log_with_jac", S(l2));
        c.expect(l.norm() < M_PI + 2e-4, "log_shortest", S(l));
        const auto DL = dexp(ldv(l2), V3{{0, 0, 0}}, true);
        c.expect(maxAbs(JL * DL.block<3, 3>(0, 0) - Mat3::Identity()) < 1e-6, "log_jac",
                 vh::strf("off by %.3g", maxAbs(JL * DL.block<3, 3>(0, 0) - Mat3::Identity())));
        // a product of rounded rotations is still a rotation for log
        SO x = a;
        for (int k = 0; k < 3; ++k) x = x * SO::exp(randomRotVec(c.rng)) * SO::exp(rv(c.rng, 1e-9));
        x = x * x.inverse();
        Mat3 jx;
        c.expect(maxAbs(x.log()) < 1e-12 && maxAbs(x.log(&jx)) < 1e-12 && maxAbs(jx - Mat3::Identity()) < 1e-9,
                 "log_near_identity", S(x.log()) + vh::strf(" trace-3=%.3g", x.matrix().trace() - 3));
        const SO b = SO::exp(randomRotVec(c.rng));
        const Vec3 v = rv(c.rng, 10);
        c.expect(maxAbs((a * b).rotp(v) - a.rotp(b.rotp(v))) < 1e-13 && maxAbs(a.times(b).matrix() - (a * b).matrix()) < 1e-14 &&
                     maxAbs(a.inverse().rotp(v) - a.rota(v)) < 1e-14 && maxAbs(a.rota(a.rotp(v)) - v) < 1e-11,
                 "group", "");
        c.expect(maxAbs((a * SO::exp(rv(c.rng, 0)) * a.inverse()).matrix() - Mat3::Identity()) < 1e-12, "identity", "");
        const Vec3 d = rv(c.rng, 1);
        c.expect(maxAbs((a * SO::exp(d)).matrix() - (SO::exp(a.Ad() * d) * a).matrix()) < 1e-12, "adjoint", "");
        SO n = a;
        n.matrix() += 1e-4 * Mat3(Mat3::Random());
        const SO n2 = n.rectified();
        n.rectify();
        c.expect(maxAbs(n.matrix() * n.matrix().transpose() - Mat3::Identity()) < 1e-13 && maxAbs(n.matrix() - n2.matrix()) < 1e-14 &&
                     maxAbs(n.matrix() - a.matrix()) < 1e-3 && n.matrix().determinant() > 0,
                 "rectify", "");
        c.nontrivial(vh::fnv(w.data(), 24));
    }
}
template <class T>
static Mat4 hom(const T& x)
{
    return x.matrix();
}
// the 24 rotations that carry the axes into each other, where the largest diagonal entries tie
VH_GROUP(axes)
{
    for (int k = 0; k < 48; ++k)
    {
        int p[3] = {0, 1, 2};
        for (int j = 0; j < k / 8; ++j) std::next_permutation(p, p + 3);
        Mat3 m = Mat3::Zero();
        for (int j = 0; j < 3; ++j) m(j, p[j]) = (k >> j & 1) ? -1 : 1;
        if (m.determinant() < 0) continue;
        if (!c.begin()) continue;
        c.note(vh::strf("axes %d", k));
        const Q q = Q::from_R(m);
        c.expect(std::abs(q.norm() - 1) < 1e-14 && maxAbs(q.R().matrix() - m) < 1e-14, "from_matrix", S(q.arr_));
        const Q q2 = SO(m).q();
        c.expect(std::abs(q2.norm() - 1) < 1e-14 && maxAbs(q2.R().matrix() - m) < 1e-14, "from_so3", S(q2.arr_));
        const SO so(m);
        const Vec3 l = so.log(), lq = q.log();
        Mat3 J;
        const Vec3 l2 = so.log(&J);
        c.expect(lq.norm() < M_PI + 1e-12 && maxAbs(Q::exp(lq).R().matrix() - m) < 1e-13, "quat_log", S(lq));
        for (const Vec3* x : {&l, &l2})
            c.expect(x->norm() < M_PI + 2e-4 && maxAbs(SO::exp(*x).matrix() - m) < 2e-7, "log", S(*x));
        c.count("axis_rotations");
        c.nontrivial(k);
    }
}

VH_GROUP(se3)
{
    const int N = c.n(3000, 150000);
    for (int i = 0; i < N; ++i)
    {
        if (!c.begin()) continue;
        Vec6 wv;
        const double sc = c.rng.chance(.2) ? 1000 : 1;
        wv << randomRotVec(c.rng), rv(c.rng, sc);
        c.note("wv=" + S(wv));
        const V3 w = ldv(wv.head<3>()), v = ldv(wv.tail<3>());
        const Rigid r = expSE(w, v);
        Mat6 J;
        const SE a = SE::exp(wv), a2 = SE::exp(wv, &J);
        c.expect(dist(r.R, a.R().matrix()) < 2e-13 && distv(r.t, a.t()) < 2e-13 * sc * 10, "exp", S(a.t()));
        c.expect(maxAbs(a.matrix() - a2.matrix()) < 1e-12 * sc, "exp_agree", "");
        c.expect(maxAbs(J - dexp(w, v, true)) < 1e-5 * sc, "exp_jac", vh::strf("%.3g", maxAbs(J - dexp(w, v, true))));
        const Vec6 l = a.log();
        Mat6 JL;
        const Vec6 l2 = a.log(&JL);
        for (const Vec6* x : {&l, &l2})
        {
            const Rigid b = expSE(ldv(x->head<3>()), ldv(x->tail<3>()));
            c.expect(dist(b.R, a.R().matrix()) < 2e-7 && distv(b.t, a.t()) < 2e-7 * sc * 3,
                     x == &l ? "log" : "log_with_jac", S(*x) + vh::strf(" %.3g %.3g", dist(b.R, a.R().matrix()), distv(b.t, a.t())));
        }
        const auto DL = dexp(ldv(l2.head<3>()), ldv(l2.tail<3>()), true);
        c.expect(maxAbs(JL * DL - Mat6::Identity()) < 2e-6 * sc, "log_jac", vh::strf("%.3g", maxAbs(JL * DL - Mat6::Identity())));
        Vec6 wb;
        wb << randomRotVec(c.rng), rv(c.rng, sc);
        const SE b = SE::exp(wb);
        const Vec3 p = rv(c.rng, 10 * sc);
        c.expect(maxAbs((a * b).matrix() - hom(a) * hom(b)) < 1e-12 * sc, "product", "");
        c.expect(maxAbs((a * a.inverse()).matrix() - Mat4::Identity()) < 1e-11 * sc, "inverse", "");
        c.expect(maxAbs(a.transformp(p) - (a.matrix().topLeftCorner<3, 3>() * p + a.t())) < 1e-12 * sc &&
                     maxAbs(a * p - a.transformp(p)) < 1e-14 * sc && maxAbs(a.transforma(a.transformp(p)) - p) < 1e-10 * sc,
                 "transform", "");
        c.expect(maxAbs(SE(a.matrix()).matrix() - a.matrix()) < 1e-14 * sc, "from_matrix", "");
        Vec6 d;
        d << rv(c.rng, 1), rv(c.rng, sc);
        c.expect(maxAbs((a * SE::exp(d)).matrix() - (SE::exp(a.Ad() * d) * a).matrix()) < 1e-9 * sc, "adjoint", "");
        c.nontrivial(vh::fnv(wv.data(), 48));
    }
}
static Rigid refD(const DQ& q)  // active transform
{
    const LD rw = q[0], rx = q[1], ry = q[2], rz = q[3], dw = q[4], dx = q[5], dy = q[6], dz = q[7];
    // t = 2 d r*
    Rigid o;
    o.R = refR(q.real());
    o.t.v[0] = 2 * (-dw * rx + dx * rw - dy * rz + dz * ry);
    o.t.v[1] = 2 * (-dw * ry + dx * rz + dy * rw - dz * rx);
    o.t.v[2] = 2 * (-dw * rz - dx * ry + dy * rx + dz * rw);
    return o;
}
static double far(const Rigid& a, const Rigid& b, double scale)
{
    double d = 0;
    for (int i = 0; i < 3; ++i)
    {
        for (int j = 0; j < 3; ++j) d = std::max(d, (double)fabsl(a.R.m[i][j] - b.R.m[i][j]));
        const double e = (double)fabsl(a.t.v[i] - b.t.v[i]) / scale;
        if (!(e <= d)) d = e;
    }
    return d;
}
static V3 apply(const Rigid& a, const V3& p) { return add(mul(a.R, p), a.t); }

VH_GROUP(dquat)
{
    const int N = c.n(3000, 150000);
    for (int i = 0; i < N; ++i)
    {
        if (!c.begin()) continue;
        Vec6 wv;
        const double sc = c.rng.chance(.2) ? 6e6 : c.rng.chance(.3) ? 100 : 1;
        wv << randomRotVec(c.rng), rv(c.rng, sc);
        c.note("wv=" + S(wv));
        const V3 w = ldv(wv.head<3>()), v = ldv(wv.tail<3>());
        const Rigid r = expSE(w, v);
        Mat6 JL, JR;
        const DQ a = DQ::exp(wv), a1 = DQ::exp<JacobianSide::LEFT>(wv, &JL), a2 = DQ::exp<JacobianSide::RIGHT>(wv, &JR);
        c.expect(far(r, refD(a), sc) < 1e-13, "exp", vh::strf("%.3g", far(r, refD(a), sc)));
        c.expect(maxAbs(a1.arr_ - a.arr_) < 1e-14 * sc && maxAbs(a2.arr_ - a.arr_) < 1e-14 * sc, "exp_agree", "");
        const auto EL = dexp(w, v, true), ER = dexp(w, v, false);
        c.expect(maxAbs(JL - EL) < 1e-5 * sc, "exp_jac_left", vh::strf("%.3g", maxAbs(JL - EL)));
        c.expect(maxAbs(JR - ER) < 1e-5 * sc, "exp_jac_right", vh::strf("%.3g", maxAbs(JR - ER)));
        c.expect(std::abs(a.real().arr_.dot(a.dual().arr_)) < 1e-13 * sc && std::abs(a.real().norm() - 1) < 1e-14, "unit", "");
        for (int sgn = 1; sgn >= -1; sgn -= 2)
        {
            DQ p = a;
            p.arr_ *= sgn;
            const Vec6 l = p.log();
            c.expect(far(expSE(ldv(l.head<3>()), ldv(l.tail<3>())), refD(p), sc) < 1e-11, "log",
                     S(l) + vh::strf("sign %d off by %.3g", sgn, far(expSE(ldv(l.head<3>()), ldv(l.tail<3>())), refD(p), sc)));
            c.expect(l.head<3>().norm() < M_PI + 1e-9, "log_shortest", S(l));
            Mat6 gl, gr;
            const Vec6 l1 = p.log<JacobianSide::LEFT>(&gl), l2 = p.log<JacobianSide::RIGHT>(&gr);
            c.expect(maxAbs((l1 - l).head<3>()) < 1e-11 && maxAbs((l2 - l).head<3>()) < 1e-11 &&
                         maxAbs((l1 - l).tail<3>()) < 1e-11 * sc && maxAbs((l2 - l).tail<3>()) < 1e-11 * sc,
                     "log_agree", S(l) + "/ " + S(l1));
            const auto dl = dexp(ldv(l.head<3>()), ldv(l.tail<3>()), true), dr = dexp(ldv(l.head<3>()), ldv(l.tail<3>()), false);
            c.expect(maxAbs(gl * dl - Mat6::Identity()) < 2e-6 * sc, "log_jac_left",
                     vh::strf("sign %d off by %.3g", sgn, maxAbs(gl * dl - Mat6::Identity())));
            c.expect(maxAbs(gr * dr - Mat6::Identity()) < 2e-6 * sc, "log_jac_right", "");
        }
        Vec6 wb;
        wb << randomRotVec(c.rng), rv(c.rng, sc);
        DQ b = DQ::exp(wb);
        if (c.rng.chance(.4)) b.arr_ *= -1;
        const Rigid A = refD(a), B = refD(b);
        const Vec3 p = rv(c.rng, sc);
        c.expect(far(comp(A, B), refD(a * b), sc) < 1e-13, "product", "");
        c.expect(far(inv(A), refD(a.inverse()), sc) < 1e-13, "inverse", "");
        c.expect(distv(A.t, a.translation()) < 1e-14 * sc, "translation", "");
        c.expect(distv(apply(A, ldv(p)), a.transforma(p)) < 1e-13 * sc, "transform_active", "");
        c.expect(distv(apply(inv(A), ldv(p)), a.transformp(p)) < 1e-13 * sc, "transform_passive", "");
        Eigen::Matrix<double, 3, 4> pts;
        for (int k = 0; k < 4; ++k) pts.col(k) = rv(c.rng, sc);
        c.expect(maxAbs(a.transforma(pts).col(3) - a.transforma(Vec3(pts.col(3)))) <= 1e-13 * sc &&
                     maxAbs(a.transformp(pts).col(2) - a.transformp(Vec3(pts.col(2)))) <= 1e-13 * sc,
                 "columns", "");
        c.expect(maxAbs(a.rota(p) - a.real().rota(p)) < 1e-14 * sc && maxAbs(a.rotp(p) - a.real().rotp(p)) < 1e-14 * sc &&
                     maxAbs(a.R().matrix() - a.rotation().R().matrix()) < 1e-14 * sc,
                 "rotation", "");
        const Q qq = rq(c.rng);
        const Vec3 tt = rv(c.rng, sc);
        const DQ qt(qq, tt);
        c.expect(far(Rigid{refR(qq), ldv(tt)}, refD(qt), sc) < 1e-14, "from_parts", "");
        const DQ e8(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7]);
        c.expect(maxAbs(e8.arr_ - a.arr_) < 1e-14 * sc && maxAbs(e8.real().arr_ - a.real().arr_) < 1e-14 * sc &&
                     maxAbs(e8.dual().arr_ - a.dual().arr_) < 1e-14 * sc,
                 "from_elements", "parts " + S(e8.real().arr_) + "/ " + S(e8.dual().arr_));
        Vec6 d;
        d << rv(c.rng, 1), rv(c.rng, sc);
        c.expect(far(refD(a * DQ::exp(d)), refD(DQ::exp(a.Ad() * d) * a), sc) < 1e-12, "adjoint", "");
        // parameter derivatives: a * exp(delta), and log(a^-1 * b) at b = a
        const auto P = a.dParamDGen();
        for (int k = 0; k < 6; ++k)
        {
            DQ g;
            g.arr_.setZero();
            g.arr_[k < 3 ? 1 + k : 2 + k] = .5;
            c.expect(maxAbs(P.col(k) - (a * g).arr_) < 1e-14 * sc, "param_jacobian", "");
        }
        c.expect(maxAbs(a.dGenDParam() * P - Mat6::Identity()) < 1e-12 * sc, "gen_jacobian", "");
        c.nontrivial(vh::fnv(wv.data(), 48));
        if (i < 2) c.sample("wv=" + S(wv));
    }
}
VH_GROUP(storage)
{
    const int N = c.n(4000, 60000);
    for (int i = 0; i < N; ++i)
    {
        if (!c.begin()) continue;
        double buf[8];
        const DQ a(rq(c.rng), rv(c.rng, 10)), b(rq(c.rng), rv(c.rng, 10));
        memcpy(buf, a.data(), sizeof buf);
        DQ view(buf);
        c.expect(view == a, "view_reads", "");
        DQ copy(view), assigned;
        assigned = view;
        view = b;
        c.expect(memcmp(buf, b.data(), sizeof buf) == 0, "view_writes", "");
        c.expect(copy == a && assigned == a, "copy_detached", "a copy followed its source");
        view.real() = a.real();
        view.setDual(a.dual());
        c.expect(memcmp(buf, a.data(), sizeof buf) == 0, "view_parts", "");
        copy.real() = b.real();
        copy.dual() = b.dual();
        c.expect(copy == b && memcmp(buf, a.data(), sizeof buf) == 0, "copy_parts", "");
        copy = Vec8(a.arr_);
        c.expect(copy == a, "assign_vector", "");
        view = view * view;
        c.expect((Vec8(view.arr_) - (a * a).arr_).norm() < 1e-12, "self_product", "");
        Q qv(buf), qc(qv), qa;
        qa = qv;
        const Q before = qv;
        qv = b.real();
        c.expect(memcmp(buf, b.data(), 32) == 0 && qc == before && qa == before, "quat_storage", "");
        // containers copy and move whole objects
        std::vector<DQ> v;
        for (int k = 0; k < 6; ++k) v.push_back(k % 2 ? a : b);
        v.erase(v.begin());
        v.insert(v.begin() + 1, b);
        bool ok = v[0] == a && v[1] == b && v[2] == b && v[3] == a && v[4] == b && v[5] == a;
        v[0].real() = b.real();
        ok = ok && v[3] == a && v[5] == a;
        c.expect(ok, "container", "");
        math::Jet<double> j;
        j.x = a;
        j.dx.setConstant(i);
        math::Jet<double> j2 = j, j3;
        j3 = j;
        j.x = b;
        c.expect(j2.x == a && j3.x == a && j2.dx == j3.dx && !(j2 == j), "jet", "");
        math::TwoJet<double> t;
        t.x = a;
        t.dx.setConstant(i);
        t.d2x.setConstant(-i);
        math::TwoJet<double> t2 = t, t3;
        t3 = t;
        t.x = b;
        t.d2x[0] = 1;
        c.expect(t2.x == a && t3.x == a && t2 == t3 && !(t2 == t), "two_jet", "");
        c.nontrivial(vh::fnv(a.data(), 64));
    }
}
// a fourth-order step of a linear system is the exponential series to fourth order
VH_GROUP(rk4)
{
    const int N = c.n(3000, 60000);
    for (int i = 0; i < N; ++i)
    {
        if (!c.begin()) continue;
        Eigen::Matrix<double, 4, 4> A;
        Vec4 x, u;
        for (int k = 0; k < 16; ++k) A.data()[k] = c.rng.uni(-2, 2);
        for (int k = 0; k < 4; ++k) x[k] = c.rng.uni(-2, 2), u[k] = c.rng.uni(-2, 2);
        const double h = c.rng.uni(-.5, .5);
        const Vec4 got = math::RK4([&](const Vec4& y, const Vec4& in) -> Vec4 { return A * y + in; }, h, x, u);
        Vec4 term = (A * x + u) * h, want = x + term;
        for (int k = 2; k <= 4; ++k)
        {
            term = A * term * (h / k);
            want += term;
        }
        c.expect((got - want).norm() < 1e-12, "order", vh::strf("off by %.3g", (got - want).norm()));
        c.nontrivial(vh::fnv(&h, 8));
    }
}
VH_GROUP(matrix_tools)
{
    const int N = c.n(4000, 60000);
    for (int i = 0; i < N; ++i)
    {
        if (!c.begin()) continue;
        const int r = (int)c.rng.range(1, 5), k = (int)c.rng.range(1, 5), r2 = (int)c.rng.range(1, 4);
        MatX a(r, k), b(r, r2), d(r2, k);
        for (auto* m : {&a, &b, &d})
            for (int j = 0; j < m->size(); ++j) m->data()[j] = c.rng.range(-5000, 5000) * 1e-3;
        const MatX h = hstack(a, b), v = vstack(a, d), t = tile(a, r2, r);
        c.expect(h.leftCols(k) == a && h.rightCols(r2) == b && h.cols() == k + r2, "hstack", "");
        c.expect(v.topRows(r) == a && v.bottomRows(r2) == d && v.rows() == r + r2, "vstack", "");
        bool ok = t.rows() == r * r2 && t.cols() == k * r;
        for (int p = 0; ok && p < t.rows(); ++p)
            for (int q = 0; q < t.cols(); ++q) ok = ok && t(p, q) == a(p % r, q % k);
        c.expect(ok, "tile", vh::strf("%dx%d tiled %dx%d", r, k, r2, r));
        const Vec3 x = rv(c.rng, 5), y = rv(c.rng, 5);
        c.expect((skew(x) * y - x.cross(y)).norm() <= 1e-13 * x.norm() * y.norm() && skew(x) == -skew(x).transpose(), "skew", "");
        VecX z(c.rng.range(1, 12));
        for (int j = 0; j < z.size(); ++j) z[j] = c.rng.range(-4, 4);
        const VecX o = argsort(z);
        std::vector<int> seen(z.size(), 0);
        bool perm = true, sorted = true;
        VecX s(z.size());
        for (int j = 0; j < z.size(); ++j)
        {
            const int g = (int)o[j];
            perm = perm && g >= 0 && g < z.size() && !seen[g]++;
            if (perm) s[g] = z[j];
        }
        for (int j = 1; perm && j < z.size(); ++j) sorted = sorted && s[j - 1] <= s[j];
        c.expect(perm && sorted, "argsort", S(z));
        MatX ip(r, k);
        const MatX f = mc::modf(a, &ip);
        for (int j = 0; j < a.size(); ++j)
            c.expect(ip.data()[j] == std::trunc(a.data()[j]) && f.data()[j] + ip.data()[j] == a.data()[j] &&
                         std::abs(f.data()[j]) < 1 && mc::modf(a).data()[j] == f.data()[j],
                     "modf", vh::strf("%.17g", a.data()[j]));
        Vec6 bad;
        for (int j = 0; j < 6; ++j) bad[j] = c.rng.uni(-1e300, 1e300);
        c.expect(isFinite(bad) && !isNan(bad), "finite", "");
        const int at = (int)c.rng.range(0, 5);
        bad[at] = NAN;
        c.expect(!isFinite(bad) && isNan(bad), "nan", "");
        bad[at] = c.rng.chance(.5) ? INFINITY : -INFINITY;
        c.expect(!isFinite(bad) && !isNan(bad), "inf", "an infinite element counts as finite");
        c.nontrivial(vh::fnv(a.data(), 8 * a.size()));
    }
}
