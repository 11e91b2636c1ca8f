// Extended-precision reference for rotations and rigid motions (independent of the repository).
#pragma once
#include "vh.h"
#include <Eigen/Core>

typedef long double LD;
struct M3
{
    LD m[3][3];
};
struct V3
{
    LD v[3];
};
inline V3 ldv(const Eigen::Vector3d& a) { return {{a[0], a[1], a[2]}}; }
inline LD dot(const V3& a, const V3& b) { return a.v[0] * b.v[0] + a.v[1] * b.v[1] + a.v[2] * b.v[2]; }
inline LD len(const V3& a) { return sqrtl(dot(a, a)); }
inline V3 add(const V3& a, const V3& b, LD s = 1)
{
    return {{a.v[0] + s * b.v[0], a.v[1] + s * b.v[1], a.v[2] + s * b.v[2]}};
}
inline V3 crs(const V3& a, const V3& b)
{
    return {{a.v[1] * b.v[2] - a.v[2] * b.v[1], a.v[2] * b.v[0] - a.v[0] * b.v[2],
             a.v[0] * b.v[1] - a.v[1] * b.v[0]}};
}
inline M3 sk(const V3& w)
{
    return {{{0, -w.v[2], w.v[1]}, {w.v[2], 0, -w.v[0]}, {-w.v[1], w.v[0], 0}}};
}
inline M3 eye() { return {{{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}}; }
inline M3 mul(const M3& a, const M3& b)
{
    M3 r;
    for (int i = 0; i < 3; ++i)
        for (int j = 0; j < 3; ++j)
        {
            r.m[i][j] = 0;
            for (int k = 0; k < 3; ++k) r.m[i][j] += a.m[i][k] * b.m[k][j];
        }
    return r;
}
inline V3 mul(const M3& a, const V3& b)
{
    V3 r;
    for (int i = 0; i < 3; ++i) r.v[i] = a.m[i][0] * b.v[0] + a.m[i][1] * b.v[1] + a.m[i][2] * b.v[2];
    return r;
}
inline M3 tr(const M3& a)
{
    M3 r;
    for (int i = 0; i < 3; ++i)
        for (int j = 0; j < 3; ++j) r.m[i][j] = a.m[j][i];
    return r;
}
inline M3 lin(const M3& a, LD s, const M3& b)
{
    M3 r;
    for (int i = 0; i < 3; ++i)
        for (int j = 0; j < 3; ++j) r.m[i][j] = a.m[i][j] + s * b.m[i][j];
    return r;
}
// Taylor with argument halving for the three Rodrigues coefficients
inline void coeffs(LD th, LD& a, LD& b, LD& c)
{
    const LD t2 = th * th;
    if (th < 0.5L)
    {
        LD fa = 1, fb = 0.5L, fc = 1.0L / 6, sa = 0, sb = 0, sc = 0;
        for (int k = 0; k < 14; ++k)
        {
            sa += fa;
            sb += fb;
            sc += fc;
            fa *= -t2 / ((2 * k + 2) * (2 * k + 3));
            fb *= -t2 / ((2 * k + 3) * (2 * k + 4));
            fc *= -t2 / ((2 * k + 4) * (2 * k + 5));
        }
        a = sa, b = sb, c = sc;
    }
    else
    {
        a = sinl(th) / th;
        b = 2 * sinl(th / 2) * sinl(th / 2) / t2;
        c = (1 - a) / t2;
    }
}
inline M3 expm(const V3& w)
{
    LD a, b, c;
    coeffs(len(w), a, b, c);
    const M3 K = sk(w);
    return lin(lin(eye(), a, K), b, mul(K, K));
}
inline M3 vmat(const V3& w)
{
    LD a, b, c;
    coeffs(len(w), a, b, c);
    const M3 K = sk(w);
    return lin(lin(eye(), b, K), c, mul(K, K));
}
// logarithm of a rotation close to the identity
inline V3 smallLog(const M3& R)
{
    V3 r{{(R.m[2][1] - R.m[1][2]) / 2, (R.m[0][2] - R.m[2][0]) / 2, (R.m[1][0] - R.m[0][1]) / 2}};
    const LD s = len(r);
    if (s == 0) return r;
    const LD k = asinl(s) / s;
    return {{r.v[0] * k, r.v[1] * k, r.v[2] * k}};
}
struct Rigid
{
    M3 R;
    V3 t;
};
inline Rigid expSE(const V3& w, const V3& v) { return {expm(w), mul(vmat(w), v)}; }
inline Rigid comp(const Rigid& a, const Rigid& b) { return {mul(a.R, b.R), add(mul(a.R, b.t), a.t)}; }
inline Rigid inv(const Rigid& a)
{
    const M3 T = tr(a.R);
    const V3 t = mul(T, a.t);
    return {T, {{-t.v[0], -t.v[1], -t.v[2]}}};
}
inline M3 inv3(const M3& m)
{
    M3 r;
    const LD d = m.m[0][0] * (m.m[1][1] * m.m[2][2] - m.m[1][2] * m.m[2][1]) -
                 m.m[0][1] * (m.m[1][0] * m.m[2][2] - m.m[1][2] * m.m[2][0]) +
                 m.m[0][2] * (m.m[1][0] * m.m[2][1] - m.m[1][1] * m.m[2][0]);
    for (int i = 0; i < 3; ++i)
        for (int j = 0; j < 3; ++j)
        {
            const int a = (j + 1) % 3, b = (j + 2) % 3, c = (i + 1) % 3, e = (i + 2) % 3;
            r.m[i][j] = (m.m[a][c] * m.m[b][e] - m.m[a][e] * m.m[b][c]) / d;
        }
    return r;
}
inline void smallLogSE(const Rigid& a, LD out[6])
{
    const V3 w = smallLog(a.R), v = mul(inv3(vmat(w)), a.t);
    for (int k = 0; k < 3; ++k) out[k] = w.v[k], out[3 + k] = v.v[k];
}
// derivative of the exponential map (left: perturbation applied on the left), by central
// differences in extended precision
inline Eigen::Matrix<double, 6, 6> dexp(const V3& w, const V3& v, bool left)
{
    Eigen::Matrix<double, 6, 6> J;
    const LD h = 1e-5L;
    const Rigid base = inv(expSE(w, v));
    for (int k = 0; k < 6; ++k)
    {
        LD d[2][6];
        for (int s = 0; s < 2; ++s)
        {
            V3 a = w, b = v;
            (k < 3 ? a.v[k] : b.v[k - 3]) += s ? h : -h;
            const Rigid p = expSE(a, b);
            smallLogSE(left ? comp(p, base) : comp(base, p), d[s]);
        }
        for (int i = 0; i < 6; ++i) J(i, k) = (double)((d[1][i] - d[0][i]) / (2 * h));
    }
    return J;
}
template <class M>
inline double dist(const M3& a, const M& b)
{
    double d = 0;
    for (int i = 0; i < 3; ++i)
        for (int j = 0; j < 3; ++j)
        {
            const double e = (double)fabsl(a.m[i][j] - (LD)b(i, j));
            if (!(e <= d)) d = e;
        }
    return d;
}
template <class V>
inline double distv(const V3& a, const V& b)
{
    double d = 0;
    for (int i = 0; i < 3; ++i)
    {
        const double e = (double)fabsl(a.v[i] - (LD)b[i]);
        if (!(e <= d)) d = e;
    }
    return d;
}
inline Eigen::Vector3d randomAxis(vh::Rng& r)
{
    if (r.chance(0.15)) return Eigen::Vector3d::Unit(r.range(0, 2)) * (r.chance(.5) ? 1 : -1);
    Eigen::Vector3d a(r.gauss(), r.gauss(), r.gauss());
    return a / a.norm();
}
// rotation vectors of every size, with the places where implementations switch branches
inline Eigen::Vector3d randomRotVec(vh::Rng& r)
{
    double th;
    switch (r.range(0, 7))
    {
    case 0: th = std::pow(10.0, r.uni(-12, 0.49)); break;
    case 1: th = M_PI - std::pow(10.0, r.uni(-14, -1)); break;
    case 2: th = M_PI * (r.chance(.5) ? 1 : 0.5); break;
    case 3: th = 0; break;
    case 4: th = (r.chance(.5) ? 2e-3 : 1e-4) * (1 + r.uni(-.1, .1)); break;
    case 5: th = r.pick<double>({4e-6, 8e-6, 1e-4, 2e-4, 2e-3}) * (1 + r.uni(-1e-3, 1e-3)); break;
    default: th = r.uni(0, M_PI); break;
    }
    return randomAxis(r) * th;
}
