// Shared by C04-C06: record kinds, field-level comparison, random values.
#pragma once
#include <experimental/filesystem>
#include <deque>
#include <sstream>
#include <tuple>

#include "common/ephemeris/galileo.h"
#include "common/ephemeris/glonass.h"
#include "common/ephemeris/gps.h"
#include "common/logging/log_reader.h"
#include "common/logging/log_writer.h"
#include "common/math/dquat.h"
#include "common/math/jet.h"
#include "common/math/quat.h"
#include "common/math/two_jet.h"
#include "common/matrix_defs.h"
#include "common/measurements/gnss_observation.h"
#include "common/measurements/imu.h"
#include "vh.h"

namespace fs = std::experimental::filesystem;
using namespace mc;
using namespace mc::logging;
using ephemeris::GalileoEphemeris;
using ephemeris::GlonassEphemeris;
using ephemeris::GPSEphemeris;

typedef Eigen::Matrix<double, 3, 4> M34;
typedef Eigen::Matrix<int, 7, 2> M72i;
typedef Eigen::Matrix<float, 2, 5> M25f;
typedef math::Quat<double> Q;
typedef math::DQuat<double> DQ;
typedef math::Jet<double> J1;
typedef math::TwoJet<double> J2;

inline double rnd(vh::Rng& r, bool special = true)
{
    if (special && r.chance(0.15))
    {
        const double sp[] = {0.0,   -0.0,     1e300, -1e-300, 4.9e-324, NAN, INFINITY,
                             -INFINITY, 10.0, 13.0, 1.0 / 3};
        return sp[r.range(0, 10)];
    }
    return r.gauss() * std::pow(10.0, (double)r.range(-12, 12));
}
template <class M>
void rndm(vh::Rng& r, M& m)
{
    for (int i = 0; i < m.rows(); ++i)
        for (int j = 0; j < m.cols(); ++j)
            m(i, j) = (typename M::Scalar)(std::is_integral<typename M::Scalar>::value
                                               ? (double)r.range(-2000000000, 2000000000)
                                               : r.gauss() * 1000);
}
inline UTCTime rt(vh::Rng& r) { return UTCTime(r.range(0, 4000000000LL), r.range(0, 999999999)); }

// fill(): random content for every field that is part of the record
inline void fill(vh::Rng& r, double& x) { x = rnd(r); }
inline void fill(vh::Rng& r, float& x) { x = (float)(r.gauss() * 1e3); }
inline void fill(vh::Rng& r, int& x) { x = (int)r.u64(); }
inline void fill(vh::Rng& r, int64_t& x) { x = (int64_t)r.u64(); }
inline void fill(vh::Rng& r, uint8_t& x) { x = (uint8_t)r.u64(); }
inline void fill(vh::Rng& r, uint16_t& x) { x = (uint16_t)r.u64(); }
inline void fill(vh::Rng& r, int16_t& x) { x = (int16_t)r.u64(); }
inline void fill(vh::Rng& r, int8_t& x) { x = (int8_t)r.u64(); }
inline void fill(vh::Rng& r, uint32_t& x) { x = (uint32_t)r.u64(); }
inline void fill(vh::Rng& r, uint64_t& x) { x = r.u64(); }
inline void fill(vh::Rng& r, UTCTime& t) { t = rt(r); }
inline void fill(vh::Rng& r, Q& q)
{
    Vec4 v(r.gauss(), r.gauss(), r.gauss(), r.gauss());
    v.normalize();
    q = Q(v);
}
inline void fill(vh::Rng& r, DQ& d)
{
    Q q;
    fill(r, q);
    Vec3 t(r.gauss() * 1e3, r.gauss(), r.gauss());
    d = DQ(q, t);
}
template <class D, int R, int C>
void fill(vh::Rng& r, Eigen::Matrix<D, R, C>& m)
{
    rndm(r, m);
}
inline void fill6(vh::Rng& r, double* p)
{
    for (int i = 0; i < 6; ++i) p[i] = r.gauss();
}
inline void fill(vh::Rng& r, J1& j)
{
    fill(r, j.x);
    fill6(r, j.dx.data());
}
inline void fill(vh::Rng& r, J2& j)
{
    fill(r, j.x);
    fill6(r, j.dx.data());
    fill6(r, j.d2x.data());
}
inline void fill(vh::Rng& r, meas::ImuSample& s)
{
    s.t = rt(r);
    for (int i = 0; i < 3; ++i) s.accel(i) = rnd(r), s.gyro(i) = rnd(r);
}
inline void fill(vh::Rng& r, meas::GnssObservation& s)
{
    s.t = rt(r);
    fill(r, s.gnss_id);
    fill(r, s.sat_num);
    s.freq = rnd(r);
    s.pseudorange = rnd(r);
    s.doppler = rnd(r);
    s.carrier_phase = rnd(r);
}

#define KEP_FIELDS(X)                                                                              \
    X(gnssID) X(sat) X(toe) X(toc) X(tow) X(iodc) X(iode) X(week) X(toes) X(tocs) X(af2) X(af1)    \
        X(af0) X(m0) X(delta_n) X(ecc) X(sqrta) X(omega0) X(i0) X(w) X(omegadot) X(idot) X(cuc)    \
            X(cus) X(crc) X(crs) X(cic) X(cis)
#define GPS_FIELDS(X)                                                                              \
    KEP_FIELDS(X)                                                                                  \
    X(health) X(alert_flag) X(anti_spoof) X(code_on_L2) X(ura) X(L2_P_data_flag)                   \
        X(fit_interval_flag) X(age_of_data_offset) X(tgd)
#define GAL_FIELDS(X)                                                                              \
    KEP_FIELDS(X)                                                                                  \
    X(ai0) X(ai1) X(ai2) X(bgd_e1_e5a) X(bgd_e1_e5b) X(e5b_hs) X(e1b_hs) X(e5b_dvs) X(e1b_dvs)
#define GLO_FIELDS(X)                                                                              \
    X(gnssID) X(sat) X(toe) X(iode) X(slot) X(svh) X(sva) X(age) X(tof) X(pos) X(vel) X(acc)       \
        X(taun) X(gamn) X(dtaun)

#define FILLF(f) fill(r, e.f);
inline void fill(vh::Rng& r, GPSEphemeris& e) { GPS_FIELDS(FILLF) }
inline void fill(vh::Rng& r, GalileoEphemeris& e) { GAL_FIELDS(FILLF) }
inline void fill(vh::Rng& r, GlonassEphemeris& e) { GLO_FIELDS(FILLF) }

// same(): bit-exact field comparison; on a mismatch names the field
template <class T>
bool bits(const T& a, const T& b)
{
    return memcmp(&a, &b, sizeof(T)) == 0;
}
template <class T>
std::enable_if_t<std::is_arithmetic<T>::value, std::string> same(const T& a, const T& b)
{
    return bits(a, b) ? "" : "value";
}
inline std::string same(const UTCTime& a, const UTCTime& b)
{
    return a.sec == b.sec && a.nsec == b.nsec ? "" : "time";
}
template <class D, int R, int C>
std::string same(const Eigen::Matrix<D, R, C>& a, const Eigen::Matrix<D, R, C>& b)
{
    return memcmp(a.data(), b.data(), sizeof(D) * R * C) == 0 ? "" : "matrix";
}
inline std::string same(const Q& a, const Q& b)
{
    return bits(a.w(), b.w()) && bits(a.x(), b.x()) && bits(a.y(), b.y()) && bits(a.z(), b.z())
               ? ""
               : "quat";
}
// a rigid transform is stored as rotation and translation; the translation is recomputed
inline std::string same(const DQ& a, const DQ& b)
{
    const bool rot = std::abs(a.real().w() - b.real().w()) + std::abs(a.real().x() - b.real().x()) +
                         std::abs(a.real().y() - b.real().y()) +
                         std::abs(a.real().z() - b.real().z()) <
                     1e-14;
    const Vec3 ta = a.translation(), tb = b.translation();
    return rot && (ta - tb).norm() <= 1e-12 * (1 + ta.norm()) ? "" : "dquat";
}
inline std::string same(const J1& a, const J1& b)
{
    std::string s = same(a.x, b.x);
    if (memcmp(a.dx.data(), b.dx.data(), 48)) s += " dx";
    return s;
}
inline std::string same(const J2& a, const J2& b)
{
    std::string s = same(a.x, b.x);
    if (memcmp(a.dx.data(), b.dx.data(), 48)) s += " dx";
    if (memcmp(a.d2x.data(), b.d2x.data(), 48)) s += " d2x";
    return s;
}
inline std::string same(const meas::ImuSample& a, const meas::ImuSample& b)
{
    return same(a.t, b.t) + same(a.accel, b.accel) + same(a.gyro, b.gyro);
}
inline std::string same(const meas::GnssObservation& a, const meas::GnssObservation& b)
{
    return same(a.t, b.t) + (bits(a.gnss_id, b.gnss_id) ? "" : "gnss_id") +
           (bits(a.sat_num, b.sat_num) ? "" : "sat_num") + (bits(a.freq, b.freq) ? "" : "freq") +
           (bits(a.pseudorange, b.pseudorange) ? "" : "pseudorange") +
           (bits(a.doppler, b.doppler) ? "" : "doppler") +
           (bits(a.carrier_phase, b.carrier_phase) ? "" : "carrier_phase");
}
#define SAMEF(f)                              \
    if (!same(a.f, b.f).empty()) out += #f " ";
inline std::string same(const GPSEphemeris& a, const GPSEphemeris& b)
{
    std::string out;
    GPS_FIELDS(SAMEF)
    return out;
}
inline std::string same(const GalileoEphemeris& a, const GalileoEphemeris& b)
{
    std::string out;
    GAL_FIELDS(SAMEF)
    return out;
}
inline std::string same(const GlonassEphemeris& a, const GlonassEphemeris& b)
{
    std::string out;
    GLO_FIELDS(SAMEF)
    return out;
}

// A stream under test: writes random records, keeps what it wrote, checks what is read.
struct AnyStream
{
    int key = 0;
    std::string type;
    std::vector<UTCTime> stamps;
    virtual ~AnyStream() = default;
    virtual void init(Logger& l) = 0;
    virtual void write(Logger& l, vh::Rng& r, const UTCTime& t) = 0;
    // reads one record through the callback's reader and compares it with record i
    virtual std::string readAndCompare(StreamReader& rd, size_t i) = 0;
    virtual std::string next(LogReader& lr, size_t i, UTCTime& t) = 0;
};

template <class... T>
struct TStream : AnyStream
{
    std::array<std::string, sizeof...(T)> names;
    typedef std::tuple<T...> Tup;
    std::deque<Tup> recs;  // stable addresses, aligned for the over-aligned tuples
    void init(Logger& l) override { l.initStream<T...>(key, names); }
    void write(Logger& l, vh::Rng& r, const UTCTime& t) override
    {
        recs.emplace_back();
        std::apply([&](auto&... x) { (fill(r, x), ...); }, recs.back());
        std::apply([&](auto&... x) { l.log(key, t, x...); }, recs.back());
        stamps.push_back(t);
    }
    template <size_t... I>
    std::string cmp(const Tup& a, const Tup& b, std::index_sequence<I...>)
    {
        std::string out;
        auto one = [&](const std::string& n, const std::string& d) {
            if (!d.empty()) out += n + ":" + d + " ";
        };
        (one(names[I], same(std::get<I>(a), std::get<I>(b))), ...);
        return out;
    }
    std::string readAndCompare(StreamReader& rd, size_t i) override
    {
        Tup got;
        std::apply([&](auto&... x) { rd.get(x...); }, got);
        if (i >= recs.size()) return "more records than were written";
        return cmp(recs[i], got, std::index_sequence_for<T...>{});
    }
    std::string next(LogReader& lr, size_t i, UTCTime& t) override
    {
        auto e = lr.getNext<T...>(key);
        t = e.t;
        return i < recs.size() ? cmp(recs[i], e.data, std::index_sequence_for<T...>{}) : "extra";
    }
};

template <class... T>
AnyStream* mkStream(int key, const char* type, std::array<std::string, sizeof...(T)> names)
{
    auto* s = new TStream<T...>();
    s->key = key;
    s->type = type;
    s->names = names;
    return s;
}

static constexpr int N_KINDS = 11;
inline AnyStream* makeKind(int kind, int key)
{
    switch (kind)
    {
    case 0: return mkStream<meas::ImuSample>(key, "imu", {"imu"});
    case 1: return mkStream<meas::GnssObservation>(key, "obs", {"obs"});
    case 2: return mkStream<GPSEphemeris>(key, "gps", {"eph"});
    case 3: return mkStream<GalileoEphemeris>(key, "gal", {"eph"});
    case 4: return mkStream<GlonassEphemeris>(key, "glo", {"eph"});
    case 5:
        return mkStream<double, float, int, int64_t, uint8_t, uint16_t, uint32_t, int16_t, int8_t,
                        uint64_t>(key, "scalars",
                                  {"d", "f", "i", "l", "b", "us", "ui", "s", "c", "ul"});
    case 6: return mkStream<Vec3, M34, M72i, M25f>(key, "matrices", {"v3", "m34", "m72i", "m25f"});
    case 7: return mkStream<Q, DQ, double>(key, "poses", {"q", "dq", "x"});
    case 8: return mkStream<J1, Vec2>(key, "jet", {"jet", "clk"});
    case 9: return mkStream<J2, DQ, Vec2>(key, "twojet", {"pose", "T_e2g", "clk"});
    default: return mkStream<UTCTime, uint8_t>(key, "time", {"when", "flag"});
    }
}
