// C05: a log describes itself: the header's field list matches the bytes of every record, and the
// repository's own generic reader decodes each record to the values that were logged.
#include "log_common.h"

static size_t sizeOf(const YAML::Node& n)
{
    if (n["type"] && n["type"].IsScalar())
    {
        static const size_t sz[] = {8, 4, 8, 4, 2, 1, 8, 4, 2, 1};
        size_t k = sz[n["type"].as<int>()];
        if (n["rows"]) k *= n["rows"].as<int>();
        if (n["cols"]) k *= n["cols"].as<int>();
        return k;
    }
    size_t s = 0;
    for (auto it = n.begin(); it != n.end(); ++it) s += sizeOf(it->second);
    return s;
}

VH_GROUP(sizes)
{
    const int N = c.n(6, 100);
    for (int k = 0; k < N_KINDS; ++k)
        for (int i = 0; i < N; ++i)
        {
            if (!c.begin()) continue;
            std::unique_ptr<AnyStream> s(makeKind(k, (int)c.rng.range(0, 20000)));
            std::string dir;
            const int n = (int)c.rng.range(1, 12);
            {
                Logger lg(UTCTime(c.rng.range(1000000000, 1900000000), 0), c.scratch);
                s->init(lg);
                for (int j = 0; j < n; ++j) s->write(lg, c.rng, rt(c.rng));
                dir = c.scratch + "/" + lg.logId();
            }
            c.note(s->type);
            const YAML::Node m = YAML::LoadFile(dir + "/manifest.yml");
            c.expect(m["keys"].size() == 1 && m["keys"][0].as<int>() == s->key &&
                         m["key_names"].size() == 1,
                     "manifest_keys", s->type);
            const std::string name = m["key_names"][0].as<std::string>();
            const YAML::Node h = YAML::LoadFile(dir + "/" + name + ".yml");
            c.expect(h["num_records"].as<int>() == n, "num_records", s->type);
            c.expect(h["key"].as<int>() == s->key, "header_key", s->type);
            const size_t per = sizeOf(h["format"]);
            const size_t have = fs::file_size(dir + "/" + name + ".log");
            c.expect(per * n == have, "size_" + s->type,
                     vh::strf("header describes %zu bytes per record, file has %zu for %d", per,
                              have, n));
            c.nontrivial(s->type + std::to_string(n));
            if (i == 0 && k < 6) c.sample(s->type + vh::strf(": %zu bytes per record", per));
            fs::remove_all(dir);
        }
}

// ---- values, through the generic (python) reader --------------------------------------------
static void put(std::ostream& o, const std::string& path, double v)
{
    char b[64];
    snprintf(b, sizeof b, "%.17g", v);
    o << path << " " << b << "\n";
}
template <class T>
std::enable_if_t<std::is_arithmetic<T>::value> dump(std::ostream& o, const std::string& p,
                                                    const T& v)
{
    if (std::is_floating_point<T>::value)
        put(o, p, (double)v);
    else if (std::is_signed<T>::value)
        o << p << " " << (long long)v << "\n";
    else
        o << p << " " << (unsigned long long)v << "\n";
}
static void dump(std::ostream& o, const std::string& p, const UTCTime& t)
{
    o << p << "/sec " << t.sec << "\n" << p << "/nsec " << t.nsec << "\n";
}
template <class D, int R, int C>
static void dump(std::ostream& o, const std::string& p, const Eigen::Matrix<D, R, C>& m)
{
    for (int i = 0; i < R; ++i)
        for (int j = 0; j < C; ++j)
            dump(o, p + "[" + std::to_string(i) + "," + std::to_string(j) + "]", m(i, j));
}
static void dump(std::ostream& o, const std::string& p, const Q& q)
{
    put(o, p + "/w", q.w());
    put(o, p + "/x", q.x());
    put(o, p + "/y", q.y());
    put(o, p + "/z", q.z());
}
static void dump(std::ostream& o, const std::string& p, const DQ& d)
{
    dump(o, p + "/rot", Q(d.real()));
    dump(o, p + "/trans", Vec3(d.translation()));
}
static void dump6(std::ostream& o, const std::string& p, const double* v)
{
    for (int i = 0; i < 6; ++i) put(o, p + "{" + std::to_string(i) + "}", v[i]);
}
static void dump(std::ostream& o, const std::string& p, const J1& j)
{
    dump(o, p + "/x", j.x);
    dump6(o, p + "/dx", j.dx.data());
}
static void dump(std::ostream& o, const std::string& p, const J2& j)
{
    dump(o, p + "/x", j.x);
    dump6(o, p + "/dx", j.dx.data());
    dump6(o, p + "/d2x", j.d2x.data());
}
static void dump(std::ostream& o, const std::string& p, const meas::ImuSample& s)
{
    dump(o, p + "/t", s.t);
    dump(o, p + "/accel", s.accel);
    dump(o, p + "/gyro", s.gyro);
}
static void dump(std::ostream& o, const std::string& p, const meas::GnssObservation& s)
{
    dump(o, p + "/t", s.t);
    dump(o, p + "/gnss_id", s.gnss_id);
    dump(o, p + "/sat_num", s.sat_num);
    dump(o, p + "/freq", s.freq);
    dump(o, p + "/pseudorange", s.pseudorange);
    dump(o, p + "/doppler", s.doppler);
    dump(o, p + "/carrier_phase", s.carrier_phase);
}
#define DUMPF(f) dump(o, p + "/" + (std::string(#f) == "gnssID" ? "gnss_id" : #f), e.f);
static void dump(std::ostream& o, const std::string& p, const GPSEphemeris& e) { GPS_FIELDS(DUMPF) }
static void dump(std::ostream& o, const std::string& p, const GalileoEphemeris& e)
{
    GAL_FIELDS(DUMPF)
}
static void dump(std::ostream& o, const std::string& p, const GlonassEphemeris& e)
{
    GLO_FIELDS(DUMPF)
}

template <class... T>
static void pyOne(vh::Ctx& c, const char* type, std::array<std::string, sizeof...(T)> names)
{
    const int N = c.n(2, 25);
    for (int i = 0; i < N; ++i)
    {
        if (!c.begin(type)) continue;
        TStream<T...> s;
        s.key = (int)c.rng.range(0, 20000);
        s.type = type;
        s.names = names;
        std::string dir;
        const int n = (int)c.rng.range(2, 10);
        {
            Logger lg(UTCTime(c.rng.range(1000000000, 1900000000), 0), c.scratch);
            s.init(lg);
            for (int j = 0; j < n; ++j) s.write(lg, c.rng, rt(c.rng));
            dir = c.scratch + "/" + lg.logId();
        }
        const std::string exp = c.scratch + "/expected.txt";
        {
            std::ofstream o(exp);
            for (int j = 0; j < n; ++j)
            {
                const std::string p = std::to_string(j);
                dump(o, p + "/stamp", s.stamps[j]);
                size_t k = 0;
                std::apply([&](auto&... x) { (dump(o, p + "/" + s.names[k++], x), ...); },
                           s.recs[j]);
            }
        }
        const std::string cmd = "PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=" +
                                std::string(getenv("VH_REPO") ? getenv("VH_REPO") : "/repo") +
                                " python3 " + VH_DIR + "/c05_pyread.py " + dir + " " +
                                std::to_string(s.key) + " " + exp + " 2>&1";
        FILE* f = popen(cmd.c_str(), "r");
        std::string out;
        char b[512];
        while (f && fgets(b, sizeof b, f)) out += b;
        const int rc = f ? pclose(f) : -1;
        size_t pos = out.find("CHECKED ");
        if (pos != std::string::npos) c.count("values", (uint64_t)atoll(out.c_str() + pos + 8));
        c.expect(rc == 0, std::string("value_") + type,
                 out.size() > 1500 ? out.substr(out.size() - 1500) : out);
        c.nontrivial(vh::strf("%s %d %d", type, n, s.key));
        if (i == 0) c.sample(vh::strf("%s: %d records", type, n));
        fs::remove_all(dir);
    }
}

VH_GROUP(py_measurements)
{
    pyOne<meas::ImuSample>(c, "imu", {"imu"});
    pyOne<meas::GnssObservation>(c, "obs", {"obs"});
    pyOne<meas::GnssObservation, meas::ImuSample>(c, "obs_imu", {"obs", "imu"});
}
VH_GROUP(py_ephemeris)
{
    pyOne<GPSEphemeris>(c, "gps", {"eph"});
    pyOne<GalileoEphemeris>(c, "gal", {"eph"});
    pyOne<GlonassEphemeris>(c, "glo", {"eph"});
    pyOne<GPSEphemeris, GalileoEphemeris>(c, "gps_gal", {"g", "e"});
}
VH_GROUP(py_plain)
{
    pyOne<double, float, int, int64_t, uint8_t, uint16_t, uint32_t, int16_t, int8_t, uint64_t>(
        c, "scalars", {"d", "f", "i", "l", "b", "us", "ui", "s", "c", "ul"});
    pyOne<Vec3, M34, M72i, M25f, double>(c, "matrices", {"v3", "m34", "m72i", "m25f", "x"});
    pyOne<UTCTime, uint8_t>(c, "time", {"when", "flag"});
}
VH_GROUP(py_poses)
{
    pyOne<Q, DQ, double>(c, "poses", {"q", "dq", "x"});
    pyOne<J1, Vec2>(c, "jet", {"jet", "clk"});
    pyOne<J2, DQ, Vec2>(c, "twojet", {"pose", "T_e2g", "clk"});
}

// Layered logs, several streams at once, records by name: the python reader has to hand out the
// same streams as the writer made.
VH_GROUP(py_layers)
{
    const int N = c.n(25, 250);
    for (int i = 0; i < N; ++i)
    {
        if (!c.begin()) continue;
        const int depth = (int)c.rng.range(1, 3);
        std::map<int, std::vector<UTCTime>> want;
        std::string dir, d;
        const std::string root = c.scratch + "/logs";
        // layers in one directory: the newest one is found by its name
        const int64_t t0 = c.rng.range(1000000000, 1900000000);
        for (int l = 0; l < depth; ++l)
        {
            std::vector<std::unique_ptr<AnyStream>> streams;
            Logger lg(UTCTime(t0 + l, 0), root);
            d += vh::strf("log%d:", l);
            const int n = (int)c.rng.range(1, 5);
            std::set<int> keys;
            while ((int)keys.size() < n)
                keys.insert((int)(c.rng.chance(0.7) ? c.rng.range(0, (int)ESTIMATE)
                                                    : c.rng.range(0, 20000)));
            for (int key : keys)
            {
                streams.emplace_back(makeKind((int)c.rng.range(0, N_KINDS - 1), key));
                streams.back()->init(lg);
            }
            const int m = (int)c.rng.range(0, 30);
            for (int j = 0; j < m; ++j)
                c.rng.pick(streams)->write(lg, c.rng,
                                           UTCTime(t0 + j, (int)c.rng.range(0, 999999999)));
            for (auto& s : streams)
            {
                d += vh::strf("%d x%zu ", s->key, s->stamps.size());
                want[s->key] = s->stamps;
            }
            if (l > 0) lg.amends(dir);
            dir = root + "/" + lg.logId();
        }
        c.note(d);
        const std::string exp = c.scratch + "/expected.txt";
        {
            std::ofstream o(exp);
            for (auto& kv : want)
            {
                o << "key " << kv.first << " "
                  << (kv.first <= ESTIMATE ? logKeyName(kv.first) : std::string("-")) << "\n";
                for (auto& t : kv.second) o << t.sec << " " << t.nsec << "\n";
            }
        }
        const int how = (int)c.rng.range(0, 2);
        // other things kept beside the logs
        if (c.rng.chance(0.3)) std::ofstream(root + "/zzz.txt") << "x";
        if (c.rng.chance(0.3)) std::ofstream(root + "/20991231_235959.zip") << "x";
        const std::string cmd = "PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=" +
                                std::string(getenv("VH_REPO") ? getenv("VH_REPO") : "/repo") +
                                " python3 " + VH_DIR + "/c05_pylayers.py " +
                                (how == 0 ? dir : how == 1 ? dir + "/" : root) + " " +
                                (c.rng.chance(0.5) ? "1 " : "0 ") + exp + " 2>&1";
        FILE* f = popen(cmd.c_str(), "r");
        std::string out;
        char b[512];
        while (f && fgets(b, sizeof b, f)) out += b;
        const int rc = f ? pclose(f) : -1;
        const size_t pos = out.find("CHECKED ");
        if (pos != std::string::npos) c.count("records", (uint64_t)atoll(out.c_str() + pos + 8));
        c.expect(rc == 0, "streams", out.size() > 1500 ? out.substr(out.size() - 1500) : out);
        c.nontrivial(d);
        if (i < 3) c.sample(d);
        fs::remove_all(root);
    }
}

// Every key has a name of its own, since the name is the file the stream is stored in.
VH_GROUP(names)
{
    if (c.begin())
    {
        std::map<std::string, int> seen;
        for (int k = 0; k < 20000; ++k)
        {
            const std::string n = logKeyName(k);
            auto it = seen.emplace(n, k);
            c.expect(it.second, "name_clash",
                     vh::strf("%d and %d are both stored as %s", it.first->second, k, n.c_str()));
            c.expect(n.find('/') == std::string::npos && !n.empty(), "name_file", n);
        }
        c.count("keys", seen.size());
        c.nontrivial("20000 keys");
    }
}
