// C23: the UBX receiver link: what listeners get is what was framed in the byte stream, commands
// are complete and well formed, and the recorder writes what the receiver sent.
#include <csignal>
#include <deque>
#include <new>
#include <sstream>
#include <thread>

#include "async_comm/serial.h"
#include "eph_common.h"
#include "common/logging/log_reader.h"
#include "parsers/ubx/ubx.h"

#define main gather_main
#include "tools/gather_ephemeris.cxx"
#undef main

namespace mc {
namespace ubxcheck {
using parsers::ublox::Ubx;
using parsers::ublox::UbxListener;
using parsers::ublox::UbxMessage;
typedef std::vector<uint8_t> By;

// the protocol description: sync, class, id, length (LE), payload, 8-bit Fletcher over class..payload
static By frame(uint8_t cls, uint8_t id, const By& p)
{
    By f{0xB5, 0x62, cls, id, (uint8_t)(p.size() & 255), (uint8_t)(p.size() >> 8)};
    f.insert(f.end(), p.begin(), p.end());
    uint8_t a = 0, b = 0;
    for (size_t i = 2; i < f.size(); ++i) a += f[i], b += a;
    f.push_back(a), f.push_back(b);
    return f;
}
struct Msg
{
    uint8_t cls, id;
    By payload;
};
// splits what was sent into messages; false when any byte is not part of one
static bool unframe(const By& s, std::vector<Msg>& out)
{
    for (size_t i = 0; i < s.size();)
    {
        if (s.size() - i < 8) return false;
        const size_t n = s[i + 4] + 256 * s[i + 5];
        if (s.size() - i < 8 + n) return false;
        Msg m{s[i + 2], s[i + 3], By(s.begin() + i + 6, s.begin() + i + 6 + n)};
        if (frame(m.cls, m.id, m.payload) != By(s.begin() + i, s.begin() + i + 8 + n)) return false;
        out.push_back(m);
        i += 8 + n;
    }
    return true;
}
struct Recorder : UbxListener
{
    struct Got
    {
        int who;
        uint8_t cls, id;
        uint64_t seq;
    };
    std::vector<Msg>* expect = nullptr;  // the next valid frames, in order
    std::vector<Msg> got;
    std::function<size_t(uint8_t, uint8_t)> len;
    void gotUbx(const uint8_t cls, const uint8_t id, const UbxMessage& m) override
    {
        got.push_back({cls, id, By(m.buffer, m.buffer + sizeof m.buffer)});
    }
};
// an object in memory that held something else before
struct InMemory
{
    void* mem;
    Ubx* u;
    InMemory(async_comm::Comm& c, uint8_t fill)
    {
        mem = ::operator new(sizeof(Ubx));
        memset(mem, fill, sizeof(Ubx));
        u = new (mem) Ubx(c);
    }
    ~InMemory()
    {
        u->~Ubx();
        ::operator delete(mem);
    }
};
static By bytes(vh::Rng& r, size_t n)
{
    By b(n);
    const int style = r.range(0, 3);
    for (auto& x : b) x = style == 0 ? r.u64() : style == 1 ? (uint8_t)r.pick<int>({0xB5, 0x62, 0, 255}) : style == 2 ? 0 : (uint8_t)r.range(0, 3);
    return b;
}
static const int KINDS[][2] = {{1, 7}, {2, 0x15}, {2, 0x13}, {0xB5, 0x62}, {0x62, 0xB5}, {0xF5, 5}, {0, 0}, {0x21, 0xFF}, {1, 0x35}};

static Msg message(vh::Rng& r)
{
    Msg m;
    if (r.chance(.08))
        return {5, (uint8_t)r.range(0, 1), By{6, (uint8_t)r.range(0, 255)}};
    const int* k = KINDS[r.range(0, 8)];
    m.cls = k[0], m.id = k[1];
    const int s = r.range(0, 9);
    m.payload = bytes(r, s == 0 ? 0 : s == 1 ? 1 : s == 2 ? 2 : s == 3 ? 2048 : s == 4 ? r.range(2040, 2048) : s == 5 ? r.range(250, 260) : r.range(3, 300));
    return m;
}
// bytes between messages: other protocols, never the start of a message
static By noise(vh::Rng& r)
{
    By g;
    if (r.chance(.3))
    {
        const std::string nmea = "$GNGGA,123519,4807.038,N,01131.000,E,1,08,0.9,545.4,M,46.9,M,,*47\r\n";
        g.assign(nmea.begin(), nmea.end());
    }
    else
        g = bytes(r, r.range(0, 40));
    for (size_t i = 0; i < g.size(); ++i)
        if (g[i] == 0x62 && (i == 0 || g[i - 1] == 0xB5)) g[i] = 0x24;
    return g;
}
static void deliver(vh::Rng& r, async_comm::Comm& comm, const By& s, int style)
{
    size_t i = 0;
    while (i < s.size())
    {
        size_t n = style == 0 ? 1 : style == 1 ? s.size() : r.range(0, style == 2 ? 7 : 600);
        n = std::min(n, s.size() - i);
        std::unique_ptr<uint8_t[]> exact(new uint8_t[n]);
        memcpy(exact.get(), s.data() + i, n);
        comm.listener->receive_callback(exact.get(), n);
        i += n;
    }
}

VH_GROUP(stream)
{
    for (int i = 0; i < c.n(1500, 60000); ++i)
    {
        if (!c.begin()) continue;
        auto& r = c.rng;
        async_comm::Comm comm;
        InMemory u(comm, r.range(0, 255));
        Recorder l[3];
        std::set<std::pair<int, int>> subs[3];
        for (int k = 0; k < 3; ++k)
        {
            for (auto& kd : KINDS)
                if (r.chance(k == 0 ? 1 : .5)) l[k].subscribe(kd[0], kd[1]), subs[k].insert({kd[0], kd[1]});
            u.u->registerListener(&l[k]);
        }
        By s;
        std::vector<Msg> valid;
        std::string what;
        const int n = r.range(1, 25);
        size_t damaged = 0;
        bool acks = false;
        for (int k = 0; k < n; ++k)
        {
            if (r.chance(.5))
            {
                By g = noise(r);
                // a message's last byte and what follows must not look like a start
                if (!s.empty() && s.back() == 0xB5 && !g.empty() && g[0] == 0x62) g[0] = 0;
                s.insert(s.end(), g.begin(), g.end());
                what += vh::strf("%zu bytes of noise, ", g.size());
            }
            const Msg m = message(r);
            By f = frame(m.cls, m.id, m.payload);
            const int fate = r.range(0, 19);
            if (fate < 3)
            {
                // damage that leaves the boundary where it was; one changed byte always shows in the sum
                size_t j = r.chance(.3) ? f.size() - 1 - r.range(0, 1) : r.chance(.3) ? 2 + r.range(0, 1) : 6 + r.range(0, (int)f.size() - 7);
                f[j] ^= 1 << r.range(0, 7);
                damaged++;
                what += vh::strf("damaged %02x-%02x(%zu), ", m.cls, m.id, m.payload.size());
            }
            else if (fate == 3)
            {
                // a length beyond anything the receiver sends: dropped, and the parser recovers
                const int len = r.pick<int>({2049, 2050, 4096, 65535, 32768 + 5});
                f = {0xB5, 0x62, m.cls, m.id, (uint8_t)(len & 255), (uint8_t)(len >> 8)};
                // what follows is not the start of a message
                for (int q = r.range(0, 20); q > 0; --q) f.push_back(r.range(0, 0x60));
                what += vh::strf("length %d, ", len);
                damaged++;
            }
            else if (fate == 4)
            {
                // a cut message swallows at most what it announced; give it that much
                const size_t keep = r.range(2, (int)f.size() - 1);
                f.resize(keep);
                f.resize(keep + 2060, 0);
                // fewer than one byte of it can form a valid message: the sum would have to be 0
                By z = frame(m.cls, m.id, m.payload);
                By pad(f.begin(), f.begin() + z.size());
                if (pad == z || keep < 6)
                {
                    f = z;
                    valid.push_back(m);
                }
                else
                {
                    damaged++;
                    what += vh::strf("cut %02x-%02x(%zu) after %zu, ", m.cls, m.id, m.payload.size(), keep);
                }
            }
            else
            {
                valid.push_back(m);
                what += vh::strf("%02x-%02x(%zu), ", m.cls, m.id, m.payload.size());
            }
            acks |= m.cls == 5;
            s.insert(s.end(), f.begin(), f.end());
        }
        c.note(what);
        deliver(r, comm, s, r.range(0, 3));
        c.expect(u.u->numMessagesReceived() == valid.size(), "count", vh::strf("counted %zu of %zu messages", u.u->numMessagesReceived(), valid.size()));
        for (int k = 0; k < 3; ++k)
        {
            std::vector<const Msg*> want;
            for (auto& m : valid)
                if (subs[k].count({m.cls, m.id})) want.push_back(&m);
            c.expect(l[k].got.size() == want.size(), "delivered", vh::strf("listener %d got %zu of %zu messages", k, l[k].got.size(), want.size()));
            for (size_t q = 0; q < std::min(want.size(), l[k].got.size()); ++q)
            {
                const Msg &g = l[k].got[q], &w = *want[q];
                if (!c.expect(g.cls == w.cls && g.id == w.id, "order", vh::strf("message %zu of listener %d", q, k))) break;
                if (!c.expect(std::equal(w.payload.begin(), w.payload.end(), g.payload.begin()), "payload", vh::strf("message %zu of listener %d", q, k))) break;
            }
        }
        c.expect(!u.u->parsingMessage(), "idle", "between messages the parser says it is within one");
        c.expect(comm.out.empty(), "silent", "receiving sent something");
        c.count("messages", valid.size()), c.count("damaged", damaged), c.count("bytes", s.size());
        if (valid.size() > 1) c.nontrivial(vh::fnv(s.data(), s.size()));
    }
}

// any bytes at all
VH_GROUP(hostile)
{
    for (int i = 0; i < c.n(1500, 100000); ++i)
    {
        if (!c.begin()) continue;
        auto& r = c.rng;
        async_comm::Comm comm;
        InMemory u(comm, r.range(0, 255));
        Recorder l;
        for (int k = 0; k < 65536; k += r.range(1, 40)) l.subscribe(k >> 8, k & 255);
        for (auto& k : KINDS) l.subscribe(k[0], k[1]);
        l.subscribe(0x0A, 4);
        u.u->registerListener(&l);
        By s;
        for (int k = r.range(1, 30); k > 0; --k)
        {
            By b;
            switch (r.range(0, 4))
            {
            case 0: b = bytes(r, r.range(0, 200)); break;
            case 1: b = {0xB5, 0x62, (uint8_t)r.u64(), (uint8_t)r.u64(), (uint8_t)r.u64(), (uint8_t)r.range(0, 9)}; break;
            case 2: b = frame(0x0A, 4, bytes(r, r.pick<int>({0, 1, 30, 39, 40, 41, 69, 70, 71, 220, 340, 640, 2040, 2048}))); break;
            case 3:
            {
                By p = bytes(r, r.pick<int>({40, 70, 100, 2020, 2048}));
                const std::string t[] = {"PROTVER=", "MOD=", "PROTVER=99999999999999999999999999", "MOD=aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa", "PROTVER=."};
                for (size_t q = 40; q + 30 <= p.size(); q += 30)
                {
                    const std::string& w = t[r.range(0, 4)];
                    memcpy(&p[q], w.data(), std::min<size_t>(w.size(), 30));
                }
                b = frame(0x0A, 4, p);
                break;
            }
            default:
            {
                const Msg m = message(r);
                b = frame(m.cls, m.id, m.payload);
                if (r.chance(.5) && b.size() > 8) b.erase(b.begin() + r.range(2, (int)b.size() - 1));
            }
            }
            s.insert(s.end(), b.begin(), b.end());
        }
        deliver(r, comm, s, r.range(0, 3));
        c.expect(strnlen(u.u->moduleVame(), 64) < 64, "module_name", "");
        // whatever it is in the middle of, a message announces at most 2048 bytes
        deliver(r, comm, By(2100, 0), 1);
        const size_t before = u.u->numMessagesReceived(), had = l.got.size();
        const Msg m{1, 7, bytes(r, 92)};
        deliver(r, comm, frame(1, 7, m.payload), r.range(0, 3));
        c.expect(u.u->numMessagesReceived() == before + 1 && l.got.size() == had + 1 && std::equal(m.payload.begin(), m.payload.end(), l.got.back().payload.begin()),
                 "recovers", "a message after 2100 idle bytes is not received");
        c.nontrivial(vh::fnv(s.data(), s.size()));
    }
}

static By monVer(vh::Rng& r, int major, int minor, const std::string& mod, bool known, int extra)
{
    By p(40, 0);
    memcpy(&p[0], "EXT CORE 1.00 (61b2dd)", 22);
    memcpy(&p[30], "00190000", 8);
    std::vector<std::string> ext{"ROM BASE 0x118B2060", "FWVER=HPG 1.12"};
    for (int k = 0; k < extra; ++k) ext.push_back("GPS;GLO;GAL;BDS");
    if (known)
    {
        ext.insert(ext.begin() + r.range(0, (int)ext.size()), vh::strf("PROTVER=%d.%02d", major, minor));
        ext.insert(ext.begin() + r.range(0, (int)ext.size()), "MOD=" + mod);
    }
    for (auto& e : ext)
    {
        By x(30, 0);
        memcpy(x.data(), e.data(), e.size());
        p.insert(p.end(), x.begin(), x.end());
    }
    return p;
}
// answers what a receiver answers
struct Answering : async_comm::Comm
{
    std::function<void(const By&)> asked;
    By cur;
    void sent(const uint8_t* p, size_t n) override
    {
        Comm::sent(p, n);
        cur.insert(cur.end(), p, p + n);
        if (cur.size() >= 8 && cur.size() == 8u + cur[4] + 256u * cur[5])
        {
            const By f = cur;
            cur.clear();
            if (asked) asked(f);
        }
    }
};

VH_GROUP(commands)
{
    for (int i = 0; i < c.n(1500, 30000); ++i)
    {
        if (!c.begin()) continue;
        auto& r = c.rng;
        // the same session in memory that held different things before
        const bool known = r.chance(.9);
        const int major = r.pick<int>({9, 12, 18, 23, 24, 27, 32, 50}), minor = r.pick<int>({0, 1, 11, 50, 99});
        const std::string mod = r.pick<std::string>({"ZED-F9P", "NEO-M8P-2", "F9", ""});
        const By ver = monVer(r, major, minor, mod, known, r.range(0, 12));
        const uint64_t seed = r.u64();
        const int ask = r.range(0, 2);
        std::vector<Msg> sent[2];
        std::string what;
        for (int pass = 0; pass < 2; ++pass)
        {
            vh::Rng q(seed);
            Answering comm;
            InMemory u(comm, pass ? r.range(1, 255) : 0);
            comm.asked = [&](const By& f) {
                if (f == frame(0x0A, 4, {})) deliver(q, comm, frame(0x0A, 4, ver), 2);
            };
            // traffic of other kinds leaves its remains behind
            if (q.chance(.7)) deliver(q, comm, frame(2, 0x15, bytes(q, q.range(0, 2048))), 1);
            if (pass && r.chance(.5)) deliver(r, comm, frame(2, 0x13, bytes(r, 2000)), 1);
            if (ask)
            {
                c.expect(u.u->getVersion(), "version", "the receiver answered but no version is reported");
                if (known)
                {
                    c.expect(u.u->majorVersion() == major && u.u->minorVersion() == minor, "version",
                             vh::strf("%d.%d instead of %d.%02d", u.u->majorVersion(), u.u->minorVersion(), major, minor));
                    c.expect(std::string(u.u->moduleVame(), strnlen(u.u->moduleVame(), 10)) == mod, "module", u.u->moduleVame());
                }
            }
            const bool old = !ask || !known || major <= 23;
            for (int k = 0; k < 6; ++k)
            {
                comm.out.clear();
                const int cmd = q.range(0, 7);
                const uint8_t a = q.u64(), b = q.u64(), d = q.u64();
                const uint32_t key = q.u64();
                const uint64_t val = q.u64();
                const size_t size = q.pick<int>({1, 2});
                std::vector<Msg> m;
                auto get = [&] {
                    m.clear();
                    if (!c.expect(unframe(comm.out, m), "frame", vh::strf("command %d: the bytes sent are not UBX messages", cmd))) m.clear();
                    for (auto& x : m) sent[pass].push_back(x);
                };
                auto is = [&](size_t at, uint8_t id, size_t n) { return m.size() > at && m[at].cls == 6 && m[at].id == id && (!n || m[at].payload.size() == n); };
                auto u32 = [&](const By& p, size_t o) { return p[o] | p[o + 1] << 8 | p[o + 2] << 16 | (uint32_t)p[o + 3] << 24; };
                switch (cmd)
                {
                case 0:
                    u.u->enableMessage(a, b, d), get();
                    c.expect(m.size() == 1 && is(0, 1, 3) && m[0].payload == By({a, b, d}), "enable_message", "");
                    break;
                case 1:
                    u.u->setNavRate(a), get();
                    if (old) c.expect(m.size() == 1 && is(0, 8, 6) && m[0].payload[0] == a && m[0].payload[1] == 0 && m[0].payload[2] == 1, "nav_rate", "");
                    else
                        c.expect(m.size() == 3 && is(0, 0x8A, 0) && u32(m[0].payload, 4) == 0x30210001 && m[0].payload[8] == a, "nav_rate", "");
                    break;
                case 2:
                    u.u->setDynamicMode(), get();
                    if (old) c.expect(m.size() == 1 && is(0, 0x24, 36) && m[0].payload[0] == 1 && m[0].payload[1] == 0 && m[0].payload[2] == 8, "dynamic_mode", "");
                    else
                        c.expect(m.size() == 1 && is(0, 0x8A, 0) && u32(m[0].payload, 4) == 0x20110021, "dynamic_mode", "");
                    break;
                case 3:
                    u.u->disableNmea(), get();
                    // no input and output of NMEA afterwards
                    if (old) c.expect(m.size() == 1 && is(0, 0, 20) && (m[0].payload[12] & 2) == 0 && (m[0].payload[14] & 2) == 0 && (m[0].payload[12] & 1) && (m[0].payload[14] & 1), "disable_nmea", "");
                    else
                        c.expect(m.size() == 2 && is(0, 0x8A, 0) && is(1, 0x8A, 0) && u32(m[0].payload, 4) == 0x10770002 && u32(m[1].payload, 4) == 0x10780002 && m[0].payload[8] == 0 && m[1].payload[8] == 0, "disable_nmea", "");
                    break;
                case 4:
                    u.u->startSurveyIn(), get();
                    c.expect(m.size() == 1 && is(0, 0x71, 40) && m[0].payload[0] == 0 && m[0].payload[2] == 1 && m[0].payload[3] == 0 && u32(m[0].payload, 24) == 60, "survey_in", "");
                    break;
                case 5:
                    u.u->configure(a, b, val, key, size), get();
                    c.expect(m.size() == 1 && is(0, 0x8A, 0) && m[0].payload.size() >= 9 && m[0].payload[0] == a && m[0].payload[1] == b && m[0].payload[2] == 0 && m[0].payload[3] == 0 &&
                                 u32(m[0].payload, 4) == key && m[0].payload[8] == (uint8_t)val && (size == 1 || m[0].payload[9] == (uint8_t)(val >> 8)),
                             "configure", "");
                    break;
                case 6:
                    u.u->getConfiguration(a, b, key), get();
                    c.expect(m.size() == 1 && is(0, 0x8B, 0) && m[0].payload.size() >= 8 && m[0].payload[0] == a && m[0].payload[1] == b && u32(m[0].payload, 4) == key, "get_configuration", "");
                    break;
                default:
                {
                    static UbxMessage um;
                    const By p = bytes(q, q.pick<int>({0, 1, 2, 255, 256, 257, 2048}));
                    if (!p.empty()) memcpy(um.buffer, p.data(), p.size());
                    u.u->sendMessage(a, b, um, p.size()), get();
                    c.expect(m.size() == 1 && m[0].cls == a && m[0].id == b && m[0].payload == p, "send", "");
                }
                }
                what += vh::strf("%d ", cmd);
            }
        }
        c.note(what);
        bool same = sent[0].size() == sent[1].size();
        for (size_t k = 0; same && k < sent[0].size(); ++k) same = sent[0][k].payload == sent[1][k].payload && sent[0][k].id == sent[1][k].id;
        c.expect(same, "memory", "the same session sends something else when memory held something else");
        c.count("commands", sent[0].size());
        c.nontrivial(seed);
    }
}

// a receiver on its own thread: versions asked for, listeners registered while messages arrive
VH_GROUP(threads)
{
    for (int i = 0; i < c.n(150, 3000); ++i)
    {
        if (!c.begin()) continue;
        auto& r = c.rng;
        Answering comm;
        Ubx u(comm);
        const int major = r.range(10, 40);
        const By ver = monVer(r, major, 7, "ZED-F9P", true, 3);
        std::atomic<int> asks{0};
        std::atomic<bool> stop{false};
        comm.asked = [&](const By& f) {
            if (f == frame(0x0A, 4, {})) asks++;
        };
        const uint64_t seed = r.u64();
        std::atomic<int> total{0};
        std::thread rx([&] {
            vh::Rng q(seed);
            int answered = 0;
            while (!stop || answered < asks)
            {
                for (int k = q.range(0, 2); k > 0; --k)
                {
                    const Msg m = message(q);
                    deliver(q, comm, frame(m.cls, m.id, m.payload), q.range(1, 3));
                    total++;
                }
                deliver(q, comm, frame(1, 7, By(92, 1)), 1), total++;
                if (answered < asks)
                {
                    if (q.chance(.5)) std::this_thread::sleep_for(std::chrono::microseconds(q.range(0, 500)));
                    deliver(q, comm, frame(0x0A, 4, ver), 2);
                    answered++, total++;
                }
                if (q.chance(.3)) std::this_thread::yield();
            }
        });
        std::deque<Recorder> l(6);
        int tries = 0;
        for (int k = 0; k < 6; ++k)
        {
            l[k].subscribe(1, 7);
            if (k % 2)
            {
                // the limit of a second is not the point of this on a busy machine
                bool ok = false;
                for (int q = 0; q < 5 && !ok; ++q) ok = u.getVersion(), tries++;
                c.expect(ok, "version", "no answer within the time limit");
                c.expect(u.majorVersion() == major && u.minorVersion() == 7 && !strcmp(u.moduleVame(), "ZED-F9P"), "version", "");
            }
            else
                std::this_thread::sleep_for(std::chrono::microseconds(r.range(0, 300)));
            u.registerListener(&l[k]);
            u.enableMessage(1, 7, k);
            (void)u.numMessagesReceived();
        }
        std::this_thread::sleep_for(std::chrono::microseconds(300));
        stop = true;
        rx.join();
        c.expect((int)u.numMessagesReceived() == total, "count", vh::strf("%zu of %d", u.numMessagesReceived(), (int)total));
        for (int k = 1; k < 6; ++k) c.expect(l[k].got.size() <= l[k - 1].got.size(), "registration", "a later listener got more");
        std::vector<Msg> m;
        c.expect(unframe(comm.out, m) && (int)m.size() == 6 + tries, "commands_sent", vh::strf("%zu messages", m.size()));
        c.count("messages", total), c.count("delivered", l[0].got.size());
        c.nontrivial(seed);
    }
}

// ---- the recorder, from the receiver's bytes to the log ------------------------------------------
static By feedBytes;
static int feedStyle;
static uint64_t feedSeed;

struct Obs
{
    int id, sat;
    double t, freq, pr, dop, cp;
};
template <class T>
static void put(By& b, T x)
{
    b.insert(b.end(), (uint8_t*)&x, (uint8_t*)&x + sizeof x);
}
static By sfrbx(int sys, int sv, const Bytes& w)
{
    By p{(uint8_t)sys, (uint8_t)sv, 0, 7, (uint8_t)(w.size() / 4), 0, 2, 0};
    p.insert(p.end(), w.begin(), w.end());
    return p;
}
}  // namespace ubxcheck
}  // namespace mc

namespace async_comm {
// the receiver behind the port: answers the version request, falls silent until it has been told
// what to send, sends it and interrupts the program
bool Serial::init()
{
    feeder = std::thread([this] {
        using namespace mc::ubxcheck;
        size_t seen = 0, quiet = 0;
        bool answered = false;
        while (quiet < 100)
        {
            std::this_thread::sleep_for(std::chrono::milliseconds(10));
            std::vector<uint8_t> o;
            {
                std::lock_guard<std::mutex> k(mutex);
                o = out;
            }
            quiet = o.size() == seen ? quiet + 1 : 0;
            seen = o.size();
            std::vector<Msg> m;
            unframe(o, m);
            for (auto& x : m)
                if (x.cls == 10 && x.id == 4 && !answered)
                {
                    vh::Rng q(1);
                    const By v = frame(10, 4, monVer(q, 27, 11, "ZED-F9P", true, 2));
                    listener->receive_callback(v.data(), v.size());
                    answered = true;
                }
            if (!answered) quiet = 0;
        }
        vh::Rng q(feedSeed);
        deliver(q, *this, feedBytes, feedStyle);
        raise(SIGINT);
    });
    return true;
}
void Serial::close()
{
    if (feeder.joinable()) feeder.join();
}
}  // namespace async_comm

namespace mc {
namespace ubxcheck {
VH_GROUP(recorder)
{
    for (int i = 0; i < c.n(5, 60); ++i)
    {
        if (!c.begin()) continue;
        auto& r = c.rng;
        const double now = time(nullptr);
        feedBytes.clear();
        feedStyle = r.range(1, 3), feedSeed = r.u64();
        std::map<int, std::unique_ptr<GPSEphemeris>> gps;
        std::map<int, std::unique_ptr<GalileoEphemeris>> gal;
        std::map<int, std::unique_ptr<GlonassEphemeris>> glo;
        std::vector<GPSEphemeris> wg;
        std::vector<GalileoEphemeris> we;
        std::vector<GlonassEphemeris> wr;
        std::vector<Obs> wo;
        auto fresh = [&](const UTCTime& toe) { return std::abs((double)toe.sec - now) < 7200; };
        // what the satellites have to say, one queue each, interleaved
        struct Item
        {
            int sys, sv;
            Bytes w;
        };
        std::deque<std::deque<Item>> q;
        const int64_t gpsNow = (int64_t)now - 315964818;
        for (int k = r.range(10, 70); k > 0; --k)
        {
            std::deque<Item> one;
            const bool near = r.chance(.7);
            const int64_t at = gpsNow + (near ? r.range(-5000, 5000) : r.pick<int>({-9000, 9000, -200000, 200000}));
            const int sys = r.range(0, 2);
            if (sys == 0)
            {
                const int sv = r.range(1, 32), iode = r.range(0, 255);
                for (int id : {1, 2, 3, 4})
                {
                    Bits b = gpsSubframe(r, id, iode);
                    if (id == 1) b.set(48, 10, (at / 604800) % 1024), b.set(176, 16, at % 604800 / 16);
                    if (id == 2) b.set(216, 16, at % 604800 / 16);
                    one.push_back({0, sv, gpsMessage(b, r)});
                }
            }
            else if (sys == 1)
            {
                const int sv = r.range(1, 36), iod = r.range(0, 1023);
                for (int id : {0, 1, 2, 3, 4, 5})
                {
                    Bits b = galWord(r, id, iod, sv);
                    if (id == 0) b.set(6, 2, 2), b.set(96, 12, at / 604800 - 1024), b.set(108, 20, at % 604800);
                    if (id == 1) b.set(16, 14, at % 604800 / 60);
                    if (id == 4) b.set(54, 14, at % 604800 / 60);
                    one.push_back({2, sv, words(galPage(b, r))});
                }
            }
            else
            {
                const int sv = r.range(1, 24), sf = r.range(0, 65535);
                const int64_t ru = at + 315964818 + 3 * 3600 - 820454400;  // Moscow time since 1996
                for (int id : {1, 2, 3, 4, 5})
                {
                    Bits b = gloString(r, id, sf);
                    if (id == 2) b.set(9, 7, ru % 86400 / 900);
                    if (id == 4) b.set(59, 11, ru / 86400 % 1461 + 1);
                    if (id == 5) b.set(49, 5, ru / 86400 / 1461 + 1);
                    gloHamming(b);
                    one.push_back({6, sv, words(b)});
                }
            }
            if (r.chance(.2)) one.erase(one.begin() + r.range(0, (int)one.size() - 1));
            q.push_back(one);
        }
        auto obs = [&] {
            By p;
            const int week = (int)((gpsNow) / 604800), n = r.pick<int>({0, 1, 5, 30, 60});
            const double tow = gpsNow % 604800 + r.range(0, 9) * .1 + r.uni(1e-5, 9e-4);
            put<double>(p, tow), put<uint16_t>(p, week), put<int8_t>(p, 18), put<uint8_t>(p, n), put<uint32_t>(p, 0x0101);
            for (int k = 0; k < n; ++k)
            {
                Obs o;
                const int sys = r.pick<int>({0, 0, 2, 2, 6, 6, 3}), freqId = r.range(0, 13);
                const int sig = sys == 0 ? r.pick<int>({0, 3, 4}) : sys == 2 ? r.pick<int>({0, 1, 5, 6}) : sys == 6 ? r.pick<int>({0, 2}) : r.range(0, 3);
                o.id = sys, o.sat = r.range(1, 30);
                o.t = tow + week * 604800.0;
                o.freq = sys == 0 ? (sig == 0 ? 1575.42e6 : 1227.6e6) : sys == 2 ? (sig < 2 ? 1575.42e6 : 1207.14e6) : sys == 6 ? (sig == 0 ? 1602e6 + 562500. * (freqId - 7) : 1246e6 + 437500. * (freqId - 7)) : 0;
                const float dop = r.uni(-5000, 5000);
                o.pr = r.uni(1.9e7, 2.6e7), o.cp = r.uni(1e8, 1.4e8);
                o.dop = -(double)dop * 299792458.0 / o.freq;
                put<double>(p, o.pr), put<double>(p, o.cp), put<float>(p, dop);
                for (int x : {sys, o.sat, sig, freqId}) put<uint8_t>(p, x);
                put<uint16_t>(p, 64500);
                for (int x : {40, 3, 2, 5, 7, 0}) put<uint8_t>(p, x);
                if (sys != 3) wo.push_back(o);
            }
            return p;
        };
        while (!q.empty())
        {
            auto add = [&](const By& f) { feedBytes.insert(feedBytes.end(), f.begin(), f.end()); };
            if (r.chance(.1)) add(frame(2, 0x15, obs()));
            if (r.chance(.1)) add(frame(2, 0x13, sfrbx(r.pick<int>({3, 5, 1}), r.range(1, 30), Bytes(40, 0x55))));
            if (r.chance(.1)) add(frame(1, 7, bytes(r, 92)));
            const int k = r.range(0, (int)q.size() - 1);
            const Item it = q[k].front();
            q[k].pop_front();
            if (q[k].empty()) q.erase(q.begin() + k);
            By f = frame(2, 0x13, sfrbx(it.sys, it.sv, it.w));
            if (r.chance(.05))
            {
                f[10] ^= 4;  // damaged on the line
                add(f);
                continue;
            }
            add(f);
            const int n = it.w.size();
            std::unique_ptr<uint8_t[]> w(new uint8_t[n]);
            memcpy(w.get(), it.w.data(), n);
            if (it.sys == 0)
            {
                auto& e = gps[it.sv];
                if (!e) e.reset(new GPSEphemeris(it.sv));
                if (e->parse(w.get(), n) && fresh(e->toe)) wg.push_back(*e);
            }
            else if (it.sys == 2)
            {
                auto& e = gal[it.sv];
                if (!e) e.reset(new GalileoEphemeris(it.sv));
                if (e->parse(w.get(), n) && fresh(e->toe)) we.push_back(*e);
            }
            else
            {
                auto& e = glo[it.sv];
                if (!e) e.reset(new GlonassEphemeris(it.sv));
                if (e->parse(w.get(), n) && fresh(e->toe)) wr.push_back(*e);
            }
        }
        const std::string dir = c.scratch + vh::strf("/rec%d", i);
        std::string a[] = {"gather", "--port", "none", "--baudrate", "115200", "--output_directory", dir};
        char* argv[8] = {0};
        for (int k = 0; k < 7; ++k) argv[k] = &a[k][0];
        stop = false;
        const int rc = gather_main(7, argv);
        c.expect(rc == 0, "exit_code", vh::strf("%d", rc));
        std::vector<GPSEphemeris> gg;
        std::vector<GalileoEphemeris> ge;
        std::vector<GlonassEphemeris> gr;
        std::vector<meas::GnssObservation> go;
        std::string path = dir;
        for (auto& e : fs::recursive_directory_iterator(dir))
            if (e.path().filename().string().find("yaml") != std::string::npos || e.path().filename().string().find("yml") != std::string::npos) path = e.path().parent_path().string();
        logging::LogReader lr(path);
        lr.setCallback(logging::GPS_EPH, [&](const UTCTime&, int, logging::StreamReader& s) { gg.emplace_back(), s.get(gg.back()); });
        lr.setCallback(logging::GAL_EPH, [&](const UTCTime&, int, logging::StreamReader& s) { ge.emplace_back(), s.get(ge.back()); });
        lr.setCallback(logging::GLO_EPH, [&](const UTCTime&, int, logging::StreamReader& s) { gr.emplace_back(), s.get(gr.back()); });
        lr.setCallback(logging::GNSS_OBS, [&](const UTCTime&, int, logging::StreamReader& s) { go.emplace_back(), s.get(go.back()); });
        lr.read();
        auto kep = [&](const char* key, const auto& w, const auto& g) {
            c.expect(w.size() == g.size(), key, vh::strf("%zu of %zu recorded", g.size(), w.size()));
            for (size_t k = 0; k < std::min(w.size(), g.size()); ++k)
                c.expect(w[k].sat == g[k].sat && w[k].gnssID == g[k].gnssID && w[k].toe == g[k].toe && w[k].toc == g[k].toc && w[k].iode == g[k].iode && w[k].sqrta == g[k].sqrta && w[k].m0 == g[k].m0 &&
                             w[k].af0 == g[k].af0 && w[k].w == g[k].w && w[k].idot == g[k].idot,
                         key, vh::strf("record %zu (satellite %d, was sent by %d)", k, (int)g[k].sat, (int)w[k].sat));
        };
        kep("gps", wg, gg), kep("galileo", we, ge);
        c.expect(wr.size() == gr.size(), "glonass", vh::strf("%zu of %zu recorded", gr.size(), wr.size()));
        for (size_t k = 0; k < std::min(wr.size(), gr.size()); ++k)
            c.expect(wr[k].sat == gr[k].sat && wr[k].toe == gr[k].toe && (wr[k].pos - gr[k].pos).norm() == 0 && (wr[k].vel - gr[k].vel).norm() == 0 && wr[k].taun == gr[k].taun, "glonass",
                     vh::strf("record %zu (satellite %d, was sent by %d)", k, (int)gr[k].sat, (int)wr[k].sat));
        c.expect(wo.size() == go.size(), "observations", vh::strf("%zu of %zu recorded", go.size(), wo.size()));
        for (size_t k = 0; k < std::min(wo.size(), go.size()); ++k)
        {
            const Obs& w = wo[k];
            const auto& g = go[k];
            const int week = (int)std::floor(w.t / 604800);
            const UTCTime t = UTCTime::fromGPS(week, 0) + (w.t - week * 604800.0);
            c.expect(g.gnss_id == w.id && g.sat_num == w.sat && g.pseudorange == w.pr && g.carrier_phase == w.cp, "observation", vh::strf("record %zu", k));
            c.expect(std::abs(g.freq - w.freq) < 1, "observation_frequency", vh::strf("%.1f instead of %.1f", g.freq, w.freq));
            c.expect(std::abs(g.doppler - w.dop) < 1e-6 * (1 + std::abs(w.dop)), "observation_doppler", vh::strf("%.6f instead of %.6f m/s", g.doppler, w.dop));
            c.expect(std::abs((g.t - t).toSec()) < 2e-6, "observation_time", vh::strf("%.7f s off", (g.t - t).toSec()));
        }
        c.count("ephemerides", wg.size() + we.size() + wr.size()), c.count("observations", wo.size()), c.count("bytes", feedBytes.size());
        if (wg.size() + we.size() + wr.size()) c.nontrivial(feedSeed);
    }
}
}  // namespace ubxcheck
}  // namespace mc
