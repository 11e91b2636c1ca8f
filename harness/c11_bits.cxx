// C11: bit-field extraction and insertion against a bit-by-bit reference, on buffers that end with
// the last byte of the field.
#include <memory>
#include <utility>

#include "common/ephemeris/bit_tools.h"
#include "vh.h"
using namespace mc::ephemeris;

static uint64_t ref(const uint8_t* b, int pos, int len)
{
    uint64_t v = 0;
    for (int i = pos; i < pos + len; ++i) v = (v << 1) | ((b[i / 8] >> (7 - i % 8)) & 1);
    return v;
}
static int64_t sx(uint64_t v, int len)
{
    return (v >> (len - 1)) & 1 ? (int64_t)(v | (len == 64 ? 0 : (~0ULL << len))) : (int64_t)v;
}

struct Buf
{
    std::unique_ptr<uint8_t[]> p;
    size_t n;
    Buf(vh::Rng& r, int pos, int len) : n((pos + len + 7) / 8)
    {
        p.reset(new uint8_t[n]);
        const int k = (int)r.range(0, 5);
        for (size_t i = 0; i < n; ++i)
            p[i] = k == 0 ? 0xFF : k == 1 ? 0 : k == 2 ? (r.chance(.5) ? 0x80 : 1) : (uint8_t)r.u64();
    }
};

template <int L>
static void get1(vh::Ctx& c, int rep)
{
    for (int k = 0; k < rep; ++k)
    {
        const int pos = (int)(k < 16 ? k : c.rng.range(0, 300));
        Buf b(c.rng, pos, L);
        const uint64_t w = ref(b.p.get(), pos, L);
        c.note(vh::strf("len %d pos %d", L, pos));
        c.count("reads", 3);
        c.expect((uint64_t)getBit<L>(b.p.get(), pos) == w, "get_unsigned",
                 vh::strf("len %d pos %d", L, pos));
        c.expect((int64_t)getBit<L, Signed>(b.p.get(), pos) == sx(w, L), "get_signed",
                 vh::strf("len %d pos %d value %llx", L, pos, (unsigned long long)w));
        if constexpr (L <= 32)
        {
            c.expect((uint64_t)getBit<Unsigned>(b.p.get(), pos, L) == w, "get_runtime",
                     vh::strf("len %d pos %d", L, pos));
            c.expect((int64_t)getBit<Signed>(b.p.get(), pos, L) == sx(w, L), "get_runtime_signed",
                     vh::strf("len %d pos %d", L, pos));
            if constexpr (L >= 2)
            {
                const uint64_t mag = ref(b.p.get(), pos + 1, L - 1);
                const double want = ref(b.p.get(), pos, 1) ? -(double)mag : (double)mag;
                c.expect(getBitGlo<L>(b.p.get(), pos) == want, "get_signmag",
                         vh::strf("len %d pos %d", L, pos));
            }
        }
    }
}
template <int L>
static void set1(vh::Ctx& c, int rep)
{
    for (int k = 0; k < rep; ++k)
    {
        const int pos = (int)(k < 16 ? k : c.rng.range(0, 300));
        Buf b(c.rng, pos, L);
        std::vector<uint8_t> before(b.p.get(), b.p.get() + b.n);
        const unsigned v = (unsigned)(c.rng.chance(0.2) ? ~0u : c.rng.u64());
        c.note(vh::strf("set len %d pos %d", L, pos));
        c.count("writes", 2);
        const bool rt = c.rng.chance(0.5);
        if (rt)
            setBit(b.p.get(), pos, v, L);
        else
            setBit<L>(b.p.get(), pos, v);
        std::vector<uint8_t> want = before;
        for (int i = 0; i < L; ++i)
        {
            const int q = pos + i;
            const uint8_t m = 0x80 >> (q % 8);
            if ((v >> (L - 1 - i)) & 1)
                want[q / 8] |= m;
            else
                want[q / 8] &= ~m;
        }
        c.expect(memcmp(want.data(), b.p.get(), b.n) == 0, rt ? "set_runtime" : "set",
                 vh::strf("len %d pos %d value %x", L, pos, v));
    }
}
template <int... I>
static void allGet(vh::Ctx& c, std::integer_sequence<int, I...>)
{
    const int rep = c.n(60, 2000);
    auto one = [&](auto K) {
        if (!c.begin(vh::strf("length %d", K.value + 1))) return;
        get1<K.value + 1>(c, rep);
        c.nontrivial((uint64_t)K.value);
    };
    (one(std::integral_constant<int, I>{}), ...);
}
template <int... I>
static void allSet(vh::Ctx& c, std::integer_sequence<int, I...>)
{
    const int rep = c.n(60, 2000);
    auto one = [&](auto K) {
        if (!c.begin(vh::strf("length %d", K.value + 1))) return;
        set1<K.value + 1>(c, rep);
        c.nontrivial((uint64_t)K.value);
    };
    (one(std::integral_constant<int, I>{}), ...);
}
VH_GROUP(extract) { allGet(c, std::make_integer_sequence<int, 56>{}); }
VH_GROUP(insert) { allSet(c, std::make_integer_sequence<int, 32>{}); }
