// Shared by C07-C10: independent encoders of the broadcast messages.
#pragma once
#include <cstring>
#include <memory>
#include <vector>

#include "common/ephemeris/galileo.h"
#include "common/ephemeris/glonass.h"
#include "common/ephemeris/gps.h"
#include "vh.h"

typedef std::vector<uint8_t> Bytes;

// plain bit string, most significant bit first
struct Bits
{
    std::vector<uint8_t> b;
    explicit Bits(size_t n) : b(n, 0) {}
    void set(size_t pos, size_t len, uint64_t v)
    {
        for (size_t i = 0; i < len; ++i) b[pos + i] = (v >> (len - 1 - i)) & 1;
    }
    uint64_t get(size_t pos, size_t len) const
    {
        uint64_t v = 0;
        for (size_t i = 0; i < len; ++i) v = (v << 1) | b[pos + i];
        return v;
    }
    int64_t gets(size_t pos, size_t len) const
    {
        const uint64_t v = get(pos, len);
        return (v >> (len - 1)) & 1 ? (int64_t)v - ((int64_t)1 << len) : (int64_t)v;
    }
    int64_t getm(size_t pos, size_t len) const  // sign and magnitude
    {
        const int64_t v = (int64_t)get(pos + 1, len - 1);
        return b[pos] ? -v : v;
    }
    void randomize(vh::Rng& r)
    {
        for (auto& x : b) x = r.u64() & 1;
    }
};

// receivers hand over 32-bit little-endian words whose most significant bit was sent first
inline Bytes words(const Bits& m)
{
    Bytes out(m.b.size() / 8);
    for (size_t w = 0; w < m.b.size() / 32; ++w)
    {
        const uint32_t v = (uint32_t)m.get(32 * w, 32);
        memcpy(&out[4 * w], &v, 4);
    }
    return out;
}

// ---- GPS L1 C/A: 10 words of 24 data bits, 6 low parity bits ---------------------------------
inline Bytes gpsMessage(const Bits& data, vh::Rng& r)
{
    Bits m(320);
    m.randomize(r);
    for (int w = 0; w < 10; ++w) m.set(32 * w + 2, 24, data.get(24 * w, 24));
    return words(m);
}
inline Bits gpsSubframe(vh::Rng& r, int id, int iode)
{
    Bits d(240);
    d.randomize(r);
    d.set(0, 8, 0x8B);
    d.set(43, 3, id);
    if (id == 1)
    {
        d.set(168, 8, iode);
        if (r.chance(0.2)) d.set(160, 8, 0x80);
    }
    else if (id == 2)
        d.set(48, 8, iode);
    else if (id == 3)
        d.set(216, 8, iode);
    if (id == 1) d.set(176, 16, r.range(0, 37799));
    if (id == 2) d.set(216, 16, r.range(0, 37799));
    return d;
}

// ---- Galileo I/NAV ----------------------------------------------------------------------------
inline uint32_t refCrc24(const std::vector<uint8_t>& bits)
{
    uint32_t c = 0;
    for (uint8_t b : bits)
    {
        const uint32_t top = ((c >> 23) & 1) ^ b;
        c = (c << 1) & 0xFFFFFF;
        if (top) c ^= 0x864CFB;
    }
    return c;
}
// data: the 128 bits of a nominal word
inline Bits galPage(const Bits& data, vh::Rng& r)
{
    Bits m(288);
    m.randomize(r);
    m.set(0, 2, 0);  // even, nominal
    for (int i = 0; i < 112; ++i) m.b[2 + i] = data.b[i];
    m.set(128, 2, 2);  // odd, nominal
    for (int i = 0; i < 16; ++i) m.b[130 + i] = data.b[112 + i];
    std::vector<uint8_t> cov(m.b.begin(), m.b.begin() + 114);
    cov.insert(cov.end(), m.b.begin() + 128, m.b.begin() + 128 + 82);
    m.set(210, 24, refCrc24(cov));
    return m;
}
inline Bits galWord(vh::Rng& r, int type, int iod, int svid)
{
    Bits d(128);
    d.randomize(r);
    d.set(0, 6, type);
    if (type >= 1 && type <= 4) d.set(6, 10, iod);
    if (type == 4) d.set(16, 6, svid);
    return d;
}

// ---- GLONASS string: 85 bits, bit 85 sent first, Hamming bits 8..1 --------------------------------
inline void gloHamming(Bits& m)
{
    // bit number k (85..1) is at index 85-k
    auto bit = [&](int k) -> uint8_t& { return m.b[85 - k]; };
    int pos[86] = {0}, p = 3;
    for (int k = 9; k <= 85; ++k)
    {
        while ((p & (p - 1)) == 0) ++p;
        pos[k] = p++;
    }
    for (int j = 0; j < 7; ++j)
    {
        uint8_t s = 0;
        for (int k = 9; k <= 85; ++k)
            if ((pos[k] >> j) & 1) s ^= bit(k);
        bit(1 + j) = s;
    }
    uint8_t all = 0;
    for (int k = 1; k <= 85; ++k)
        if (k != 8) all ^= bit(k);
    bit(8) = all;
}
inline Bits gloString(vh::Rng& r, int num, int superframe)
{
    Bits m(128);
    m.randomize(r);
    m.b[0] = 0;
    m.set(1, 4, num);
    if (num == 1)
    {
        m.set(9, 5, r.range(0, 23));
        m.set(14, 6, r.range(0, 59));
    }
    if (num == 2) m.set(9, 7, r.range(1, 95));
    if (num == 4) m.set(59, 11, r.range(1, 1461));
    if (num == 5)
    {
        m.set(5, 11, r.range(1, 1461));
        m.set(49, 5, r.range(1, 31));
    }
    m.set(96, 16, superframe);
    gloHamming(m);
    return m;
}
