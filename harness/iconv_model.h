// The conversion library, replaced by a model of it in the executor (replays use
// the real one).
#pragma once
#include <cerrno>
#include <cstdint>
#include <cstring>

#include <iconv.h>

#include "mlse.h"

namespace {

enum Kind { raw, u16le, u16be, u32le, u32be };

// Decodes one character. Returns its length in bytes, 0 if p is cut short, -1
// if it is no character.
int decode(Kind k, const unsigned char *p, std::size_t n, std::uint32_t &cp)
{
    if (k == u32le || k == u32be) {
        if (n < 4)
            return 0;
        cp = k == u32le ? static_cast<std::uint32_t>(p[0]) | p[1] << 8 | p[2] << 16 | static_cast<std::uint32_t>(p[3]) << 24 :
                          static_cast<std::uint32_t>(p[3]) | p[2] << 8 | p[1] << 16 | static_cast<std::uint32_t>(p[0]) << 24;
        return cp > 0x10FFFF || (cp >= 0xD800 && cp < 0xE000) ? -1 : 4;
    }
    if (n < 2)
        return 0;
    auto unit = [k](const unsigned char *q) { return static_cast<std::uint32_t>(k == u16le ? q[0] | q[1] << 8 : q[1] | q[0] << 8); };
    cp = unit(p);
    if (cp < 0xD800 || cp >= 0xE000)
        return 2;
    if (cp >= 0xDC00)
        return -1;
    if (n < 4)
        return 0;
    std::uint32_t lo = unit(p + 2);
    if (lo < 0xDC00 || lo >= 0xE000)
        return -1;
    cp = 0x10000 + ((cp - 0xD800) << 10) + (lo - 0xDC00);
    return 4;
}

std::size_t encode(std::uint32_t cp, unsigned char *o)
{
    if (cp < 0x80) {
        o[0] = static_cast<unsigned char>(cp);
        return 1;
    }
    if (cp < 0x800) {
        o[0] = static_cast<unsigned char>(0xC0 | cp >> 6);
        o[1] = static_cast<unsigned char>(0x80 | (cp & 63));
        return 2;
    }
    if (cp < 0x10000) {
        o[0] = static_cast<unsigned char>(0xE0 | cp >> 12);
        o[1] = static_cast<unsigned char>(0x80 | (cp >> 6 & 63));
        o[2] = static_cast<unsigned char>(0x80 | (cp & 63));
        return 3;
    }
    o[0] = static_cast<unsigned char>(0xF0 | cp >> 18);
    o[1] = static_cast<unsigned char>(0x80 | (cp >> 12 & 63));
    o[2] = static_cast<unsigned char>(0x80 | (cp >> 6 & 63));
    o[3] = static_cast<unsigned char>(0x80 | (cp & 63));
    return 4;
}

}  // namespace

#ifndef MLSE_NATIVE
namespace {
int converters = 0;
bool same(const char *a, const char *b)
{
    while (*a && *a == *b)
        a++, b++;
    return *a == *b;
}
}  // namespace
extern "C" {
iconv_t iconv_open(const char *to, const char *from)
{
    CHECK(same(to, "UTF-8"), "wrong target encoding");
    static const char *const names[] = {"", "UTF-16LE", "UTF-16BE", "UTF-32LE", "UTF-32BE"};
    for (long k = 1; k < 5; k++)
        if (same(from, names[k])) {
            converters++;
            return reinterpret_cast<iconv_t>(k);
        }
    errno = EINVAL;
    return reinterpret_cast<iconv_t>(-1);
}
int iconv_close(iconv_t)
{
    converters--;
    return 0;
}
std::size_t iconv(iconv_t d, char **in, std::size_t *inl, char **out, std::size_t *outl)
{
    auto k = static_cast<Kind>(reinterpret_cast<long>(d));
    while (*inl > 0) {
        std::uint32_t cp = 0;
        int n = decode(k, reinterpret_cast<unsigned char *>(*in), *inl, cp);
        if (n <= 0) {
            errno = n == 0 ? EINVAL : EILSEQ;
            return static_cast<std::size_t>(-1);
        }
        unsigned char o[4];
        std::size_t m = encode(cp, o);
        if (m > *outl) {
            errno = E2BIG;
            return static_cast<std::size_t>(-1);
        }
        for (std::size_t i = 0; i < m; i++)
            (*out)[i] = static_cast<char>(o[i]);
        *in += n, *inl -= static_cast<std::size_t>(n);
        *out += m, *outl -= m;
    }
    return 0;
}
}
#endif
