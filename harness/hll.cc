// A02: the cardinality estimator of mlio.contrib.insights.
#include <cmath>
#include <cstdint>
#include <cstring>
#include <stdexcept>
#include <string>
#include <vector>

#include "mlse.h"

// The estimator itself is compiled with a hash that can be anything, the same
// for the same text.
#define XXH_INLINE_ALL
#include "xxhash.h"

namespace {

std::uint32_t real_hash(const std::string &s) { return XXH32(s.data(), s.size(), 0); }

std::uint32_t free_hash(const void *p, std::size_t n)
{
    static std::vector<std::pair<std::string, std::uint32_t>> known;
    std::string s(static_cast<const char *>(p), n);
    for (auto &k : known)
        if (k.first == s)
            return k.second;
    known.emplace_back(s, sym<std::uint32_t>("hash"));
    return known.back().second;
}

}  // namespace

#define XXH32(p, n, seed) free_hash(p, n)
#include "hyperloglog.cc"
#undef XXH32

namespace {

using hll::HyperLogLog;

std::size_t P(const char *name, long def) { return static_cast<std::size_t>(mlse_param(name, def)); }

std::uint32_t rotl(std::uint32_t x, int r) { return x << r | x >> (32 - r); }

// XXH32 with seed 0, by its specification.
std::uint32_t hash(const std::string &s)
{
    const std::uint32_t p1 = 0x9E3779B1U, p2 = 0x85EBCA77U, p3 = 0xC2B2AE3DU, p4 = 0x27D4EB2FU, p5 = 0x165667B1U;
    std::uint32_t h = p5;
    std::size_t i = 0;
    if (s.size() >= 16) {
        std::uint32_t lane[4] = {p1 + p2, p2, 0, 0 - p1};
        for (; i + 16 <= s.size(); i += 16)
            for (std::size_t k = 0; k < 4; k++) {
                std::uint32_t w = 0;
                std::memcpy(&w, s.data() + i + 4 * k, 4);
                lane[k] = rotl(lane[k] + w * p2, 13) * p1;
            }
        h = rotl(lane[0], 1) + rotl(lane[1], 7) + rotl(lane[2], 12) + rotl(lane[3], 18);
    }
    h += static_cast<std::uint32_t>(s.size());
    auto byte = [&](std::size_t k) { return static_cast<std::uint32_t>(static_cast<unsigned char>(s[k])); };
    for (; i + 4 <= s.size(); i += 4) {
        std::uint32_t w = 0;
        std::memcpy(&w, s.data() + i, 4);    // little endian
        h = rotl(h + w * p3, 17) * p4;
    }
    for (; i < s.size(); i++)
        h = rotl(h + byte(i) * p5, 11) * p1;
    h ^= h >> 15;
    h *= p2;
    h ^= h >> 13;
    h *= p3;
    return h ^ h >> 16;
}

std::uint8_t rank(std::uint32_t h, unsigned b)
{
    // Without branches, so that the solver sees one term.
    std::uint32_t r = 33 - b;
    for (unsigned i = 32 - b; i-- > 0;) {
        const std::uint32_t bit = h >> (31 - b - i) & 1;
        r = bit * (i + 1) + (1 - bit) * r;
    }
    return static_cast<std::uint8_t>(r);
}

// Zeros as if the hash ended there.
void check(const HyperLogLog &l, const std::vector<std::uint32_t> &hashes, unsigned b)
{
    CHECK(l.register_size() == std::uint32_t{1} << b, "wrong number of registers");
    for (std::uint32_t r = 0; r < 1U << b; r++) {
        std::uint8_t want = 0;
        for (auto h : hashes) {
            std::uint8_t k = rank(h, b);
            const auto here = static_cast<std::uint8_t>(h >> (32 - b) == r) & static_cast<std::uint8_t>(k > want);
            want = static_cast<std::uint8_t>(here * k + (1 - here) * want);
        }
        CHECK(l.M_[r] == want, "wrong register");
    }
}

std::string text(bool any)
{
    static const char *const some[] = {"", "a", "ab", "some text that is longer than the other ones"};
    if (!any)
        return some[pick("text", 0, 3)];
    std::string s;
    for (std::size_t n = P("known", 0) ? 16 * pick("known bytes", 1, P("known", 0)) : 0; n; n--)
        s += static_cast<char>('A' + 7 * n % 58);
    for (std::size_t n = pick("length", P("min_length", 0), P("length", 4)); n; n--)
        s += static_cast<char>(sym<unsigned char>("byte"));
    return s;
}

// What is added ends up in its register, once.
void add()
{
    const unsigned b = static_cast<unsigned>(P("bits", 4));
    HyperLogLog l{static_cast<std::uint8_t>(b)};
    std::vector<std::uint32_t> hs;
    for (std::size_t n = pick("texts", 0, P("texts", 1)); n; n--) {
        auto s = text(false);
        l.add(s);
        hs.push_back(free_hash(s.data(), s.size()));
        mlse_reach("added");
    }
    check(l, hs, b);
    if (!sym_bool("clear"))
        return;
    l.clear();
    check(l, {}, b);
}

// Merging is adding everything to one, whatever the registers hold.
void merge()
{
    const auto b = static_cast<std::uint8_t>(P("bits", 4));
    HyperLogLog l{b}, m{b};
    const std::size_t n = P("registers", 3);
    for (std::size_t i = 0; i < n; i++) {
        l.M_[i] = static_cast<std::uint8_t>(sym_range("left", 0, 33u - b));
        m.M_[i] = static_cast<std::uint8_t>(sym_range("right", 0, 33u - b));
    }
    auto a = l.M_, c = m.M_;
    l.merge(m);
    for (std::size_t i = 0; i < l.M_.size(); i++)
        CHECK(l.M_[i] == (a[i] > c[i] ? a[i] : c[i]), "wrong register after merging");
    CHECK(m.M_ == c, "merging changed its argument");
    HyperLogLog other{static_cast<std::uint8_t>(b + 1)};
    bool thrown = false;
    try {
        l.merge(other);
    }
    catch (const std::invalid_argument &) {
        thrown = true;
    }
    CHECK(thrown, "estimators of different size are merged");
    mlse_reach("merged");
}

// The estimate of few distinct texts is linear counting; otherwise the
// harmonic mean of the registers.
void estimate()
{
    const auto b = static_cast<std::uint8_t>(pick("bits", 4, P("bits", 5)));
    HyperLogLog l{b};
    const std::uint32_t m = 1U << b;
    const std::size_t used = pick("used", 0, P("used", 2)) * m / P("used", 2);
    const unsigned high = static_cast<unsigned>(pick("rank", 1, 33u - b));
    const unsigned low = sym_bool("uniform") ? high : 1;
    double sum = 0;
    for (std::uint32_t i = 0; i < m; i++) {
        if (i < used)
            l.M_[i] = static_cast<std::uint8_t>(i % 2 ? high : low);
        double x = 1;
        for (int k = l.M_[i]; k; k--)
            x /= 2;
        sum += x;
    }
    const double alpha = m == 16 ? 0.673 : m == 32 ? 0.697 : m == 64 ? 0.709 : 0.7213 / (1 + 1.079 / m);
    double want = alpha * m * m / sum;
    if (want <= 2.5 * m) {
        if (used < m)
            want = m * std::log(static_cast<double>(m) / static_cast<double>(m - used));
    }
    else if (want > 4294967296.0 / 30)
        want = -4294967296.0 * std::log(1 - want / 4294967296.0);
    mlse_assume(want == want);    // the formula has no value from 2^32 on
    const double got = l.estimate();
    CHECK(std::fabs(got - want) <= 1e-9 * (1 + std::fabs(want)), "wrong estimate");
    mlse_reach(want > 4294967296.0 / 30 ? "large" : "estimate");
    bool thrown = false;
    unsigned w = static_cast<unsigned>(pick("width", 0, 12));
    if (w > 8)
        w = static_cast<unsigned>(pick("wide", 31, 40));
    try {
        HyperLogLog x{static_cast<std::uint8_t>(w)};
    }
    catch (const std::invalid_argument &) {
        thrown = true;
    }
    CHECK(thrown == (w < 4 || w > 30), "wrong widths are accepted");
}

// The hash is XXH32.
void hashes()
{
    auto s = text(true);
    CHECK(real_hash(s) == hash(s), "wrong hash");
    mlse_reach("hash");
}

}  // namespace

extern "C" void mlse_main()
{
    switch (mlse_param("mode", 0)) {
    case 0: add(); break;
    case 1: merge(); break;
    case 2: estimate(); break;
    case 3: hashes(); break;
    }
}
