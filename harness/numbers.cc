// N01, N02: from text to numbers.
//
// mode 0: integers of every type, 1: floating-point numbers, 2: inference of
// the data type. The text is symbolic, preceded by a concrete prefix.
#include <cmath>
#include <cstring>
#include <limits>
#include <memory>
#include <string>

#include "mlio/cpu_array.h"
#include "mlio/parser.h"

#include "setup.h"

using namespace mlio;

namespace {

bool space(unsigned char c) { return c == ' ' || (c >= 9 && c <= 13); }

struct Number {
    bool valid = false;     // [spaces][sign]digits[spaces]
    bool neg = false, digits = false;
    unsigned __int128 v = 0;
};

Number ref_int(const char *s, std::size_t n)
{
    Number r;
    std::size_t b = 0, e = n;
    while (b < e && space(static_cast<unsigned char>(s[b])))
        b++;
    while (b < e && space(static_cast<unsigned char>(s[e - 1])))
        e--;
    for (std::size_t i = 0; i < n; i++)
        r.digits = r.digits || (s[i] >= '0' && s[i] <= '9');
    if (b < e && (s[b] == '-' || s[b] == '+'))
        r.neg = s[b++] == '-';
    r.valid = b < e;
    for (; b < e && r.valid; b++) {
        r.valid = s[b] >= '0' && s[b] <= '9';
        r.v = r.v * 10 + static_cast<unsigned>(s[b] - '0');
    }
    return r;
}

struct Float {
    bool valid = false, nan = false, inf = false;
    double v = 0;
    bool checked = false;    // v is known
};

bool word(const char *s, std::size_t n, const char *w)
{
    for (std::size_t i = 0; i < n; i++)
        if (w[i] == 0 || (s[i] | 32) != w[i])
            return false;
    return w[n] == 0;
}

Float ref_float(const char *s, std::size_t n)
{
    Float r;
    std::size_t b = 0, e = n;
    while (b < e && space(static_cast<unsigned char>(s[b])))
        b++;
    while (b < e && space(static_cast<unsigned char>(s[e - 1])))
        e--;
    bool neg = false;
    if (b < e && (s[b] == '-' || s[b] == '+'))
        neg = s[b++] == '-';
    if (word(s + b, e - b, "nan"))
        r.valid = r.nan = true;
    else if (word(s + b, e - b, "inf") || word(s + b, e - b, "infinity"))
        r.valid = r.inf = true;
    if (r.valid || b == e)
        return r;
    unsigned m = 0, div = 1, nd = 0;
    for (; b < e && s[b] >= '0' && s[b] <= '9'; b++, nd++)
        m = m * 10 + static_cast<unsigned>(mlse_concretize(static_cast<unsigned char>(s[b])) - '0');
    if (b < e && s[b] == '.')
        for (b++; b < e && s[b] >= '0' && s[b] <= '9'; b++, nd++) {
            m = m * 10 + static_cast<unsigned>(mlse_concretize(static_cast<unsigned char>(s[b])) - '0');
            div *= 10;
        }
    if (nd == 0)
        return r;
    if (b == e) {
        r.valid = r.checked = true;
        r.v = static_cast<double>(m) / div;
        if (neg)
            r.v = -r.v;
        return r;
    }
    if ((s[b] | 32) != 'e' || ++b == e)
        return r;
    bool eneg = s[b] == '-';
    if (s[b] == '-' || s[b] == '+')
        b++;
    if (b == e)
        return r;
    unsigned x = 0;
    for (; b < e; b++) {
        if (s[b] < '0' || s[b] > '9')
            return r;
        x = x < 10000 ? x * 10 + static_cast<unsigned>(mlse_concretize(static_cast<unsigned char>(s[b])) - '0') : x;
    }
    r.valid = true;
    r.inf = !eneg && m != 0 && x > 400;
    return r;
}

template<Data_type dt>
void check_int(const char *s, std::size_t n)
{
    using T = data_type_t<dt>;
    auto arr = wrap_cpu_array<dt>(std::vector<T>(3, T(77)));
    Parser_options opts{};
    auto parser = make_parser(dt, opts);
    std::size_t at = pick("index", 0, 2);
    Parse_result r = parser(std::string_view{s, n}, *arr, at);
    mlse_trace(static_cast<std::uint64_t>(r));
    auto span = as_span<T>(*arr);
    for (std::size_t i = 0; i < 3; i++)
        if (i != at || r != Parse_result::ok)
            CHECK(span[i] == T(77), "a value that was not asked for is written");
    Number w = ref_int(s, n);
    if (w.neg && !std::is_signed_v<T>) {
        if (!w.valid || w.v != 0)
            CHECK(r != Parse_result::ok, "a malformed number is accepted");
        return;
    }
    if (!w.valid) {
        CHECK(r != Parse_result::ok, "a malformed number is accepted");
        if (!w.digits)
            CHECK(r == Parse_result::failed, "a text without digits is reported as an overflow");
        mlse_reach("malformed");
        return;
    }
    const auto max = static_cast<unsigned __int128>(std::numeric_limits<T>::max());
    const bool in = w.v <= max || (w.neg && w.v == max + 1);
    if (in) {
        CHECK(r == Parse_result::ok, "a number is rejected");
        CHECK(span[at] == static_cast<T>(w.neg ? 0 - w.v : w.v), "wrong value");
        mlse_reach("number");
    }
    else {
        CHECK(r == Parse_result::overflowed, "a number outside the range is not reported as an overflow");
        mlse_reach("overflow");
    }
}

template<Data_type dt>
void check_float(const char *s, std::size_t n)
{
    using T = data_type_t<dt>;
    auto arr = wrap_cpu_array<dt>(std::vector<T>(3, T(77)));
    Parser_options opts{};
    bool has_nan = sym_bool("nan_values");
    if (has_nan)
        opts.nan_values = {"?", "n/a", ""};
    auto parser = make_parser(dt, opts);
    std::size_t at = n % 3;
    Parse_result r = parser(std::string_view{s, n}, *arr, at);
    mlse_trace(static_cast<std::uint64_t>(r));
    auto span = as_span<T>(*arr);
    for (std::size_t i = 0; i < 3; i++)
        if (i != at || r != Parse_result::ok)
            CHECK(span[i] == T(77), "a value that was not asked for is written");
    Float w = ref_float(s, n);
    if (!w.valid) {
        std::size_t b = 0, e = n;
        while (b < e && space(static_cast<unsigned char>(s[b])))
            b++;
        while (b < e && space(static_cast<unsigned char>(s[e - 1])))
            e--;
        bool nan = has_nan && (b == e || (e - b == 1 && s[b] == '?') || (e - b == 3 && s[b] == 'n' && s[b + 1] == '/' && s[b + 2] == 'a'));
        if (nan) {
            CHECK(r == Parse_result::ok, "a listed NaN text is rejected");
            CHECK(span[at] != span[at], "a listed NaN text is not NaN");
            mlse_reach("listed NaN");
        }
        else {
            CHECK(r == Parse_result::failed, "a malformed number is accepted or misreported");
            mlse_reach("malformed");
        }
    }
    else if (w.inf) {
        CHECK(r == Parse_result::overflowed, "an infinite value is not reported as an overflow");
        mlse_reach("overflow");
    }
    else if (w.nan) {
        CHECK(r == Parse_result::ok && span[at] != span[at], "NaN is not NaN");
        mlse_reach("NaN");
    }
    else if (w.checked) {
        CHECK(r == Parse_result::ok, "a number is rejected");
        CHECK(span[at] == static_cast<T>(w.v), "wrong value");
        mlse_reach("number");
    }
}

}  // namespace

extern "C" void mlse_main()
{
    const std::size_t n = pick("length", 0, static_cast<std::uint64_t>(mlse_param("len", 4)));
    char s[48];
    std::size_t k = 0;
    const long mode = mlse_param("mode", 0);
    long dt = mode == 0 ? static_cast<long>(pick("type", 0, 8)) : 0;
    if (mlse_param("long", 0)) {
        // All but the last few digits of the extreme values.
        static const char *const p[] = {"18446744073709551", "1", "", "21474", "9223372036854775", "2", "655", "429496", "18446744073709551"};
        static const char *const q[] = {"1844674407370955", "-9223372036854775", "9223372036854775"};
        const char *pre = mode == 0 ? p[dt] : q[pick("prefix", 0, 2)];
        if (mode == 0 && sym_bool("minus"))
            s[k++] = '-';
        while (*pre)
            s[k++] = *pre++;
    }
    mlse_symbolic(s + k, n, "text");
    if (mlse_param("long", 0))
        for (std::size_t i = 0; i < n; i++)
            mlse_assume((s[k + i] >= '0' && s[k + i] <= '9') || s[k + i] == 'x');
    const std::size_t len = k + n;
    if (mode == 0) {
        switch (dt) {
        case 0: check_int<Data_type::size>(s, len); break;
        case 1: check_int<Data_type::int8>(s, len); break;
        case 2: check_int<Data_type::int16>(s, len); break;
        case 3: check_int<Data_type::int32>(s, len); break;
        case 4: check_int<Data_type::int64>(s, len); break;
        case 5: check_int<Data_type::uint8>(s, len); break;
        case 6: check_int<Data_type::uint16>(s, len); break;
        case 7: check_int<Data_type::uint32>(s, len); break;
        case 8: check_int<Data_type::uint64>(s, len); break;
        }
    }
    else if (mode == 1) {
        if (sym_bool("double"))
            check_float<Data_type::float64>(s, len);
        else
            check_float<Data_type::float32>(s, len);
    }
    else {
        Data_type t = infer_data_type(std::string_view{s, len});
        mlse_trace(static_cast<std::uint64_t>(t));
        Number w = ref_int(s, len);
        if (w.valid) {
            const auto max = static_cast<unsigned __int128>(std::numeric_limits<std::int64_t>::max());
            const bool i64 = w.v <= max || (w.neg && w.v == max + 1);
            const bool u64 = !w.neg && w.v <= std::numeric_limits<std::uint64_t>::max();
            Data_type want = i64 ? Data_type::int64 : u64 ? Data_type::uint64 : Data_type::float64;
            mlse_reach(i64 ? "int64" : u64 ? "uint64" : "too large");
            CHECK(t == want, "the type of an integer is misjudged");
        }
        else {
            Float f = ref_float(s, len);
            CHECK(t == (f.valid && !f.inf ? Data_type::float64 : Data_type::string), "the type of a text is misjudged");
            mlse_reach(f.valid && !f.inf ? "float64" : "string");
        }
    }
}
