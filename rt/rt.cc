#define MLSE_REAL_RANDOM
// Bitcode runtime of the symbolic executor: the parts of libc, libstdc++, fmt
// and Abseil which exist only as machine code. Everything is weak so that a
// harness can bring its own version.
#include <absl/strings/numbers.h>
#include <fmt/format.h>

#include <cerrno>
#include <climits>
#include <clocale>
#include <condition_variable>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <list>
#include <map>
#include <mutex>
#include <new>
#include <random>
#include <stdexcept>
#include <string>
#include <system_error>
#include <thread>
#include <unordered_map>

#include <pthread.h>
#include <unistd.h>

#include "../harness/mlse.h"

#define WEAK __attribute__((weak))

// ---------------------------------------------------------------- C library

extern "C" {

char __libc_single_threaded = 0;
void *__dso_handle = nullptr;
static int the_errno;
WEAK int *__errno_location() noexcept { return &the_errno; }

__attribute__((noinline, optnone)) WEAK int bcmp(const void *a, const void *b, size_t n) noexcept
{
    auto *x = static_cast<const unsigned char *>(a), *y = static_cast<const unsigned char *>(b);
    unsigned char acc = 0;
    for (size_t i = 0; i < n; i++)
        acc = static_cast<unsigned char>(acc | (x[i] ^ y[i]));
    return acc;
}
int mlse_sel(int c, int a, int b);
WEAK int memcmp(const void *a, const void *b, size_t n) noexcept
{
    auto *x = static_cast<const unsigned char *>(a), *y = static_cast<const unsigned char *>(b);
    int r = 0;
    for (size_t i = n; i-- > 0;) {
        int d = int(x[i]) - int(y[i]);
        int m = -int(d != 0);
        r = (d & m) | (r & ~m);
    }
    return r;
}
#undef memchr
#undef strcmp
WEAK void *rt_memchr(const void *p, int c, size_t n) __asm__("memchr");
void *rt_memchr(const void *p, int c, size_t n)
{
    auto *x = static_cast<const unsigned char *>(p);
    for (size_t i = 0; i < n; i++)
        if (x[i] == static_cast<unsigned char>(c))
            return const_cast<unsigned char *>(x + i);
    return nullptr;
}
WEAK int strcmp(const char *a, const char *b) noexcept
{
    while (*a && *a == *b)
        a++, b++;
    return int(static_cast<unsigned char>(*a)) - int(static_cast<unsigned char>(*b));
}
WEAK int strncmp(const char *a, const char *b, size_t n) noexcept
{
    for (; n; n--, a++, b++) {
        if (*a != *b)
            return int(static_cast<unsigned char>(*a)) - int(static_cast<unsigned char>(*b));
        if (!*a)
            return 0;
    }
    return 0;
}
// The "C" locale.
WEAK int isspace(int c) noexcept { return int(c == ' ') | int(unsigned(c) - 9 < 5); }
WEAK int isdigit(int c) noexcept { return unsigned(c) - '0' < 10; }
WEAK int isalpha(int c) noexcept { return (unsigned(c) | 32) - 'a' < 26; }
WEAK int tolower(int c) noexcept { return c + (int(unsigned(c) - 'A' < 26) << 5); }
WEAK int toupper(int c) noexcept { return c - (int(unsigned(c) - 'a' < 26) << 5); }

WEAK int sigfillset(sigset_t *s) noexcept
{
    memset(s, 0xff, sizeof *s);
    return 0;
}
WEAK int sigemptyset(sigset_t *s) noexcept
{
    memset(s, 0, sizeof *s);
    return 0;
}
WEAK int sigaddset(sigset_t *s, int n) noexcept
{
    s->__val[(n - 1) / 64] |= 1UL << (n - 1) % 64;
    return 0;
}
WEAK int sigdelset(sigset_t *s, int n) noexcept
{
    s->__val[(n - 1) / 64] &= ~(1UL << (n - 1) % 64);
    return 0;
}
WEAK int sigismember(const sigset_t *s, int n) noexcept { return s->__val[(n - 1) / 64] >> (n - 1) % 64 & 1; }
WEAK int pthread_sigmask(int, const sigset_t *, sigset_t *o) noexcept
{
    if (o)
        memset(o, 0, sizeof *o);
    return 0;
}

}  // extern "C"

// ---------------------------------------------------------------- libstdc++

namespace std {

logic_error::logic_error(const string &s) : exception(), _M_msg(s) {}
logic_error::logic_error(const char *s) : exception(), _M_msg(s, strlen(s)) {}
logic_error::logic_error(logic_error &&o) noexcept : exception(), _M_msg(o._M_msg) {}
logic_error::logic_error(const logic_error &o) noexcept : exception(), _M_msg(o._M_msg) {}
logic_error &logic_error::operator=(const logic_error &o) noexcept { _M_msg = o._M_msg; return *this; }
logic_error::~logic_error() noexcept {}
const char *logic_error::what() const noexcept { return _M_msg._M_p; }
runtime_error::runtime_error(const string &s) : exception(), _M_msg(s) {}
runtime_error::runtime_error(const char *s) : exception(), _M_msg(s, strlen(s)) {}
runtime_error::runtime_error(runtime_error &&o) noexcept : exception(), _M_msg(o._M_msg) {}
runtime_error::runtime_error(const runtime_error &o) noexcept : exception(), _M_msg(o._M_msg) {}
runtime_error &runtime_error::operator=(const runtime_error &o) noexcept { _M_msg = o._M_msg; return *this; }
runtime_error::~runtime_error() noexcept {}
const char *runtime_error::what() const noexcept { return _M_msg._M_p; }

// The shared string of the exception classes: a plain private copy here.
static const char *dupstr(const char *s, size_t n)
{
    char *p = static_cast<char *>(operator new(n + 1));
    memcpy(p, s, n);
    p[n] = 0;
    return p;
}
__cow_string::__cow_string(const std::string &s) : _M_p(dupstr(s.data(), s.size())) {}
__cow_string::__cow_string(const char *s, size_t n) : _M_p(dupstr(s, n)) {}
__cow_string::__cow_string(const __cow_string &o) noexcept : _M_p(dupstr(o._M_p, strlen(o._M_p))) {}
__cow_string &__cow_string::operator=(const __cow_string &o) noexcept
{
    const char *n = dupstr(o._M_p, strlen(o._M_p));
    operator delete(const_cast<char *>(_M_p));
    _M_p = n;
    return *this;
}
__cow_string::~__cow_string() { operator delete(const_cast<char *>(_M_p)); }

#define EXC(C, B)                                 \
    C::C(const string &s) : B(s) {}               \
    C::C(const char *s) : B(s) {}                 \
    C::~C() noexcept {}
EXC(invalid_argument, logic_error)
EXC(length_error, logic_error)
EXC(out_of_range, logic_error)
EXC(domain_error, logic_error)
EXC(range_error, runtime_error)
EXC(overflow_error, runtime_error)
EXC(underflow_error, runtime_error)

exception::~exception() noexcept {}
const char *exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {}
const char *bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char *bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char *bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {}
const char *bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_function_call::~bad_function_call() noexcept {}
const char *bad_function_call::what() const noexcept { return "bad_function_call"; }
nested_exception::~nested_exception() noexcept {}

void __throw_logic_error(const char *s) { throw logic_error(s); }
void __throw_invalid_argument(const char *s) { throw invalid_argument(s); }
void __throw_length_error(const char *s) { throw length_error(s); }
void __throw_out_of_range(const char *s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char *s, ...) { throw out_of_range(s); }
void __throw_runtime_error(const char *s) { throw runtime_error(s); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_function_call() { throw bad_function_call(); }

inline namespace _V2 {
error_category::~error_category() noexcept {}
error_condition error_category::default_error_condition(int v) const noexcept { return error_condition(v, *this); }
bool error_category::equivalent(int v, const error_condition &c) const noexcept { return default_error_condition(v) == c; }
bool error_category::equivalent(const error_code &c, int v) const noexcept { return *this == c.category() && c.value() == v; }
__cow_string error_category::_M_message(int) const { return __cow_string("", 0); }

struct rt_category final : error_category {
    const char *name() const noexcept override { return "generic"; }
    string message(int) const override { return "error"; }
};
const error_category &generic_category() noexcept
{
    static rt_category c;
    return c;
}
const error_category &system_category() noexcept
{
    static rt_category c;
    return c;
}
}  // namespace _V2
system_error::~system_error() noexcept {}
void __throw_system_error(int e) { throw system_error(error_code(e, generic_category())); }

// ---- red-black trees, without the balancing

_Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) noexcept
{
    if (x->_M_right) {
        x = x->_M_right;
        while (x->_M_left)
            x = x->_M_left;
        return x;
    }
    auto *y = x->_M_parent;
    while (x == y->_M_right) {
        x = y;
        y = y->_M_parent;
    }
    return x->_M_right != y ? y : x;
}
const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) noexcept
{
    return _Rb_tree_increment(const_cast<_Rb_tree_node_base *>(x));
}
_Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) noexcept
{
    if (x->_M_color == _S_red && x->_M_parent->_M_parent == x)
        return x->_M_right;
    if (x->_M_left) {
        auto *y = x->_M_left;
        while (y->_M_right)
            y = y->_M_right;
        return y;
    }
    auto *y = x->_M_parent;
    while (x == y->_M_left) {
        x = y;
        y = y->_M_parent;
    }
    return y;
}
const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) noexcept
{
    return _Rb_tree_decrement(const_cast<_Rb_tree_node_base *>(x));
}
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &h) noexcept
{
    x->_M_parent = p;
    x->_M_left = x->_M_right = nullptr;
    x->_M_color = _S_black;
    if (left) {
        p->_M_left = x;
        if (p == &h) {
            h._M_parent = x;
            h._M_right = x;
        }
        else if (p == h._M_left)
            h._M_left = x;
    }
    else {
        p->_M_right = x;
        if (p == h._M_right)
            h._M_right = x;
    }
}
_Rb_tree_node_base *_Rb_tree_rebalance_for_erase(_Rb_tree_node_base *const z, _Rb_tree_node_base &h) noexcept
{
    auto replace = [&](_Rb_tree_node_base *o, _Rb_tree_node_base *n) {
        if (h._M_parent == o)
            h._M_parent = n;
        else if (o->_M_parent->_M_left == o)
            o->_M_parent->_M_left = n;
        else
            o->_M_parent->_M_right = n;
        if (n)
            n->_M_parent = o->_M_parent;
    };
    if (h._M_left == z && h._M_right == z) {
        h._M_parent = nullptr;
        h._M_left = h._M_right = &h;
        return z;
    }
    if (h._M_left == z)
        h._M_left = _Rb_tree_increment(z);
    if (h._M_right == z)
        h._M_right = _Rb_tree_decrement(z);
    if (!z->_M_left)
        replace(z, z->_M_right);
    else if (!z->_M_right)
        replace(z, z->_M_left);
    else {
        auto *y = z->_M_right;
        while (y->_M_left)
            y = y->_M_left;
        if (y->_M_parent != z) {
            replace(y, y->_M_right);
            y->_M_right = z->_M_right;
            y->_M_right->_M_parent = y;
        }
        replace(z, y);
        y->_M_left = z->_M_left;
        y->_M_left->_M_parent = y;
    }
    return z;
}

namespace __detail {
void _List_node_base::_M_hook(_List_node_base *const p) noexcept
{
    _M_next = p;
    _M_prev = p->_M_prev;
    p->_M_prev->_M_next = this;
    p->_M_prev = this;
}
void _List_node_base::_M_unhook() noexcept
{
    auto *n = _M_next, *p = _M_prev;
    p->_M_next = n;
    n->_M_prev = p;
}
void _List_node_base::_M_transfer(_List_node_base *const f, _List_node_base *const l) noexcept
{
    if (this != l) {
        l->_M_prev->_M_next = this;
        f->_M_prev->_M_next = l;
        this->_M_prev->_M_next = f;
        auto *t = this->_M_prev;
        this->_M_prev = l->_M_prev;
        l->_M_prev = f->_M_prev;
        f->_M_prev = t;
    }
}

size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const
{
    static const size_t t[] = {2, 5, 11, 23, 47, 97, 199, 409, 823, 1741, 3739, 7517, 15173, 30727, 62233, 126271};
    for (size_t p : t)
        if (p >= n) {
            _M_next_resize = p;
            return p;
        }
    _M_next_resize = n;
    return n;
}
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const
{
    if (ne + ni > _M_next_resize) {
        size_t m = _M_next_resize ? 0 : 11;
        size_t want = ne + ni > m ? ne + ni : m;
        if (want >= nb)
            return {true, _M_next_bkt(want + 1 > nb * 2 ? want + 1 : nb * 2)};
        _M_next_resize = nb;
    }
    return {false, 0};
}
}  // namespace __detail

// A hash which depends on the length only: it never forks, and a container must
// work with every hash.
size_t _Hash_bytes(const void *, size_t n, size_t seed) { return n * 31 + seed; }

void random_device::_M_init(const string &) {}
void random_device::_M_fini() {}
random_device::result_type random_device::_M_getval() { return sym<unsigned>("random_device"); }

}  // namespace std

extern "C" {
WEAK int __cxa_guard_acquire(char *g)
{
    if (*g)
        return 0;
    *g = 1;
    return 1;
}
WEAK void __cxa_guard_release(char *) {}
WEAK void __cxa_guard_abort(char *g) { *g = 0; }
}

// ---------------------------------------------------------------- fmt

// Strings and characters are copied, integers written in decimal when their
// value is known; everything else becomes a '?'.
namespace {
struct Put {
    std::string &o;
    char type;    // the presentation type, 0 if there is none
    template<typename T>
    void operator()(T v)
    {
        if constexpr (std::is_same_v<T, fmt::string_view> || std::is_same_v<T, const char *>)
            if (type != 0 && type != 's')
                throw fmt::format_error("invalid type specifier");
        if constexpr (std::is_same_v<T, fmt::string_view>)
            o.append(v.data(), v.size());
        else if constexpr (std::is_same_v<T, const char *>)
            o.append(v);
        else if constexpr (std::is_same_v<T, char>)
            o.push_back(v);
        else if constexpr (std::is_integral_v<T> && sizeof(T) <= 8) {
            if (mlse_is_symbolic(static_cast<uint64_t>(v)))
                o.push_back('?');
            else {
                uint64_t u = static_cast<uint64_t>(v);
                if (std::is_signed_v<T> && v < 0) {
                    o.push_back('-');
                    u = 0 - u;
                }
                char b[24], *p = b + 24;
                const uint64_t base = type == 'x' ? 16 : 10;
                do
                    *--p = "0123456789abcdef"[u % base];
                while (u /= base);
                o.append(p, static_cast<size_t>(b + 24 - p));
            }
        }
        else if constexpr (std::is_same_v<T, const void *>) {
            o += "0x";
            Put{o, 'x'}(reinterpret_cast<uint64_t>(v));
        }
        else
            o.push_back('?');
    }
};
}  // namespace

FMT_BEGIN_NAMESPACE
FMT_FUNC std::string vformat(string_view f, format_args args)
{
    std::string o;
    int next = 0;
    const char *p = f.data(), *e = p + f.size();
    while (p < e) {
        if (*p == '{' && p + 1 < e && p[1] == '{') {
            o.push_back('{');
            p += 2;
        }
        else if (*p == '{') {
            ++p;
            int idx = -1;
            while (p < e && *p >= '0' && *p <= '9')
                idx = (idx < 0 ? 0 : idx * 10) + (*p++ - '0');
            char type = 0;
            for (; p < e && *p != '}'; ++p)
                type = isalpha(static_cast<unsigned char>(*p)) ? *p : char(0);
            ++p;
            auto a = args.get(idx < 0 ? next++ : idx);
            visit_format_arg(Put{o, type}, a);
        }
        else {
            if (*p == '}' && p + 1 < e && p[1] == '}')
                ++p;
            o.push_back(*p++);
        }
    }
    return o;
}
namespace detail {
FMT_FUNC void throw_format_error(const char *m) { throw std::runtime_error(m); }
WEAK thousands_sep_result<char> rt_thousands_sep(locale_ref) __asm__("_ZN3fmt2v96detail18thousands_sep_implIcEENS1_20thousands_sep_resultIT_EENS1_10locale_refE");
WEAK thousands_sep_result<char> rt_thousands_sep(locale_ref) { return {"", 0}; }
}
FMT_END_NAMESPACE

// ---------------------------------------------------------------- Abseil

// Abseil's documented behaviour: optional white space around, an optional sign,
// decimal digits; *value is the clamped value on overflow.
namespace {
template<typename T>
bool parse_int(std::string_view s, T *v)
{
    *v = 0;
    const char *p = s.data(), *e = p + s.size();
    while (p < e && isspace(static_cast<unsigned char>(*p)))
        ++p;
    while (p < e && isspace(static_cast<unsigned char>(e[-1])))
        --e;
    if (p >= e)
        return false;
    bool neg = *p == '-';
    if (neg || *p == '+') {
        ++p;
        if (p >= e)
            return false;
    }
    if (neg && !std::is_signed_v<T>)
        return false;
    using W = __int128;
    const W hi = std::numeric_limits<T>::max(), lo = std::numeric_limits<T>::min();
    T value = 0;
    for (; p < e; ++p) {
        auto d = static_cast<unsigned char>(*p - '0');
        if (d >= 10) {
            *v = value;
            return false;
        }
        T next;
        bool of = neg ? __builtin_mul_overflow(value, T(10), &next) || __builtin_sub_overflow(next, T(d), &next)
                      : __builtin_mul_overflow(value, T(10), &next) || __builtin_add_overflow(next, T(d), &next);
        if (of) {
            *v = neg ? T(lo) : T(hi);
            return false;
        }
        value = next;
    }
    *v = value;
    return true;
}
}  // namespace

namespace absl {
ABSL_NAMESPACE_BEGIN
namespace numbers_internal {
bool safe_strto32_base(std::string_view s, int32_t *v, int) { return parse_int(s, v); }
bool safe_strto64_base(std::string_view s, int64_t *v, int) { return parse_int(s, v); }
bool safe_strtou32_base(std::string_view s, uint32_t *v, int) { return parse_int(s, v); }
bool safe_strtou64_base(std::string_view s, uint64_t *v, int) { return parse_int(s, v); }
}  // namespace numbers_internal

// Decimal numbers whose value is a small integer times or over a power of ten
// that is exact itself, so that one operation rounds them correctly; longer
// ones are left out.
ABSL_NAMESPACE_END
}  // namespace absl
namespace {
template<typename T>
bool parse_float(std::string_view s, T *v)
{
    *v = 0;
    const char *p = s.data(), *e = p + s.size();
    while (p < e && isspace(static_cast<unsigned char>(*p)))
        ++p;
    while (p < e && isspace(static_cast<unsigned char>(e[-1])))
        --e;
    bool neg = false;
    if (p < e && *p == '+') {
        ++p;
        if (p < e && *p == '-')
            return false;
    }
    if (p < e && *p == '-') {
        neg = true;
        ++p;
    }
    if (p >= e)
        return false;
    auto word = [&](const char *w, size_t n) {
        if (static_cast<size_t>(e - p) != n)
            return false;
        for (size_t i = 0; i < n; i++)
            if ((p[i] | 32) != w[i])
                return false;
        return true;
    };
    if (word("inf", 3) || word("infinity", 8)) {
        *v = neg ? -std::numeric_limits<T>::infinity() : std::numeric_limits<T>::infinity();
        return true;
    }
    if (word("nan", 3)) {
        *v = neg ? -std::numeric_limits<T>::quiet_NaN() : std::numeric_limits<T>::quiet_NaN();
        return true;
    }
    if (e - p >= 5 && (p[0] | 32) == 'n')    // nan(...)
        mlse_assume(false);
    // One path per value: floating-point division is dear for the solver.
    const bool many = e - p > 7;
    mlse_assume(e - p <= 24);
    auto digit = [many](char c) -> uint64_t { return many ? static_cast<unsigned char>(c - '0') : mlse_concretize(static_cast<unsigned char>(c)) - '0'; };
    int digits = 0, scale = 0;
    unsigned __int128 m = 0;
    for (; p < e && static_cast<unsigned char>(*p - '0') < 10; ++p, ++digits)
        m = m * 10 + digit(*p);
    if (p < e && *p == '.')
        for (++p; p < e && static_cast<unsigned char>(*p - '0') < 10; ++p, ++digits, --scale)
            m = m * 10 + digit(*p);
    if (digits == 0)
        return false;
    mlse_assume(digits <= 7 || scale == 0);
    if (p < e && (*p | 32) == 'e') {
        ++p;
        bool eneg = p < e && *p == '-';
        if (p < e && (*p == '-' || *p == '+'))
            ++p;
        if (p >= e)
            return false;
        int x = 0;
        for (; p < e && static_cast<unsigned char>(*p - '0') < 10; ++p)
            x = x < 1000 ? x * 10 + static_cast<unsigned char>(*p - '0') : x;
        if (p < e)
            return false;
        scale += eneg ? -x : x;
    }
    if (p < e)
        return false;
    T r = static_cast<T>(m);
    if (scale != 0 && m != 0) {
        scale = static_cast<int>(mlse_concretize(static_cast<uint64_t>(scale + 4096))) - 4096;
        const int exact = sizeof(T) == 4 ? 10 : 22;
        mlse_assume(scale >= -exact && (scale <= exact || scale > 400));
        if (scale > 400)
            r = std::numeric_limits<T>::infinity();
        else {
            T ten = 1;
            for (int i = 0; i < (scale < 0 ? -scale : scale); i++)
                ten *= 10;
            r = scale < 0 ? r / ten : r * ten;
        }
    }
    *v = neg ? -r : r;
    return true;
}
}  // namespace
namespace absl {
ABSL_NAMESPACE_BEGIN
bool SimpleAtof(std::string_view s, float *v) { return parse_float(s, v); }
bool SimpleAtod(std::string_view s, double *v) { return parse_float(s, v); }
ABSL_NAMESPACE_END
}  // namespace absl

template class std::__cxx11::basic_string<char>;
