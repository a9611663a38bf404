// Interface between the harnesses and the symbolic executor (or, for replays,
// the native runtime in rt/native.cc).
#pragma once
#include <cstddef>
#include <cstdint>

extern "C" {
void mlse_symbolic(void *p, std::size_t n, const char *name);
void mlse_assume(bool c);
void mlse_assert(bool c, const char *msg);
void mlse_reach(const char *label);
std::uint64_t mlse_concretize(std::uint64_t v);
std::uint64_t mlse_live_heap();
std::uint64_t mlse_live_bytes();
void mlse_trace(std::uint64_t v);
long mlse_param(const char *name, long def);
int mlse_in_engine();
int mlse_is_symbolic(std::uint64_t v);
int mlse_readable(const void *p, std::size_t n);
[[noreturn]] void mlse_end();
void mlse_print(const char *msg, std::uint64_t v);
int mlse_thread_create(void *(*fn)(void *), void *arg);
void mlse_yield();
void mlse_await(const std::uint32_t *addr, std::uint32_t val);
int mlse_self();
int mlse_thread_done(int tid);
void mlse_main();
}

template<typename T>
inline T sym(const char *name)
{
    T v;
    mlse_symbolic(&v, sizeof(T), name);
    return v;
}
// A symbolic value of [lo, hi], still symbolic.
inline std::uint64_t sym_range(const char *name, std::uint64_t lo, std::uint64_t hi)
{
    if (hi < 256) {
        auto v = sym<std::uint8_t>(name);
        mlse_assume(v >= lo && v <= hi);
        return v;
    }
    auto v = sym<std::uint64_t>(name);
    mlse_assume(v >= lo && v <= hi);
    return v;
}
// A value of [lo, hi]; the executor explores every one of them on its own path.
inline std::uint64_t pick(const char *name, std::uint64_t lo, std::uint64_t hi)
{
    return mlse_concretize(sym_range(name, lo, hi));
}
inline bool sym_bool(const char *name) { return pick(name, 0, 1) != 0; }

#define CHECK(c, msg) mlse_assert(static_cast<bool>(c), msg)
