// Stand-in for pybind11: a module keeps what is bound to it in tables that a
// harness looks things up in.
#pragma once

#include <any>
#include <cstddef>
#include <functional>
#include <map>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <utility>

namespace pybind11 {

struct stop_iteration : std::runtime_error {
    explicit stop_iteration(const char *s = "") : std::runtime_error{s} {}
};

// A dictionary with string keys.
class dict {
public:
    struct item {
        std::any *value;
        template<typename T>
        item &operator=(const T &v)
        {
            *value = v;
            return *this;
        }
    };
    item operator[](const std::string &key) { return {&values[key]}; }
    std::map<std::string, std::any> values{};
};

struct arg {
    template<typename T>
    arg &operator=(T &&)
    {
        return *this;
    }
};

struct none {};

namespace literals {
inline arg operator""_a(const char *, std::size_t) { return {}; }
}  // namespace literals

// What is bound: attributes and functions by name.
struct scope {
    std::map<std::string, std::any> attributes{};
    std::map<std::string, std::any> functions{};
};

inline std::map<std::string, scope> &bound()
{
    static std::map<std::string, scope> m;
    return m;
}

template<typename F>
struct signature_of;
template<typename R, typename C, typename... A>
struct signature_of<R (C::*)(A...) const> {
    using type = std::function<R(A...)>;
};

template<typename F>
std::any callable(F f)
{
    if constexpr (std::is_member_function_pointer_v<F> || std::is_pointer_v<F>)
        return f;
    else
        return typename signature_of<decltype(&F::operator())>::type{f};
}

struct module {
    std::string name;
    template<typename F, typename... E>
    module &def(const char *n, F f, const E &...)
    {
        bound()[name].functions[n] = callable(f);
        return *this;
    }
};
using module_ = module;

template<typename T, typename... O>
class class_ {
public:
    class_(module &, const char *name) : name_{name} {}
    template<typename M>
    class_ &def_readwrite(const char *n, M T::*m)
    {
        bound()[name_].attributes[n] = m;
        return *this;
    }
    template<typename M>
    class_ &def_readonly(const char *n, M T::*m)
    {
        return def_readwrite(n, m);
    }
    template<typename F, typename... E>
    class_ &def(const char *n, F f, const E &...)
    {
        bound()[name_].functions[n] = callable(f);
        return *this;
    }

private:
    std::string name_;
};

}  // namespace pybind11

#define PYBIND11_DECLARE_HOLDER_TYPE(...)
#define PYBIND11_MODULE(name, m)                        \
    void mlse_module_##name(::pybind11::module &);      \
    inline void mlse_init_##name()                      \
    {                                                   \
        ::pybind11::module mod{#name};                  \
        mlse_module_##name(mod);                        \
    }                                                   \
    void mlse_module_##name(::pybind11::module &m)
