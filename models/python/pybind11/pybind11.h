// Stand-in for Python and pybind11: objects with reference counts, buffers,
// errors and the interpreter lock; what a module binds is kept in tables that
// a harness calls by name.
#pragma once

#include <any>
#include <chrono>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <exception>
#include <functional>
#include <map>
#include <memory>
#include <new>
#include <optional>
#include <set>
#include <stdexcept>
#include <string>
#include <string_view>
#include <type_traits>
#include <typeindex>
#include <typeinfo>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>

#include "harness/mlse.h"

// ---------------------------------------------------------------- Python

using Py_ssize_t = std::ptrdiff_t;

// An instance of a bound class, a text, an exception or a class of exceptions,
// or something with a buffer.
struct PyObject {
    long refs = 1;
    const std::type_info *type = nullptr;    // of an instance
    std::shared_ptr<void> value{};
    std::any (*self)(void *) = nullptr;      // the value, as an argument
    std::optional<std::string> text{};
    PyObject *base = nullptr;      // of a class of exceptions
    PyObject *of = nullptr;        // of an exception
    PyObject *cause = nullptr;     // of an exception
    std::vector<std::any> args{};  // of an exception
    // A buffer.
    bool exports = false, readonly = false;
    void *data = nullptr;
    std::string format{};
    Py_ssize_t itemsize = 0;
    std::vector<Py_ssize_t> shape{}, strides{};
    int views = 0;
};

struct Py_buffer {
    void *buf;
    PyObject *obj;
    Py_ssize_t len, itemsize;
    int readonly, ndim;
    char *format;
    Py_ssize_t *shape, *strides, *suboffsets;
    void *internal;
};

enum {
    PyBUF_SIMPLE = 0,
    PyBUF_WRITABLE = 1,
    PyBUF_FORMAT = 4,
    PyBUF_ND = 8,
    PyBUF_STRIDES = 0x10 | PyBUF_ND,
    PyBUF_READ = 0x100,
    PyBUF_WRITE = 0x200,
};

namespace mlse_py {

// Whether this thread holds the interpreter lock.
inline bool gil = true;
inline long objects = 0;    // alive
inline PyObject *error_type = nullptr, *error_value = nullptr;
inline std::set<PyObject *> *alive = nullptr;

inline void locked() { mlse_assert(gil, "Python is used without the interpreter lock"); }

inline PyObject *make()
{
    locked();
    objects++;
    return new PyObject;
}
inline void inc(PyObject *o)
{
    locked();
    if (o)
        o->refs++;
}
inline void dec(PyObject *o)
{
    locked();
    if (!o)
        return;
    mlse_assert(o->refs > 0, "an object is released too often");
    if (--o->refs)
        return;
    mlse_assert(o->views == 0, "an object goes while its buffer is used");
    objects--;
    dec(o->cause);
    delete o;
}
inline PyObject *exception_class(const char *name, PyObject *base)
{
    auto *o = new PyObject;    // never released
    o->text = name;
    o->base = base;
    return o;
}
inline void set_error(PyObject *type, PyObject *value)
{
    dec(error_value);
    error_type = type;
    error_value = value;
}
inline bool is_text(const char *s, std::size_t n)
{
    // Everything else is taken for invalid UTF-8.
    for (std::size_t i = 0; i < n; i++)
        if (static_cast<unsigned char>(s[i]) >= 0x80)
            return false;
    return true;
}
// The buffers of bound classes.
inline std::map<std::type_index, std::function<void *(void *)>> &buffers()
{
    static std::map<std::type_index, std::function<void *(void *)>> m;
    return m;
}
int get_buffer(PyObject *o, Py_buffer *v, int flags);
void release_buffer(Py_buffer *v);

}  // namespace mlse_py

inline PyObject *PyExc_BaseException = mlse_py::exception_class("BaseException", nullptr);
inline PyObject *PyExc_Exception = mlse_py::exception_class("Exception", PyExc_BaseException);
inline PyObject *PyExc_RuntimeError = mlse_py::exception_class("RuntimeError", PyExc_Exception);
inline PyObject *PyExc_ValueError = mlse_py::exception_class("ValueError", PyExc_Exception);
inline PyObject *PyExc_TypeError = mlse_py::exception_class("TypeError", PyExc_Exception);
inline PyObject *PyExc_BufferError = mlse_py::exception_class("BufferError", PyExc_Exception);
inline PyObject *PyExc_OSError = mlse_py::exception_class("OSError", PyExc_Exception);
inline PyObject *PyExc_IOError = PyExc_OSError;
inline PyObject *PyExc_UnicodeDecodeError = mlse_py::exception_class("UnicodeDecodeError", PyExc_ValueError);

inline void PyErr_SetString(PyObject *type, const char *s)
{
    auto *v = mlse_py::make();
    v->of = type;
    v->args.emplace_back(std::string{s});
    mlse_py::set_error(type, v);
}
inline void PyErr_SetObject(PyObject *type, PyObject *v)
{
    mlse_py::inc(v);
    mlse_py::set_error(type, v);
}
inline void PyErr_Clear() { mlse_py::set_error(nullptr, nullptr); }
inline PyObject *PyErr_Occurred() { return mlse_py::error_type; }
inline void PyException_SetCause(PyObject *e, PyObject *cause)
{
    mlse_py::dec(e->cause);
    e->cause = cause;
}
inline int PyObject_GetBuffer(PyObject *o, Py_buffer *v, int flags)
{
    mlse_py::locked();
    return mlse_py::get_buffer(o, v, flags);
}
inline void PyBuffer_Release(Py_buffer *v)
{
    mlse_py::locked();
    if (v->obj)
        mlse_py::release_buffer(v);
}
inline int PyBuffer_IsContiguous(const Py_buffer *v, char order)
{
    auto ordered = [&](bool c) {
        Py_ssize_t n = v->itemsize;
        for (int k = 0; k < v->ndim; k++)
            if (v->shape && v->shape[k] == 0)
                return true;
        for (int k = 0; k < v->ndim; k++) {
            const int i = c ? v->ndim - 1 - k : k;
            if (v->strides && v->shape[i] > 1 && v->strides[i] != n)
                return false;
            n *= v->shape ? v->shape[i] : 1;
        }
        return true;
    };
    return order == 'C' ? ordered(true) : order == 'F' ? ordered(false) : ordered(true) || ordered(false);
}
inline int PyBuffer_ToContiguous(void *to, const Py_buffer *v, Py_ssize_t len, char order)
{
    mlse_assert(len == v->len, "a buffer is copied in part");
    auto *out = static_cast<char *>(to);
    auto *in = static_cast<const char *>(v->buf);
    if (PyBuffer_IsContiguous(v, order)) {
        std::memcpy(out, in, static_cast<std::size_t>(len));
        return 0;
    }
    mlse_assert(order != 'F', "not supported by the stand-in");
    std::vector<Py_ssize_t> at(static_cast<std::size_t>(v->ndim), 0);
    for (Py_ssize_t k = 0; k < len; k += v->itemsize) {
        Py_ssize_t o = 0;
        for (int i = 0; i < v->ndim; i++)
            o += at[static_cast<std::size_t>(i)] * v->strides[i];
        std::memcpy(out + k, in + o, static_cast<std::size_t>(v->itemsize));
        for (int i = v->ndim - 1; i >= 0; i--) {
            if (++at[static_cast<std::size_t>(i)] < v->shape[i])
                break;
            at[static_cast<std::size_t>(i)] = 0;
        }
    }
    return 0;
}
inline PyObject *PyMemoryView_FromMemory(char *p, Py_ssize_t n, int)
{
    auto *o = mlse_py::make();
    o->exports = true;
    o->data = p;
    o->format = "B";
    o->itemsize = 1;
    o->shape = {n};
    o->strides = {1};
    return o;
}
inline void *PyCapsule_GetPointer(PyObject *o, const char *name) { return o->text == name ? o->data : nullptr; }
inline void Py_INCREF(PyObject *o) { mlse_py::inc(o); }
inline void Py_DECREF(PyObject *o) { mlse_py::dec(o); }
inline void Py_XDECREF(PyObject *o) { mlse_py::dec(o); }

// ---------------------------------------------------------------- pybind11

namespace pybind11 {

using ssize_t = Py_ssize_t;

struct stop_iteration : std::runtime_error {
    explicit stop_iteration(const char *s = "") : std::runtime_error{s} {}
};
struct key_error : std::runtime_error {
    explicit key_error(const char *s = "") : std::runtime_error{s} {}
};
struct index_error : std::runtime_error {
    explicit index_error(const char *s = "") : std::runtime_error{s} {}
};
struct value_error : std::runtime_error {
    explicit value_error(const char *s = "") : std::runtime_error{s} {}
};
struct cast_error : std::runtime_error {
    explicit cast_error(const char *s = "") : std::runtime_error{s} {}
};
struct pure_virtual : std::runtime_error {
    explicit pure_virtual(const char *s = "") : std::runtime_error{s} {}
};
struct error_already_set : std::exception {
    PyObject *type;
    error_already_set() : type{mlse_py::error_type} { PyErr_Clear(); }
    const char *what() const noexcept override { return "error_already_set"; }
    void restore() { mlse_py::set_error(type, nullptr); }
};

struct gil_scoped_release {
    bool had = mlse_py::gil;
    gil_scoped_release() { mlse_py::gil = false; }
    ~gil_scoped_release() { mlse_py::gil = had; }
};
struct gil_scoped_acquire {
    bool had = mlse_py::gil;
    gil_scoped_acquire() { mlse_py::gil = true; }
    ~gil_scoped_acquire() { mlse_py::gil = had; }
};

class object;
class handle {
public:
    handle() = default;
    handle(PyObject *p) : m_ptr{p} {}
    PyObject *ptr() const { return m_ptr; }
    const handle &inc_ref() const
    {
        mlse_py::inc(m_ptr);
        return *this;
    }
    const handle &dec_ref() const
    {
        mlse_py::dec(m_ptr);
        return *this;
    }
    explicit operator bool() const { return m_ptr != nullptr; }
    template<typename T>
    T cast() const;
    // Calling a class of exceptions makes one.
    template<typename... A>
    object operator()(A... a) const;
    struct accessor;
    accessor attr(const char *name) const;

protected:
    PyObject *m_ptr = nullptr;
};

struct stolen_t {};
struct borrowed_t {};

class object : public handle {
public:
    object() = default;
    object(handle h, borrowed_t) : handle{h} { inc_ref(); }
    object(handle h, stolen_t) : handle{h} {}
    object(const object &o) : handle{o} { inc_ref(); }
    object(object &&o) noexcept : handle{o} { o.m_ptr = nullptr; }
    object &operator=(const object &o)
    {
        o.inc_ref();
        dec_ref();
        m_ptr = o.m_ptr;
        return *this;
    }
    object &operator=(object &&o) noexcept
    {
        std::swap(m_ptr, o.m_ptr);
        return *this;
    }
    ~object()
    {
        if (m_ptr)
            dec_ref();
    }
    handle release()
    {
        handle h{m_ptr};
        m_ptr = nullptr;
        return h;
    }
};
template<typename T>
T reinterpret_borrow(handle h) { return T{object{h, borrowed_t{}}}; }
template<typename T>
T reinterpret_steal(handle h) { return T{object{h, stolen_t{}}}; }

class str : public object {
public:
    str() = default;
    explicit str(object o) : object{std::move(o)} {}
    str(const char *s, std::size_t n)
    {
        if (!mlse_py::is_text(s, n)) {
            PyErr_SetString(PyExc_UnicodeDecodeError, "invalid");
            throw error_already_set{};
        }
        m_ptr = mlse_py::make();
        m_ptr->text = std::string{s, n};
    }
    str(const std::string &s) : str{s.data(), s.size()} {}
    str(std::string_view s) : str{s.data(), s.size()} {}
    str(const char *s) : str{s, std::strlen(s)} {}
};

// Objects that hold a C++ value.
template<typename T>
object instance(std::shared_ptr<T> v)
{
    auto *o = mlse_py::make();
    o->type = &typeid(T);
    o->self = [](void *p) { return std::any{static_cast<T *>(p)}; };
    o->value = std::move(v);
    return object{o, stolen_t{}};
}

template<typename T>
object cast(const T &v)
{
    if constexpr (std::is_abstract_v<T> || !std::is_copy_constructible_v<T>)
        return instance(std::shared_ptr<T>{const_cast<T *>(&v), [](T *) {}});
    else
        return instance(std::make_shared<T>(v));
}
template<typename T>
T cast(handle h) { return h.cast<T>(); }
template<typename T>
T cast(PyObject *o) { return handle{o}.cast<T>(); }

class tuple : public object {
public:
    tuple() = default;
    tuple(object o) : object{std::move(o)} {}
};
class list : public object {};
class bytes : public object {};
class args : public object {};

// A callable that the harness provides.
class function : public object {
public:
    function() = default;
    function(object o) : object{std::move(o)} {}
    template<typename... A>
    object operator()(A... a) const
    {
        mlse_py::locked();
        auto *f = static_cast<std::function<void(std::vector<std::any>)> *>(ptr()->value.get());
        (*f)({std::any{a}...});
        return {};
    }
};

class capsule : public object {
public:
    capsule(const void *p, const char *name, void (*destructor)(PyObject *))
    {
        m_ptr = mlse_py::make();
        m_ptr->text = name;
        m_ptr->data = const_cast<void *>(p);
        PyObject *o = m_ptr;
        m_ptr->value = std::shared_ptr<void>{nullptr, [o, destructor](void *) { destructor(o); }};
    }
};

struct buffer_info {
    void *ptr = nullptr;
    ssize_t itemsize = 0;
    ssize_t size = 0;
    std::string format;
    ssize_t ndim = 0;
    std::vector<ssize_t> shape;
    std::vector<ssize_t> strides;
    bool readonly = false;

    buffer_info() = default;
    buffer_info(void *p, ssize_t is, std::string f, ssize_t n, std::vector<ssize_t> sh, std::vector<ssize_t> st, bool ro = false)
        : ptr{p}, itemsize{is}, size{1}, format{std::move(f)}, ndim{n}, shape{std::move(sh)}, strides{std::move(st)}, readonly{ro}
    {
        for (ssize_t d : shape)
            size *= d;
    }
    buffer_info(void *p, ssize_t is, std::string f, ssize_t n, bool ro = false) : buffer_info{p, is, std::move(f), 1, {n}, {is}, ro} {}
    explicit buffer_info(Py_buffer *v, bool own = true)
        : buffer_info{v->buf, v->itemsize, v->format, v->ndim, {v->shape, v->shape + v->ndim}, {v->strides, v->strides + v->ndim}, v->readonly != 0}
    {
        m_view = v;
        ownview = own;
    }
    buffer_info(const buffer_info &) = delete;
    buffer_info &operator=(const buffer_info &) = delete;
    buffer_info(buffer_info &&o) noexcept { *this = std::move(o); }
    buffer_info &operator=(buffer_info &&o) noexcept
    {
        ptr = o.ptr;
        itemsize = o.itemsize;
        size = o.size;
        format = std::move(o.format);
        ndim = o.ndim;
        shape = std::move(o.shape);
        strides = std::move(o.strides);
        readonly = o.readonly;
        std::swap(m_view, o.m_view);
        std::swap(ownview, o.ownview);
        return *this;
    }
    ~buffer_info()
    {
        if (m_view && ownview) {
            PyBuffer_Release(m_view);
            delete m_view;
        }
    }
    Py_buffer *view() const { return m_view; }
    Py_buffer *&view() { return m_view; }

private:
    Py_buffer *m_view = nullptr;
    bool ownview = false;
};

class buffer : public object {
public:
    buffer() = default;
    explicit buffer(object o) : object{std::move(o)} {}
    buffer_info request(bool writable = false) const
    {
        auto *v = new Py_buffer{};
        if (PyObject_GetBuffer(m_ptr, v, PyBUF_STRIDES | PyBUF_FORMAT | (writable ? PyBUF_WRITABLE : 0)) != 0) {
            delete v;
            throw error_already_set{};
        }
        return buffer_info{v};
    }
};

template<typename T>
T handle::cast() const
{
    using V = std::remove_cv_t<std::remove_reference_t<T>>;
    if constexpr (std::is_same_v<V, std::string>) {
        if (!m_ptr || !m_ptr->text)
            throw cast_error{"no text"};
        return *m_ptr->text;
    }
    else if constexpr (std::is_base_of_v<object, V>)
        return V{object{*this, borrowed_t{}}};
    else {
        if (!m_ptr || !m_ptr->type || *m_ptr->type != typeid(V))
            throw cast_error{"another type"};
        return *static_cast<V *>(m_ptr->value.get());
    }
}
template<typename... A>
object handle::operator()(A... a) const
{
    auto *e = mlse_py::make();
    e->of = m_ptr;
    auto put = [&](auto v) {
        if constexpr (std::is_same_v<decltype(v), const char *>)
            e->args.emplace_back(std::string{v});
        else
            e->args.emplace_back(v);
    };
    (put(a), ...);
    return object{e, stolen_t{}};
}

// ---- What is bound

struct arg {
    std::string name{};
    std::any value{};
    template<typename T>
    arg &operator=(T &&v)
    {
        value = std::decay_t<T>(std::forward<T>(v));
        return *this;
    }
};
namespace literals {
inline arg operator""_a(const char *n, std::size_t k) { return {std::string{n, k}, {}}; }
}  // namespace literals

template<typename... G>
struct call_guard {};
template<std::size_t, std::size_t>
struct keep_alive {};
struct buffer_protocol {};
struct is_operator {};
struct none {};

// From what the caller (or a default) gives to what a function takes.
template<typename T>
struct is_optional : std::false_type {};
template<typename T>
struct is_optional<std::optional<T>> : std::true_type {
    using of = T;
};
template<typename T>
T convert(const std::any &a)
{
    if (auto *p = std::any_cast<T>(&a))
        return *p;
    if constexpr (is_optional<T>::value) {
        if (std::any_cast<std::nullopt_t>(&a) || std::any_cast<std::nullptr_t>(&a))
            return std::nullopt;
        return T{convert<typename is_optional<T>::of>(a)};
    }
    else if constexpr (std::is_arithmetic_v<T>) {
        if (auto *p = std::any_cast<int>(&a))
            return static_cast<T>(*p);
    }
    else if constexpr (std::is_same_v<T, std::string>) {
        if (auto *p = std::any_cast<const char *>(&a))
            return *p;
    }
    else if constexpr (std::is_same_v<T, std::string_view>) {
        if (auto *p = std::any_cast<std::string>(&a))
            return *p;
        if (auto *p = std::any_cast<const char *>(&a))
            return *p;
    }
    else if constexpr (std::is_constructible_v<T, std::nullptr_t>) {
        if (std::any_cast<std::nullptr_t>(&a))
            return T(nullptr);
    }
    throw cast_error{"a wrong type of argument"};
}
template<typename P>
struct slot {
    using V = std::remove_cv_t<std::remove_reference_t<P>>;
    V *ptr = nullptr;
    std::shared_ptr<V> held{};
    explicit slot(const std::any &a)
    {
        if (auto *p = std::any_cast<V *>(&a)) {
            ptr = *p;
            return;
        }
        if constexpr (!std::is_abstract_v<V> && std::is_copy_constructible_v<V>) {
            held = std::make_shared<V>(convert<V>(a));
            ptr = held.get();
        }
        else
            throw cast_error{"a wrong type of argument"};
    }
    P get() const
    {
        if constexpr (std::is_reference_v<P>)
            return static_cast<P>(*ptr);
        else
            return std::move(*ptr);
    }
};
// A result; what cannot be copied is shared.
template<typename R>
std::any result(R &&r)
{
    using V = std::decay_t<R>;
    if constexpr (std::is_lvalue_reference_v<R> && (std::is_abstract_v<V> || !std::is_copy_constructible_v<V>))
        return const_cast<V *>(&r);
    else if constexpr (std::is_copy_constructible_v<V>)
        return V(std::forward<R>(r));
    else
        return instance(std::make_shared<V>(std::forward<R>(r)));
}

struct bound_function {
    std::size_t arity = 0;
    std::vector<arg> args{};
    bool releases = false, keeps = false;
    std::function<std::any(const std::vector<std::any> &)> call{};
    std::any operator()(const std::vector<std::any> &a) const
    {
        if (!releases)
            return call(a);
        gil_scoped_release r;
        return call(a);
    }
};
template<typename R, typename... A, typename F, std::size_t... I>
std::any invoke_with(F &f, const std::vector<std::any> &a, std::index_sequence<I...>)
{
    if (a.size() != sizeof...(A))
        throw cast_error{"a wrong number of arguments"};
    std::tuple<slot<A>...> s{slot<A>{a[I]}...};
    if constexpr (std::is_void_v<R>) {
        std::invoke(f, std::get<I>(s).get()...);
        return {};
    }
    else
        return result<R>(std::invoke(f, std::get<I>(s).get()...));
}
template<typename R, typename... A, typename F>
bound_function bind_as(F f)
{
    bound_function b;
    b.arity = sizeof...(A);
    b.call = [f](const std::vector<std::any> &a) mutable { return invoke_with<R, A...>(f, a, std::index_sequence_for<A...>{}); };
    return b;
}
// C is the class the function is bound to: a member of a base takes it as well.
template<typename C, typename F>
struct binder {
    template<typename R, typename K, typename... A>
    static bound_function of(R (K::*)(A...) const, F f) { return bind_as<R, A...>(f); }
    template<typename R, typename K, typename... A>
    static bound_function of(R (K::*)(A...), F f) { return bind_as<R, A...>(f); }
    static bound_function make(F f) { return of(&F::operator(), f); }
};
template<typename C, typename R, typename... A>
struct binder<C, R (*)(A...)> {
    static bound_function make(R (*f)(A...)) { return bind_as<R, A...>(f); }
};
template<typename C, typename R, typename... A>
struct binder<C, R (*)(A...) noexcept> {
    static bound_function make(R (*f)(A...)) { return bind_as<R, A...>(f); }
};
#define MLSE_MEMBER(q)                                                                                   \
    template<typename C, typename R, typename K, typename... A>                                          \
    struct binder<C, R (K::*)(A...) q> {                                                                 \
        using D = std::conditional_t<std::is_base_of_v<K, C>, C, K>;                                     \
        static bound_function make(R (K::*f)(A...) q) { return bind_as<R, D &, A...>(f); }               \
    };
MLSE_MEMBER()
MLSE_MEMBER(const)
MLSE_MEMBER(noexcept)
MLSE_MEMBER(const noexcept)

inline void extra(bound_function &b, const arg &a) { b.args.push_back(a); }
template<typename... G>
void extra(bound_function &b, const call_guard<G...> &) { b.releases = (std::is_same_v<G, gil_scoped_release> || ...); }
inline void extra(bound_function &b, const keep_alive<0, 1> &) { b.keeps = true; }
inline void extra(bound_function &, const char *) {}
template<typename T>
void extra(bound_function &, const T &) {}

template<typename C, typename F, typename... E>
bound_function bind_function(F f, const E &...e)
{
    auto b = binder<C, F>::make(f);
    (extra(b, e), ...);
    return b;
}

struct bound_attribute {
    bound_function get{}, set{};
};
struct scope {
    std::map<std::string, std::vector<bound_function>> functions{};
    std::map<std::string, bound_attribute> attributes{};
    std::map<std::string, std::any> values{};    // of an enumeration
};
inline std::map<std::string, scope> &bound()
{
    static std::map<std::string, scope> m;
    return m;
}
// The name of the bound class of a C++ class.
inline std::map<std::type_index, std::string> &names()
{
    static std::map<std::type_index, std::string> m;
    return m;
}

struct module_ {
    std::string name;
    template<typename F, typename... E>
    module_ &def(const char *n, F f, const E &...e)
    {
        bound()[name].functions[n].push_back(bind_function<void>(f, e...));
        return *this;
    }
    struct sink {
        template<typename T>
        void operator=(const T &)
        {}
    };
    sink attr(const char *) { return {}; }
    struct imported {
        imported attr(const char *) const { return {}; }
        template<typename T>
        imported operator()(const T &) const
        {
            return {};
        }
        template<typename T>
        T cast() const
        {
            return T{"object"};
        }
    };
    static imported import(const char *) { return {}; }
};
using module = module_;

template<typename... A>
struct constructor {};
template<typename F>
struct factory {
    F f;
};
template<typename... A>
constructor<A...> init() { return {}; }
template<typename F>
factory<F> init(F f) { return {f}; }

template<typename... A>
struct overload_cast_impl {
    template<typename R>
    constexpr auto operator()(R (*f)(A...)) const { return f; }
    template<typename R, typename C>
    constexpr auto operator()(R (C::*f)(A...)) const { return f; }
    template<typename R, typename C>
    constexpr auto operator()(R (C::*f)(A...) const, std::true_type) const { return f; }
};
template<typename... A>
static constexpr overload_cast_impl<A...> overload_cast = {};
static constexpr auto const_ = std::true_type{};

template<typename T, typename... O>
class class_ {
public:
    template<typename... E>
    class_(module_ &, const char *name, const E &...) : name_{name}
    {
        bound()[name_];
        names()[typeid(T)] = name;
    }
    template<typename F, typename... E>
    class_ &def(const char *n, F f, const E &...e)
    {
        bound()[name_].functions[n].push_back(bind_function<T>(f, e...));
        return *this;
    }
    template<typename F, typename... E>
    class_ &def(factory<F> f, const E &...e)
    {
        bound()[name_].functions["__init__"].push_back(bind_function<T>(f.f, e...));
        return *this;
    }
    template<typename... A, typename... E>
    class_ &def(constructor<A...>, const E &...e)
    {
        if constexpr (!std::is_abstract_v<T>) {
            auto make = +[](A... a) -> std::shared_ptr<T> { return make_one(std::move(a)...); };
            bound()[name_].functions["__init__"].push_back(bind_function<T>(make, e...));
        }
        return *this;
    }
    template<typename F, typename... E>
    class_ &def_property_readonly(const char *n, F f, const E &...e)
    {
        bound()[name_].attributes[n].get = bind_function<T>(f, e...);
        return *this;
    }
    template<typename F, typename... E>
    class_ &def_property_readonly_static(const char *n, F f, const E &...e)
    {
        bound()[name_].attributes[n].get = bind_function<T>(f, e...);
        return *this;
    }
    template<typename M, typename K>
    class_ &def_readonly_(const char *n, M K::*m)
    {
        bound()[name_].attributes[n].get = bind_function<T>([m](T &t) -> M { return t.*m; });
        return *this;
    }
    template<typename M, typename K, typename... E>
    class_ &def_readonly(const char *n, M K::*m, const E &...)
    {
        return def_readonly_(n, m);
    }
    template<typename M, typename K, typename... E>
    class_ &def_readwrite(const char *n, M K::*m, const E &...)
    {
        def_readonly_(n, m);
        bound()[name_].attributes[n].set = bind_function<T>([m](T &t, M v) { t.*m = std::move(v); });
        return *this;
    }
    template<typename F>
    class_ &def_buffer(F f)
    {
        mlse_py::buffers()[typeid(T)] = [f](void *p) -> void * { return new buffer_info(f(*static_cast<T *>(p))); };
        return *this;
    }

private:
    // Things that count their references themselves are not owned by the
    // shared pointer alone.
    template<typename U>
    static auto counted(U *p, int) -> decltype(intrusive_ptr_inc_ref(p), std::shared_ptr<U>{})
    {
        intrusive_ptr_inc_ref(p);
        return {p, [](U *q) { intrusive_ptr_dec_ref(q); }};
    }
    template<typename U>
    static std::shared_ptr<U> counted(U *p, long)
    {
        return std::shared_ptr<U>{p};
    }
    template<typename... A>
    static std::shared_ptr<T> make_one(A... a)
    {
        return counted(new T{std::move(a)...}, 0);
    }
    std::string name_;
};

template<typename T>
class enum_ {
public:
    template<typename... E>
    enum_(module_ &, const char *name, const E &...) : name_{name}
    {}
    enum_ &value(const char *n, T v, const char * = nullptr)
    {
        bound()[name_].values[n] = v;
        return *this;
    }

private:
    std::string name_;
};

template<typename T>
class exception : public object {
public:
    exception(module_ &, const char *name, PyObject *base)
    {
        m_ptr = mlse_py::exception_class(name, base);
    }
};

inline std::vector<void (*)(std::exception_ptr)> &translators()
{
    static std::vector<void (*)(std::exception_ptr)> v;
    return v;
}
template<typename F>
void register_exception_translator(F f)
{
    translators().push_back(+f);
}

// An iterator reads through the range it was made from.
struct iterator {
    std::function<std::any()> next{};    // empty at the end
};
template<typename I, typename S, typename... E>
iterator make_iterator(I i, S e, const E &...)
{
    return {[i, e]() mutable -> std::any {
        if (i == e)
            return {};
        auto v = *i;
        ++i;
        return v;
    }};
}

template<typename T>
void bind_vector(module_ &, const char *)
{}
template<typename A, typename B>
void implicitly_convertible()
{}

// ---- Attributes of instances

struct handle::accessor {
    PyObject *o;
    std::string name;
    template<typename T>
    T cast() const
    {
        auto &get = bound()[names()[*o->type]].attributes[name].get;
        // The instance, as the class that it is bound as.
        std::any r = self_(get);
        return as<T>(r);
    }

private:
    std::any self_(bound_function &get) const;
    template<typename T>
    T as(std::any &r) const;
};
inline handle::accessor handle::attr(const char *name) const { return {m_ptr, name}; }
inline std::any handle::accessor::self_(bound_function &get) const { return get({o->self(o->value.get())}); }
template<typename T>
T handle::accessor::as(std::any &r) const { return T{std::any_cast<object>(r)}; }

}  // namespace pybind11

namespace mlse_py {

inline int get_buffer(PyObject *o, Py_buffer *v, int flags)
{
    *v = Py_buffer{};
    if (o && o->type) {
        auto i = buffers().find(*o->type);
        if (i == buffers().end()) {
            PyErr_SetString(PyExc_BufferError, "no buffer");
            return -1;
        }
        auto *info = static_cast<pybind11::buffer_info *>(i->second(o->value.get()));
        if ((flags & PyBUF_WRITABLE) && info->readonly) {
            delete info;
            PyErr_SetString(PyExc_BufferError, "not writable");
            return -1;
        }
        v->internal = info;
        v->buf = info->ptr;
        v->itemsize = info->itemsize;
        v->len = info->itemsize;
        for (auto d : info->shape)
            v->len *= d;
        v->readonly = info->readonly;
        v->ndim = 1;
        if (flags & PyBUF_FORMAT)
            v->format = const_cast<char *>(info->format.c_str());
        if ((flags & PyBUF_STRIDES) == PyBUF_STRIDES) {
            v->ndim = static_cast<int>(info->ndim);
            v->strides = info->strides.data();
            v->shape = info->shape.data();
        }
        v->obj = o;
        inc(o);
        return 0;
    }
    if (!o || !o->exports) {
        PyErr_SetString(PyExc_TypeError, "no buffer");
        return -1;
    }
    v->buf = o->data;
    v->itemsize = o->itemsize;
    v->len = o->itemsize;
    for (auto d : o->shape)
        v->len *= d;
    v->readonly = o->readonly;
    v->ndim = static_cast<int>(o->shape.size());
    v->shape = o->shape.data();
    v->strides = o->strides.data();
    if ((flags & PyBUF_WRITABLE) && o->readonly) {
        PyErr_SetString(PyExc_BufferError, "not writable");
        return -1;
    }
    if ((flags & PyBUF_STRIDES) != PyBUF_STRIDES) {
        if (!PyBuffer_IsContiguous(v, 'C')) {
            PyErr_SetString(PyExc_BufferError, "not contiguous");
            return -1;
        }
        v->strides = nullptr;
        if (!(flags & PyBUF_ND))
            v->shape = nullptr;
    }
    static char any_format[] = "B";
    v->format = flags & PyBUF_FORMAT ? const_cast<char *>(o->format.c_str()) : any_format;
    v->obj = o;
    o->views++;
    inc(o);
    return 0;
}
inline void release_buffer(Py_buffer *v)
{
    PyObject *o = v->obj;
    v->obj = nullptr;
    if (v->internal)
        delete static_cast<pybind11::buffer_info *>(v->internal);
    else {
        mlse_assert(o->views > 0, "a buffer is released too often");
        o->views--;
    }
    dec(o);
}

}  // namespace mlse_py

#define PYBIND11_DECLARE_HOLDER_TYPE(...)
#define PYBIND11_MAKE_OPAQUE(...)
#define PYBIND11_OVERLOAD_PURE(ret, cls, name, ...) throw ::pybind11::pure_virtual(#name);
#define PYBIND11_OVERRIDE_PURE(ret, cls, name, ...) throw ::pybind11::pure_virtual(#name);
#define PYBIND11_MODULE(name, m)                     \
    void mlse_module_##name(::pybind11::module_ &);  \
    void mlse_init_##name()                          \
    {                                                \
        ::pybind11::module_ mod{#name};              \
        mlse_module_##name(mod);                     \
    }                                                \
    void mlse_module_##name(::pybind11::module_ &m)
