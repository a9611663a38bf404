// The Python module, compiled against a stand-in for Python and pybind11.
//
// Y01: buffers and tensors.  Y02: arguments and attributes.  Y03: errors.
// Y04: examples, iteration and the interpreter lock.
#include <algorithm>
#include <any>
#include <cstring>
#include <functional>
#include <map>
#include <optional>
#include <string>
#include <system_error>
#include <vector>

#include <pybind11/pybind11.h>

#include <sys/sysinfo.h>

#include <mlio.h>
#include <opencv2/imgcodecs.hpp>

#include "mlio/logger.h"
#include "setup.h"

using namespace mlio;
namespace py = pybind11;

namespace pymlio {
void mlse_init__core();
}

// Not used here.
namespace mlio {
inline namespace abi_v1 {
void initialize_aws_sdk() {}
void deallocate_aws_sdk() {}
}
}  // namespace mlio
namespace cv {
Mat imdecode(const Mat &, int) { return {}; }
void resize(const Mat &, Mat &, Size, double, double, int) {}
}  // namespace cv

// What the functions and classes of the library were given.
struct Seen {
    const char *what = "";
    std::vector<std::string> texts{};
    std::string pattern{}, version{};
    bool memory_map{}, https{};
    Compression compression{};
    std::vector<bool> predicate{};
    bool has_predicate = false;
    long timeout = 0;
    std::optional<std::size_t> fifo{};
    const void *client = nullptr;
} seen;

void see(const char *what, const std::vector<std::string> &paths, std::string_view pattern, const std::function<bool(const std::string &)> *f)
{
    seen.what = what;
    seen.texts = paths;
    seen.pattern = pattern;
    seen.has_predicate = f && *f;
    if (seen.has_predicate)
        seen.predicate = {(*f)("a"), (*f)("b")};
}
namespace mlio {
inline namespace abi_v1 {
File::File(std::string path, bool memory_map, Compression compression)
{
    seen.what = "File";
    seen.texts = {path};
    seen.memory_map = memory_map;
    seen.compression = compression;
}
S3_object::S3_object(Intrusive_ptr<const S3_client> client, std::string uri, std::string version, Compression compression)
{
    seen.what = "S3_object";
    seen.client = client.get();
    seen.texts = {uri};
    seen.version = version;
    seen.compression = compression;
}
Sagemaker_pipe::Sagemaker_pipe(std::string path, std::chrono::seconds timeout, std::optional<std::size_t> fifo, Compression compression)
{
    seen.what = "Sagemaker_pipe";
    seen.texts = {path};
    seen.timeout = timeout.count();
    seen.fifo = fifo;
    seen.compression = compression;
}
std::vector<Intrusive_ptr<Data_store>> list_files(stdx::span<const std::string> paths, const File_list_options &o)
{
    see("list_files", {paths.begin(), paths.end()}, o.pattern, o.predicate);
    seen.memory_map = o.memory_map;
    seen.compression = o.compression;
    return {};
}
std::vector<Intrusive_ptr<Data_store>> list_files(const std::string &path, std::string_view pattern)
{
    see("list_files 2", {path}, pattern, nullptr);
    return {};
}
std::vector<Intrusive_ptr<Data_store>> list_s3_objects(const S3_client &client, stdx::span<const std::string> uris, const S3_object_list_options &o)
{
    see("list_s3_objects", {uris.begin(), uris.end()}, o.pattern, o.predicate);
    seen.client = &client;
    seen.compression = o.compression;
    return {};
}
std::vector<Intrusive_ptr<Data_store>> list_s3_objects(const S3_client &client, const std::string &uri, std::string_view pattern)
{
    see("list_s3_objects 2", {uri}, pattern, nullptr);
    seen.client = &client;
    return {};
}
Intrusive_ptr<S3_client> make_s3_client(const S3_client_options &o)
{
    seen.what = "make_s3_client";
    for (auto t : {o.access_key_id, o.secret_key, o.session_token, o.profile, o.region})
        seen.texts.emplace_back(t);
    seen.https = o.use_https;
    return {};
}
}
}  // namespace mlio

extern "C" int sysinfo(struct sysinfo *s) noexcept
{
    *s = {};
    s->totalram = 1 << 20;
    s->mem_unit = 1;
    return 0;
}

namespace {

std::size_t P(const char *name, long def) { return static_cast<std::size_t>(mlse_param(name, def)); }

using Args = std::vector<std::any>;
using Named = std::map<std::string, std::any>;

// Calls a function the way Python does.
std::any call_one(const py::bound_function &f, const Args &args, const Named &named)
{
    Args a = args;
    const std::size_t self = f.arity - f.args.size();
    CHECK(f.args.empty() || f.arity >= f.args.size(), "more names than arguments");
    std::size_t used = 0;
    if (!f.args.empty()) {
        while (a.size() < f.arity) {
            auto &x = f.args[a.size() - self];
            auto i = named.find(x.name);
            if (i != named.end()) {
                a.push_back(i->second);
                used++;
            }
            else if (x.value.has_value())
                a.push_back(x.value);
            else
                throw py::cast_error{"an argument is missing"};
        }
    }
    if (used != named.size())
        throw py::cast_error{"an unknown argument"};
    return f(a);
}
std::any call(const char *scope, const char *name, const Args &args, const Named &named = {})
{
    auto s = py::bound().find(scope);
    CHECK(s != py::bound().end(), "a class or module is missing");
    auto f = s->second.functions.find(name);
    CHECK(f != s->second.functions.end(), "a function is missing");
    for (auto &g : f->second) {
        try {
            return call_one(g, args, named);
        }
        catch (const py::cast_error &) {
        }
    }
    throw py::cast_error{"no function takes these arguments"};
}
std::any get(const char *scope, const char *name, const std::any &self)
{
    auto &a = py::bound()[scope].attributes;
    auto i = a.find(name);
    CHECK(i != a.end() && i->second.get.call, "an attribute is missing");
    return i->second.get({self});
}
void set(const char *scope, const char *name, const std::any &self, const std::any &v)
{
    auto &a = py::bound()[scope].attributes;
    auto i = a.find(name);
    CHECK(i != a.end() && i->second.set.call, "an attribute cannot be set");
    i->second.set({self, v});
}

// ---- Y02

template<typename T>
bool same(const T &a, const T &b)
{
    return a == b;
}
bool same(const std::optional<Text_encoding> &a, const std::optional<Text_encoding> &b)
{
    return a.has_value() == b.has_value() && (!a || a->name() == b->name());
}
bool same(const Parser_options &a, const Parser_options &b) { return a.base == b.base && a.nan_values == b.nan_values; }

template<typename T>
T some(const char *name);
template<>
std::size_t some<std::size_t>(const char *name)
{
    // So that it does not equal a default.
    return sym_range(name, 2, ~std::uint64_t{0});
}
template<>
bool some<bool>(const char *name) { return sym_bool(name); }
template<>
char some<char>(const char *name) { return static_cast<char>(sym_range(name, 0, 255)); }
template<>
float some<float>(const char *name) { return static_cast<float>(pick(name, 1, 3)) / 4; }
template<>
std::string some<std::string>(const char *name) { return std::string(2, static_cast<char>(sym_range(name, 'a', 'z'))); }

// A parameter: its keyword and attribute, the field it stands for, and what a
// new object without it holds.
struct Param {
    const char *name;
    std::function<std::any(const char *)> make;
    std::function<bool(const void *, const std::any &)> is;
    std::function<bool(const void *, const void *)> equal;
    bool attribute = true;
    bool attribute_only_value = false;
    std::function<bool(const std::any &, const std::any &)> same_any;
};
template<typename C, typename M>
Param param(const char *name, M C::*m, std::function<M()> make)
{
    Param p;
    p.name = name;
    p.make = [make](const char *) { return std::any{make()}; };
    p.is = [m](const void *c, const std::any &v) { return same(static_cast<const C *>(c)->*m, std::any_cast<M>(v)); };
    p.equal = [m](const void *a, const void *b) { return same(static_cast<const C *>(a)->*m, static_cast<const C *>(b)->*m); };
    p.same_any = [](const std::any &a, const std::any &b) { return same(std::any_cast<M>(a), std::any_cast<M>(b)); };
    return p;
}
template<typename C, typename M>
Param param(const char *name, M C::*m)
{
    return param<C, M>(name, m, [name] { return some<M>(name); });
}
template<typename C, typename M>
Param param(const char *name, std::optional<M> C::*m)
{
    return param<C, std::optional<M>>(name, m, [name] { return std::optional<M>{some<M>(name)}; });
}
template<typename C, typename M>
Param choice(const char *name, M C::*m, std::vector<M> v)
{
    return param<C, M>(name, m, [name, v] { return v[pick(name, 0, v.size() - 1)]; });
}

template<typename C>
void parameters(const char *cls, const std::vector<Param> &ps, const Named &required, const C &plain)
{
    const std::size_t k = pick("parameter", 0, ps.size() - 1), l = pick("other", 0, ps.size() - 1);
    Named named = required;
    auto v = ps[k].make(ps[k].name);
    named[ps[k].name] = v;
    std::any w;
    if (l != k) {
        w = ps[l].make(ps[l].name);
        named[ps[l].name] = w;
    }
    // As an argument.
    auto o = std::any_cast<C>(call(cls, "__init__", {}, named));
    for (std::size_t i = 0; i < ps.size(); i++) {
        if (i == k || i == l)
            CHECK(ps[i].is(&o, i == k ? v : w), "an argument does not arrive");
        else
            CHECK(ps[i].equal(&o, &plain), "an argument that is not given has another value than in C++");
    }
    // As an attribute.
    auto q = plain;
    if (ps[k].attribute) {
        set(cls, ps[k].name, std::any{&q}, v);
        for (std::size_t i = 0; i < ps.size(); i++)
            CHECK(i == k ? ps[i].is(&q, v) : ps[i].equal(&q, &plain), "an attribute changes something else");
        CHECK(ps[k].same_any(get(cls, ps[k].name, std::any{&q}), v), "an attribute has another value than the one that was set");
    }
    mlse_reach("parameters");
}

void data_reader_params()
{
    using C = Data_reader_params;
    using L = Last_example_handling;
    using B = Bad_example_handling;
    const std::byte bytes[1] = {};
    auto store = make_intrusive<In_memory_store>(Memory_slice{make_intrusive<External_memory_block>(bytes, std::size_t{1})}, Compression::none);
    std::vector<Intrusive_ptr<Data_store>> data{store};
    std::vector<Param> ps{
        param("batch_size", &C::batch_size),
        param("num_prefetched_examples", &C::num_prefetched_examples),
        param("num_parallel_reads", &C::num_parallel_reads),
        choice<C, L>("last_example_handling", &C::last_example_handling, {L::drop, L::drop_warn, L::pad, L::pad_warn}),
        choice<C, B>("bad_example_handling", &C::bad_example_handling, {B::skip, B::skip_warn, B::pad, B::pad_warn}),
        param("warn_bad_instances", &C::warn_bad_instances),
        param("num_instances_to_skip", &C::num_instances_to_skip),
        param("num_instances_to_read", &C::num_instances_to_read),
        param("shard_index", &C::shard_index),
        param("num_shards", &C::num_shards),
        param("sample_ratio", &C::sample_ratio),
        param("shuffle_instances", &C::shuffle_instances),
        param("shuffle_window", &C::shuffle_window),
        param("shuffle_seed", &C::shuffle_seed),
        param("reshuffle_each_epoch", &C::reshuffle_each_epoch),
        param<C, std::vector<Intrusive_ptr<Data_store>>>("dataset", &C::dataset, [data] { return data; }),
    };
    ps[5].attribute = false;
    C plain;
    plain.batch_size = 1;
    parameters("DataReaderParams", ps, {{"dataset", plain.dataset}, {"batch_size", std::size_t{1}}}, plain);
}

void csv_params()
{
    using C = Csv_params;
    using S = std::unordered_set<std::string>;
    using N = std::unordered_set<std::size_t>;
    std::vector<Param> ps{
        param<C, std::vector<std::string>>("column_names", &C::column_names, [] { return std::vector<std::string>{some<std::string>("text"), "x"}; }),
        param("name_prefix", &C::name_prefix),
        param<C, S>("use_columns", &C::use_columns, [] { return S{"a", "b"}; }),
        param<C, N>("use_columns_by_index", &C::use_columns_by_index, [] { return N{1, 3}; }),
        param<C, std::optional<Data_type>>("default_data_type", &C::default_data_type, [] { return std::optional<Data_type>{Data_type::float32}; }),
        param<C, std::unordered_map<std::string, Data_type>>("column_types", &C::column_types, [] { return std::unordered_map<std::string, Data_type>{{"a", Data_type::int8}}; }),
        param<C, std::unordered_map<std::size_t, Data_type>>("column_types_by_index", &C::column_types_by_index, [] { return std::unordered_map<std::size_t, Data_type>{{1, Data_type::int8}}; }),
        param<C, std::optional<std::size_t>>("header_row_index", &C::header_row_index, [] { return sym_bool("none") ? std::optional<std::size_t>{} : some<std::size_t>("header"); }),
        param("has_single_header", &C::has_single_header),
        param("dedupe_column_names", &C::dedupe_column_names),
        param("delimiter", &C::delimiter),
        param("quote_char", &C::quote_char),
        param("comment_char", &C::comment_char),
        param("allow_quoted_new_lines", &C::allow_quoted_new_lines),
        param("skip_blank_lines", &C::skip_blank_lines),
        param("max_field_length", &C::max_field_length),
        choice<C, Max_field_length_handling>("max_field_length_handling", &C::max_field_length_handling, {Max_field_length_handling::truncate, Max_field_length_handling::truncate_warn}),
        param("max_line_length", &C::max_line_length),
    };
    Param e;
    e.name = "encoding";
    e.make = [](const char *) { return std::any{std::optional<std::string>{"utf-16"}}; };
    e.is = [](const void *c, const std::any &) { return static_cast<const C *>(c)->encoding && static_cast<const C *>(c)->encoding->name() == Text_encoding{"utf-16"}.name(); };
    e.equal = [](const void *a, const void *b) { return same(static_cast<const C *>(a)->encoding, static_cast<const C *>(b)->encoding); };
    e.attribute = false;
    ps.push_back(e);
    Param o;
    o.name = "parser_options";
    Parser_options po;
    po.base = 7;
    po.nan_values = {"x"};
    o.make = [po](const char *) { return std::any{std::optional<Parser_options>{po}}; };
    o.is = [po](const void *c, const std::any &) { return same(static_cast<const C *>(c)->parser_options, po); };
    o.equal = [](const void *a, const void *b) { return same(static_cast<const C *>(a)->parser_options, static_cast<const C *>(b)->parser_options); };
    o.attribute = false;
    ps.push_back(o);
    parameters("CsvParams", ps, {}, C{});
}

void other_params()
{
    if (sym_bool("image")) {
        using C = Image_reader_params;
        std::vector<Param> ps{
            choice<C, Image_frame>("image_frame", &C::image_frame, {Image_frame::recordio}),
            param("resize", &C::resize),
            param<C, std::vector<std::size_t>>("image_dimensions", &C::image_dimensions, [] { return std::vector<std::size_t>{some<std::size_t>("dimension"), 5, 6}; }),
            param("to_rgb", &C::to_rgb),
        };
        parameters("ImageReaderParams", ps, {{"image_dimensions", std::vector<std::size_t>{}}}, C{});
        return;
    }
    using C = Parser_options;
    std::vector<Param> ps{
        param<C, std::unordered_set<std::string>>("nan_values", &C::nan_values, [] { return std::unordered_set<std::string>{"a", "b"}; }),
        param<C, int>("number_base", &C::base, [] { return sym<int>("base"); }),
    };
    parameters("ParserParams", ps, {}, C{});
}

// ---- Y02: data stores

Compression a_compression() { return static_cast<Compression>(pick("compression", 0, 4)); }

void stores()
{
    using F = std::function<bool(const std::string &)>;
    Named n;
    Seen e;
    auto give = [&](const char *name, std::any v) {
        if (!sym_bool("given"))
            return false;
        n[name] = v;
        return true;
    };
    const std::size_t what = pick("what", 0, 7);
    const std::string a = some<std::string>("a"), b = some<std::string>("b"), c = some<std::string>("c");
    // Never looked into.
    alignas(S3_client) static std::byte client[sizeof(S3_client)];
    auto *cl = reinterpret_cast<S3_client *>(client);
    auto compress = [&](Compression def) {
        auto v = a_compression();
        e.compression = give("compression", v) ? v : def;
    };
    const F starts_with_b = [](const std::string &s) { return s[0] == 'b'; };
    if (what == 0) {
        e.what = "File";
        e.texts = {a};
        n["path"] = a;
        const bool m = sym_bool("map");
        e.memory_map = give("memory_map", m) ? m : true;
        compress(Compression::infer);
        call("File", "__init__", {}, n);
    }
    else if (what == 1) {
        e.what = "Sagemaker_pipe";
        e.texts = {a};
        n["path"] = a;
        std::chrono::seconds t{static_cast<long>(sym_range("timeout", 1, 1000000))};
        e.timeout = give("timeout", t) ? t.count() : sagemaker_pipe_default_timeout.count();
        std::optional<std::size_t> f{some<std::size_t>("fifo")};
        if (give("fifo_id", f))
            e.fifo = f;
        compress(Compression::none);
        call("SageMakerPipe", "__init__", {}, n);
    }
    else if (what == 2) {
        e.what = "S3_object";
        e.texts = {a};
        n["uri"] = a;
        n["client"] = Intrusive_ptr<S3_client>{};
        if (give("version_id", b))
            e.version = b;
        compress(Compression::infer);
        call("S3Object", "__init__", {}, n);
    }
    else if (what == 3 || what == 4) {
        e.what = what == 3 ? "list_files" : "list_s3_objects";
        e.texts = {a, b};
        n[what == 3 ? "paths" : "uris"] = e.texts;
        if (give("pattern", c))
            e.pattern = c;
        if (give("predicate", starts_with_b)) {
            e.has_predicate = true;
            e.predicate = {false, true};
        }
        compress(Compression::infer);
        if (what == 3) {
            const bool m = sym_bool("map");
            e.memory_map = give("memory_map", m) ? m : true;
        }
        else {
            n["client"] = cl;
            e.client = cl;
        }
        call("_core", e.what, {}, n);
    }
    else if (what == 5 || what == 6) {
        const bool s3 = what == 6;
        e.texts = {a};
        n[s3 ? "uri" : "path"] = a;
        if (give("pattern", c))
            e.pattern = c;
        if (s3) {
            n["client"] = cl;
            e.client = cl;
        }
        e.what = s3 ? "list_s3_objects 2" : "list_files 2";
        call("_core", s3 ? "list_s3_objects" : "list_files", {}, n);
    }
    else {
        e.what = "make_s3_client";
        e.texts = {"", "", "", "", ""};
        const char *names[] = {"access_key_id", "secret_key", "session_token", "profile", "region"};
        for (std::size_t i = 0; i < 5; i++) {
            auto v = some<std::string>("text");
            if (give(names[i], v))
                e.texts[i] = v;
        }
        const bool h = sym_bool("https");
        e.https = give("use_https", h) ? h : true;
        call("S3Client", "__init__", {}, n);
    }
    CHECK(!std::strcmp(seen.what, e.what), "another function is called");
    CHECK(seen.texts == e.texts, "texts arrive at the wrong place");
    CHECK(seen.pattern == e.pattern && seen.version == e.version, "a pattern or version does not arrive");
    CHECK(seen.memory_map == e.memory_map && seen.https == e.https, "a flag does not arrive");
    CHECK(seen.compression == e.compression, "the compression does not arrive");
    CHECK(seen.has_predicate == e.has_predicate && seen.predicate == e.predicate, "the predicate does not arrive");
    CHECK(seen.timeout == e.timeout && seen.fifo == e.fifo, "the timeout or FIFO does not arrive");
    CHECK(seen.client == e.client, "another client is used");
    mlse_reach("store");
}

template<typename T>
void values(const char *name, const std::vector<std::pair<const char *, T>> &v)
{
    auto &u = py::bound()[name].values;
    CHECK(u.size() == v.size(), "an enumeration has other names");
    for (auto &[n, x] : v) {
        auto i = u.find(n);
        CHECK(i != u.end() && std::any_cast<T>(i->second) == x, "a name stands for another value");
    }
    mlse_reach("values");
}

void enumerations()
{
    using D = Data_type;
    using C = Compression;
    using L = Last_example_handling;
    using B = Bad_example_handling;
    using M = Max_field_length_handling;
    using R = Record_kind;
    using I = Image_frame;
    using G = Log_level;
    switch (pick("which", 0, 7)) {
    case 0:
        values<D>("DataType", {{"SIZE", D::size}, {"FLOAT16", D::float16}, {"FLOAT32", D::float32}, {"FLOAT64", D::float64}, {"INT8", D::int8},
                               {"INT16", D::int16}, {"INT32", D::int32}, {"INT64", D::int64}, {"UINT8", D::uint8}, {"UINT16", D::uint16},
                               {"UINT32", D::uint32}, {"UINT64", D::uint64}, {"STRING", D::string}});
        break;
    case 1: values<C>("Compression", {{"NONE", C::none}, {"INFER", C::infer}, {"GZIP", C::gzip}, {"BZIP2", C::bzip2}, {"ZIP", C::zip}}); break;
    case 2:
        values<L>("LastExampleHandling",
                  {{"NONE", L::none}, {"DROP", L::drop}, {"DROP_WARN", L::drop_warn}, {"PAD", L::pad}, {"PAD_WARN", L::pad_warn}});
        break;
    case 3:
        values<B>("BadExampleHandling",
                  {{"ERROR", B::error}, {"SKIP", B::skip}, {"SKIP_WARN", B::skip_warn}, {"PAD", B::pad}, {"PAD_WARN", B::pad_warn}});
        break;
    case 4:
        values<M>("MaxFieldLengthHandling",
                  {{"TREAT_AS_BAD", M::treat_as_bad}, {"TRUNCATE", M::truncate}, {"TRUNCATE_WARN", M::truncate_warn}});
        break;
    case 5: values<R>("RecordKind", {{"COMPLETE", R::complete}, {"BEGIN", R::begin}, {"MIDDLE", R::middle}, {"END", R::end}}); break;
    case 6: values<I>("ImageFrame", {{"NONE", I::none}, {"RECORDIO", I::recordio}}); break;
    default: values<G>("LogLevel", {{"OFF", G::off}, {"WARNING", G::warning}, {"INFO", G::info}, {"DEBUG", G::debug}}); break;
    }
}

// Attributes, schemas, tensors and devices as Python sees them.
void things()
{
    const std::string name = some<std::string>("name");
    const auto dt = static_cast<Data_type>(pick("type", 0, 12));
    const std::size_t rank = pick("rank", 0, 2);
    Size_vector shape;
    Ssize_vector strides;
    for (std::size_t i = 0; i < rank; i++) {
        shape.push_back(pick("dimension", 1, 2));
        strides.push_back(static_cast<std::ptrdiff_t>(sym_range("stride", 0, 100)) - 50);
    }
    const bool sparse = sym_bool("sparse"), strided = sym_bool("strided");
    Named n{{"name", name}, {"data_type", dt}, {"shape", shape}, {"sparse", sparse}};
    if (strided)
        n["strides"] = strides;
    const auto a = std::any_cast<Attribute>(call("Attribute", "__init__", {}, n));
    const Attribute plain{name, dt, shape, strided ? strides : Ssize_vector{}, sparse};
    Attribute self = a;
    CHECK(std::any_cast<std::string>(get("Attribute", "name", &self)) == name, "an attribute has another name");
    CHECK(std::any_cast<Data_type>(get("Attribute", "data_type", &self)) == dt, "an attribute has another type");
    CHECK(std::any_cast<bool>(get("Attribute", "sparse", &self)) == sparse, "an attribute has another layout");
    CHECK(std::any_cast<py::tuple>(get("Attribute", "shape", &self)).cast<Size_vector>() == shape, "an attribute has another shape");
    CHECK(std::any_cast<py::tuple>(get("Attribute", "strides", &self)).cast<Ssize_vector>() == plain.strides(), "an attribute has other strides");
    Attribute other{sym_bool("renamed") ? "another" : name, dt, shape, strided ? strides : Ssize_vector{}, sym_bool("other layout") ? !sparse : sparse};
    CHECK(std::any_cast<bool>(call("Attribute", "__eq__", {&self, &other})) == (a == other), "== differs from C++");
    CHECK(std::any_cast<std::size_t>(call("Attribute", "__hash__", {&self})) == std::hash<Attribute>{}(a), "hash() differs from C++");
    mlse_reach("attribute");
    Device_kind kind = Device_kind::cpu();
    const std::size_t id = some<std::size_t>("id");
    const auto made = std::any_cast<std::shared_ptr<Device>>(call("Device", "__init__", {}, {{"kind", kind}, {"id", id}}));
    auto &d = *made;
    CHECK(std::any_cast<std::size_t>(get("Device", "id", &d)) == id, "a device has another number");
    Device d2{kind, some<std::size_t>("id")};
    CHECK(std::any_cast<bool>(call("Device", "__eq__", {&d, &d2})) == (d == d2), "== differs from C++");
    CHECK(std::any_cast<std::size_t>(call("Device", "__hash__", {&d})) == std::hash<Device>{}(d), "hash() differs from C++");
    mlse_reach("device");
}

// ---- Y01: buffers

std::optional<Data_type> type_of(char c, std::size_t size)
{
    using D = Data_type;
    const bool integer = std::strchr("bhilqBHILQ", c) && c, positive = std::strchr("BHILQ", c) && c;
    auto is = [&](const char *s) { return c && std::strchr(s, c); };
    const bool fits = is("bB") ? size == 1 : is("hH") ? size == 2 : is("iI") ? size == 4 : is("lL") ? size == 4 || size == 8 : is("qQ") ? size == 8 : false;
    if (integer && fits)
        switch (size) {
        case 1: return positive ? D::uint8 : D::int8;
        case 2: return positive ? D::uint16 : D::int16;
        case 4: return positive ? D::uint32 : D::int32;
        default: return positive ? D::uint64 : D::int64;
        }
    if (c == 'e' && size == 2)
        return D::float16;
    if (c == 'f' && size == 4)
        return D::float32;
    if (c == 'd' && size == 8)
        return D::float64;
    if (c == 'N' && size == 8)
        return D::size;
    if (c == 'O' && size == 8)
        return D::string;
    return {};
}
std::size_t size_of(Data_type t)
{
    using D = Data_type;
    switch (t) {
    case D::int8: case D::uint8: return 1;
    case D::float16: case D::int16: case D::uint16: return 2;
    case D::float32: case D::int32: case D::uint32: return 4;
    default: return 8;
    }
}
// The object stays: everything that uses it must have let go of it.
struct Exporter {
    PyObject o{};
    std::vector<std::byte> bytes;
    Exporter(std::string format, std::size_t itemsize, std::vector<Py_ssize_t> shape, std::vector<Py_ssize_t> strides, std::size_t size, std::size_t first)
        : bytes(size)
    {
        o.exports = true;
        o.format = std::move(format);
        o.itemsize = static_cast<Py_ssize_t>(itemsize);
        o.shape = std::move(shape);
        o.strides = std::move(strides);
        o.data = bytes.data() + first;
    }
    py::buffer buffer() { return py::buffer{py::object{py::handle{&o}, py::borrowed_t{}}}; }
    void released() const { CHECK(o.refs == 1 && o.views == 0, "a buffer is not released"); }
};
// What was thrown, if anything.
enum class Got { value, invalid, python, cast, other };
template<typename F>
Got got(F f)
{
    try {
        f();
        return Got::value;
    }
    catch (const std::invalid_argument &) {
        return Got::invalid;
    }
    catch (const py::error_already_set &) {
        return Got::python;
    }
    catch (const py::cast_error &) {
        return Got::cast;
    }
    catch (...) {
        return Got::other;
    }
}
const std::byte *bytes_of(Device_array_span s)
{
    return static_cast<const std::byte *>(s.data());
}

void format_to_type()
{
    // Every format of up to two characters and every size of item.
    const std::size_t n = pick("length", 0, 3);
    std::string f;
    for (std::size_t i = 0; i < n; i++)
        f.push_back(static_cast<char>(sym_range("format", 1, 127)));
    const std::size_t size = std::size_t{1} << pick("size", 0, 3);
    if (n == 1 || n == 2)
        mlse_assume(f[n - 1] != 'O');
    Exporter e{f, size, {1}, {static_cast<Py_ssize_t>(size)}, size, 0};
    for (auto &b : e.bytes)
        b = static_cast<std::byte>(sym<std::uint8_t>("byte"));
    std::optional<Data_type> expected;
    if (n == 1)
        expected = type_of(static_cast<char>(mlse_concretize(static_cast<std::uint64_t>(f[0]))), size);
    else if (n == 2 && (f[0] == '@' || f[0] == '='))
        expected = type_of(static_cast<char>(mlse_concretize(static_cast<std::uint64_t>(f[1]))), size);
    const bool copy = sym_bool("copy");
    Intrusive_ptr<Dense_tensor> t;
    auto g = got([&] {
        t = std::any_cast<Intrusive_ptr<Dense_tensor>>(call("DenseTensor", "__init__", {}, {{"shape", Size_vector{1}}, {"data", e.buffer()}, {"copy", copy}}));
    });
    CHECK(g == (expected ? Got::value : Got::invalid), "a format is taken or refused that should not");
    if (expected) {
        CHECK(t->data_type() == *expected, "a format gives another data type");
        CHECK(!std::memcmp(bytes_of(t->data()), e.bytes.data(), size), "an element has another value");
        t = nullptr;
        mlse_reach("format");
    }
    e.released();
    mlse_reach("buffer");
}

// Any layout: what the elements are, and who keeps what.
void layouts()
{
    static const char formats[] = {'b', 'H', 'f', 'q'};
    const std::size_t k = pick("format", 0, 3), size = std::size_t{1} << k;
    const std::size_t rank = pick("rank", 0, 2), limit = P("dim", 2);
    Size_vector shape;
    std::vector<Py_ssize_t> dims, strides(rank);
    std::size_t count = 1;
    for (std::size_t i = 0; i < rank; i++) {
        shape.push_back(pick("dimension", 0, limit));
        dims.push_back(static_cast<Py_ssize_t>(shape.back()));
        count *= shape.back();
    }
    // Each dimension goes over the others, in either order, with or without
    // gaps, forwards or backwards.
    const bool columns = rank == 2 && sym_bool("columns");
    std::size_t step = size, first = 0;
    for (std::size_t i = 0; i < rank; i++) {
        const std::size_t d = columns ? i : rank - 1 - i;
        step *= pick("gap", 1, 2);
        strides[d] = static_cast<Py_ssize_t>(step);
        if (sym_bool("backwards")) {
            strides[d] = -strides[d];
            if (shape[d] > 0)
                first += step * (shape[d] - 1);
        }
        step *= shape[d] ? shape[d] : 1;
    }
    const std::size_t total = step > size ? step : size;
    Exporter e{std::string(1, formats[k]), size, dims, strides, total, count ? first : 0};
    e.o.readonly = sym_bool("read-only");
    for (auto &b : e.bytes)
        b = static_cast<std::byte>(sym<std::uint8_t>("byte"));
    Py_buffer v{};
    CHECK(PyObject_GetBuffer(&e.o, &v, PyBUF_STRIDES | PyBUF_FORMAT) == 0, "no buffer");
    const bool by_columns = PyBuffer_IsContiguous(&v, 'F') && !PyBuffer_IsContiguous(&v, 'C'), contiguous = PyBuffer_IsContiguous(&v, 'A');
    PyBuffer_Release(&v);
    const bool copy = sym_bool("copy");
    // The elements, in the order in which the tensor has them.
    std::vector<std::byte> expected;
    for (std::size_t i = 0; i < count; i++) {
        std::size_t r = i;
        Py_ssize_t o = 0;
        for (std::size_t j = 0; j < rank; j++) {
            const std::size_t d = by_columns ? j : rank - 1 - j;
            o += static_cast<Py_ssize_t>(r % shape[d]) * strides[d];
            r /= shape[d];
        }
        auto *p = static_cast<std::byte *>(e.o.data) + o;
        expected.insert(expected.end(), p, p + size);
    }
    Named n{{"shape", Size_vector{count}}, {"data", e.buffer()}};
    if (!copy)
        n["copy"] = false;
    const bool sparse = sym_bool("sparse");
    Intrusive_ptr<Dense_tensor> t;
    Intrusive_ptr<Coo_tensor> c;
    auto g = got([&] {
        if (sparse) {
            // The coordinates come from the same buffer.
            n["coords"] = std::vector<py::buffer>{e.buffer()};
            c = std::any_cast<Intrusive_ptr<Coo_tensor>>(call("CooTensor", "__init__", {}, n));
        }
        else
            t = std::any_cast<Intrusive_ptr<Dense_tensor>>(call("DenseTensor", "__init__", {}, n));
    });
    n.clear();
    if (copy) {
        CHECK(g == Got::value, "a buffer cannot be copied");
        e.released();
    }
    else if (e.o.readonly)
        CHECK(g == Got::python, "a tensor shares memory that is read-only");
    else if (!contiguous)
        CHECK(g == Got::invalid, "a tensor shares memory that is not contiguous");
    else
        CHECK(g == Got::value, "a buffer cannot be shared");
    PyErr_Clear();
    if (g == Got::value) {
        auto look = [&](Device_array_span d) {
            CHECK(d.size() == count, "a tensor has another number of elements");
            if (!copy && count) {
                CHECK(d.data() == e.o.data, "the memory is not shared");
                CHECK(e.o.views == (sparse ? 2 : 1), "shared memory is not kept");
            }
            if (copy)
                for (auto &b : e.bytes)
                    b = std::byte{};
            CHECK(std::equal(expected.begin(), expected.end(), bytes_of(d)), "an element has another value");
        };
        if (sparse) {
            look(c->data());
            CHECK(std::equal(expected.begin(), expected.end(), bytes_of(c->indices(0))), "an index has another value");
        }
        else
            look(t->data());
        mlse_reach(copy ? "copied" : "shared");
        if (copy && !contiguous)
            mlse_reach("strided");
    }
    t = nullptr;
    c = nullptr;
    e.released();
}

// Texts.
void objects()
{
    const std::size_t n = pick("size", 0, P("dim", 3));
    const bool spread = sym_bool("spread");
    Exporter e{"O", 8, {static_cast<Py_ssize_t>(n)}, {spread ? 16 : 8}, 16 * n + 8, 0};
    const long before = mlse_py::objects;
    std::vector<PyObject *> o;
    std::vector<std::string> texts;
    bool text = true;
    for (std::size_t i = 0; i < n; i++) {
        auto *x = mlse_py::make();
        if (sym_bool("text")) {
            texts.push_back(some<std::string>("characters"));
            x->text = texts.back();
        }
        else
            text = false;
        o.push_back(x);
        std::memcpy(e.bytes.data() + i * (spread ? 16 : 8), &x, 8);
    }
    const bool copy = sym_bool("copy");
    Intrusive_ptr<Dense_tensor> t;
    auto g = got([&] {
        t = std::any_cast<Intrusive_ptr<Dense_tensor>>(call("DenseTensor", "__init__", {}, {{"shape", Size_vector{n}}, {"data", e.buffer()}, {"copy", copy}}));
    });
    e.released();
    for (auto *x : o) {
        CHECK(x->refs == 1, "an object is not released");
        mlse_py::dec(x);
    }
    CHECK(mlse_py::objects == before, "an object is not released");
    CHECK(g == (!copy ? Got::invalid : text ? Got::value : Got::cast), "objects are taken or refused that should not");
    if (g == Got::value) {
        CHECK(t->data_type() == Data_type::string && t->data().size() == n, "texts give another tensor");
        auto s = t->data().as<std::string>();
        for (std::size_t i = 0; i < n; i++)
            CHECK(s[i] == texts[i], "a text differs");
        mlse_reach("texts");
    }
}

template<Data_type dt>
struct Make_op {
    std::unique_ptr<Device_array> operator()(std::size_t n)
    {
        std::vector<data_type_t<dt>> v(n);
        return wrap_cpu_array<dt>(std::move(v));
    }
};

// From tensors to buffers.
void exported()
{
    const auto dt = static_cast<Data_type>(pick("type", 0, 12));
    const std::size_t rank = pick("rank", 1, 2);
    Size_vector shape;
    std::size_t count = 1;
    for (std::size_t i = 0; i < rank; i++) {
        shape.push_back(pick("dimension", 1, P("dim", 2)));
        count *= shape.back();
    }
    Ssize_vector strides;
    if (rank == 2 && sym_bool("columns"))
        strides = {1, static_cast<std::ptrdiff_t>(shape[0])};
    auto array = dispatch<Make_op>(dt, count);
    const bool text = dt == Data_type::string;
    bool valid = true;
    std::vector<std::string> texts;
    if (text) {
        Device_array_span d{*array};
        for (auto &s : d.as<std::string>()) {
            s = sym_bool("valid") ? some<std::string>("characters") : std::string{"\xff"};
            valid = valid && s[0] != '\xff';
            texts.push_back(s);
        }
    }
    const void *where = Device_array_span{*array}.data();
    auto t = make_intrusive<Dense_tensor>(shape, std::move(array), strides);
    const long before = mlse_py::objects;
    {
        auto o = py::cast(*t);
        Py_buffer v{}, w{};
        const int r = PyObject_GetBuffer(o.ptr(), &v, PyBUF_STRIDES | PyBUF_FORMAT | (sym_bool("writable") ? PyBUF_WRITABLE : 0));
        if (text && !valid) {
            CHECK(PyErr_Occurred() && PyErr_Occurred() != PyExc_TypeError, "a text that is no UTF-8 gives no error");
            if (r == 0)
                PyBuffer_Release(&v);
            PyErr_Clear();
            // Nor does asking again help.
            const int q = PyObject_GetBuffer(o.ptr(), &w, PyBUF_STRIDES | PyBUF_FORMAT);
            CHECK(PyErr_Occurred(), "a text that is no UTF-8 gives no error");
            PyErr_Clear();
            if (q == 0)
                PyBuffer_Release(&w);
            mlse_reach("not UTF-8");
        }
        else {
            CHECK(r == 0 && !PyErr_Occurred(), "a tensor gives no buffer");
            CHECK(static_cast<std::size_t>(v.itemsize) == size_of(dt), "an item has another size");
            const auto as = std::strlen(v.format) == 1 ? type_of(v.format[0], size_of(dt)) : std::nullopt;
            CHECK(as == dt || (dt == Data_type::size && (v.format[0] == 'q' || v.format[0] == 'Q' || v.format[0] == 'L')), "a tensor has another format");
            CHECK(static_cast<std::size_t>(v.ndim) == rank, "a buffer has another number of dimensions");
            for (std::size_t i = 0; i < rank; i++) {
                CHECK(v.shape[i] == static_cast<Py_ssize_t>(shape[i]), "a buffer has another shape");
                CHECK(v.strides[i] == t->strides()[i] * v.itemsize, "a buffer has other strides");
            }
            if (text) {
                auto **p = static_cast<PyObject **>(v.buf);
                for (std::size_t i = 0; i < count; i++)
                    CHECK(p[i]->text == texts[i], "a text differs");
                mlse_reach("text");
            }
            else {
                CHECK(v.buf == where, "a buffer is somewhere else");
                mlse_reach("exported");
            }
            // The tensor stays as long as the buffer.
            t = nullptr;
            PyBuffer_Release(&v);
        }
    }
    t = nullptr;
    CHECK(mlse_py::objects == before, "an object is not released");
}

struct Named_store : Data_store {
    explicit Named_store(std::string id) : id_{std::move(id)} {}
    Intrusive_ptr<Input_stream> open_read() const override { return {}; }
    std::string repr() const override { return "<" + id_ + ">"; }
    const std::string &id() const override { return id_; }
    std::string id_;
};

// Schemas, stores and kinds of devices as Python sees them.
void more_things()
{
    auto text = [](const std::any &a) { return std::any_cast<std::string>(a); };
    // ==, != and hash() as in C++
    auto alike = [](const char *cls, auto *a, auto *b, std::size_t hash) {
        CHECK(std::any_cast<bool>(call(cls, "__eq__", {a, b})) == (*a == *b), "== differs from C++");
        CHECK(std::any_cast<bool>(call(cls, "__eq__", {a, a})), "== differs from C++");
        CHECK(std::any_cast<std::size_t>(call(cls, "__hash__", {a})) == hash, "hash() differs from C++");
        mlse_reach(*a == *b ? "equal" : "different");
    };
    const auto what = pick("what", 0, 2);
    if (what == 0) {
        auto attributes = [] {
            std::vector<Attribute> as;
            static const char *const names[] = {"a", "b", "cc"};
            for (std::size_t i = 0, n = pick("attributes", 0, 2); i < n; i++)
                as.emplace_back(names[i + pick("name", 0, 1)], static_cast<Data_type>(pick("type", 1, 2)), Size_vector{1});
            return as;
        };
        const auto as = attributes(), bs = attributes();
        auto unique = [](const auto &v) { return v.size() < 2 || v[0].name() != v[1].name(); };
        std::shared_ptr<Schema> a;
        auto g = got([&] { a = std::any_cast<std::shared_ptr<Schema>>(call("Schema", "__init__", {}, {{"attrs", as}})); });
        CHECK(unique(as) == (g == Got::value), "a schema is taken or refused that should not");
        if (!a || !unique(bs))
            return;
        Schema b{bs};
        CHECK(std::any_cast<std::vector<Attribute>>(get("Schema", "attributes", a.get())) == as, "a schema has other attributes");
        CHECK(text(call("Schema", "__repr__", {a.get()})) == Schema{as}.repr(), "repr() differs from C++");
        alike("Schema", a.get(), &b, std::hash<Schema>{}(*a));
        if (!as.empty()) {
            Attribute x = as[0];
            CHECK(text(call("Attribute", "__repr__", {&x})) == x.repr(), "repr() differs from C++");
        }
    }
    else if (what == 1) {
        auto a = make_intrusive<Named_store>(some<std::string>("id")), b = make_intrusive<Named_store>(some<std::string>("id"));
        auto *p = static_cast<Data_store *>(a.get());
        CHECK(text(get("DataStore", "id", p)) == a->id_, "a store has another name");
        CHECK(text(call("DataStore", "__repr__", {p})) == a->repr(), "repr() differs from C++");
        alike("DataStore", p, static_cast<Data_store *>(b.get()), std::hash<Data_store>{}(*a));
    }
    else {
        auto k = std::any_cast<Device_kind>(get("DeviceKind", "cpu", py::object{}));
        CHECK(k == Device_kind::cpu(), "another kind of device");
        CHECK(std::any_cast<std::string_view>(get("DeviceKind", "name", &k)) == k.name(), "a kind of device has another name");
        CHECK(text(call("DeviceKind", "__repr__", {&k})) == k.repr(), "repr() differs from C++");
        Device_kind other{sym_bool("other") ? "xyz" : "cpu"};
        alike("DeviceKind", &k, &other, std::hash<Device_kind>{}(k));
        Device d{other, pick("number", 0, 2)};
        CHECK(std::any_cast<Device_kind>(get("Device", "kind", &d)) == other, "a device is of another kind");
        CHECK(text(call("Device", "__repr__", {&d})) == d.repr(), "repr() differs from C++");
    }
}

// What Python does to a stream arrives at the stream.
struct Watched_stream : Input_stream {
    std::size_t read(Mutable_memory_span) override { return 0; }
    Memory_slice read(std::size_t n) override
    {
        asked = n;
        return slice;
    }
    void seek(std::size_t p) override { at = p; }
    void close() noexcept override { open = false; }
    std::size_t size() const override { return size_; }
    std::size_t position() const override { return at; }
    bool closed() const noexcept override { return !open; }
    bool seekable() const noexcept override { return seeks; }
    bool supports_zero_copy() const noexcept override { return zero; }
    Memory_slice slice{};
    std::size_t asked = 0, at = 1, size_ = 0;
    bool open = true, seeks = false, zero = false;
};

void streams()
{
    static std::byte bytes[3];
    auto s = make_intrusive<Watched_stream>();
    auto *p = static_cast<Input_stream *>(s.get());
    s->slice = Memory_slice{make_intrusive<External_memory_block>(bytes, sizeof(bytes))};
    s->size_ = sym<std::size_t>("size");
    s->seeks = sym_bool("seekable");
    s->zero = sym_bool("zero-copy");
    auto flag = [&](const char *n) { return std::any_cast<bool>(get("InputStream", n, p)); };
    CHECK(flag("seekable") == s->seeks, "seekable differs");
    CHECK(flag("supports_zero_copy") == s->zero, "supports_zero_copy differs");
    CHECK(!flag("closed"), "a stream is closed");
    CHECK(std::any_cast<std::size_t>(get("InputStream", "size", p)) == s->size_, "the size differs");
    for (std::size_t i = P("steps", 2); i; i--) {
        const auto n = sym<std::size_t>("number");
        switch (pick("call", 0, 4)) {
        case 0:
            CHECK(std::any_cast<Memory_slice>(call("InputStream", "read", {p, n})).begin() == s->slice.begin() && s->asked == n, "another number of bytes is read");
            mlse_reach("read");
            break;
        case 1:
            call("InputStream", "seek", {p}, {{"position", n}});
            CHECK(s->at == n && s->open, "a stream is somewhere else");
            break;
        case 2:
            call("InputStream", "close", {p});
            CHECK(!s->open, "a stream is not closed");
            break;
        case 3: CHECK(std::any_cast<Input_stream *>(call("InputStream", "__enter__", {p})) == p && s->open, "a stream is another one"); break;
        default:
            call("InputStream", "__exit__", {p, py::args{}});
            CHECK(!s->open, "a stream is not closed");
            mlse_reach("closed");
        }
        CHECK(std::any_cast<std::size_t>(get("InputStream", "position", p)) == s->at, "the position differs");
        CHECK(flag("closed") == !s->open, "closed differs");
        s->open = true;
    }
}

// What a tensor is made of.
void shapes()
{
    const std::size_t rank = pick("rank", 1, 2);
    Size_vector shape;
    std::size_t count = 1;
    for (std::size_t i = 0; i < rank; i++) {
        shape.push_back(pick("dimension", 1, P("dim", 2)));
        count *= shape.back();
    }
    auto tuples = [](const char *name, Tensor *t) { return std::any_cast<py::tuple>(get("Tensor", name, t)); };
    Exporter e{"i", 4, {static_cast<Py_ssize_t>(count)}, {4}, count * 4, 0}, x{"Q", 8, {1}, {8}, 8, 0}, y{"Q", 8, {1}, {8}, 8, 0}, z{"h", 2, {1}, {2}, 2, 0};
    if (sym_bool("sparse")) {
        x.bytes[0] = static_cast<std::byte>(sym<std::uint8_t>("row"));
        y.bytes[0] = static_cast<std::byte>(sym<std::uint8_t>("column"));
        Named n{{"shape", shape}, {"data", z.buffer()}, {"coords", rank == 1 ? std::vector<py::buffer>{x.buffer()} : std::vector<py::buffer>{x.buffer(), y.buffer()}}};
        if (sym_bool("not copied"))
            n["copy"] = false;
        auto t = std::any_cast<Intrusive_ptr<Coo_tensor>>(call("CooTensor", "__init__", {}, n));
        n.clear();
        CHECK(t->data_type() == Data_type::int16 && std::any_cast<Data_type>(get("Tensor", "data_type", static_cast<Tensor *>(t.get()))) == Data_type::int16, "a tensor is of another type");
        CHECK(t->shape() == shape && tuples("shape", t.get()).cast<Size_vector>() == shape, "a tensor has another shape");
        CHECK(tuples("strides", t.get()).cast<Ssize_vector>() == t->strides(), "a tensor has other strides");
        CHECK(std::any_cast<std::string>(call("Tensor", "__repr__", {static_cast<Tensor *>(t.get())})) == t->repr(), "repr() differs from C++");
        CHECK(bytes_of(t->indices(0))[0] == x.bytes[0] && (rank == 1 || bytes_of(t->indices(1))[0] == y.bytes[0]), "a coordinate differs");
        const std::size_t dim = pick("dim", 0, 2);
        auto look = [&](const std::any &o, Device_array_span d) {
            auto h = std::any_cast<py::object>(o);
            auto a = h.ptr()->self(h.ptr()->value.get());
            CHECK(std::any_cast<std::size_t>(get("DeviceArray", "size", a)) == d.size(), "an array has another size");
            CHECK(std::any_cast<Data_type>(get("DeviceArray", "data_type", a)) == d.data_type(), "an array is of another type");
            CHECK(std::any_cast<Device>(get("DeviceArray", "Device", a)) == d.device(), "an array is elsewhere");
        };
        look(get("CooTensor", "data", t.get()), t->data());
        std::any o;
        auto g = got([&] { o = call("CooTensor", "indices", {t.get()}, {{"dim", dim}}); });
        CHECK(g == (dim < rank ? Got::value : Got::other) || (dim >= rank && g == Got::invalid), "indices are there or are not");
        if (dim < rank)
            look(o, t->indices(dim));
        mlse_reach("sparse");
    }
    else {
        Named n{{"shape", shape}, {"data", e.buffer()}};
        Ssize_vector strides;
        const bool given = sym_bool("strides"), turned = rank == 2 && sym_bool("columns");
        if (rank == 2)
            strides = turned ? Ssize_vector{1, static_cast<std::ptrdiff_t>(shape[0])} : Ssize_vector{static_cast<std::ptrdiff_t>(shape[1]), 1};
        else
            strides = {1};
        if (given)
            n["strides"] = strides;
        if (sym_bool("not copied"))
            n["copy"] = false;
        auto t = std::any_cast<Intrusive_ptr<Dense_tensor>>(call("DenseTensor", "__init__", {}, n));
        n.clear();
        CHECK(std::any_cast<Data_type>(get("Tensor", "data_type", static_cast<Tensor *>(t.get()))) == Data_type::int32, "a tensor is of another type");
        CHECK(t->shape() == shape && tuples("shape", t.get()).cast<Size_vector>() == shape, "a tensor has another shape");
        CHECK(tuples("strides", t.get()).cast<Ssize_vector>() == t->strides(), "a tensor has other strides");
        CHECK(std::any_cast<std::string>(call("Tensor", "__repr__", {static_cast<Tensor *>(t.get())})) == t->repr(), "repr() differs from C++");
        if (given || !turned)
            CHECK(t->strides() == strides, "a tensor has other strides");
        mlse_reach(given ? "strided" : "dense");
    }
    e.released();
    x.released();
    y.released();
    z.released();
}

// Blocks of memory.
void blocks()
{
    const std::size_t n = pick("size", 0, 4);
    std::vector<std::byte> bytes;
    for (std::size_t i = 0; i < n; i++)
        bytes.push_back(static_cast<std::byte>(sym<std::uint8_t>("byte")));
    const std::size_t step = pick("step", 1, 2);
    Exporter e{"B", 1, {static_cast<Py_ssize_t>(n)}, {static_cast<Py_ssize_t>(step)}, n * step + 1, 0};
    e.o.readonly = sym_bool("read-only");
    for (std::size_t i = 0; i < n; i++)
        e.bytes[i * step] = bytes[i];
    const bool spread = step > 1 && n > 1;
    if (sym_bool("store")) {
        // A store reads what is in the buffer, and keeps it.
        Intrusive_ptr<In_memory_store> s;
        const auto c = a_compression();
        auto g = got([&] {
            s = std::any_cast<Intrusive_ptr<In_memory_store>>(call("InMemoryStore", "__init__", {}, {{"buf", e.buffer()}, {"compression", c}}));
        });
        PyErr_Clear();
        CHECK(g == (spread ? Got::python : c == Compression::infer ? Got::other : Got::value), "a buffer is taken or refused that should not");
        if (g == Got::value) {
            CHECK(e.o.views == 1, "a store does not keep its buffer");
            if (c == Compression::none) {
                auto in = s->open_read();
                s = nullptr;
                CHECK(e.o.views == 1, "a stream does not keep its buffer");
                auto out = in->read(100);
                CHECK(out.size() == n && std::equal(bytes.begin(), bytes.end(), out.begin()), "a store reads something else");
                mlse_reach("stored");
            }
        }
        s = nullptr;
        e.released();
        return;
    }
    // A stream fills a buffer.
    const std::size_t there = pick("there", 0, 4);
    std::vector<std::byte> data;
    for (std::size_t i = 0; i < there; i++)
        data.push_back(static_cast<std::byte>(sym<std::uint8_t>("data")));
    Memory_input_stream in{Memory_slice{make_intrusive<External_memory_block>(data.data(), there)}};
    const auto was = e.bytes;
    std::size_t read = 0;
    auto g = got([&] { read = std::any_cast<std::size_t>(call("InputStream", "read", {static_cast<Input_stream *>(&in), e.buffer()})); });
    PyErr_Clear();
    CHECK(g == (e.o.readonly || spread ? Got::python : Got::value), "a buffer is taken or refused that should not");
    if (g == Got::value) {
        CHECK(read == std::min(n, there), "another number of bytes is read");
        for (std::size_t i = 0; i < e.bytes.size(); i++)
            CHECK(e.bytes[i] == (i < read ? data[i] : was[i]), "another byte is read");
        CHECK(std::any_cast<std::size_t>(get("InputStream", "position", static_cast<Input_stream *>(&in))) == read, "the position differs");
        CHECK(std::any_cast<std::size_t>(get("InputStream", "size", static_cast<Input_stream *>(&in))) == there, "the size differs");
        mlse_reach("read");
    }
    else
        CHECK(e.bytes == was && in.position() == 0, "a refused buffer changes");
    e.released();
}

// Slices of memory, and capsules.
void views()
{
    const std::size_t n = pick("size", 0, 4), from = pick("from", 0, n);
    auto block = make_intrusive<Heap_memory_block>(n);
    auto *p = block->data();
    std::vector<std::byte> bytes;
    for (std::size_t i = 0; i < n; i++) {
        bytes.push_back(static_cast<std::byte>(sym<std::uint8_t>("byte")));
        p[i] = bytes.back();
    }
    Memory_slice slice = Memory_slice{std::move(block)}.subslice(from);
    Py_buffer v{};
    if (sym_bool("record")) {
        const auto kind = static_cast<Record_kind>(pick("kind", 0, 3));
        auto o = py::instance(std::make_shared<Record>(std::move(slice), kind));
        CHECK(std::any_cast<Record_kind>(get("Record", "kind", o.ptr()->self(o.ptr()->value.get()))) == kind, "a record is of another kind");
        CHECK(PyObject_GetBuffer(o.ptr(), &v, PyBUF_STRIDES | PyBUF_FORMAT) == 0, "no buffer");
    }
    else {
        auto o = py::instance(std::make_shared<Memory_slice>(std::move(slice)));
        CHECK(PyObject_GetBuffer(o.ptr(), &v, PyBUF_STRIDES | PyBUF_FORMAT) == 0, "no buffer");
    }
    CHECK(v.len == static_cast<Py_ssize_t>(n - from) && v.itemsize == 1 && v.ndim == 1 && v.format[0] == 'B' && v.strides[0] == 1, "a view of bytes has another form");
    for (std::size_t i = 0; i < n - from; i++)
        CHECK(static_cast<std::byte *>(v.buf)[i] == bytes[from + i], "a view has other bytes");
    PyBuffer_Release(&v);
    mlse_reach("view");
}

// ---- Y03: errors

constexpr std::size_t kinds = 13;
const char *const class_names[kinds] = {"MLIOError", "StreamError", "InflateError", "RecordError", "CorruptRecordError", "CorruptHeaderError", "CorruptFooterError",
                                        "RecordTooLargeError", "DataReaderError", "SchemaError", "InvalidInstanceError", "NotSupportedError", "OSError"};
const char *const bases[kinds] = {"RuntimeError", "MLIOError", "StreamError", "MLIOError", "RecordError", "CorruptRecordError", "CorruptRecordError",
                                  "RecordError", "MLIOError", "DataReaderError", "DataReaderError", "MLIOError", nullptr};
struct Link {
    std::size_t kind;
    std::string text;
    int code;
};
[[noreturn]] void raise(const std::vector<Link> &c, std::size_t i)
{
    const bool last = i + 1 == c.size();
    auto go = [last](auto e) {
        if (last)
            throw e;
        std::throw_with_nested(e);
    };
    auto one = [&] {
        const auto &t = c[i].text;
        switch (c[i].kind) {
        case 0: go(Mlio_error{t}); break;
        case 1: go(Stream_error{t}); break;
        case 2: go(Inflate_error{t}); break;
        case 3: go(Record_error{t}); break;
        case 4: go(Corrupt_record_error{t}); break;
        case 5: go(Corrupt_header_error{t}); break;
        case 6: go(Corrupt_footer_error{t}); break;
        case 7: go(Record_too_large_error{t}); break;
        case 8: go(Data_reader_error{t}); break;
        case 9: go(Schema_error{t}); break;
        case 10: go(Invalid_instance_error{t}); break;
        case 11: go(Not_supported_error{t}); break;
        default: go(std::system_error{std::error_code{c[i].code, std::generic_category()}, t}); break;
        }
    };
    if (last)
        one();
    else
        try {
            raise(c, i + 1);
        }
        catch (...) {
            one();
        }
    std::abort();
}

void errors()
{
    const std::size_t n = pick("length", 1, P("length", 3));
    std::vector<Link> c;
    for (std::size_t i = 0; i < n; i++)
        c.push_back({pick("kind", 0, kinds - 1), std::string(1, static_cast<char>('a' + i)), static_cast<int>(pick("code", 1, 3))});
    CHECK(py::translators().size() == 1, "no translator");
    const long before = mlse_py::objects;
    bool escaped = false;
    try {
        try {
            raise(c, 0);
        }
        catch (...) {
            py::translators()[0](std::current_exception());
        }
    }
    catch (...) {
        escaped = true;
    }
    CHECK(!escaped, "an error is not translated");
    CHECK(PyErr_Occurred() && mlse_py::error_value, "no error is set");
    CHECK(mlse_py::error_value->of == PyErr_Occurred(), "an error is of another class than it says");
    auto *e = mlse_py::error_value;
    for (std::size_t i = 0; i < n; i++, e = e->cause) {
        CHECK(e, "a cause is missing");
        CHECK(e->of && e->of->text == class_names[c[i].kind], "an error is of another class");
        CHECK(e->refs == 1, "an error is kept or released too often");
        const bool system = c[i].kind == kinds - 1;
        CHECK(e->args.size() == (system ? 2 : 1), "an error has other arguments");
        if (system)
            CHECK(std::any_cast<int>(e->args[0]) == c[i].code, "an error has another number");
        else
            CHECK(std::any_cast<std::string>(e->args[0]) == c[i].text, "an error has another text");
        if (!system) {
            CHECK(e->of->base && e->of->base->text == bases[c[i].kind], "a class is derived from another");
            mlse_reach("class");
        }
    }
    CHECK(!e, "there is another cause");
    PyErr_Clear();
    // The first error goes with its causes.
    CHECK(mlse_py::objects == before, "an error is not released");
    mlse_reach("chain");
}

// ---- Y04: examples and iteration

Intrusive_ptr<Tensor> a_tensor(long *alive)
{
    struct Block {
        std::vector<std::int32_t> v;
        long *alive;
        using value_type = std::int32_t;
        explicit Block(long *a) : v(1), alive{a} { ++*alive; }
        Block(Block &&o) noexcept : v(std::move(o.v)), alive{o.alive} { o.alive = nullptr; }
        ~Block()
        {
            if (alive)
                --*alive;
        }
        std::int32_t *data() { return v.data(); }
        const std::int32_t *data() const { return v.data(); }
        std::size_t size() const { return v.size(); }
        bool empty() const { return v.empty(); }
        auto begin() const { return v.begin(); }
        auto end() const { return v.end(); }
    };
    return make_intrusive<Dense_tensor>(Size_vector{1}, wrap_cpu_array<Data_type::int32>(Block{alive}));
}
using Features = std::vector<Intrusive_ptr<Tensor>>;

void examples()
{
    static long alive = 0;
    const std::size_t n = pick("features", 0, 3);
    std::vector<Attribute> attributes;
    Features features;
    const char *const names[] = {"a", "bb", ""};
    for (std::size_t i = 0; i < n; i++) {
        features.push_back(a_tensor(&alive));
        attributes.emplace_back(names[i], Data_type::int32, Size_vector{1});
    }
    const auto kept = features;
    auto schema = make_intrusive<Schema>(std::move(attributes));
    auto made = std::any_cast<std::shared_ptr<Example>>(
        call("Example", "__init__", {}, {{"schema", Intrusive_ptr<const Schema>{schema}}, {"features", std::move(features)}}));
    Example *e = made.get();
    CHECK(std::any_cast<std::size_t>(call("Example", "__len__", {e})) == n, "an example has another length");
    const std::size_t i = sym<std::size_t>("index");
    CHECK(std::any_cast<bool>(call("Example", "__contains__", {e, i})) == (i < n), "an index is or is not there");
    auto index = [&](std::any key) -> Intrusive_ptr<Tensor> {
        try {
            return std::any_cast<Intrusive_ptr<Tensor>>(call("Example", "__getitem__", {e, key}));
        }
        catch (const py::key_error &) {
            return nullptr;
        }
    };
    auto f = index(i);
    if (i < n)
        CHECK(f == kept[mlse_concretize(i)], "an index gives another feature");
    else
        CHECK(!f, "an index gives a feature that is not there");
    std::string name;
    const std::size_t len = pick("name", 0, 2);
    for (std::size_t k = 0; k < len; k++)
        name.push_back(static_cast<char>(mlse_concretize(sym_range("character", 'a', 'b'))));
    std::optional<std::size_t> at;
    for (std::size_t k = 0; k < n; k++)
        if (name == names[k])
            at = k;
    CHECK(std::any_cast<bool>(call("Example", "__contains__", {e, name})) == at.has_value(), "a name is or is not there");
    CHECK(std::any_cast<std::optional<std::size_t>>(call("Schema", "get_index", {schema.get()}, {{"name", name}})) == at, "a name has another index");
    f = index(name);
    if (at)
        CHECK(f == kept[*at], "a name gives another feature");
    else
        CHECK(!f, "a name gives a feature that is not there");
    const std::size_t padding = sym<std::size_t>("padding");
    set("Example", "padding", e, padding);
    CHECK(e->padding == padding && std::any_cast<std::size_t>(get("Example", "padding", e)) == padding, "the padding differs");
    mlse_reach("example");
}

// The iterator of an example that nothing else refers to any more.
void iterated()
{
    static long alive = 0;
    const std::size_t n = pick("features", 0, 3);
    std::vector<Attribute> attributes;
    Features features;
    std::vector<Tensor *> tensors;
    for (std::size_t i = 0; i < n; i++) {
        features.push_back(a_tensor(&alive));
        tensors.push_back(features.back().get());
        attributes.emplace_back(std::string(i + 1, 'a'), Data_type::int32, Size_vector{1});
    }
    Intrusive_ptr<Example> e = make_intrusive<Example>(make_intrusive<Schema>(std::move(attributes)), std::move(features));
    auto &functions = py::bound()["Example"].functions["__iter__"];
    CHECK(functions.size() == 1, "an example cannot be iterated");
    Intrusive_ptr<Example> keep;
    if (functions[0].keeps)
        keep = e;
    // As the object that Python has.
    auto *raw = e.get();
    auto o = py::instance(std::shared_ptr<Example>{raw, [e](Example *) {}});
    e = nullptr;
    std::any it;
    try {
        it = functions[0]({o.ptr()->self(raw)});
    }
    catch (const py::cast_error &) {
        it = functions[0]({o});
    }
    o = {};
    const std::size_t drop = pick("steps", 0, n);
    for (std::size_t i = 0; i < n && i < drop; i++) {
        std::any x;
        if (auto *p = std::any_cast<py::iterator>(&it))
            x = p->next();
        else
            x = call(py::names()[it.type()].c_str(), "__next__", {it});
        CHECK(x.has_value() && std::any_cast<Intrusive_ptr<Tensor>>(x).get() == tensors[i], "the iteration gives another feature");
        mlse_reach("next");
    }
    if (drop == n && std::any_cast<py::iterator>(&it))
        CHECK(!std::any_cast<py::iterator>(&it)->next().has_value(), "the iteration does not end");
    it.reset();
    keep = nullptr;
    CHECK(alive == 0, "a feature is not released");
    mlse_reach("iterated");
}

// Python must not be locked meanwhile, and is locked again afterwards.
struct Fake_reader final : Data_reader {
    std::vector<Intrusive_ptr<Example>> examples{};
    Intrusive_ptr<const Schema> schema{};
    std::size_t at = 0, fails = 99, resets = 0;
    bool fail_now()
    {
        CHECK(!mlse_py::gil, "Python waits for a data reader");
        return at == fails;
    }
    Intrusive_ptr<Example> read_example() override
    {
        auto e = peek_example();
        at++;
        return e;
    }
    Intrusive_ptr<Example> peek_example() override
    {
        if (fail_now()) {
            at++;
            throw Data_reader_error{"failed"};
        }
        return at < examples.size() ? examples[at] : nullptr;
    }
    Intrusive_ptr<const Schema> read_schema() override
    {
        if (fail_now())
            throw Data_reader_error{"failed"};
        return schema;
    }
    void reset() noexcept override
    {
        CHECK(!mlse_py::gil, "Python waits for a data reader");
        resets++;
        at = 0;
    }
    std::size_t num_bytes_read() const noexcept override { return 7 + at; }
};

void readers()
{
    static long alive = 0;
    auto r = std::make_shared<Fake_reader>();
    const std::size_t n = pick("examples", 0, 2);
    for (std::size_t i = 0; i < n; i++)
        r->examples.push_back(make_intrusive<Example>(make_intrusive<Schema>(std::vector<Attribute>{}), Features{}));
    r->fails = pick("fails", 0, 3);
    r->schema = make_intrusive<Schema>(std::vector<Attribute>{});
    // As DataReader, which is what it is bound as.
    std::shared_ptr<Data_reader> reader = r;
    std::weak_ptr<Data_reader> weak = reader;
    auto o = py::instance(reader);
    Fake_reader *raw = r.get();
    r = nullptr;
    reader = nullptr;
    auto *self = static_cast<Data_reader *>(raw);
    std::any it;
    if (sym_bool("iterate"))
        it = call("DataReader", "__iter__", {static_cast<py::object>(o)});
    if (it.has_value() && sym_bool("drop"))
        o = {};
    const std::size_t steps = P("steps", 4);
    for (std::size_t k = 0; k < steps; k++) {
        const std::size_t what = pick("what", 0, 4);
        const std::size_t at = raw->at;
        const auto expected = at < n ? raw->examples[at] : nullptr;
        Intrusive_ptr<Example> e;
        bool failed = false, stopped = false;
        try {
            if (what == 0)
                e = std::any_cast<Intrusive_ptr<Example>>(call("DataReader", "read_example", {self}));
            else if (what == 1)
                e = std::any_cast<Intrusive_ptr<Example>>(call("DataReader", "peek_example", {self}));
            else if (what == 2 && it.has_value())
                e = std::any_cast<Intrusive_ptr<Example>>(call(py::names()[it.type()].c_str(), "__next__", {it}));
            else if (what == 3) {
                auto s = call("DataReader", "read_schema", {self});
                CHECK(std::any_cast<Intrusive_ptr<const Schema>>(s) == raw->schema, "another schema is returned");
            }
            else
                call("DataReader", "reset", {self});
        }
        catch (const Data_reader_error &) {
            failed = true;
        }
        catch (const py::stop_iteration &) {
            stopped = true;
        }
        CHECK(mlse_py::gil, "the interpreter lock is lost");
        const bool resets = what == 4 || (what == 2 && !it.has_value());
        CHECK(failed == (!resets && at == raw->fails), "an error of a reader is lost");
        if (!failed && what < 3 && !resets) {
            CHECK(e == expected, "another example is returned");
            CHECK(stopped == (what == 2 && !expected), "an iteration ends too early or not at all");
            mlse_reach("read");
        }
        if (resets)
            CHECK(raw->at == 0, "a reader is not reset");
        CHECK(std::any_cast<std::size_t>(get("DataReader", "num_bytes_read", self)) == 7 + raw->at, "another number of bytes is returned");
    }
    it.reset();
    o = {};
    CHECK(weak.expired(), "a reader is not released");
    mlse_reach("reader");
}

struct Fake_records final : Record_reader {
    std::size_t n, at = 0, fails;
    Fake_records(std::size_t n_, std::size_t f) : n{n_}, fails{f} {}
    std::optional<Record> read_record() override
    {
        auto r = peek_record();
        at++;
        return r;
    }
    std::optional<Record> peek_record() override
    {
        CHECK(!mlse_py::gil, "Python waits for a record reader");
        if (at == fails) {
            at++;
            throw Corrupt_record_error{"failed"};
        }
        if (at >= n)
            return {};
        return Record{Memory_slice{make_intrusive<Heap_memory_block>(at + 1)}, Record_kind::complete};
    }
};

void records()
{
    const std::size_t n = pick("records", 0, 3), fails = pick("fails", 0, 4);
    std::shared_ptr<Record_reader> r = std::make_shared<Fake_records>(n, fails);
    std::weak_ptr<Record_reader> weak = r;
    auto o = py::instance(r);
    auto *raw = static_cast<Fake_records *>(r.get());
    r = nullptr;
    auto it = call("RecordReader", "__iter__", {static_cast<py::object>(o)});
    o = {};
    for (std::size_t k = 0; k < 5; k++) {
        const std::size_t at = raw->at;
        const std::size_t what = pick("what", 0, 2);
        bool failed = false, stopped = false;
        std::optional<Record> x;
        try {
            x = std::any_cast<std::optional<Record>>(what == 0 ? call(py::names()[it.type()].c_str(), "__next__", {it}) :
                                                                 call("RecordReader", what == 1 ? "read_record" : "peek_record", {static_cast<Record_reader *>(raw)}));
        }
        catch (const Corrupt_record_error &) {
            failed = true;
        }
        catch (const py::stop_iteration &) {
            stopped = true;
        }
        CHECK(mlse_py::gil, "the interpreter lock is lost");
        CHECK(failed == (at == fails), "an error of a reader is lost");
        if (failed)
            continue;
        CHECK(stopped == (what == 0 && at >= n), "an iteration ends too early or not at all");
        CHECK(x.has_value() == (at < n), "another record is returned");
        if (x) {
            CHECK(x->payload().size() == at + 1, "another record is returned");
            mlse_reach("record");
        }
    }
    it.reset();
    CHECK(weak.expired(), "a reader is not released");
    mlse_reach("records");
}

// Messages arrive at the handler that Python set, from any thread.
void messages()
{
    using H = std::function<void(std::vector<std::any>)>;
    static std::vector<std::pair<Log_level, std::string>> heard;
    const auto level = static_cast<Log_level>(pick("level", 0, 3));
    auto o = py::instance(std::make_shared<H>([](std::vector<std::any> a) {
        CHECK(mlse_py::gil, "Python is called without the interpreter lock");
        CHECK(a.size() == 2, "a handler gets other arguments");
        heard.emplace_back(std::any_cast<Log_level>(a[0]), std::string{std::any_cast<std::string_view>(a[1])});
    }));
    call("_core", "set_log_message_handler", {}, {{"hdl", py::function{o}}});
    CHECK(o.ptr()->refs > 1, "a handler is not kept");
    call("_core", "set_log_level", {}, {{"lvl", level}});
    const bool locked = sym_bool("locked");
    mlse_py::gil = locked;
    logger::warn("warning {0}", "text");
    logger::info("info");
    logger::debug("debug");
    CHECK(mlse_py::gil == locked, "the interpreter lock is lost or taken");
    mlse_py::gil = true;
    const std::size_t n = level == Log_level::off ? 0 : level == Log_level::warning ? 1 : level == Log_level::info ? 2 : 3;
    const Log_level levels[] = {Log_level::warning, Log_level::info, Log_level::debug};
    const char *const texts[] = {"warning text", "info", "debug"};
    CHECK(heard.size() == n, "another number of messages arrives");
    for (std::size_t i = 0; i < n; i++)
        CHECK(heard[i].first == levels[i] && heard[i].second == texts[i], "another message arrives");
    call("_core", "clear_log_message_handler", {});
    logger::warn("nobody hears this");
    CHECK(heard.size() == n, "a message arrives at a handler that is cleared");
    CHECK(o.ptr()->refs == 1, "a handler is not released");
    mlse_reach("messages");
}

}  // namespace

extern "C" void mlse_main()
{
    pymlio::mlse_init__core();
    use_heap();
    switch (mlse_param("mode", 0)) {
    case 0: data_reader_params(); break;
    case 1: csv_params(); break;
    case 2: other_params(); break;
    case 3: stores(); break;
    case 4: enumerations(); break;
    case 5: things(); break;
    case 6: more_things(); break;
    case 7: streams(); break;
    case 10: format_to_type(); break;
    case 11: layouts(); break;
    case 12: objects(); break;
    case 13: exported(); break;
    case 14: blocks(); break;
    case 15: views(); break;
    case 16: shapes(); break;
    case 20: errors(); break;
    case 30: examples(); break;
    case 31: iterated(); break;
    case 32: readers(); break;
    case 33: records(); break;
    case 34: messages(); break;
    default: break;
    }
}
