// D02, R03: what a RecordIO-protobuf reader makes of a dataset.
#include <algorithm>
#include <cstring>
#include <memory>
#include <optional>
#include <stdexcept>
#include <string>
#include <vector>

#include "mlio/cpu_array.h"
#include "mlio/data_reader.h"
#include "mlio/data_reader_error.h"
#include "mlio/data_stores/in_memory_store.h"
#include "mlio/example.h"
#include "mlio/logging.h"
#include "mlio/not_supported_error.h"
#include "mlio/recordio_protobuf_reader.h"
#include "mlio/schema.h"
#include "mlio/tensor.h"

#include "setup.h"
#include "stream.h"

using namespace mlio;

namespace {

std::size_t P(const char *name, long def) { return static_cast<std::size_t>(mlse_param(name, def)); }

bool has(std::size_t mask, std::size_t bit) { return (mask >> bit & 1U) != 0; }

std::size_t warnings;

template<typename F>
int outcome(F &&f)
{
    try {
        f();
        return 0;
    }
    catch (const Schema_error &) {
        return 1;
    }
    catch (const Invalid_instance_error &) {
        return 2;
    }
    catch (const Data_reader_error &) {
        return 3;
    }
    catch (const Not_supported_error &) {
        return 4;
    }
    catch (const std::exception &) {
        return 5;
    }
}

// ---- The protobuf wire format

std::string varint(std::uint64_t v)
{
    std::string s;
    for (; v >= 128; v >>= 7)
        s += static_cast<char>(v | 128);
    s += static_cast<char>(v);
    return s;
}

std::string field(unsigned number, const std::string &s) { return varint(number << 3 | 2) + varint(s.size()) + s; }

// A feature as it is written.
struct Feature {
    int type = 2;    // the number of its field: 2 float32, 3 float64, 7 int32, 9 bytes, 0 none
    std::vector<std::uint64_t> values;    // as bits
    std::vector<std::uint64_t> keys;
    std::vector<std::uint64_t> shape;
};

std::string encode(const Feature &f)
{
    if (f.type == 0)
        return "";
    if (f.type == 9)
        return field(9, field(1, "xy"));
    std::string t, v, k, s;
    for (auto x : f.values)
        if (f.type == 7)
            v += static_cast<char>(x);
        else
            v.append(reinterpret_cast<const char *>(&x), f.type == 2 ? 4 : 8);
    for (auto x : f.keys)
        k += static_cast<char>(x);
    for (auto x : f.shape)
        s += varint(x);
    if (!v.empty())
        t += field(1, v);
    if (!k.empty())
        t += field(2, k);
    if (!s.empty())
        t += field(3, s);
    return field(static_cast<unsigned>(f.type), t);
}

std::string entry(bool label, const std::string &name, const Feature &f)
{
    return field(label ? 2 : 1, field(1, name) + field(2, encode(f)));
}

std::string frame(const std::string &payload, unsigned kind = 0)
{
    std::string s = "\x0a\x23\xd7\xce";
    std::uint32_t h = static_cast<std::uint32_t>(payload.size()) | kind << 29;
    s.append(reinterpret_cast<const char *>(&h), 4);
    s += payload;
    while (s.size() % 4)
        s += '\0';
    return s;
}

// ---- A dataset

struct Column {
    const char *name;
    bool label, sparse;
    int type;
    std::vector<std::uint64_t> shape;
    std::string full() const { return (label ? "label_" : "") + std::string(name); }
    std::size_t size() const
    {
        std::size_t n = 1;
        for (auto d : shape)
            n *= d;
        return n;
    }
};

struct Row {
    bool good = true;
    std::vector<Feature> features;
    std::string message;
};

struct Data {
    std::vector<Column> columns;
    std::vector<Row> rows;
    std::vector<std::string> text{1};
};

std::uint64_t value(int type)
{
    if (type == 2)
        return sym<std::uint32_t>("float32");
    if (type == 3)
        return sym<std::uint64_t>("float64");
    return sym_range("int32", 0, 127);
}

std::vector<Column> columns()
{
    std::vector<Column> c;
    const std::size_t mask = pick("features", 1, 7);
    mlse_assume(has(P("masks", 0xfe), mask));
    if (has(mask, 0)) {
        static const std::vector<std::uint64_t> shapes[] = {{2}, {1, 2}, {2, 2}};
        c.push_back({"d", false, false, 2, shapes[pick("dense shape", 0, P("shapes", 1))]});
    }
    if (has(mask, 1)) {
        static const std::vector<std::uint64_t> shapes[] = {{3}, {2, 2}};
        // Before or behind the dense feature.
        c.push_back({P("early", 0) && sym_bool("sparse first") ? "a" : "s", false, true, 7, shapes[pick("sparse shape", 0, P("shapes", 1) ? 1 : 0)]});
    }
    if (has(mask, 2))
        c.push_back({"l", true, false, 3, {1}});
    return c;
}

// The kinds of instances; every one from 2 on is bad.
enum Kind { plain, other_encoding, missing, unknown, other_type, other_shape, other_sparseness, wrong_count, no_value, bytes, corrupt, twice, num_kinds };

Row make_row(const Data &d)
{
    const bool first = d.rows.empty();
    Row r;
    const std::size_t kind = pick("kind", 0, num_kinds - 1);
    mlse_assume(has(P("kinds", 0xfff), kind) && (!first || kind < 2));
    const std::size_t which = kind == plain || kind == unknown || kind == corrupt ? 0 : pick("which", 0, d.columns.size() - 1);
    r.good = kind < 2;
    for (std::size_t i = 0; i < d.columns.size(); i++) {
        auto &c = d.columns[i];
        const bool here = i == which;
        Feature f;
        f.type = c.type;
        f.shape = c.shape;
        std::size_t n = c.sparse ? pick("values", 0, P("values", 2)) : c.size();
        for (std::size_t k = 0; k < n; k++) {
            f.values.push_back(P("const", 0) ? d.rows.size() * 16 + k + 1 : value(c.type));
            if (c.sparse) {
                auto key = P("const", 0) ? std::uint64_t{k} : sym_range("key", 0, P("max_key", 5));
                if (key >= c.size())
                    r.good = false;
                f.keys.push_back(key);
            }
        }
        if (kind == other_encoding && here) {
            // A vector need not have a shape.
            mlse_assume(!c.sparse && c.shape.size() == 1);
            f.shape.clear();
        }
        if (kind == other_type && here)
            f.type = c.type == 2 ? 3 : 2;
        if (kind == other_shape && here) {
            if (sym_bool("rank"))
                f.shape.push_back(1);
            else if (c.sparse)
                f.shape.back()++;
            else {
                f.shape.back()++;
                while (f.values.size() < c.size() / c.shape.back() * f.shape.back())
                    f.values.push_back(0);
            }
        }
        if (kind == other_sparseness && here) {
            if (c.sparse) {
                f.keys.clear();
                f.values.assign(c.size(), 1);
            }
            else
                f.keys.assign(f.values.size(), 0);
        }
        if (kind == wrong_count && here) {
            if (!c.sparse)
                f.values.pop_back();
            else if (sym_bool("more keys"))
                f.keys.push_back(0);
            else {
                f.values.push_back(1);
                mlse_assume(!f.keys.empty());
            }
            // Nothing at all stands for a sparse feature.
            mlse_assume(c.sparse || !f.values.empty());
        }
        if (kind == no_value && here)
            f.type = 0;
        if (kind == bytes && here)
            f.type = 9;
        if (kind == missing && here)
            continue;
        r.message += entry(c.label, c.name, f);
        r.features.push_back(f);
        if (kind == twice && here) {
            mlse_assume(c.label);
            r.message += entry(false, "label_l", f);
        }
    }
    if (kind == unknown)
        r.message += entry(sym_bool("label"), "z", Feature{2, {0}, {}, {}});
    if (kind == corrupt)
        r.message.pop_back();
    return r;
}

Data dataset()
{
    Data d;
    d.columns = columns();
    const std::size_t n = pick("rows", P("min_rows", 1), P("rows", 2));
    for (std::size_t i = 0; i < n; i++) {
        d.rows.push_back(make_row(d));
        d.text[0] += frame(d.rows.back().message);
    }
    return d;
}

template<typename T>
std::uint64_t bits(T v)
{
    std::uint64_t u = 0;
    std::memcpy(&u, &v, sizeof v);
    return u;
}

std::uint64_t element(Tensor &t, int type, std::size_t i)
{
    auto &x = static_cast<Dense_tensor &>(t);
    if (type == 2)
        return bits(x.data().as<float>()[i]);
    if (type == 3)
        return bits(x.data().as<double>()[i]);
    return bits(x.data().as<std::int32_t>()[i]);
}

void check_column(const Data &d, std::size_t ci, Tensor &t, std::size_t from, std::size_t to, std::size_t size)
{
    auto &c = d.columns[ci];
    CHECK(t.data_type() == (c.type == 2 ? Data_type::float32 : c.type == 3 ? Data_type::float64 : Data_type::int32), "wrong data type");
    CHECK(t.shape().size() == c.shape.size() + 1 && t.shape()[0] == size, "wrong shape");
    for (std::size_t i = 0; i < c.shape.size(); i++)
        CHECK(t.shape()[i + 1] == c.shape[i], "wrong shape");
    std::size_t at = 0, n = 0;
    if (!c.sparse) {
        auto *x = dynamic_cast<Dense_tensor *>(&t);
        CHECK(x != nullptr && x->data().size() >= size * c.size(), "wrong tensor");
        for (std::size_t i = from; i < to; i++) {
            if (!d.rows[i].good)
                continue;
            for (std::size_t k = 0; k < c.size(); k++)
                CHECK(element(t, c.type, at * c.size() + k) == d.rows[i].features[ci].values[k], "wrong value");
            at++;
        }
        for (std::size_t k = at * c.size(); k < size * c.size(); k++)
            CHECK(element(t, c.type, k) == 0, "padding is not zero");
        return;
    }
    auto *x = dynamic_cast<Coo_tensor *>(&t);
    CHECK(x != nullptr, "a sparse feature is dense");
    auto v = x->data().as<std::int32_t>();
    for (std::size_t i = from; i < to; i++) {
        if (!d.rows[i].good)
            continue;
        auto &f = d.rows[i].features[ci];
        for (std::size_t k = 0; k < f.values.size(); k++, n++) {
            CHECK(n < v.size(), "a value is missing");
            CHECK(static_cast<std::uint64_t>(v[n]) == f.values[k], "wrong value");
            CHECK(x->indices(0).as<std::size_t>()[n] == at, "a value is in the wrong row");
            std::uint64_t key = 0;
            for (std::size_t j = 0; j < c.shape.size(); j++) {
                auto q = x->indices(j + 1).as<std::size_t>()[n];
                CHECK(q < c.shape[j], "a coordinate is outside the shape");
                key = key * c.shape[j] + q;
            }
            CHECK(key == f.keys[k], "a value is at the wrong place");
        }
        at++;
    }
    CHECK(v.size() == n, "a value too many");
    for (std::size_t j = 0; j <= c.shape.size(); j++)
        CHECK(x->indices(j).size() == n, "wrong number of coordinates");
}

void check_example(const Data &d, const Example &e, std::size_t from, std::size_t to, std::size_t size)
{
    std::size_t good = 0;
    for (std::size_t i = from; i < to; i++)
        good += d.rows[i].good;
    CHECK(e.padding == size - good, "wrong padding");
    CHECK(e.features().size() == d.columns.size(), "wrong number of features");
    for (std::size_t i = 0; i < d.columns.size(); i++) {
        auto f = e.find_feature(d.columns[i].full());
        CHECK(f != nullptr, "a feature is missing");
        check_column(d, i, *f, from, to, size);
    }
    if (good < size)
        mlse_reach("padded");
}

Data_reader_params params_of(const std::vector<std::string> &text, std::size_t batch)
{
    Data_reader_params p{};
    for (auto &t : text)
        p.dataset.push_back(make_intrusive<In_memory_store>(slice_of(t.data(), t.size())));
    p.batch_size = batch;
    p.num_prefetched_examples = 2;
    p.num_parallel_reads = 2;
    p.warn_bad_instances = false;
    return p;
}

bool skips(Bad_example_handling b) { return b == Bad_example_handling::skip || b == Bad_example_handling::skip_warn; }
bool pads(Bad_example_handling b) { return b == Bad_example_handling::pad || b == Bad_example_handling::pad_warn; }

void decode()
{
    Data d = dataset();
    const std::size_t n = d.rows.size(), batch = pick("batch", 1, P("batch", 2));
    auto p = params_of(d.text, batch);
    p.bad_example_handling = static_cast<Bad_example_handling>(pick("bad", P("min_bad", 0), P("bad", 4)));
    p.last_example_handling = static_cast<Last_example_handling>(pick("last", 0, P("last", 0)));
    p.warn_bad_instances = P("warn", 0) && sym_bool("warn");
    const auto bad = p.bad_example_handling;
    const auto last = p.last_example_handling;
    const bool warn = p.warn_bad_instances;
    auto r = make_intrusive<Recordio_protobuf_reader>(std::move(p));
    warnings = 0;
    auto s = r->read_schema();
    CHECK(s && s->attributes().size() == d.columns.size(), "wrong schema");
    for (auto &c : d.columns) {
        auto i = s->get_index(c.full());
        CHECK(i.has_value(), "a feature is missing in the schema");
        auto &a = s->attributes()[*i];
        CHECK(a.data_type() == (c.type == 2 ? Data_type::float32 : c.type == 3 ? Data_type::float64 : Data_type::int32), "wrong data type in the schema");
        CHECK(a.sparse() == c.sparse, "wrong sparseness in the schema");
        CHECK(a.shape().size() == c.shape.size() + 1 && a.shape()[0] == batch, "wrong shape in the schema");
        for (std::size_t k = 0; k < c.shape.size(); k++)
            CHECK(a.shape()[k + 1] == c.shape[k], "wrong shape in the schema");
    }
    std::size_t least = 0, instances = 0;
    bool fault = false;
    for (std::size_t from = 0; from < n && !fault; from += batch) {
        std::size_t to = from + batch < n ? from + batch : n, bads = 0, size = to - from;
        if (size < batch) {
            if (last == Last_example_handling::drop_warn || last == Last_example_handling::pad_warn)
                least++;
            if (last == Last_example_handling::drop || last == Last_example_handling::drop_warn)
                break;
            if (last == Last_example_handling::pad || last == Last_example_handling::pad_warn)
                size = batch;
        }
        for (std::size_t i = from; i < to; i++)
            bads += !d.rows[i].good;
        if (bads && warn)
            instances += pads(bad) ? bads : 1;
        if (bads && bad == Bad_example_handling::error) {
            fault = true;
            break;
        }
        if (bads && skips(bad)) {
            least += bad == Bad_example_handling::skip_warn;
            mlse_reach("skipped");
            continue;
        }
        if (bads && bad == Bad_example_handling::pad_warn)
            least++;
        Intrusive_ptr<Example> e;
        int o = outcome([&] { e = r->read_example(); });
        if (o != 0) {
            // An error may overtake what has been decoded before it.
            CHECK(o == 2 && bad == Bad_example_handling::error, "an error for good data");
            bool later = false;
            for (std::size_t i = to; i < n; i++)
                later = later || !d.rows[i].good;
            CHECK(later, "an error for good data");
            mlse_reach("fault");
            return;
        }
        CHECK(e != nullptr, "an example is missing");
        check_example(d, *e, from, to, size);
        mlse_reach("example");
    }
    for (int k = 0; k < 2; k++) {
        Intrusive_ptr<Example> e;
        int o = outcome([&] { e = r->read_example(); });
        CHECK(o == (fault ? 2 : 0), fault ? "a bad instance is not reported" : "an error for good data");
        CHECK(e == nullptr, "an example too many");
    }
    if (fault)
        mlse_reach("fault");
    else if (bad != Bad_example_handling::error) {
        CHECK(warnings >= least + (P("cut_off", 0) ? 0 : instances), "a warning is missing");
        CHECK(warnings == least + instances || P("cut_off", 0), "a wrong number of warnings");
    }
}

// A dataset whose first instance has no schema.
void no_schema()
{
    Feature f{2, {1, 2}, {0, 1}, {2}};
    const std::size_t kind = pick("kind", 0, 4);
    int want = 1;
    switch (kind) {
    case 0: f.type = 0; break;
    case 1:
        f.type = 9;
        want = 4;
        break;
    case 2: f.shape.clear(); break;
    default: break;
    }
    std::string m = entry(kind == 4 || sym_bool("label"), "a", f);
    if (kind == 3)
        m.pop_back();
    if (kind == 4)
        m += entry(false, "label_a", f);
    std::vector<std::string> text{frame(m)};
    auto p = params_of(text, 1);
    p.bad_example_handling = static_cast<Bad_example_handling>(pick("bad", 0, 4));
    auto r = make_intrusive<Recordio_protobuf_reader>(std::move(p));
    for (int k = 0; k < 4; k++) {
        int o = outcome([&] {
            if (k % 2)
                r->read_example();
            else
                r->read_schema();
        });
        CHECK(o == want || (kind == 4 && o != 0), "a schema error is not reported as one");
        if (k == 1)
            r->reset();
        mlse_reach("schema error");
    }
    std::vector<std::string> none(sym_bool("two stores") ? 2 : 1);
    r = make_intrusive<Recordio_protobuf_reader>(params_of(none, 1));
    CHECK(r->read_schema() == nullptr && r->read_example() == nullptr && r->read_schema() == nullptr, "a schema of nothing");
}

// ---- R03: records that are split

void split()
{
    // One feature with one value that tells the instances apart.
    const std::size_t n = pick("records", 0, P("records", 3));
    Feature f{7, {0}, {}, {1}};
    std::vector<std::string> text(2);
    const std::size_t cut = P("stores", 2) == 1 ? n : pick("cut", 0, n);
    // The instances before the first corrupt record.
    std::vector<int> want;
    std::string pending;
    bool open = false, broken = false;
    int start = 0;
    for (std::size_t i = 0; i < n; i++) {
        f.values[0] = i;
        const std::string m = entry(false, "v", f);
        const std::size_t kind = pick("kind", 0, 3);
        // A message of its own, or the next part of the message that is open.
        std::string part;
        if (kind == 0)
            part = m;
        else if (kind == 1) {
            std::size_t at = pick("at", 0, P("parts", 1) ? m.size() : 0);
            part = m.substr(0, at);
            pending = m.substr(at);
        }
        else if (kind == 2) {
            std::size_t at = pick("at", 0, P("parts", 1) ? pending.size() : 0);
            part = pending.substr(0, at);
            pending = pending.substr(at);
        }
        else
            part = pending;
        // Whether a message may go on in the next store is not defined.
        mlse_assume(i != cut || !open || broken || kind < 2);
        text[i < cut ? 0 : 1] += frame(part, static_cast<unsigned>(kind));
        if (broken)
            continue;
        if (kind == 0 || kind == 1) {
            if (open)
                broken = true;
            else if (kind == 0)
                want.push_back(static_cast<int>(i));
            open = kind == 1;
            start = static_cast<int>(i);
        }
        else if (!open)
            broken = true;
        else if (kind == 3) {
            want.push_back(start);
            open = false;
        }
    }
    if (open && !broken)
        broken = true;
    auto p = params_of(text, 1);
    p.bad_example_handling = Bad_example_handling::skip;
    auto r = make_intrusive<Recordio_protobuf_reader>(std::move(p));
    for (int epoch = 0; epoch < 2; epoch++) {
        std::size_t at = 0;
        for (;;) {
            Intrusive_ptr<Example> e;
            int o = outcome([&] { e = r->read_example(); });
            if (o != 0) {
                CHECK(o == 3 && broken, "an error for a well-formed dataset");
                CHECK(outcome([&] { e = r->read_example(); }) == 3, "a corrupt record is forgotten");
                mlse_reach("corrupt");
                break;
            }
            if (!e) {
                CHECK(!broken, "a corrupt split record is not reported");
                CHECK(at == want.size(), "an instance is missing");
                mlse_reach("end");
                break;
            }
            CHECK(at < want.size(), "an instance too many");
            auto v = static_cast<Dense_tensor &>(*e->features()[0]).data().as<std::int32_t>()[0];
            CHECK(v == want[at], "wrong instance");
            at++;
        }
        r->reset();
    }
}

}  // namespace

extern "C" void mlse_main()
{
    use_heap();
    set_log_message_handler([](Log_level, std::string_view) { warnings++; });
    switch (mlse_param("mode", 0)) {
    case 0: decode(); break;
    case 1: split(); break;
    case 2: no_schema(); break;
    }
}
