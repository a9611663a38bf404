// A01: what mlio.contrib.insights reports about a dataset.
//
// The module is compiled against a stand-in for pybind11, so that its results
// are read the way Python sees them; the cardinality estimators are replaced
// by exact ones (A02 looks at the estimators).
#include <algorithm>
#include <any>
#include <cmath>
#include <functional>
#include <limits>
#include <memory>
#include <stdexcept>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

#include <mlio.h>

#include "hyperloglog.h"

#include "setup.h"

// ---- An exact estimator

namespace {
std::vector<std::pair<const hll::HyperLogLog *, std::vector<std::string>>> added;
std::vector<std::string> *texts_of(const hll::HyperLogLog *h)
{
    for (auto &a : added)
        if (a.first == h)
            return &a.second;
    return nullptr;
}
}  // namespace

namespace hll {
HyperLogLog::HyperLogLog(uint8_t b) : b_(b), m_(0), alpha_mm_(0), M_(1, 0) {}
void HyperLogLog::add(const std::string_view &s)
{
    if (!texts_of(this))
        added.emplace_back(this, std::vector<std::string>{});
    texts_of(this)->emplace_back(s);
}
double HyperLogLog::estimate() const { return 0; }
void HyperLogLog::merge(const HyperLogLog &) {}
void HyperLogLog::clear() {}
uint32_t HyperLogLog::register_size() const { return m_; }
}  // namespace hll

// Numbers as texts, without vsnprintf().
namespace std {
inline string mlse_to_string(double v)
{
    uint64_t u = 0;
    memcpy(&u, &v, sizeof v);
    return "double " + to_string(u);
}
template<typename T>
enable_if_t<is_integral_v<T>, string> mlse_to_string(T v)
{
    return to_string(v);
}
}  // namespace std

#define to_string mlse_to_string
#include "module.cc"
#undef to_string

using namespace mlio;

namespace {

std::size_t P(const char *name, long def) { return static_cast<std::size_t>(mlse_param(name, def)); }

using Columns = std::vector<std::vector<std::string>>;

// A reader of prepared examples.
struct Prepared_reader final : Data_reader {
    Intrusive_ptr<const Schema> schema;
    std::vector<Intrusive_ptr<Example>> examples;
    std::size_t at = 0;
    Intrusive_ptr<const Schema> read_schema() final { return schema; }
    Intrusive_ptr<Example> read_example() final { return at < examples.size() ? examples[at++] : nullptr; }
    Intrusive_ptr<Example> peek_example() final { return at < examples.size() ? examples[at] : nullptr; }
    void reset() noexcept final { at = 0; }
    std::size_t num_bytes_read() const noexcept final { return 0; }
};

Intrusive_ptr<Prepared_reader> reader_of(const Columns &columns, std::size_t batch, bool pad)
{
    auto r = make_intrusive<Prepared_reader>();
    std::vector<Attribute> attrs;
    for (std::size_t c = 0; c < columns.size(); c++)
        attrs.emplace_back(std::string(1, static_cast<char>('A' + c)), Data_type::string, Size_vector{batch, 1});
    r->schema = make_intrusive<Schema>(std::move(attrs));
    const std::size_t n = columns[0].size();
    for (std::size_t from = 0; from < n; from += batch) {
        std::size_t m = std::min(batch, n - from), size = pad ? batch : m;
        std::vector<Intrusive_ptr<Tensor>> ts;
        for (auto &col : columns) {
            auto t = make_intrusive<Dense_tensor>(Size_vector{size, 1}, make_cpu_array(Data_type::string, size));
            for (std::size_t i = 0; i < m; i++)
                t->data().as<std::string>()[i] = col[from + i];
            ts.push_back(t);
        }
        r->examples.push_back(make_intrusive<Example>(r->schema, std::move(ts)));
        r->examples.back()->padding = size - m;
    }
    return r;
}

// ---- Python's view

using Analyze = pymlio::data_analysis (*)(Data_reader &, const std::unordered_set<std::string> &, const std::unordered_set<std::size_t> &, std::size_t);

Analyze analyze()
{
    static bool once = (pymlio::mlse_init_insights(), true);
    (void)once;
    auto &f = pybind11::bound()["insights"].functions;
    CHECK(f.count("analyze_dataset") == 1, "a function is missing");
    auto *p = std::any_cast<Analyze>(&f["analyze_dataset"]);
    mlse_assume(p != nullptr);    // or bound in a way the stand-in does not know
    return *p;
}

template<typename T>
T attribute(const pymlio::Column_analysis &c, const char *name)
{
    auto &a = pybind11::bound()["ColumnAnalysis"].attributes;
    CHECK(a.count(name) == 1, "an attribute is missing");
    auto *m = std::any_cast<T pymlio::Column_analysis::*>(&a[name]);
    CHECK(m != nullptr, "an attribute has a wrong type");
    return c.*(*m);
}

pybind11::dict to_dict(const pymlio::Column_analysis &c)
{
    auto &f = pybind11::bound()["ColumnAnalysis"].functions;
    auto *p = std::any_cast<std::function<pybind11::dict(const pymlio::Column_analysis &)>>(&f["to_dict"]);
    CHECK(p != nullptr, "a function is missing");
    return (*p)(c);
}

bool space(char c) { return c == ' ' || (c >= 9 && c <= 13); }
char lower(char c) { return c >= 'A' && c <= 'Z' ? static_cast<char>(c + 32) : c; }

bool near(double a, double b) { return (std::isnan(a) && std::isnan(b)) || std::fabs(a - b) <= 1e-9 * (1 + std::fabs(b)); }

// What is known of a text as a number.
struct Number {
    const char *text;
    bool number, finite, integer;    // an infinite one may count as a number or not: mlio does not read it
    double value;
};
const Number numbers[] = {
    {"1", true, true, true, 1},           {"2.5", true, true, false, 2.5}, {"x", false, false, false, 0},      {"-30", true, true, true, -30},
    {"inf", true, false, false, 0},       {"nan", false, false, false, 0}, {"", false, false, false, 0},       {" ", false, false, false, 0},
    {"-inf", true, false, false, 0},      {"7.000001", true, true, true, 7.000001},
};

struct Cell {
    std::string text;
    const Number *number = nullptr;
};

void check_column(const pymlio::Column_analysis &s, const std::vector<Cell> &cells, const std::vector<std::string> &nulls, bool captured, std::size_t limit, const std::string &name)
{
    std::size_t empty = 0, blank = 0, null = 0, sum = 0, longest = 0, shortest = 0, shortest_not_empty = 0, words = 0, longs = 0;
    std::size_t num = 0, nan = 0, finite = 0, ints = 0, infinite = 0;
    double total = 0, lo = std::numeric_limits<double>::quiet_NaN(), hi = std::numeric_limits<double>::quiet_NaN();
    std::vector<std::string> strings, vocab;
    std::vector<double> sample;
    std::vector<std::pair<std::string, int>> unique;
    bool overflow = false, numeric = true;
    for (auto &c : cells) {
        auto &t = c.text;
        shortest = longs++ ? std::min(shortest, t.size()) : t.size();
        longest = std::max(longest, t.size());
        sum += t.size();
        if (t.empty()) {
            empty++;
            continue;
        }
        shortest_not_empty = shortest_not_empty ? std::min(shortest_not_empty, t.size()) : t.size();
        strings.push_back(t);
        std::string w;
        for (char ch : t) {
            if (ch == ' ') {
                vocab.push_back(w);
                w.clear();
                words++;
            }
            else
                w += ch;
        }
        if (!w.empty()) {
            vocab.push_back(w);
            words++;
        }
        std::size_t b = 0, e = t.size();
        while (b < e && space(t[b]))
            b++;
        while (b < e && space(t[e - 1]))
            e--;
        if (b == e) {
            blank++;
            continue;
        }
        bool is_null = false;
        for (auto &n : nulls) {
            bool same = n.size() == e - b;
            for (std::size_t i = 0; same && i < n.size(); i++)
                same = lower(n[i]) == lower(t[b + i]);
            is_null = is_null || same;
        }
        null += is_null;
        if (c.number) {
            num += c.number->number;
            nan += !c.number->number;
            infinite += c.number->number && !c.number->finite;
            finite += c.number->finite;
            ints += c.number->integer;
            if (c.number->finite) {
                total += c.number->value;
                lo = std::isnan(lo) ? c.number->value : std::min(lo, c.number->value);
                hi = std::isnan(hi) ? c.number->value : std::max(hi, c.number->value);
                sample.push_back(c.number->value);
            }
        }
        else
            numeric = false;
        if (!captured || overflow)
            continue;
        auto u = std::find_if(unique.begin(), unique.end(), [&](auto &x) { return x.first == t; });
        if (u != unique.end())
            u->second++;
        else if (unique.size() < limit)
            unique.emplace_back(t, 1);
        else
            overflow = true;
    }

    CHECK(s.column_name == name, "wrong name");
    CHECK(attribute<std::size_t>(s, "rows_seen") == cells.size(), "wrong number of rows");
    CHECK(attribute<std::string>(s, "example_value") == cells[0].text, "wrong example value");
    CHECK(attribute<std::size_t>(s, "string_empty_count") == empty, "wrong number of empty strings");
    CHECK(attribute<std::size_t>(s, "string_only_whitespace_count") == blank, "wrong number of blank strings");
    CHECK(attribute<std::size_t>(s, "string_null_like_count") == null, "wrong number of null-like strings");
    CHECK(attribute<std::size_t>(s, "string_min_length") == shortest, "wrong minimum length");
    CHECK(attribute<std::size_t>(s, "string_min_length_not_empty") == shortest_not_empty, "wrong minimum length of what is not empty");
    CHECK(attribute<std::size_t>(s, "string_max_length") == longest, "wrong maximum length");
    CHECK(near(attribute<double>(s, "string_avg_length"), static_cast<double>(sum) / static_cast<double>(cells.size())), "wrong average length");
    CHECK(attribute<std::size_t>(s, "string_num_words") == words, "wrong number of words");
    if (numeric) {
        const std::size_t got = attribute<std::size_t>(s, "numeric_count");
        CHECK(got == num || got == num - infinite, "wrong number of numbers");
        CHECK(attribute<std::size_t>(s, "numeric_nan_count") == num + nan - got, "wrong number of non-numbers");
        CHECK(attribute<std::size_t>(s, "numeric_finite_count") == finite, "wrong number of finite numbers");
        CHECK(attribute<std::size_t>(s, "numeric_int_count") == ints, "wrong number of integers");
        CHECK(near(attribute<double>(s, "numeric_finite_min"), lo), "wrong minimum");
        CHECK(near(attribute<double>(s, "numeric_finite_max"), hi), "wrong maximum");
        const double mean = attribute<double>(s, "numeric_finite_mean");
        CHECK(finite == 0 || near(mean, total / static_cast<double>(finite)), "wrong mean");
        std::sort(sample.begin(), sample.end());
        const double median = s.estimate_median_approx();
        CHECK(sample.empty() ? std::isnan(median) : median == sample[sample.size() / 2] || median == sample[(sample.size() - 1) / 2], "wrong median");
    }
    auto got = attribute<std::unordered_map<std::string, int>>(s, "string_captured_unique_values");
    CHECK(attribute<bool>(s, "string_captured_unique_values_overflowed") == overflow, "wrong overflow of captured values");
    CHECK(got.size() == unique.size(), "wrong number of captured values");
    for (auto &u : unique) {
        auto i = got.find(u.first);
        CHECK(i != got.end(), "a captured value is missing");
        // How often they occur after the overflow is not counted.
        CHECK(i->second == u.second || overflow, "wrong count of a captured value");
    }
    if (overflow)
        mlse_reach("overflow");
    if (P("dict", 1)) {
        auto d = to_dict(s);
        auto is = [&](const char *k, const std::string &want) {
            auto *v = std::any_cast<std::string>(&d.values[k]);
            CHECK(v && *v == want, "wrong dictionary entry");
        };
        is("rows_seen", std::to_string(cells.size()));
        is("string_empty_count", std::to_string(empty));
        is("string_only_whitespace_count", std::to_string(blank));
        is("string_null_like_count", std::to_string(null));
        is("string_min_length", std::to_string(shortest));
        is("string_min_length_not_empty", std::to_string(shortest_not_empty));
        is("string_max_length", std::to_string(longest));
        is("string_num_words", std::to_string(words));
        if (numeric) {
            is("numeric_count", std::to_string(attribute<std::size_t>(s, "numeric_count")));
            is("numeric_nan_count", std::to_string(attribute<std::size_t>(s, "numeric_nan_count")));
            is("numeric_finite_count", std::to_string(finite));
            is("numeric_int_count", std::to_string(ints));
        }
        for (auto *k : {"numeric_finite_mean", "numeric_finite_min", "numeric_finite_max", "string_avg_length"})
            is(k, std::mlse_to_string(attribute<double>(s, k)));
        is("example_value", cells[0].text);
        auto *o = std::any_cast<bool>(&d.values["string_captured_unique_values_overflowed"]);
        CHECK(o && *o == overflow, "wrong dictionary entry");
        auto *m = std::any_cast<std::unordered_map<std::string, int>>(&d.values["string_captured_unique_values"]);
        CHECK(m && *m == got, "wrong dictionary entry");
    }
}

// What the estimators were given; looked up while the columns are where they
// were filled.
struct Estimates {
    std::vector<std::string> strings, vocab;
};

// A byte; where there are several of them digits are decided here, for the sake
// of the mean.
char byte(bool decide)
{
    auto b = sym<unsigned char>("byte");
    if (decide && b >= '0' && b <= '9') {
        mlse_assume(b == '0' || b == '7');
        if (b == '0')
            return '0';
        return '7';
    }
    return static_cast<char>(b);
}

void run()
{
    const std::size_t columns = P("columns", 1), n = pick("rows", P("min_rows", 1), P("rows", 2)), batch = pick("batch", 1, P("batch", 2));
    const bool pad = P("pad", 1) && n % batch && sym_bool("pad");
    std::vector<std::vector<Cell>> cells(columns);
    Columns text(columns);
    for (std::size_t c = 0; c < columns; c++)
        for (std::size_t i = 0; i < n; i++) {
            Cell x;
            if (P("numbers", 0)) {
                x.number = &numbers[pick("cell", 0, P("numbers", 10) - 1)];
                x.text = x.number->text;
            }
            else
                for (std::size_t k = pick("length", 0, P("length", 2)); k; k--)
                    x.text += byte(n > 1);
            cells[c].push_back(x);
            text[c].push_back(x.text);
        }
    std::vector<std::string> nulls;
    if (P("nulls", 1)) {
        nulls = {"na", "X"};
    }
    std::unordered_set<std::size_t> capture;
    const std::size_t limit = P("limit", 1) ? pick("limit", 0, P("limit", 1)) : 0;
    if (P("limit", 1))
        capture.insert(columns - 1);
    auto r = reader_of(text, batch, pad);
    added.clear();
    auto a = analyze()(*r, {nulls.begin(), nulls.end()}, capture, limit);
    CHECK(a.columns.size() == columns, "wrong number of columns");
    for (std::size_t c = 0; c < columns; c++)
        check_column(a.columns[c], cells[c], nulls, c == columns - 1 && P("limit", 1), limit, std::string(1, static_cast<char>('A' + c)));
    // The estimators, in the order in which they were used first.
    std::vector<std::vector<std::string>> want;
    for (std::size_t c = 0; c < columns; c++) {
        std::vector<std::string> strings, vocab;
        for (auto &x : text[c]) {
            if (x.empty())
                continue;
            strings.push_back(x);
            std::string w;
            for (char ch : x)
                if (ch == ' ') {
                    vocab.push_back(w);
                    w.clear();
                }
                else
                    w += ch;
            if (!w.empty())
                vocab.push_back(w);
        }
        if (!strings.empty())
            want.push_back(strings);
        if (!vocab.empty())
            want.push_back(vocab);
    }
    CHECK(added.size() == want.size(), "wrong estimators");
    for (auto &w : want) {
        bool found = false;
        for (auto &g : added)
            found = found || g.second == w;
        CHECK(found, "an estimator was given the wrong texts");
    }
    mlse_reach("analysis");
}

// What cannot be analysed.
void rejected()
{
    auto r = make_intrusive<Prepared_reader>();
    const std::size_t kind = pick("kind", 0, 2);
    if (kind > 0) {
        std::vector<Attribute> attrs;
        attrs.emplace_back("A", Data_type::string, Size_vector{1, 1});
        attrs.emplace_back("B", kind == 1 ? Data_type::int32 : Data_type::string, Size_vector{1, 1}, Ssize_vector{}, kind == 2);
        r->schema = make_intrusive<Schema>(std::move(attrs));
        std::vector<Intrusive_ptr<Tensor>> ts;
        for (int i = 0; i < 2; i++)
            ts.push_back(make_intrusive<Dense_tensor>(Size_vector{1, 1}, make_cpu_array(Data_type::string, 1)));
        r->examples.push_back(make_intrusive<Example>(r->schema, std::move(ts)));
    }
    int o = 0;
    try {
        analyze()(*r, {}, {}, 0);
    }
    catch (const pybind11::stop_iteration &) {
        o = 1;
    }
    catch (const std::runtime_error &) {
        o = 2;
    }
    CHECK(o == (kind ? 2 : 1), "a dataset that cannot be analysed is not rejected");
    mlse_reach("rejected");
}

}  // namespace

extern "C" void mlse_main()
{
    use_heap();
    if (mlse_param("mode", 0) == 0)
        run();
    else
        rejected();
}
