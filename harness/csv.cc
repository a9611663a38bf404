// D01, B03: what a CSV reader makes of a dataset.
#include <algorithm>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <stdexcept>
#include <string>
#include <vector>

#include "mlio/cpu_array.h"
#include "mlio/csv_reader.h"
#include "mlio/data_reader.h"
#include "mlio/data_reader_error.h"
#include "mlio/data_stores/in_memory_store.h"
#include "mlio/example.h"
#include "mlio/logging.h"
#include "mlio/schema.h"
#include "mlio/tensor.h"

#include "iconv_model.h"
#include "setup.h"
#include "stream.h"

using namespace mlio;

namespace {

std::size_t P(const char *name, long def) { return static_cast<std::size_t>(mlse_param(name, def)); }

bool has(std::size_t mask, std::size_t bit) { return (mask >> bit & 1U) != 0; }

// A byte that means nothing to a tokenizer.
char plain(const char *name)
{
    auto c = sym<char>(name);
    mlse_assume((c != ',') & (c != '"') & (c != '\n') & (c != '\r') & (c != '\xef'));
    return c;
}

std::size_t warnings;

Data_reader_params params_of(const std::vector<std::string> &text, std::size_t batch)
{
    Data_reader_params p{};
    for (auto &t : text)
        p.dataset.push_back(make_intrusive<In_memory_store>(slice_of(t.data(), t.size())));
    p.batch_size = batch;
    p.num_prefetched_examples = P("prefetch", 2);
    p.num_parallel_reads = P("parallel", 2);
    p.warn_bad_instances = false;
    return p;
}

template<typename F>
int outcome(F &&f)
{
    try {
        f();
        return 0;
    }
    catch (const Schema_error &) {
        return 1;
    }
    catch (const Invalid_instance_error &) {
        return 2;
    }
    catch (const Data_reader_error &) {
        return 3;
    }
    catch (const std::invalid_argument &) {
        return 4;
    }
    catch (const std::exception &) {
        return 5;
    }
}

// ---- D01: the schema

const char *const vocabulary[] = {"a", "b", "a_1", "", "c"};

std::string join(const std::vector<std::string> &v)
{
    std::string s;
    for (std::size_t i = 0; i < v.size(); i++)
        s += (i ? "," : "") + v[i];
    return s + "\n";
}

std::vector<std::string> pick_names(const char *what, std::size_t lo, std::size_t hi)
{
    std::vector<std::string> v;
    for (std::size_t k = pick(what, lo, hi); v.size() < k;)
        v.emplace_back(vocabulary[pick("name", 0, P("names", 3) - 1)]);
    return v;
}

void schema()
{
    Csv_params c{};
    const std::size_t cols = P("cols", 3), feat = P("features", 0xffff);
    c.skip_blank_lines = !has(feat, 8);
    const std::size_t header = has(feat, 0) ? pick("header", 0, 3) : 1;    // none, row 0, row 1, corrupt
    std::string text;
    std::vector<std::string> names, cells;
    bool named = false;
    c.header_row_index = {};
    if (header >= 1) {
        c.header_row_index = header == 2 ? 1 : 0;
        if (header == 2)
            text += "x,\n";
        if (header == 3)
            text += "a,\"b\n";
        else {
            names = pick_names("header columns", 1, cols);
            mlse_assume(!c.skip_blank_lines || names.size() > 1 || !names[0].empty());
            text += join(names);
            named = true;
        }
    }
    const bool given = has(feat, 1) && sym_bool("names given");
    if (given) {
        names = pick_names("given names", 1, cols);
        c.column_names = names;
        named = true;
    }
    if (has(feat, 2) && sym_bool("prefix")) {
        c.name_prefix = "p";
        if (!given)
            for (auto &n : names)
                n = "p" + n;
    }
    std::size_t row = has(feat, 3) ? pick("row columns", 0, cols) : cols;
    for (std::size_t i = 0; i < row; i++) {
        std::string s(1, P("cells", 1) ? plain("cell") : i ? 'x' : '1');
        cells.push_back(s);
    }
    if (row > 0)
        text += join(cells);
    if (has(feat, 4) && sym_bool("default"))
        c.default_data_type = Data_type::float32;
    // The reference.
    int want = 0;
    if (!given && header == 3)
        want = 1;
    else if (!named && row > 0)
        for (std::size_t i = 1; i <= row; i++)
            names.push_back(c.name_prefix + std::string(1, static_cast<char>('0' + i)));
    const bool empty = want == 0 && names.empty();
    std::vector<Data_type> types;
    for (std::size_t i = 0; i < (row ? row : names.size()); i++)
        types.push_back(c.default_data_type ? *c.default_data_type : row == 0 ? Data_type::string : cells[i][0] >= '0' && cells[i][0] <= '9' ? Data_type::int64 : Data_type::string);
    if (want == 0 && !empty && types.size() != names.size())
        want = 1;
    if (has(feat, 5)) {
        if (sym_bool("typed by index")) {
            static const Data_type kinds[] = {Data_type::int16, Data_type::uint64, Data_type::float64};
            for (std::size_t k = pick("how many", 1, P("overrides", 1)); k--;) {
                std::size_t i = pick("index", 0, cols);
                mlse_assume(!c.column_types_by_index.count(i));
                c.column_types_by_index[i] = kinds[k];
                if ((want == 0 || want == 4) && !empty) {
                    if (i < types.size())
                        types[i] = kinds[k];
                    else
                        want = 4;
                }
            }
        }
        if (sym_bool("typed by name")) {
            static const Data_type kinds[] = {Data_type::uint8, Data_type::int32, Data_type::uint16};
            for (std::size_t k = pick("how many", 1, P("overrides", 1)); k--;) {
                const std::string n = c.name_prefix + (named ? vocabulary[pick("name", 0, P("names", 3) - 1)] : k ? "2" : "1");
                mlse_assume(!c.column_types.count(n));
                c.column_types[n] = kinds[k];
                if ((want == 0 || want == 4) && !empty) {
                    auto m = std::count(names.begin(), names.end(), n);
                    // Which of several columns is meant is not defined.
                    mlse_assume(m < 2);
                    if (m == 0)
                        want = 4;
                    else
                        types[static_cast<std::size_t>(std::find(names.begin(), names.end(), n) - names.begin())] = kinds[k];
                }
            }
        }
    }
    std::set<std::size_t> use;
    std::set<std::string> use_names;
    if (has(feat, 6)) {
        std::size_t how = pick("use", 0, 2);
        if (how == 1) {
            use.insert(pick("used", 0, cols - 1));
            if (sym_bool("use two"))
                use.insert(pick("used", 0, cols - 1));
            c.use_columns_by_index.insert(use.begin(), use.end());
        }
        else if (how == 2) {
            for (std::size_t k = pick("how many", 1, P("overrides", 1)); k--;)
                use_names.insert(c.name_prefix + (named ? vocabulary[pick("name", 0, P("names", 3) - 1)] : k ? "2" : "1"));
            c.use_columns.insert(use_names.begin(), use_names.end());
        }
    }
    c.dedupe_column_names = !has(feat, 7) || sym_bool("dedupe");
    std::vector<std::pair<std::string, Data_type>> attrs;
    std::map<std::string, std::size_t> seen;
    for (std::size_t i = 0; want == 0 && i < names.size(); i++) {
        if ((!use.empty() && !use.count(i)) || (!use_names.empty() && !use_names.count(names[i])))
            continue;
        std::string n = names[i];
        while (seen.count(n)) {
            if (!c.dedupe_column_names) {
                want = 1;
                break;
            }
            n += "_" + std::string(1, static_cast<char>('0' + seen[n]++));
        }
        seen[n] = 1;
        attrs.emplace_back(n, types[i]);
    }
    if (want == 1)
        mlse_reach("schema error");
    if (want == 4)
        mlse_reach("rejected");

    std::vector<std::string> texts;
    if (P("stores", 1) == 1)
        texts = {text};
    else
        texts = {"", text};
    auto p = params_of(texts, 2);
    p.bad_example_handling = Bad_example_handling::skip;
    auto r = make_intrusive<Csv_reader>(std::move(p), c);
    for (int k = 0; k < 3; k++) {
        Intrusive_ptr<const Schema> s;
        int got = outcome([&] {
            if (k == 1)
                r->peek_example();
            else
                s = r->read_schema();
        });
        CHECK(got == want, want ? "the schema error is not reported as it should be" : "a schema error for a valid dataset");
        if (want == 0 && k != 1) {
            CHECK((s == nullptr) == empty, empty ? "a schema for nothing" : "no schema");
            if (s) {
                CHECK(s->attributes().size() == attrs.size(), "wrong number of attributes");
                for (std::size_t i = 0; i < attrs.size(); i++) {
                    auto &a = s->attributes()[i];
                    CHECK(a.name() == attrs[i].first, "wrong name");
                    CHECK(a.data_type() == attrs[i].second, "wrong data type");
                    CHECK(!a.sparse() && a.shape() == (Size_vector{2, 1}), "wrong shape");
                }
                mlse_reach("schema");
            }
        }
        if (k == 1)
            r->reset();
    }
}

// ---- B03: rows, good and bad

struct Row {
    std::string text;
    bool good = true, warns = false;
    int number = 0;
    std::string s;
};

struct Data {
    Csv_params c;
    std::vector<std::string> text;
    std::vector<Row> rows;
    bool use[2] = {true, true};
};

const char *const headers[] = {"", "x,y\n", "1,2\n"};

Row make_row(Data &d, std::size_t kinds, bool first)
{
    Row r;
    const std::size_t kind = pick("kind", 0, 4);
    mlse_assume(has(kinds, kind));
    mlse_assume(!first || kind == 0 || kind == 4);
    const char n = P("digits", 0) ? static_cast<char>('0' + d.rows.size()) : plain("number"), s = plain("string");
    r.text = std::string(1, n);
    r.s = std::string(1, s);
    r.number = n - '0';
    if (d.use[0] && (n < '0' || n > '9'))
        r.good = false;
    switch (kind) {
    case 0: r.text += std::string(",") + s; break;
    case 1: r.good = false; break;
    case 2:
        r.text += std::string(",") + s + ",9";
        r.good = false;
        break;
    case 3:
        r.text += std::string(",\"") + s;
        r.good = false;
        break;
    default: {
        r.text += std::string(",") + s + s + s;
        r.s = std::string(2, s);
        if (d.use[1]) {
            auto h = d.c.max_field_length_handling;
            if (h == Max_field_length_handling::treat_as_bad)
                r.good = false;
            else if (h == Max_field_length_handling::truncate_warn && r.good)
                r.warns = true;
        }
        break;
    }
    }
    r.text += "\n";
    return r;
}

Data dataset()
{
    Data d;
    const std::size_t n = pick("rows", P("min_rows", 0), P("rows", 3));
    d.c.max_field_length = 2;
    d.c.max_field_length_handling = static_cast<Max_field_length_handling>(P("too_long", 0) ? pick("too long", 0, 2) : 0);
    // 0: no header, 1: one per store, 2: one, 3: as 1, but the names are given.
    const std::size_t header = P("header", 0) ? pick("header", 0, 3) : 0;
    d.c.header_row_index = {};
    if (header)
        d.c.header_row_index = 0;
    d.c.has_single_header = header == 2;
    if (header == 0 || header == 3)
        d.c.column_names = {"x", "y"};
    d.c.column_types_by_index = {{0, Data_type::int32}, {1, Data_type::string}};
    if (P("use", 0)) {
        std::size_t u = pick("use", 0, 2);
        if (u > 0) {
            d.use[2 - u] = false;
            if (sym_bool("by name"))
                d.c.use_columns = {u == 1 ? "x" : "y"};
            else
                d.c.use_columns_by_index = {u - 1};
        }
    }
    const std::size_t stores = P("stores", 1), cut = stores == 1 ? n : pick("cut", 0, n);
    d.text.resize(stores);
    for (std::size_t i = 0; i < stores; i++)
        if (header && (i == 0 || header != 2))
            d.text[i] += headers[1];
    for (std::size_t i = 0; i < n; i++) {
        d.rows.push_back(make_row(d, P("kinds", 31), i == 0));
        d.text[i < cut ? 0 : stores - 1] += d.rows.back().text;
    }
    return d;
}

template<typename T>
auto column(const Example &e, std::size_t i)
{
    auto *t = dynamic_cast<Dense_tensor *>(e.features()[i].get());
    CHECK(t != nullptr && t->data_type() == (std::is_same_v<T, std::string> ? Data_type::string : Data_type::int32), "wrong feature");
    return t->data().template as<T>();
}

// Compares an example with the good ones of rows [from, to).
void check_example(const Data &d, const Example &e, std::size_t from, std::size_t to, std::size_t size)
{
    std::size_t at = 0;
    for (std::size_t i = from; i < to; i++) {
        auto &r = d.rows[i];
        if (!r.good)
            continue;
        std::size_t f = 0;
        if (d.use[0])
            CHECK(column<std::int32_t>(e, f++)[at] == r.number, "wrong number");
        if (d.use[1])
            CHECK(column<std::string>(e, f++)[at] == r.s, "wrong string");
        at++;
    }
    CHECK(e.padding == size - at, "wrong padding");
    std::size_t f = 0;
    for (std::size_t k = 0; k < 2; k++) {
        if (!d.use[k])
            continue;
        auto &t = static_cast<Dense_tensor &>(*e.features()[f]);
        CHECK(t.shape().size() == 2 && t.shape()[0] == size && t.shape()[1] == 1, "wrong shape");
        for (std::size_t i = at; i < size; i++)
            if (k == 0)
                CHECK(column<std::int32_t>(e, f)[i] == 0, "padding is not zero");
            else
                CHECK(column<std::string>(e, f)[i].empty(), "padding is not empty");
        f++;
    }
    CHECK(e.features().size() == f, "wrong number of features");
    if (at < size)
        mlse_reach("padded");
}

bool skips(Bad_example_handling b) { return b == Bad_example_handling::skip || b == Bad_example_handling::skip_warn; }
bool pads(Bad_example_handling b) { return b == Bad_example_handling::pad || b == Bad_example_handling::pad_warn; }

void rows()
{
    Data d = dataset();
    const std::size_t n = d.rows.size(), batch = pick("batch", 1, P("batch", 2));
    auto p = params_of(d.text, batch);
    p.bad_example_handling = static_cast<Bad_example_handling>(pick("bad", P("min_bad", 0), P("bad", 4)));
    p.last_example_handling = static_cast<Last_example_handling>(pick("last", 0, P("last", 0)));
    p.warn_bad_instances = P("warn", 0) && sym_bool("warn");
    const auto bad = p.bad_example_handling;
    const auto last = p.last_example_handling;
    const bool warn = p.warn_bad_instances;
    const bool pad_last = last == Last_example_handling::pad || last == Last_example_handling::pad_warn;
    const bool drop_last = last == Last_example_handling::drop || last == Last_example_handling::drop_warn;
    auto r = make_intrusive<Csv_reader>(std::move(p), d.c);
    warnings = 0;
    std::size_t least = 0, instances = 0;    // warnings
    bool fault = false;
    for (std::size_t from = 0; from < n && !fault; from += batch) {
        std::size_t to = from + batch < n ? from + batch : n, bads = 0, size = to - from;
        if (size < batch) {
            if (last == Last_example_handling::drop_warn || last == Last_example_handling::pad_warn)
                least++;
            if (drop_last)
                break;
            if (pad_last)
                size = batch;
        }
        for (std::size_t i = from; i < to; i++) {
            bads += !d.rows[i].good;
            if (d.rows[i].warns && (!bads || pads(bad)))
                instances++;
        }
        if (bads && warn)
            instances += pads(bad) ? bads : 1;
        if (bads && bad == Bad_example_handling::error) {
            fault = true;
            break;
        }
        if (bads && skips(bad)) {
            least += bad == Bad_example_handling::skip_warn;
            mlse_reach("skipped");
            continue;
        }
        if (bads && bad == Bad_example_handling::pad_warn)
            least++;
        Intrusive_ptr<Example> e;
        int o = outcome([&] { e = r->read_example(); });
        if (o != 0) {
            // An error may overtake what has been decoded before it.
            CHECK(o == 2 && bad == Bad_example_handling::error, "an error for good data");
            bool later = false;
            for (std::size_t i = to; i < n; i++)
                later = later || !d.rows[i].good;
            CHECK(later, "an error for good data");
            mlse_reach("fault");
            return;
        }
        CHECK(e != nullptr, "an example is missing");
        check_example(d, *e, from, to, size);
        mlse_reach("example");
    }
    for (int k = 0; k < 2; k++) {
        Intrusive_ptr<Example> e;
        int o = outcome([&] { e = r->read_example(); });
        CHECK(o == (fault ? 2 : 0), fault ? "a bad row is not reported" : "an error for good data");
        CHECK(e == nullptr, "an example too many");
    }
    if (fault)
        mlse_reach("fault");
    else if (bad != Bad_example_handling::error) {
        CHECK(warnings >= least, "a warning is missing");
        CHECK(warnings == least + instances || warn || P("cut_off", 0), "a wrong number of warnings");
        CHECK(warnings >= least + (pads(bad) ? instances : 0), "a warning is missing");
    }
}

// ---- D04: any dialect

struct Cell {
    std::string s;
    int number = 0;
    bool nan = false;
};

std::string utf16(const std::string &t)
{
    std::string r;
    for (char c : t) {
        r += c;
        r += '\0';
    }
    return r;
}

void dialects()
{
    const std::size_t feat = P("features", 0xffff);
    Csv_params c{};
    if (has(feat, 0)) {
        c.delimiter = sym_bool("tabs") ? '\t' : '|';
        c.quote_char = sym_bool("apostrophes") ? '\'' : '"';
    }
    if (has(feat, 1) && sym_bool("comments"))
        c.comment_char = '#';
    c.allow_quoted_new_lines = has(feat, 2) && sym_bool("quoted new lines");
    c.skip_blank_lines = !has(feat, 3) || sym_bool("skip blank lines");
    const bool wide = has(feat, 4) && sym_bool("wide");
    if (wide)
        c.encoding = Text_encoding::utf16_le;
    const bool nans = has(feat, 5) && sym_bool("nan values");
    if (nans)
        c.parser_options.nan_values = {"?", "n"};
    const std::size_t header = has(feat, 6) ? pick("header", 0, 3) : 0;    // none, row 0, row 1, once in row 1
    c.header_row_index = {};
    if (header)
        c.header_row_index = header == 1 ? 0 : 1;
    c.has_single_header = header == 3;
    c.column_types_by_index = {{0, Data_type::string}, {1, Data_type::float64}};
    static const char *const ends[] = {"\n", "\r\n", "\r"};
    const std::string end = ends[has(feat, 7) ? pick("line ends", 0, 2) : 0];
    const bool bom = has(feat, 8) && !wide && sym_bool("BOM");
    const std::size_t stores = P("stores", 2);
    const char q = c.quote_char, d = c.delimiter;

    std::vector<Cell> cells;
    std::vector<std::string> texts;
    std::size_t longest = 0;
    auto line = [&](std::string &t, const std::string &l) {
        // What is no row may come in between.
        if (c.comment_char && sym_bool("comment"))
            t += std::string("#") + q + d + end;
        if (has(feat, 3) && c.skip_blank_lines && sym_bool("blank line"))
            t += end;
        t += l + end;
        if (l.size() > longest)
            longest = l.size();
    };
    for (std::size_t k = 0; k < stores; k++) {
        std::string t = bom ? "\xEF\xBB\xBF" : "";
        if (header >= 1 && (k == 0 || header != 3)) {
            if (header >= 2)
                line(t, "-");
            line(t, std::string("x") + d + "y");
        }
        for (std::size_t i = pick("rows", P("min_rows", 0), P("rows", 2)); i; i--) {
            Cell e;
            std::string l;
            bool quoted = false;
            // 0: plain, 1: a delimiter, 2: quotes, 3: a new line, 4: a comment character, 5: empty
            switch (pick("cell", 0, 5)) {
            case 0: {
                auto ch = sym<char>("char");
                mlse_assume((ch > ' ') & (ch != d) & (ch != q) & (ch != '#') & (ch != '\x7f'));
                e.s = ch;
                quoted = has(feat, 2) && sym_bool("quoted");
                break;
            }
            case 1:
                e.s = std::string("a") + d;
                quoted = true;
                break;
            case 2:
                e.s = std::string(1, q) + "b";
                quoted = true;
                break;
            case 3:
                mlse_assume(c.allow_quoted_new_lines);
                e.s = "a" + end + "b";
                quoted = true;
                break;
            case 4:
                e.s = "#c";
                quoted = c.comment_char.has_value();
                break;
            default: break;
            }
            if (quoted) {
                l += q;
                for (char x : e.s) {
                    l += x;
                    if (x == q)
                        l += q;
                }
                l += q;
            }
            else
                l = e.s;
            l += d;
            if (nans && sym_bool("not a number")) {
                e.nan = true;
                l += "?";
            }
            else {
                e.number = static_cast<int>(cells.size() + 1);
                l += static_cast<char>('0' + e.number);
            }
            line(t, l);
            cells.push_back(e);
        }
        // The last line need not have an end.
        if (has(feat, 7) && t.size() > end.size() + (bom ? 3 : 0) && sym_bool("open end"))
            t.resize(t.size() - end.size());
        texts.push_back(wide ? utf16(t) : t);
    }
    // A blank line would be a row.
    const bool any = !cells.empty() || header;
    bool too_long = false;
    if (has(feat, 9) && any) {
        too_long = longest > 1 && sym_bool("too long");
        c.max_line_length = longest - too_long;
    }
    if (header == 0 || sym_bool("named"))
        c.column_names = {"x", "y"};
    auto p = params_of(texts, P("batch", 2));
    p.last_example_handling = Last_example_handling::none;
    p.bad_example_handling = Bad_example_handling::error;
    auto r = make_intrusive<Csv_reader>(std::move(p), c);
    for (std::size_t epoch = 0; epoch < P("epochs", 2); epoch++) {
        std::size_t at = 0;
        for (;;) {
            Intrusive_ptr<Example> e;
            int o = outcome([&] { e = r->read_example(); });
            if (o) {
                CHECK(o == 3 && too_long, "an error for valid data");
                mlse_reach("too long");
                return;
            }
            if (!e)
                break;
            CHECK(e->features().size() == 2 && e->schema().attributes()[0].name() == "x" && e->schema().attributes()[1].name() == "y", "wrong columns");
            auto s = column<std::string>(*e, 0);
            auto *t = dynamic_cast<Dense_tensor *>(e->features()[1].get());
            CHECK(t != nullptr && t->data_type() == Data_type::float64, "wrong type");
            auto v = t->data().as<double>();
            CHECK(s.size() == v.size() && !s.empty() && s.size() <= P("batch", 2), "wrong size");
            for (std::size_t i = 0; i < s.size(); i++, at++) {
                CHECK(at < cells.size(), "a row too many");
                CHECK(s[i] == cells[at].s, "wrong text");
                CHECK(cells[at].nan ? v[i] != v[i] : v[i] == cells[at].number, "wrong number");
            }
            mlse_reach("example");
        }
        CHECK(!too_long, "a line that is too long is accepted");
        CHECK(at == cells.size(), "a row is missing");
        r->reset();
        mlse_reach("epoch");
    }
}

}  // namespace

extern "C" void mlse_main()
{
    use_heap();
    set_log_message_handler([](Log_level, std::string_view) { warnings++; });
    switch (mlse_param("mode", 0)) {
    case 0: schema(); break;
    case 1: rows(); break;
    case 2: dialects(); break;
    }
}
