// P03: data stores that cannot be opened or read.
#include <memory>
#include <new>
#include <optional>
#include <stdexcept>
#include <string>
#include <system_error>
#include <vector>

#include "mlio/cpu_array.h"
#include "mlio/csv_reader.h"
#include "mlio/data_reader.h"
#include "mlio/data_reader_error.h"
#include "mlio/data_stores/data_store.h"
#include "mlio/example.h"
#include "mlio/not_supported_error.h"
#include "mlio/schema.h"
#include "mlio/streams/input_stream_base.h"
#include "mlio/streams/stream_error.h"
#include "mlio/tensor.h"
#include "mlio/text_line_reader.h"

#include "setup.h"
#include "stream.h"

using namespace mlio;

namespace {

std::size_t P(const char *name, long def) { return static_cast<std::size_t>(mlse_param(name, def)); }

struct Other_error : std::runtime_error {
    using std::runtime_error::runtime_error;
};

// ---- What goes wrong

enum Kind { missing, denied, system, not_supported, stream_error, inflate_error, other, num_kinds };

void fail(std::size_t kind)
{
    switch (kind) {
    case missing: throw std::system_error{std::make_error_code(std::errc::no_such_file_or_directory)};
    case denied: throw std::system_error{std::make_error_code(std::errc::permission_denied)};
    case system: throw std::system_error{std::make_error_code(std::errc::io_error)};
    case not_supported: throw Not_supported_error{"not supported"};
    case stream_error: throw Stream_error{"corrupt"};
    case inflate_error: throw Inflate_error{"corrupt"};
    default: throw Other_error{"other"};
    }
}

// How a data store behaves: it cannot be opened `opens` times and its stream
// fails at the position `at`.
struct Fault {
    std::size_t kind = 0, opens = 0, at = ~std::size_t{};
    bool once = false;    // the stream fails a single time
};

struct Store final : Data_store {
    std::string text;
    std::string id_ = "store";
    mutable Fault fault;

    struct Stream final : Input_stream_base {
        const Store *s;
        std::size_t pos = 0;
        bool is_closed = false;
        explicit Stream(const Store *store) : s{store} {}
        using Input_stream_base::read;
        std::size_t read(Mutable_memory_span dst) final
        {
            if (pos >= s->fault.at) {
                if (s->fault.once)
                    s->fault.at = ~std::size_t{};
                fail(s->fault.kind);
            }
            std::size_t n = s->text.size() < s->fault.at ? s->text.size() : s->fault.at;
            n = n - pos < dst.size() ? n - pos : dst.size();
            std::memcpy(dst.data(), s->text.data() + pos, n);
            pos += n;
            return n;
        }
        void seek(std::size_t) final { throw Not_supported_error{"no seek"}; }
        void close() noexcept final { is_closed = true; }
        std::size_t size() const final { throw Not_supported_error{"no size"}; }
        std::size_t position() const final { return pos; }
        bool closed() const noexcept final { return is_closed; }
        bool seekable() const noexcept final { return false; }
    };

    Intrusive_ptr<Input_stream> open_read() const final
    {
        if (fault.opens) {
            if (fault.opens != ~std::size_t{})
                fault.opens--;
            fail(fault.kind);
        }
        return make_intrusive<Stream>(this);
    }
    std::string repr() const final { return id_; }
    const std::string &id() const final { return id_; }
};

// 0: a value, 1: the end, 2: data_reader_error, 3: what the store threw, 4: another exception
template<typename F>
int outcome(F &&f)
{
    try {
        return f() ? 0 : 1;
    }
    catch (const Data_reader_error &) {
        return 2;
    }
    catch (const Other_error &) {
        return 3;
    }
    catch (const std::exception &) {
        return 4;
    }
}

struct Config {
    std::size_t batch = 1, skip = 0, shards = 0, index = 0;
    std::optional<std::size_t> limit;
    bool sample = false, shuffle = false;
};

std::vector<std::size_t> reference(const Config &c, std::size_t n)
{
    std::vector<std::size_t> r;
    for (std::size_t i = c.skip, k = 0; i < n && (!c.limit || i - c.skip < *c.limit); i++, k++)
        if (c.shards < 2 || k % c.shards == c.index)
            r.push_back(i);
    if (c.sample)
        r.resize(r.size() / 2);
    return r;
}

struct World {
    Config c;
    std::vector<Intrusive_ptr<Store>> stores;
    std::size_t n = 0, before = 0;    // instances, and those before the fault
    std::vector<std::size_t> all, some;

    bool same(const Example &e, std::size_t &at, const std::vector<std::size_t> &want) const
    {
        auto v = static_cast<Dense_tensor &>(*e.features()[0]).data().as<std::string>();
        if (v.size() > want.size() - at || v.size() != (c.batch < want.size() - at ? c.batch : want.size() - at))
            return false;
        for (auto &s : v)
            if (s.size() != 1 || static_cast<std::size_t>(s[0] - 'a') != want[at++])
                return false;
        return true;
    }

    void read_all(Data_reader &r) const
    {
        std::size_t at = 0;
        for (;;) {
            Intrusive_ptr<Example> e;
            CHECK(outcome([&] { return (e = r.read_example()) != nullptr; }) < 2, "an error although everything can be read");
            if (!e)
                break;
            CHECK(same(*e, at, all), "wrong data after a failure");
        }
        CHECK(at == all.size(), "data is missing after a failure");
    }

    Intrusive_ptr<Data_reader> make() const
    {
        Data_reader_params p{};
        for (auto &s : stores)
            p.dataset.push_back(s);
        p.batch_size = c.batch;
        p.num_prefetched_examples = P("prefetch", 2);
        p.num_parallel_reads = P("parallel", 2);
        p.num_instances_to_skip = c.skip;
        p.num_instances_to_read = c.limit;
        p.num_shards = c.shards;
        p.shard_index = c.index;
        if (c.sample)
            p.sample_ratio = 0.5F;
        if (c.shuffle) {
            p.shuffle_instances = true;
            p.shuffle_window = 1;
        }
        if (P("csv", 0)) {
            Csv_params q{};
            q.header_row_index = 0;
            q.default_data_type = Data_type::string;
            return make_intrusive<Csv_reader>(std::move(p), std::move(q));
        }
        return make_intrusive<Text_line_reader>(std::move(p));
    }
};

World world(std::size_t bad)
{
    World w;
    auto &c = w.c;
    c.batch = pick("batch", 1, P("batch", 2));
    c.skip = pick("skip", 0, P("skip", 2));
    if (P("limit", 3) && sym_bool("limited"))
        c.limit = pick("limit", P("csv", 0), P("limit", 3));
    c.shards = pick("shards", P("shards", 2) > 1 ? 1 : 0, P("shards", 2));
    c.index = c.shards ? pick("shard", 0, c.shards - 1) : 0;
    c.sample = P("sample", 1) && sym_bool("sample");
    c.shuffle = P("shuffle", 0) && sym_bool("shuffle");
    for (std::size_t k = 0; k < P("stores", 2); k++) {
        auto s = make_intrusive<Store>();
        if (P("csv", 0))
            s->text = "h\n";
        std::size_t m = pick("lines", 0, P("lines", 2));
        for (std::size_t i = 0; i < m; i++) {
            s->text += static_cast<char>('a' + w.n++);
            s->text += '\n';
        }
        if (k < bad)
            w.before = w.n;
        w.stores.push_back(s);
    }
    w.all = reference(c, w.n);
    return w;
}

// A failure that lasts, until a reset at which it has gone.
void lasting()
{
    const std::size_t bad = pick("bad store", 0, P("stores", 2) - 1);
    World w = world(bad);
    auto &f = w.stores[bad]->fault;
    f.kind = pick("kind", 0, P("kinds", num_kinds) - 1);
    if (sym_bool("open")) {
        f.opens = ~std::size_t{};
        // Nothing that has been decoded before the failure is certain to be
        // delivered; what is delivered is part of this.
    }
    else
        f.at = pick("at", 0, w.stores[bad]->text.size());
    f.once = f.at != ~std::size_t{} && P("once", 0) && sym_bool("once");
    const bool once = f.once;
    // Everything that is asked for lies before the store that fails.
    const bool enough = w.c.limit && w.c.skip + *w.c.limit <= w.before;
    mlse_assume(!w.c.limit || *w.c.limit > 0);
    if (f.at != ~std::size_t{})
        w.before += P("csv", 0) && f.at ? (f.at - 2 > f.at ? 0 : (f.at - 2) / 2) : f.at / 2;
    // A stream may be read further than it has to be.
    mlse_assume(enough || !w.c.limit || w.c.skip + *w.c.limit > w.before);
    const std::vector<std::size_t> &some = w.all;
    const int error = f.kind == other ? 3 : 2;
    auto r = w.make();
    const std::size_t epochs = P("epochs", 2);
    for (std::size_t epoch = 0; epoch < epochs; epoch++) {
        std::size_t at = 0;
        bool before = false;    // the schema failed before
        if (epoch == 0)
            for (std::size_t k = pick("schema", 0, P("schemas", 1)); k; k--) {
                int o = outcome([&] { return r->read_schema() != nullptr; });
                CHECK(o == 0 || o == error, "wrong error of the schema");
                CHECK(once || o || !before, "a failure is forgotten");
                before = before || o;
            }
        int o = 0;
        for (;;) {
            Intrusive_ptr<Example> e;
            if (P("quit", 0) && sym_bool("quit"))
                return;
            o = outcome([&] { return (e = r->read_example()) != nullptr; });
            if (once && o == error && !before && at == 0) {
                before = true;    // while the schema is inferred
                continue;
            }
            if (o != 0)
                break;
            CHECK(w.same(*e, at, some), "wrong data before a failure");
        }
        if (enough) {
            CHECK(o == 1 && at == w.all.size(), "a failure beyond what is asked for");
            mlse_reach("not needed");
        }
        else if (before && o == 1 && once) {
            // The store has been opened again; nothing may be lost.
            CHECK(at == w.all.size(), "a failure was taken for the end of the data");
            mlse_reach("again");
        }
        else {
            CHECK(o != 1, "a failure was taken for the end of the data");
            CHECK(o == error, "wrong kind of error");
            // Instances after the failure were never there.
            CHECK(at == 0 || some[at - 1] < w.before, "data from behind a failure");
            for (int k = 0; k < 2; k++) {
                o = outcome([&] { return r->read_example() != nullptr; });
                CHECK(o == error, "a failure is forgotten");
            }
            mlse_reach("error");
        }
        if (epoch + 1 == epochs)
            break;
        r->reset();
        if (once) {    // it has gone
            if (!enough)
                CHECK(f.at == ~std::size_t{}, "an error without a failure");
            w.read_all(*r);
            mlse_reach("once");
            return;
        }
    }
    if (P("heal", 1) && sym_bool("gone")) {
        f = Fault{};
        r->reset();
        w.read_all(*r);
        mlse_reach("gone");
    }
}

// A store that cannot be opened for a while when the schema is asked for.
void passing()
{
    const std::size_t bad = pick("bad store", 0, P("stores", 2) - 1);
    World w = world(bad);
    auto &f = w.stores[bad]->fault;
    f.kind = pick("kind", 0, P("kinds", num_kinds) - 1);
    f.opens = pick("times", 1, P("times", 2));
    auto r = w.make();
    int o = 0;
    for (std::size_t k = 0; k <= P("times", 2); k++) {
        o = outcome([&] { return r->read_schema() != nullptr; });
        if (o == 0)
            break;
        CHECK(o == (f.kind == other ? 3 : 2), "wrong kind of error");
        mlse_reach("again");
    }
    CHECK(o == 0, "an error although everything can be read");
    if (f.opens)
        return;    // not reached for the schema
    w.read_all(*r);
    mlse_reach("read");
}

}  // namespace

extern "C" void mlse_main()
{
    use_heap();
    if (mlse_param("mode", 0) == 0)
        lasting();
    else
        passing();
}
