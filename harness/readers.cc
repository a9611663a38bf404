// I01..I06, B01, B02: what a reader delivers of a dataset.
//
// Text lines out of one or two memory stores through the public interface:
// a sequence of reads, peeks and resets against a reference that composes
// skip/limit, sharding, sampling, shuffling and batching.
#include <cerrno>
#include <csignal>
#include <cstring>
#include <map>
#include <memory>
#include <optional>
#include <stdexcept>
#include <string>
#include <vector>

#include "mlio/cpu_array.h"
#include "mlio/csv_reader.h"
#include "mlio/data_reader.h"
#include "mlio/data_stores/in_memory_store.h"
#include "mlio/example.h"
#include "mlio/schema.h"
#include "mlio/tensor.h"
#include "mlio/text_line_reader.h"

#include "setup.h"
#include "stream.h"

using namespace mlio;

// The signal mask of the thread that uses the reader, and the threads that start.
namespace {
sigset_t signals;
int starts_failing, starts;
}  // namespace

extern "C" {
int pthread_sigmask(int how, const sigset_t *set, sigset_t *old) noexcept
{
    if (old)
        *old = signals;
    for (std::size_t i = 0; set && i < sizeof signals / sizeof(unsigned long); i++) {
        auto &x = reinterpret_cast<unsigned long *>(&signals)[i];
        const unsigned long y = reinterpret_cast<const unsigned long *>(set)[i];
        x = how == SIG_BLOCK ? x | y : how == SIG_UNBLOCK ? x & ~y : y;
    }
    return 0;
}
int mlse_thread_starts()
{
    // The new thread inherits the mask.
    const auto x = *reinterpret_cast<unsigned long *>(&signals);
    for (int s : {SIGHUP, SIGINT, SIGQUIT, SIGALRM, SIGTERM, SIGUSR1, SIGCHLD})
        CHECK((x >> (s - 1) & 1) != 0, "a background thread takes signals");
    if (starts_failing > 0 && sym_bool("a thread does not start")) {
        starts_failing--;
        mlse_reach("not started");
        return 0;
    }
    starts++;
    return 1;
}
}

namespace {

std::size_t P(const char *name, long def) { return static_cast<std::size_t>(mlse_param(name, def)); }

std::string name_of(std::size_t i)
{
    std::string s;
    if (i >= 26)
        s += static_cast<char>('a' + i / 26 - 1);
    s += static_cast<char>('a' + i % 26);
    return s;
}

struct Config {
    std::size_t n, batch, skip = 0, shards = 0, index = 0, window = 0, seed = 0;
    std::optional<std::size_t> limit;
    std::optional<float> ratio;
    bool shuffle = false, reshuffle = true, seeded = false;
    Last_example_handling last = Last_example_handling::none;
    bool pad() const { return last == Last_example_handling::pad || last == Last_example_handling::pad_warn; }
    bool drop() const { return last == Last_example_handling::drop || last == Last_example_handling::drop_warn; }
};

struct Dataset {
    std::vector<std::string> text;
    std::vector<Intrusive_ptr<Data_store>> stores;
    explicit Dataset(std::size_t n, std::size_t cut)
    {
        text.resize(cut == n + 1 ? 1 : 2);
        for (std::size_t i = 0; i < n; i++)
            text[i < cut ? 0 : 1] += name_of(i) + "\n";
        for (auto &t : text)
            stores.push_back(make_intrusive<In_memory_store>(slice_of(t.data(), t.size())));
    }
};

// The instances of an epoch, without sampling and shuffling.
std::vector<std::size_t> reference(const Config &c)
{
    std::vector<std::size_t> r, s;
    for (std::size_t i = 0; i < c.n; i++)
        if (i >= c.skip && (!c.limit || i - c.skip < *c.limit))
            r.push_back(i);
    if (c.shards <= 1)
        s = r;
    else
        for (std::size_t i = 0, next = c.index; i < r.size(); i++)
            if (i == next) {
                s.push_back(r[i]);
                next = next + c.shards < next ? ~std::size_t{} : next + c.shards;
            }
    return s;
}

Data_reader_params params_of(const Config &c, const Dataset &d)
{
    Data_reader_params p{};
    p.dataset = d.stores;
    p.batch_size = c.batch;
    p.num_prefetched_examples = pick("prefetch", P("min_prefetch", P("prefetch", 2)), P("prefetch", 2));
    p.num_parallel_reads = pick("parallel", P("min_parallel", P("parallel", 2)), P("parallel", 2));
    p.last_example_handling = c.last;
    p.num_instances_to_skip = c.skip;
    p.num_instances_to_read = c.limit;
    p.num_shards = c.shards;
    p.shard_index = c.index;
    p.sample_ratio = c.ratio;
    p.shuffle_instances = c.shuffle;
    p.shuffle_window = c.window;
    p.reshuffle_each_epoch = c.reshuffle;
    if (c.seeded)
        p.shuffle_seed = c.seed;
    return p;
}

// One epoch as it is observed.
struct Epoch {
    std::vector<std::size_t> got;    // instances so far
    std::size_t bytes = 0;
    bool end = false;
};

std::size_t index_of(const std::string &s, std::size_t n)
{
    for (std::size_t i = 0; i < n; i++)
        if (s == name_of(i))
            return i;
    CHECK(false, "a feature value that is not in the dataset");
    return n;
}

void check_example(const Config &c, std::size_t total, const Example &e, Epoch &ep)
{
    CHECK(e.features().size() == 1, "wrong number of features");
    auto *t = dynamic_cast<Dense_tensor *>(e.features()[0].get());
    CHECK(t != nullptr && t->data_type() == Data_type::string, "wrong feature");
    std::size_t left = total - ep.got.size(), m = left < c.batch ? left : c.batch;
    CHECK(m > 0 && (m == c.batch || !c.drop()), "an example too many");
    std::size_t size = c.pad() ? c.batch : m;
    CHECK(t->shape().size() == 2 && t->shape()[0] == size && t->shape()[1] == 1, "wrong size of the batch dimension");
    CHECK(e.padding == size - m, "wrong padding");
    auto v = t->data().as<std::string>();
    CHECK(v.size() == size, "wrong number of values");
    for (std::size_t i = 0; i < size; i++)
        if (i < m) {
            ep.got.push_back(index_of(v[i], c.n));
            ep.bytes += v[i].size();
        }
        else
            CHECK(v[i].empty(), "padding is not zero");
    if (size > m)
        mlse_reach("padded");
}

bool at_end(const Config &c, std::size_t total, const Epoch &ep)
{
    std::size_t left = total - ep.got.size();
    return left == 0 || (left < c.batch && c.drop());
}

void check_prefix(const std::vector<std::size_t> &want, const Epoch &ep)
{
    for (std::size_t i = 0; i < ep.got.size(); i++)
        CHECK(ep.got[i] == want[i], "wrong instance or wrong order");
}

// got is a part of a permutation of want in which nothing comes up before its
// window does.
void check_shuffled(const Config &c, const std::vector<std::size_t> &want, const Epoch &ep, bool complete)
{
    std::vector<bool> seen(want.size());
    for (std::size_t i = 0; i < ep.got.size(); i++) {
        std::size_t at = want.size();
        for (std::size_t j = 0; j < want.size(); j++)
            if (want[j] == ep.got[i])
                at = j;
        CHECK(at < want.size() && !seen[at], "an instance is delivered twice or does not belong to the epoch");
        seen[at] = true;
        CHECK(c.window == 0 || at < i + c.window, "an instance is delivered from outside the window");
    }
    if (complete && !c.drop())
        CHECK(ep.got.size() == want.size(), "an instance is lost");
}

Intrusive_ptr<Data_reader> make(const Config &c, const Dataset &d)
{
    Intrusive_ptr<Data_reader> r;
    bool thrown = false;
    const bool ok = c.batch > 0 && (c.shards <= 1 || c.index < c.shards) && (!c.ratio || (*c.ratio > 0 && *c.ratio < 1));
    try {
        if (P("csv", 0)) {
            Csv_params q{};
            q.header_row_index = {};
            r = make_intrusive<Csv_reader>(params_of(c, d), q);
        }
        else
            r = make_intrusive<Text_line_reader>(params_of(c, d));
    }
    catch (const std::invalid_argument &) {
        thrown = true;
    }
    CHECK(thrown == !ok, ok ? "valid parameters are rejected" : "invalid parameters are accepted");
    if (thrown)
        mlse_reach("rejected");
    return r;
}

Config config()
{
    Config c;
    c.n = pick("records", P("min_n", 0), P("n", 4));
    c.batch = pick("batch", P("min_batch", 1), P("batch", 2));
    c.last = static_cast<Last_example_handling>(pick("last", 0, P("last", 4)));
    if (P("range", 0)) {
        c.skip = sym<std::size_t>("skip");
        if (sym_bool("limited"))
            c.limit = sym<std::size_t>("limit");
    }
    if (P("shard", 0)) {
        c.shards = sym<std::size_t>("shards");
        c.index = sym<std::size_t>("index");
    }
    if (P("shuffle", 0)) {
        c.shuffle = true;
        c.window = pick("window", 0, P("shuffle", 0));
        c.seeded = sym_bool("seeded");
        c.seed = 5;
        c.reshuffle = sym_bool("reshuffle");
    }
    return c;
}

// One epoch after the other, by reads alone; both must agree with the reference.
void epochs()
{
    Config c = config();
    Dataset d{c.n, pick("cut", 0, P("stores", 2) == 1 ? 0 : c.n) + (P("stores", 2) == 1 ? c.n + 1 : 0)};
    auto r = make(c, d);
    if (!r)
        return;
    auto want = reference(c);
    std::vector<std::vector<std::size_t>> history;
    for (std::size_t k = 0; k < P("epochs", 2); k++) {
        Epoch ep;
        for (;;) {
            auto e = r->read_example();
            if (!e)
                break;
            CHECK(!at_end(c, want.size(), ep), "an example too many");
            check_example(c, want.size(), *e, ep);
        }
        CHECK(at_end(c, want.size(), ep), "an example is missing");
        CHECK(!r->read_example(), "an example after the end");
        CHECK(r->num_bytes_read() == ep.bytes, "wrong number of bytes");
        for (std::size_t i : ep.got)
            mlse_trace(i);
        if (c.shuffle)
            check_shuffled(c, want, ep, true);
        else
            check_prefix(want, ep);
        if (c.window == 1)
            check_prefix(want, ep);
        if (k > 0 && !c.reshuffle)
            CHECK(ep.got == history.back(), "the order changes although reshuffling is off");
        history.push_back(ep.got);
        if (k + 1 < P("epochs", 2)) {
            r->reset();
            CHECK(r->num_bytes_read() == 0, "the number of bytes is not reset");
        }
        mlse_reach("epoch");
    }
    if (c.seeded && P("twice", 0)) {
        auto q = make(c, d);
        for (auto &h : history) {
            Epoch ep;
            while (auto e = q->read_example())
                check_example(c, want.size(), *e, ep);
            CHECK(ep.got == h, "the same seed gives another order");
            q->reset();
        }
    }
}

// Any sequence of operations.
void operations()
{
    Config c = config();
    Dataset d{c.n, pick("cut", 0, P("stores", 2) == 1 ? 0 : c.n) + (P("stores", 2) == 1 ? c.n + 1 : 0)};
    auto want = reference(c);
    const auto live = mlse_live_heap();
    auto r = make(c, d);
    if (!r)
        return;
    Epoch ep;
    std::vector<std::size_t> order;    // of every epoch, as far as it is known
    order.reserve(c.n);
    Intrusive_ptr<Example> peeked;
    for (std::size_t k = 0; k < P("steps", 4); k++) {
        switch (pick("op", 0, 3)) {
        case 0:
        case 1: {
            const bool read = pick("read", 0, 1) != 0;
            auto e = read ? r->read_example() : r->peek_example();
            CHECK((e == nullptr) == (!peeked && at_end(c, want.size(), ep)), e ? "an example too many" : "an example is missing");
            if (peeked)
                CHECK(e == peeked, "what was peeked at is not what comes next");
            else if (e)
                check_example(c, want.size(), *e, ep);
            else {
                CHECK(r->num_bytes_read() == ep.bytes, "wrong number of bytes");
                mlse_reach("end");
            }
            CHECK(r->num_bytes_read() >= ep.bytes, "wrong number of bytes");
            peeked = read ? nullptr : e;
            if (c.shuffle)
                check_shuffled(c, want, ep, false);
            else
                check_prefix(want, ep);
            if (!c.reshuffle)
                for (std::size_t i = 0; i < ep.got.size(); i++) {
                    if (i == order.size())
                        order.push_back(ep.got[i]);
                    CHECK(order[i] == ep.got[i], "the order changes although reshuffling is off");
                }
            mlse_trace(ep.got.size());
            break;
        }
        case 2:
            r->reset();
            CHECK(r->num_bytes_read() == 0, "the number of bytes is not reset");
            ep = {};
            peeked = nullptr;
            mlse_reach("reset");
            break;
        default: {
            auto s = r->read_schema();
            // Without any row the columns are not known.
            if (P("csv", 0) && want.empty() && (!s || s->attributes().empty()))
                break;
            CHECK(s && s->attributes().size() == 1, "wrong schema");
            auto &a = s->attributes()[0];
            CHECK((P("csv", 0) || a.name() == "value") && a.data_type() == Data_type::string && !a.sparse() && a.shape() == (Size_vector{c.batch, 1}), "wrong schema");
            break;
        }
        }
    }
    r = nullptr;
    peeked = nullptr;
    ep = {};
    std::vector<std::size_t>().swap(order);
    CHECK(mlse_live_heap() == live, "memory is leaked");
}

// A background thread that does not start is an error of that one read; no
// signal is lost on the way.
void starting()
{
    Config c;
    c.n = pick("records", 0, P("n", 2));
    c.batch = 1;
    Dataset d{c.n, c.n + 1};
    sigset_t mask;
    std::memset(&mask, 0, sizeof mask);
    *reinterpret_cast<unsigned long *>(&mask) = sym<std::uint16_t>("mask");
    signals = mask;
    auto r = make(c, d);
    starts_failing = static_cast<int>(P("faults", 2));
    Epoch ep;
    std::vector<std::size_t> order;    // of every epoch, as far as it is known
    order.reserve(c.n);
    Intrusive_ptr<Example> peeked;
    for (std::size_t k = 0; k < P("steps", 4); k++) {
        const int before = starts_failing;
        const std::size_t op = pick("op", 0, 3);
        bool failed = false;
        try {
            if (op < 2) {
                auto e = op == 0 ? r->read_example() : r->peek_example();
                CHECK((e == nullptr) == (!peeked && ep.got.size() == c.n), e ? "an example too many" : "an example is missing");
                if (e && !peeked)
                    check_example(c, c.n, *e, ep);
                peeked = op == 0 ? nullptr : e;
                for (std::size_t i = 0; i < ep.got.size(); i++)
                    CHECK(ep.got[i] == i, "wrong instance or wrong order");
                mlse_reach("read");
            }
            else if (op == 2) {
                r->reset();
                ep = {};
                peeked = nullptr;
            }
            else
                CHECK(r->read_schema() != nullptr, "wrong schema");
        }
        catch (const std::system_error &e) {
            failed = true;
            CHECK(e.code().value() == EAGAIN, "another error");
        }
        CHECK(failed == (starts_failing < before), "a background thread that does not start is no error");
        CHECK(!std::memcmp(&signals, &mask, sizeof mask), "the signals of the caller are left blocked");
    }
    r = nullptr;
    CHECK(!std::memcmp(&signals, &mask, sizeof mask), "the signals of the caller are left blocked");
}

// The shards of a dataset, put together, are the dataset.
void shards()
{
    Config c = config();
    Dataset d{c.n, c.n + 1};
    mlse_assume(!c.drop());
    c.shards = pick("shards", 2, P("shard", 3));
    std::vector<std::size_t> seen(c.n);
    Config all = c;
    all.shards = 0;
    auto want = reference(all);
    for (c.index = 0; c.index < c.shards; c.index++) {
        auto r = make(c, d);
        Epoch ep;
        auto mine = reference(c);
        while (auto e = r->read_example())
            check_example(c, mine.size(), *e, ep);
        for (std::size_t i : ep.got)
            seen[i]++;
    }
    for (std::size_t i = 0; i < c.n; i++) {
        bool in = false;
        for (std::size_t j : want)
            in = in || j == i;
        CHECK(seen[i] == (in ? 1U : 0U), "the shards are no partition of the dataset");
    }
    mlse_reach("partition");
}

// Of every block of the sampler, as many instances as the ratio says.
void sampling()
{
    static const std::size_t sizes[] = {0, 1, 5, 99, 100, 101, 150, 200, 205};
    static const float ratios[] = {0.004F, 0.01F, 0.1F, 0.29F, 0.3333F, 0.5F, 0.75F, 0.999F};
    Config c;
    c.n = sizes[pick("records", 0, 8)];
    c.batch = pick("batch", 0, 1) ? 7 : 1;
    c.ratio = ratios[pick("ratio", 0, 7)];
    Dataset d{c.n, c.n + 1};
    auto r = make(c, d);
    std::vector<std::size_t> first;
    for (int k = 0; k < 2; k++) {
        std::vector<std::size_t> got;
        std::size_t count[3] = {};
        bool last = false;
        while (auto e = r->read_example()) {
            CHECK(!last, "a short example that is not the last");
            auto v = static_cast<Dense_tensor &>(*e->features()[0]).data().as<std::string>();
            CHECK(v.size() <= c.batch, "an example that is too large");
            last = v.size() < c.batch;
            for (auto &s : v) {
                std::size_t i = index_of(s, c.n);
                CHECK(got.empty() || got.back() < i, "sampling delivers an instance twice or out of order");
                got.push_back(i);
                count[i / 100]++;
            }
        }
        for (std::size_t b = 0; b * 100 < c.n; b++) {
            double m = static_cast<double>(c.n - b * 100 < 100 ? c.n - b * 100 : 100) * *c.ratio, x = static_cast<double>(count[b]);
            CHECK(x > m - 1.001 && x < m + 1.001, "sampling keeps too few or too many instances");
        }
        CHECK(k == 0 || got == first, "sampling keeps other instances after a reset");
        first = got;
        mlse_reach("sampled");
        r->reset();
    }
}

// A reset in the middle of an epoch starts the same sample again.
void sampling_again()
{
    static const std::size_t sizes[] = {1, 7, 101, 130};
    static const float ratios[] = {0.1F, 0.5F, 0.75F};
    Config c;
    c.n = sizes[pick("records", 0, 3)];
    c.batch = pick("batch", 1, 2);
    c.ratio = ratios[pick("ratio", 0, 2)];
    if (sym_bool("sharded")) {
        c.shards = 2;
        c.index = pick("shard", 0, 1);
    }
    else
        c.skip = pick("skip", 0, 1);
    Dataset d{c.n, c.n + 1};
    const auto base = reference(c);
    auto r = make(c, d);
    std::vector<std::size_t> first;
    auto read = [&](std::vector<std::size_t> &got) {
        auto e = r->read_example();
        if (!e)
            return false;
        for (auto &s : static_cast<Dense_tensor &>(*e->features()[0]).data().as<std::string>())
            got.push_back(index_of(s, c.n));
        return true;
    };
    while (read(first))
        ;
    for (std::size_t i = 0, k = 0; i < first.size(); i++, k++) {
        while (k < base.size() && base[k] != first[i])
            k++;
        CHECK(k < base.size(), "the sample is no part of the dataset in its order");
    }
    for (std::size_t b = 0; b < base.size(); b += 100) {
        const std::size_t m = base.size() - b < 100 ? base.size() - b : 100;
        std::size_t n = 0;
        for (std::size_t k = b; k < b + m; k++)
            for (std::size_t i : first)
                n += i == base[k];
        const double x = static_cast<double>(n), y = static_cast<double>(m) * *c.ratio;
        CHECK(x > y - 1.001 && x < y + 1.001, "sampling keeps too few or too many instances");
    }
    for (int k = 0; k < 2; k++) {
        r->reset();
        std::vector<std::size_t> got;
        static const std::size_t steps[] = {0, 1, 3, 21, 30, 60};
        std::size_t n = steps[pick("reads", 0, 5)];
        while (n && read(got))
            n--;
        for (std::size_t i = 0; i < got.size(); i++)
            CHECK(i < first.size() && got[i] == first[i], "sampling keeps other instances after a reset");
        if (!n)
            mlse_reach("interrupted");
    }
    r->reset();
    std::vector<std::size_t> got;
    while (read(got))
        ;
    CHECK(got == first, "sampling keeps other instances after a reset");
    mlse_reach("again");
}

// Only valid parameters are accepted.
void parameters()
{
    Config c;
    c.n = 1;
    c.batch = sym<std::size_t>("batch");
    c.shards = sym<std::size_t>("shards");
    c.index = sym<std::size_t>("index");
    if (sym_bool("sampled"))
        c.ratio = sym<float>("ratio");
    c.shuffle = sym_bool("shuffled");
    c.window = pick("window", 0, 2);
    Dataset d{c.n, c.n + 1};
    if (make(c, d))
        mlse_reach("accepted");
}

}  // namespace

extern "C" void mlse_main()
{
    use_heap();
    switch (mlse_param("mode", 0)) {
    case 0: epochs(); break;
    case 1: operations(); break;
    case 2: shards(); break;
    case 3: sampling(); break;
    case 4: parameters(); break;
    case 5: starting(); break;
    case 6: sampling_again(); break;
    }
}
