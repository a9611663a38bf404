// G01: the log and the setup of the library.  T03: arrays, devices, examples.
#include <cstring>
#include <memory>
#include <optional>
#include <stdexcept>
#include <string>
#include <vector>

#include <sys/sysinfo.h>

#include "mlio/cpu_array.h"
#include "mlio/device.h"
#include "mlio/example.h"
#include "mlio/init.h"
#include "mlio/logger.h"
#include "mlio/memory/memory_block.h"
#include "mlio/schema.h"
#include "mlio/tensor.h"
#include "setup.h"

using namespace mlio;

extern "C" int sysinfo(struct sysinfo *s) noexcept
{
    *s = {};
    s->totalram = 1 << 20;
    s->mem_unit = 1;
    return 0;
}

namespace {

std::size_t P(const char *name, long def) { return static_cast<std::size_t>(mlse_param(name, def)); }

// ---- G01

struct Seen {
    int handler = 0;
    int times = 0;
    Log_level level{};
    char text[64] = {};
};
Seen seen;

struct Handler {
    int id;
    void operator()(Log_level l, std::string_view s) const
    {
        seen.handler = id;
        seen.times++;
        seen.level = l;
        CHECK(s.size() < sizeof(seen.text), "a message is too long");
        std::memcpy(seen.text, s.data(), s.size());
        seen.text[s.size()] = 0;
        if (id == 3)
            throw std::runtime_error{"from a handler"};
        if (id == 4)
            throw 4;
    }
};

void logging()
{
    Log_level set = Log_level::warning;
    int handler = 0;
    for (std::size_t i = P("steps", 3); i; i--) {
        switch (pick("step", 0, 2)) {
        case 0:
            set = static_cast<Log_level>(pick("level", 0, 3));
            set_log_level(set);
            break;
        case 1: {
            const int h = static_cast<int>(pick("handler", 0, 4));
            auto old = set_log_message_handler(h ? Log_message_handler{Handler{h}} : Log_message_handler{});
            CHECK(static_cast<bool>(old) == (handler != 0), "there was or was no handler before");
            if (old)
                CHECK(old.target<Handler>() && old.target<Handler>()->id == handler, "another handler is returned");
            handler = h;
            break;
        }
        default: {
            const auto level = static_cast<Log_level>(pick("of level", 1, 3));
            const auto how = pick("message", 0, 3);
            seen = {};
            const char *text = "no {0} arguments";
            const std::string word = sym_bool("word") ? "word" : "{0}";
            bool good = true;
            switch (how) {
            case 0:
                level == Log_level::warning ? logger::warn(text) : level == Log_level::info ? logger::info(text) : logger::debug(text);
                break;
            case 1:
                text = word == "word" ? "1: word 12 word" : "1: {0} 12 {0}";
                level == Log_level::warning ? logger::warn("1: {0} {1:n} {0}", word, 12)
                : level == Log_level::info  ? logger::info("1: {0} {1:n} {0}", word, 12)
                                            : logger::debug("1: {0} {1:n} {0}", word, 12);
                break;
            case 2:
                text = "level";
                logger::log(level, "level");
                break;
            default:
                // This cannot be formatted.
                good = false;
                level == Log_level::warning ? logger::warn("{7}", word) : level == Log_level::info ? logger::info("{7}", word) : logger::debug("{7}", word);
            }
            const bool on = level <= set;
            CHECK(logger::is_enabled_for(level) == on, "a level is on or off");
            CHECK(seen.times == (on && handler && good), "a message arrives that should not, or does not");
            if (seen.times) {
                CHECK(seen.handler == handler && seen.level == level, "a message arrives elsewhere or with another level");
                CHECK(std::strcmp(seen.text, text) == 0, "a message is another one");
                mlse_reach(handler >= 3 ? "thrown" : "message");
            }
            else
                mlse_reach("none");
        }
        }
    }
    set_log_message_handler({});
}

void setup()
{
    set_log_message_handler(Handler{1});
    initialize();
    auto *first = &memory_allocator();
    CHECK(seen.times == 0, "a warning without reason");
    const std::size_t n = pick("size", 0, 3);
    auto block = first->allocate(n);
    CHECK(block->size() == n && block->resizable(), "a block has another size");
    bool own = false;
    for (std::size_t i = P("steps", 3); i; i--) {
        if (sym_bool("again")) {
            seen = {};
            initialize();
            CHECK(seen.times == 1 && seen.level == Log_level::warning, "no warning");
            CHECK(own || &memory_allocator() == first, "the allocator is replaced");
            mlse_reach("again");
        }
        else {
            auto mine = std::make_unique<Heap_memory_allocator>();
            auto *p = mine.get();
            set_memory_allocator(std::move(mine));
            CHECK(&memory_allocator() == p, "another allocator");
            own = true;
        }
        auto b = memory_allocator().allocate(n);
        CHECK(b->size() == n, "a block has another size");
        for (auto &x : *b)
            x = std::byte{1};
    }
    // What an allocator made stays.
    for (auto &x : *block)
        x = std::byte{2};
    block->resize(n + 1);
    for (std::size_t i = 0; i < n; i++)
        CHECK(block->begin()[i] == std::byte{2}, "a byte changes");
    set_log_message_handler({});
}

// ---- T03

bool same(const void *a, const void *b) { return a == b; }

template<Data_type dt>
struct Check_op {
    using T = data_type_t<dt>;
    static T value(const char *name)
    {
        if constexpr (std::is_same_v<T, std::string>)
            return sym_bool(name) ? "a text that needs memory of its own" : std::string(1, static_cast<char>(mlse_concretize(sym_range("character", 'a', 'b'))));
        else {
            T t{};
            for (std::size_t i = 0; i < sizeof(T); i++)
                reinterpret_cast<unsigned char *>(&t)[i] = sym<std::uint8_t>(name);
            return t;
        }
    }
    static bool equal(const T &a, const T &b)
    {
        if constexpr (std::is_same_v<T, std::string>)
            return a == b;
        else
            return std::memcmp(&a, &b, sizeof(T)) == 0;
    }
    static void about(const Device_array &a, std::size_t n)
    {
        CHECK(a.data_type() == dt && a.size() == n && a.empty() == (n == 0), "an array has another type or size");
        CHECK(a.device() == Device{Device_kind::cpu()}, "an array is elsewhere");
        Device_array_view v{a};
        CHECK(v.data_type() == dt && v.size() == n && v.empty() == (n == 0) && v.device() == a.device() && same(v.data(), a.data()), "a view differs");
        CHECK(v.as<T>().size() == n && same(v.as<T>().data(), a.data()) && same(as_span<T>(a).data(), a.data()), "a view is elsewhere");
    }
    int operator()(std::size_t n)
    {
        auto a = make_cpu_array(dt, n);
        about(*a, n);
        for (auto &x : as_span<T>(*a))
            CHECK(equal(x, T{}), "a new array is not zero");
        std::vector<T> values;
        for (std::size_t i = 0; i < n; i++)
            values.push_back(value("value"));
        auto copy = values;
        const void *where = copy.data();
        auto w = wrap_cpu_array<dt>(std::move(copy));
        about(*w, n);
        CHECK(n == 0 || same(w->data(), where), "a container is copied");
        Device_array_span s{*w};
        CHECK(same(s.data(), w->data()) && s.size() == n && s.data_type() == dt, "a span differs");
        Device_array_view v{s};
        CHECK(same(v.data(), w->data()), "a view differs");
        for (std::size_t i = 0; i < n; i++)
            CHECK(equal(s.template as<T>()[i], values[i]), "an element differs");
        auto c = w->clone();
        about(*c, n);
        CHECK(n == 0 || !same(c->data(), w->data()), "a clone shares memory");
        const bool first = sym_bool("first");
        auto &changed = first ? *w : *c, &kept = first ? *c : *w;
        for (auto &x : as_span<T>(changed))
            x = T{};
        (first ? w : c) = nullptr;
        for (std::size_t i = 0; i < n; i++)
            CHECK(equal(as_span<T>(kept)[i], values[i]), "an element of a clone differs");
        auto again = kept.clone();
        for (std::size_t i = 0; i < n; i++)
            CHECK(equal(as_span<T>(*again)[i], values[i]), "an element of a clone differs");
        mlse_reach(n ? "elements" : "empty");
        return 0;
    }
};

void arrays()
{
    dispatch<Check_op>(static_cast<Data_type>(pick("type", 0, 12)), pick("size", 0, P("size", 2)));
}

void devices()
{
    // Names are compared by their characters.
    static char names[2][3] = {};
    std::string_view views[2];
    for (int i = 0; i < 2; i++) {
        const std::size_t n = pick("length", 0, 2);
        for (std::size_t k = 0; k < n; k++)
            names[i][k] = sym<char>("character");
        views[i] = {names[i], n};
    }
    bool same = views[0].size() == views[1].size();
    for (std::size_t k = 0; same && k < views[0].size(); k++)
        same = names[0][k] == names[1][k];
    const Device_kind a{views[0]}, b{views[1]};
    CHECK((a == b) == same && (a != b) == !same, "kinds of devices are or are not equal");
    CHECK(!same || std::hash<Device_kind>{}(a) == std::hash<Device_kind>{}(b), "equal kinds have different hashes");
    const auto i = sym<std::size_t>("number"), j = sym<std::size_t>("number");
    const Device d{a, i}, e{b, j};
    CHECK((d == e) == (same && i == j) && (d != e) == !(same && i == j), "devices are or are not equal");
    if (same && i == j)
        CHECK(std::hash<Device>{}(d) == std::hash<Device>{}(e), "equal devices have different hashes");
    CHECK(d.id() == i && d.kind() == a && Device{a}.id() == 0, "a device is another one");
    CHECK(Device_kind::cpu() == Device_kind::cpu() && Device_kind::cpu() != a, "a kind is the CPU or not");
    mlse_reach(same ? "same" : "different");
}

void examples()
{
    const std::size_t n = pick("attributes", 0, 3), m = pick("features", 0, 3);
    std::vector<Attribute> attributes;
    std::string names[3];
    for (std::size_t i = 0; i < n; i++) {
        names[i] = std::string(pick("length", 0, 2), 'x');
        for (auto &c : names[i])
            c = sym_bool("b") ? 'b' : 'a';
        for (std::size_t k = 0; k < i; k++)
            mlse_assume(names[i] != names[k]);
        attributes.emplace_back(names[i], Data_type::int32, Size_vector{1});
    }
    std::vector<Intrusive_ptr<Tensor>> features;
    for (std::size_t i = 0; i < m; i++)
        features.push_back(make_intrusive<Dense_tensor>(Size_vector{1}, make_cpu_array(Data_type::int32, 1)));
    const auto kept = features;
    auto schema = make_intrusive<Schema>(std::move(attributes));
    Intrusive_ptr<Example> e;
    try {
        e = make_intrusive<Example>(schema, std::move(features));
    }
    catch (const std::invalid_argument &) {
        CHECK(n != m, "an example is refused");
        mlse_reach("refused");
        return;
    }
    CHECK(n == m, "an example has more or fewer features than attributes");
    CHECK(&e->schema() == schema.get() && e->features() == kept && e->padding == 0, "an example is another one");
    std::string name(pick("length", 0, 2), 'x');
    for (auto &c : name)
        c = sym_bool("b") ? 'b' : 'a';
    Intrusive_ptr<Tensor> at;
    for (std::size_t i = 0; i < n; i++)
        if (names[i] == name)
            at = kept[i];
    CHECK(e->find_feature(name) == at, "a name gives another feature");
    mlse_reach(at ? "found" : "not found");
}

}  // namespace

extern "C" void mlse_main()
{
    switch (mlse_param("mode", 0)) {
    case 0: logging(); break;
    case 1: setup(); break;
    case 2:
        use_heap();
        arrays();
        break;
    case 3: devices(); break;
    case 4: examples(); break;
    }
}
