// D03: what an image reader makes of a dataset.
#include <memory>
#include <optional>
#include <stdexcept>
#include <string>
#include <vector>

#include <opencv2/imgcodecs.hpp>

#include "mlio/cpu_array.h"
#include "mlio/data_reader.h"
#include "mlio/data_reader_error.h"
#include "mlio/data_stores/in_memory_store.h"
#include "mlio/example.h"
#include "mlio/image_reader.h"
#include "mlio/logging.h"
#include "mlio/schema.h"
#include "mlio/tensor.h"

#include "setup.h"
#include "stream.h"

using namespace mlio;

namespace {

std::size_t P(const char *name, long def) { return static_cast<std::size_t>(mlse_param(name, def)); }

bool has(std::size_t mask, std::size_t bit) { return (mask >> bit & 1U) != 0; }

std::size_t warnings;

// ---- A made-up image format: kind, rows, columns, channels, seed

enum Kind { good, throws, empty, short_record, no_resize, no_color, deep, num_kinds };

struct Image {
    std::size_t kind = good, rows = 1, cols = 1, channels = 3;
    unsigned char seed = 0;
};

unsigned char pixel(unsigned char seed, std::size_t i, std::size_t j, std::size_t k)
{
    return static_cast<unsigned char>(seed + i * 16 + j * 4 + k);
}

bool fail_resize;

}  // namespace


namespace cv {

Mat imdecode(const Mat &buf, int mode)
{
    if (buf.empty())
        return {};
    CHECK(buf.rows == 1 && buf.cols == 5, "the image is not what is in the data store");
    const unsigned char *p = buf.ptr(0);
    fail_resize = p[0] == no_resize;
    fail_color = p[0] == no_color;
    if (p[0] == throws)
        throw Exception{};
    if (p[0] == ::empty)
        return {};
    int channels = mode == IMREAD_GRAYSCALE ? 1 : mode == IMREAD_COLOR ? 3 : p[3];
    // The depth is kept as well if the image is to be left as it is.
    if (p[0] == deep && mode == IMREAD_UNCHANGED) {
        Mat m{p[1], p[2], CV_16UC(channels)};
        std::memset(m.data, p[4], static_cast<std::size_t>(m.rows) * m.step);
        return m;
    }
    Mat m{p[1], p[2], CV_8UC(channels)};
    for (int i = 0; i < m.rows; i++)
        for (int j = 0; j < m.cols; j++)
            for (int k = 0; k < channels; k++)
                m.ptr(i)[j * channels + k] = pixel(p[4], static_cast<std::size_t>(i), static_cast<std::size_t>(j), static_cast<std::size_t>(k));
    return m;
}

// The nearest pixel.
void resize(const Mat &src, Mat &dst, Size s, double, double, int)
{
    if (s.width <= 0 || s.height <= 0 || src.empty() || fail_resize)
        throw Exception{};
    Mat m{s.height, s.width, src.type()};
    const int c = static_cast<int>(src.elemSize());
    for (int i = 0; i < m.rows; i++)
        for (int j = 0; j < m.cols; j++)
            for (int k = 0; k < c; k++)
                m.ptr(i)[j * c + k] = src.ptr(i * src.rows / m.rows)[j * src.cols / m.cols * c + k];
    dst = m;
}

}  // namespace cv

namespace {

struct Config {
    std::size_t channels = 3, height = 1, width = 1, batch = 1;
    std::optional<std::size_t> resize;
    bool rgb = false, frame = false;
};

// The image as it has to be, or nothing if it is bad.
std::optional<std::vector<unsigned char>> expected(const Config &c, const Image &m)
{
    if (m.kind == deep && c.channels == 4)
        return {};
    if (m.kind != good && m.kind != deep && (m.kind != no_resize || c.resize) && (m.kind != no_color || (c.rgb && c.channels > 1)))
        return {};
    if (c.channels == 4 && m.channels != 4)
        return {};
    std::size_t rows = m.rows, cols = m.cols;
    if (c.resize) {
        if (*c.resize == 0)
            return {};
        rows = m.rows > m.cols ? *c.resize * m.rows / m.cols : *c.resize;
        cols = m.rows > m.cols ? *c.resize : *c.resize * m.cols / m.rows;
    }
    if (rows < c.height || cols < c.width)
        return {};
    std::vector<unsigned char> v;
    const std::size_t y = (rows - c.height) / 2, x = (cols - c.width) / 2;
    for (std::size_t i = y; i < y + c.height; i++)
        for (std::size_t j = x; j < x + c.width; j++)
            for (std::size_t k = 0; k < c.channels; k++)
                v.push_back(pixel(m.seed, i * m.rows / rows, j * m.cols / cols, c.rgb && c.channels > 1 && k < 3 ? 2 - k : k));
    return v;
}

std::string frame(const std::string &payload)
{
    std::string s = "\x0a\x23\xd7\xce";
    std::uint32_t h = static_cast<std::uint32_t>(payload.size());
    s.append(reinterpret_cast<const char *>(&h), 4);
    s += payload;
    while (s.size() % 4)
        s += '\0';
    return s;
}

Image make_image(const Config &c)
{
    Image m;
    m.kind = pick("kind", 0, num_kinds - 1);
    mlse_assume(has(P("kinds", 0x7f), m.kind) && (m.kind != short_record || c.frame));
    m.rows = pick("rows", 1, P("size", 2));
    m.cols = pick("cols", 1, P("size", 2));
    m.channels = c.channels == 4 && P("other_channels", 1) && sym_bool("three channels") ? 3 : 4;
    m.seed = sym<unsigned char>("seed");
    return m;
}

template<typename F>
int outcome(F &&f)
{
    try {
        f();
        return 0;
    }
    catch (const Invalid_instance_error &) {
        return 1;
    }
    catch (const std::invalid_argument &) {
        return 1;
    }
    catch (const std::exception &) {
        return 2;
    }
}

void decode()
{
    Config c;
    c.channels = P("channels", 0) ? P("channels", 0) : std::size_t{1} + pick("channels", 0, 2);
    if (c.channels == 2)
        c.channels = 4;
    c.height = pick("height", 1, P("out", 2));
    c.width = pick("width", 1, P("out", 2));
    c.batch = pick("batch", 1, P("batch", 2));
    if (P("resize", 3) && sym_bool("resize"))
        c.resize = pick("resize", 0, P("resize", 3));
    c.rgb = sym_bool("rgb");
    c.frame = P("frame", 1) && sym_bool("recordio");

    const std::size_t n = pick("images", 0, P("images", 2));
    std::vector<Image> images;
    std::vector<std::optional<std::vector<unsigned char>>> want;
    std::vector<std::string> text;
    const std::size_t cut = c.frame ? pick("cut", 0, n) : 0;
    if (c.frame)
        text.resize(2);
    for (std::size_t i = 0; i < n; i++) {
        Image m = make_image(c);
        images.push_back(m);
        want.push_back(expected(c, m));
        std::string s;
        s += static_cast<char>(m.kind);
        s += static_cast<char>(m.rows);
        s += static_cast<char>(m.cols);
        s += static_cast<char>(m.channels);
        s += static_cast<char>(m.seed);
        if (c.frame)
            text[i < cut ? 0 : 1] += frame(m.kind == short_record ? std::string(pick("record", 0, 24), '\0') : std::string(24, 'h') + s);
        else
            text.push_back(s);
    }

    Data_reader_params p{};
    for (auto &t : text)
        p.dataset.push_back(make_intrusive<In_memory_store>(slice_of(t.data(), t.size())));
    p.batch_size = c.batch;
    p.num_prefetched_examples = 2;
    p.num_parallel_reads = 2;
    p.bad_example_handling = static_cast<Bad_example_handling>(pick("bad", P("min_bad", 0), P("bad", 4)));
    p.last_example_handling = static_cast<Last_example_handling>(pick("last", 0, P("last", 0)));
    p.warn_bad_instances = P("warn", 0) && sym_bool("warn");
    const auto bad = p.bad_example_handling;
    const auto last = p.last_example_handling;
    const bool warn = p.warn_bad_instances;
    Image_reader_params q{};
    q.image_frame = c.frame ? Image_frame::recordio : Image_frame::none;
    q.resize = c.resize;
    q.image_dimensions = {c.channels, c.height, c.width};
    q.to_rgb = c.rgb;
    auto r = make_intrusive<Image_reader>(std::move(p), std::move(q));
    warnings = 0;
    auto s = r->read_schema();
    CHECK(s && s->attributes().size() == 1, "wrong schema");
    auto &a = s->attributes()[0];
    CHECK(a.data_type() == Data_type::uint8 && !a.sparse(), "wrong schema");
    CHECK((a.shape() == Size_vector{c.batch, c.height, c.width, c.channels}), "wrong shape in the schema");

    std::size_t least = 0, instances = 0;
    bool fault = false;
    for (std::size_t from = 0; from < n && !fault; from += c.batch) {
        std::size_t to = from + c.batch < n ? from + c.batch : n, bads = 0, size = to - from;
        if (size < c.batch) {
            least += last == Last_example_handling::drop_warn || last == Last_example_handling::pad_warn;
            if (last == Last_example_handling::drop || last == Last_example_handling::drop_warn)
                break;
            if (last == Last_example_handling::pad || last == Last_example_handling::pad_warn)
                size = c.batch;
        }
        for (std::size_t i = from; i < to; i++)
            bads += !want[i];
        const bool skips = bad == Bad_example_handling::skip || bad == Bad_example_handling::skip_warn;
        if (bads && warn)
            instances += skips || bad == Bad_example_handling::error ? 1 : bads;
        if (bads && bad == Bad_example_handling::error) {
            fault = true;
            break;
        }
        if (bads && skips) {
            least += bad == Bad_example_handling::skip_warn;
            mlse_reach("skipped");
            continue;
        }
        if (bads && bad == Bad_example_handling::pad_warn)
            least++;
        Intrusive_ptr<Example> e;
        int o = outcome([&] { e = r->read_example(); });
        if (o != 0) {
            // An error may overtake what has been decoded before it.
            bool later = false;
            for (std::size_t i = to; i < n; i++)
                later = later || !want[i];
            CHECK(o == 1 && bad == Bad_example_handling::error && later, "an error for good images");
            mlse_reach("fault");
            return;
        }
        CHECK(e != nullptr, "an example is missing");
        auto *t = dynamic_cast<Dense_tensor *>(e->features()[0].get());
        CHECK(e->features().size() == 1 && t && t->data_type() == Data_type::uint8, "wrong feature");
        CHECK((t->shape() == Size_vector{size, c.height, c.width, c.channels}), "wrong shape");
        CHECK(e->padding == size - (to - from - bads), "wrong padding");
        auto v = t->data().as<std::uint8_t>();
        std::size_t at = 0;
        for (std::size_t i = from; i < to; i++)
            if (want[i])
                for (unsigned char b : *want[i])
                    CHECK(v[at++] == b, "wrong pixel");
        CHECK(v.size() == size * c.height * c.width * c.channels, "wrong number of pixels");
        while (at < v.size())
            CHECK(v[at++] == 0, "padding is not zero");
        if (e->padding)
            mlse_reach("padded");
        mlse_reach("example");
    }
    for (int k = 0; k < 2; k++) {
        Intrusive_ptr<Example> e;
        int o = outcome([&] { e = r->read_example(); });
        CHECK(o == (fault ? 1 : 0), fault ? "a bad image is not reported" : "an error for good images");
        CHECK(e == nullptr, "an example too many");
    }
    if (fault)
        mlse_reach("fault");
    else if (bad != Bad_example_handling::error)
        CHECK(warnings == least + instances, "a wrong number of warnings");
}

}  // namespace

extern "C" void mlse_main()
{
    use_heap();
    set_log_message_handler([](Log_level, std::string_view) { warnings++; });
    decode();
}
