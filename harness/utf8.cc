// U02: every text stream comes out as UTF-8.
//
// The bytes of the stream are symbolic; the conversion library is replaced by
// a model of it in the executor (replays use the real one).
#include <cerrno>
#include <cstring>
#include <system_error>

#include <iconv.h>

#include "mlio/streams/stream_error.h"
#include "mlio/streams/utf8_input_stream.h"
#include "mlio/text_encoding.h"

#include "iconv_model.h"
#include "setup.h"
#include "stream.h"

using namespace mlio;

template<typename T>
auto shrink(T *s, std::size_t n, int) -> decltype((void)(s->buffer_end_ = s->buffer_->begin() + 1))
{
    if (s->buffer_ != nullptr)
        s->buffer_end_ = s->buffer_->begin() + static_cast<std::ptrdiff_t>(n);
}
template<typename T>
void shrink(T *, std::size_t, long) {}

extern "C" void mlse_main()
{
    use_heap();
    const std::size_t n = pick("length", 0, static_cast<std::uint64_t>(mlse_param("len", 8)));
    unsigned char buf[32];
    mlse_symbolic(buf, n, "bytes");

    static const Text_encoding *const encodings[] = {nullptr, &Text_encoding::utf8, &Text_encoding::utf16_le, &Text_encoding::utf16_be, &Text_encoding::utf32_le, &Text_encoding::utf32_be};
    auto which = pick("encoding", mlse_param("enc_lo", 0), mlse_param("enc_hi", 5));
    Kind kind = raw;
    if (which >= 2)
        kind = static_cast<Kind>(which - 1);
    else if (which == 0) {
        if (n >= 4 && buf[0] == 0 && buf[1] == 0 && buf[2] == 0xFE && buf[3] == 0xFF)
            kind = u32be;
        else if (n >= 4 && buf[0] == 0xFF && buf[1] == 0xFE && buf[2] == 0 && buf[3] == 0)
            kind = u32le;
        else if (n >= 2 && buf[0] == 0xFE && buf[1] == 0xFF)
            kind = u16be;
        else if (n >= 2 && buf[0] == 0xFF && buf[1] == 0xFE)
            kind = u16le;
        mlse_assume(kind != raw || n <= static_cast<std::size_t>(mlse_param("raw_len", 5)));
    }

    // What has to come out.
    unsigned char want[64];
    std::size_t want_n = 0;
    bool valid = true;
    if (kind == raw) {
        std::memcpy(want, buf, n);
        want_n = n;
    }
    else
        for (std::size_t i = 0; i < n;) {
            std::uint32_t cp = 0;
            int k = decode(kind, buf + i, n - i, cp);
            if (k <= 0) {
                valid = false;
                break;
            }
            want_n += encode(cp, want + want_n);
            i += static_cast<std::size_t>(k);
        }

    {
        bool seekable = sym_bool("seekable");
        auto inner = make_intrusive<Chopped_stream>(buf, n, static_cast<int>(mlse_param("shorts", 1)), seekable);
        Intrusive_ptr<Input_stream> s;
        if (which == 0)
            s = make_utf8_stream(inner);
        else
            s = make_utf8_stream(inner, *encodings[which]);
        if (auto *u = dynamic_cast<Utf8_input_stream *>(s.get()))
            if (kind != raw && sym_bool("small_buffer"))
                shrink(u, pick("buffer", seekable || which != 0 ? 4 : 5, 8), 0);

        std::size_t got = 0;
        std::size_t chunk = pick("chunk", 1, 6);
        for (;;) {
            unsigned char out[8];
            std::memset(out, 0x5A, sizeof out);
            std::size_t k = 0;
            bool thrown = false;
            try {
                k = s->read(Mutable_memory_span{reinterpret_cast<std::byte *>(out), chunk});
            }
            catch (const Stream_error &) {
                thrown = true;
            }
            mlse_trace(thrown ? 99 : k);
            if (thrown) {
                mlse_reach("invalid");
                CHECK(!valid, "a valid stream is rejected");
                break;
            }
            CHECK(k <= chunk, "more bytes than asked for");
            for (std::size_t i = k; i < sizeof out; i++)
                CHECK(out[i] == 0x5A, "bytes beyond those reported are written");
            if (k == 0) {
                CHECK(valid, "an invalid stream ends without an error");
                CHECK(got == want_n, "the end of the stream is lost");
                mlse_reach(kind == raw ? "raw" : "converted");
                CHECK(s->read(Mutable_memory_span{reinterpret_cast<std::byte *>(out), chunk}) == 0, "bytes after the end");
                break;
            }
            CHECK(got + k <= want_n, "too many bytes");
            for (std::size_t i = 0; i < k; i++)
                CHECK(out[i] == want[got + i], "wrong byte");
            got += k;
        }
        s->close();
        CHECK(s->closed() && inner->closed(), "closing does not close the source");
        bool thrown = false;
        try {
            std::byte b;
            s->read(Mutable_memory_span{&b, 1});
        }
        catch (const Stream_error &) {
            thrown = true;
        }
        CHECK(thrown || s.get() == inner.get(), "reading from a closed stream");
    }
#ifndef MLSE_NATIVE
    CHECK(converters == 0, "a converter is leaked");
#endif
}
