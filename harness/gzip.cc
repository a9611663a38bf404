// U03: inflating a stream.
//
// The zlib calls are replaced by an inflater of a toy format with zlib's
// contract (input is consumed without output, output is withheld while the
// buffer is full, members are concatenated, a trailer ends each member):
//   member = 'H' code* 0, code = 1..3: that many bytes of output
// The compressed bytes are symbolic.
#include <cstring>

#include <zlib.h>

#include "mlio/streams/gzip_inflate_stream.h"
#include "mlio/streams/memory_input_stream.h"
#include "mlio/streams/stream_error.h"

#include "setup.h"
#include "stream.h"

using namespace mlio;

namespace {
struct Toy {
    bool in_member = false, ended = false, bad = false;
    unsigned pending = 0;
    unsigned char next = 1;
} toy;
int inflaters = 0;
}  // namespace

extern "C" {
int inflateInit2_(z_streamp, int bits, const char *, int)
{
    CHECK(bits == 15 + 32 || bits == 15 + 16, "gzip streams are not recognised");
    toy = Toy{};
    inflaters++;
    return Z_OK;
}
int inflateEnd(z_streamp)
{
    inflaters--;
    return Z_OK;
}
int inflateReset(z_streamp)
{
    auto n = toy.next;
    toy = Toy{};
    toy.next = n;
    return Z_OK;
}
int inflate(z_streamp s, int)
{
    CHECK(!toy.ended, "inflate after the end of a member without a reset");
    CHECK(!toy.bad, "inflate after an error");
    bool progress = false;
    for (;;) {
        if (toy.pending > 0) {
            if (s->avail_out == 0)
                return progress ? Z_OK : Z_BUF_ERROR;
            *s->next_out++ = toy.next++;
            s->avail_out--;
            toy.pending--;
            progress = true;
            continue;
        }
        if (s->avail_in == 0)
            return progress ? Z_OK : Z_BUF_ERROR;
        unsigned char c = *s->next_in++;
        s->avail_in--;
        progress = true;
        if (!toy.in_member) {
            if (c != 'H') {
                toy.bad = true;
                return Z_DATA_ERROR;
            }
            toy.in_member = true;
        }
        else if (c == 0) {
            toy.in_member = false;
            toy.ended = true;
            return Z_STREAM_END;
        }
        else if (c > 3) {
            toy.bad = true;
            return Z_DATA_ERROR;
        }
        else
            toy.pending = static_cast<unsigned>(mlse_concretize(c));
    }
}
}

extern "C" void mlse_main()
{
    use_heap();
    const std::size_t n = pick("length", 0, static_cast<std::uint64_t>(mlse_param("len", 6)));
    unsigned char buf[32];
    mlse_symbolic(buf, n, "bytes");

    std::size_t want_n = 0;
    bool valid = true, in_member = false;
    for (std::size_t i = 0; i < n && valid; i++) {
        if (!in_member) {
            valid = buf[i] == 'H';
            in_member = true;
        }
        else if (buf[i] == 0)
            in_member = false;
        else if (buf[i] > 3)
            valid = false;
        else
            want_n += mlse_concretize(buf[i]);
    }
    if (in_member)
        valid = false;

    {
        Intrusive_ptr<Input_stream> inner;
        if (sym_bool("in_memory"))
            inner = make_intrusive<Memory_input_stream>(slice_of(buf, n));
        else
            inner = make_intrusive<Chopped_stream>(buf, n, static_cast<int>(mlse_param("shorts", 2)));
        auto s = make_intrusive<Gzip_inflate_stream>(inner);
        CHECK(!s->supports_zero_copy(), "an inflated stream is no view of its source");
        std::size_t got = 0, rest = pick("chunk", 1, 4);
        for (int calls = 0;; calls++) {
            unsigned char out[8];
            std::memset(out, 0x5A, sizeof out);
            std::size_t chunk = calls < mlse_param("picks", 2) ? pick("chunk", calls == 0 ? 0 : 1, 4) : rest, k = 0;
            bool thrown = false;
            try {
                k = s->read(Mutable_memory_span{reinterpret_cast<std::byte *>(out), chunk});
            }
            catch (const Stream_error &) {
                thrown = true;
            }
            mlse_trace(thrown ? 99 : k);
            if (thrown) {
                mlse_reach("invalid");
                CHECK(!valid, "a valid stream is rejected");
                break;
            }
            CHECK(k <= chunk, "more bytes than asked for");
            for (std::size_t i = k; i < sizeof out; i++)
                CHECK(out[i] == 0x5A, "bytes beyond those reported are written");
            for (std::size_t i = 0; i < k; i++)
                CHECK(out[i] == 1 + got + i, "wrong byte");
            got += k;
            CHECK(got <= want_n, "too many bytes");
            if (k == 0 && chunk > 0) {
                CHECK(valid, "a truncated or corrupt stream ends without an error");
                CHECK(got == want_n, "the stream ends before its last byte");
                mlse_reach("inflated");
                CHECK(s->read(Mutable_memory_span{reinterpret_cast<std::byte *>(out), 1}) == 0, "bytes after the end");
                break;
            }
        }
        s->close();
        CHECK(s->closed() && inner->closed(), "closing does not close the source");
        bool thrown = false;
        try {
            std::byte b;
            s->read(Mutable_memory_span{&b, 1});
        }
        catch (const Stream_error &) {
            thrown = true;
        }
        CHECK(thrown, "reading from a closed stream");
    }
    CHECK(inflaters == 0, "an inflater is leaked");
}
