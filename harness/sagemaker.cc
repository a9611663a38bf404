// U04: SageMaker pipe channels: FIFO after FIFO, one reader at a time.
//
// The system calls are replaced by FIFOs whose writers are as late as the
// solver likes.
#include <cerrno>
#include <cstdarg>
#include <cstring>
#include <system_error>

#include <fcntl.h>
#include <sys/select.h>
#include <sys/types.h>
#include <time.h>
#include <zlib.h>

#include "mlio/data_stores/sagemaker_pipe.h"
#include "mlio/not_supported_error.h"
#include "mlio/streams/sagemaker_pipe_input_stream.h"
#include "mlio/streams/stream_error.h"

#include "setup.h"
#include "stream.h"

using namespace mlio;

namespace {

constexpr int num_fifos = 12;
struct Fifo {
    bool open = false;
    int opened = 0;
    std::size_t pos = 0;
} fifos[num_fifos];
int fd_base;
int hiccups;          // how often the writer may be late
bool timed_out;       // the last select() timed out
bool waited;          // the last select() found data
long slept;           // how many seconds since the last open()
int missing;          // open() calls that find no FIFO
std::size_t fifo_len;
unsigned char contents[num_fifos][4];

}  // namespace

extern "C" {
int open(const char *p, int flags, ...)
{
    CHECK(p[0] == 'c' && p[1] == 'h' && p[2] == '_', "wrong FIFO name");
    CHECK((flags & O_NONBLOCK) != 0, "opening the FIFO may block forever");
    int id = 0;
    for (p += 3; *p; p++)
        id = id * 10 + (*p - '0');
    CHECK(id >= 0 && id < num_fifos, "wrong FIFO number");
    CHECK(slept > 0, "a FIFO that is not there is not waited for");
    slept = 0;
    if (missing > 0 && sym_bool("no_fifo_yet")) {
        missing--;
        errno = ENOENT;
        return -1;
    }
    CHECK(!fifos[id].open, "a FIFO is opened twice");
    fifos[id].open = true;
    fifos[id].pos = 0;
    fifos[id].opened++;
    return fd_base + id;
}
int close(int fd)
{
    int id = fd - fd_base;
    CHECK(id >= 0 && id < num_fifos && fifos[id].open, "close of a descriptor that is not open");
    fifos[id].open = false;
    return 0;
}
ssize_t read(int fd, void *p, size_t n)
{
    int id = fd - fd_base;
    CHECK(id >= 0 && id < num_fifos && fifos[id].open, "read from a descriptor that is not open");
    Fifo &f = fifos[id];
    if (hiccups > 0 && sym_bool("not_yet")) {
        hiccups--;
        errno = EAGAIN;
        return -1;
    }
    std::size_t k = fifo_len - f.pos < n ? fifo_len - f.pos : n;
    if (k > 1)
        k = pick("read_returns", 1, k);
    for (std::size_t i = 0; i < k; i++)
        static_cast<unsigned char *>(p)[i] = contents[id][f.pos + i];
    f.pos += k;
    return static_cast<ssize_t>(k);
}
int select(int n, fd_set *r, fd_set *w, fd_set *x, struct timeval *tv)
{
    CHECK(w == nullptr && x == nullptr, "select() waits for something else");
    CHECK(tv != nullptr && tv->tv_sec == 7 && tv->tv_usec == 0, "the timeout is not respected");
    int found = 0;
    for (int i = 0; i < num_fifos; i++)
        if (fd_base + i < FD_SETSIZE && FD_ISSET(fd_base + i, r)) {
            CHECK(fifos[i].open && n > fd_base + i, "select() on the wrong descriptor");
            found++;
        }
    CHECK(found == 1, "select() on the wrong descriptor");
    timed_out = hiccups > 0 && sym_bool("times_out");
    if (timed_out) {
        hiccups--;
        return 0;
    }
    if (hiccups > 0 && sym_bool("interrupted")) {
        hiccups--;
        errno = EINTR;
        return -1;
    }
    waited = true;
    return 1;
}
int nanosleep(const struct timespec *t, struct timespec *)
{
    slept += t->tv_sec;
    CHECK(slept < 60, "a FIFO is waited for too long");
    return 0;
}

// "Compressed" content is inflated by flipping each byte up to a final 0.
int inflateInit2_(z_streamp, int, const char *, int) { return Z_OK; }
int inflateEnd(z_streamp) { return Z_OK; }
int inflateReset(z_streamp) { return Z_OK; }
int inflate(z_streamp s, int)
{
    bool progress = false;
    for (; s->avail_in; progress = true) {
        if (*s->next_in == 0) {
            s->next_in++;
            s->avail_in--;
            return Z_STREAM_END;
        }
        if (!s->avail_out)
            break;
        *s->next_out++ = static_cast<Bytef>(*s->next_in++ ^ 0x20);
        s->avail_in--;
        s->avail_out--;
    }
    return progress ? Z_OK : Z_BUF_ERROR;
}
}

namespace {

// The FIFOs of a channel as a data store.
void stores()
{
    const Compression compressions[] = {Compression::none, Compression::infer, Compression::gzip, Compression::bzip2, Compression::zip};
    const std::size_t c = pick("compression", 0, 4);
    const bool packed = c == 2;
    fifo_len = pick("fifo_length", 0, 3);
    mlse_symbolic(contents, sizeof(contents), "contents");
    for (auto &x : contents)
        for (std::size_t i = 0; i < 4; i++)
            if (packed && i + 1 == fifo_len)
                x[i] = 0;
            else
                mlse_assume(x[i] != 0);
    std::string path = "ch";
    const std::size_t odd = pick("path", 0, 2);
    if (odd)
        path = odd == 1 ? "" : "ch/";
    std::optional<std::size_t> id;
    if (sym_bool("explicit_id"))
        id = pick("fifo_id", 0, 5);
    Intrusive_ptr<Data_store> s;
    int o = 0;
    try {
        s = make_intrusive<Sagemaker_pipe>(path, std::chrono::seconds{7}, id, compressions[c]);
    }
    catch (const std::invalid_argument &) {
        o = 1;
    }
    catch (const Not_supported_error &) {
        o = 2;
    }
    CHECK(o == (odd ? 1 : c == 1 ? 2 : 0), "a data store is wrongly accepted or rejected");
    if (o) {
        mlse_reach("rejected");
        return;
    }
    CHECK(s->id() == "ch", "a channel has another name");
    // Only the first stream starts at the given FIFO.
    for (int k = 0; k < 3; k++) {
        const int want = static_cast<int>(id.value_or(0)) + k;
        slept = 1;
        std::string got;
        bool unsupported = false;
        try {
            auto in = s->open_read();
            CHECK(!in->seekable(), "a FIFO cannot be sought");
            if (k == 2)
                s = nullptr;
            std::byte buf[2];
            while (std::size_t n = in->read(Mutable_memory_span{buf, sizeof buf}))
                got.append(reinterpret_cast<char *>(buf), n);
        }
        catch (const Not_supported_error &) {
            unsupported = true;
        }
        CHECK(unsupported == (c > 2), "a compression is taken or refused that should not");
        for (int i = 0; i < num_fifos; i++)
            CHECK(!fifos[i].open, "a descriptor is leaked");
        if (unsupported)
            return;
        CHECK(fifos[want].opened == 1, "another FIFO is opened");
        const std::size_t n = fifo_len - (packed && fifo_len);
        CHECK(got.size() == n, "a channel delivers more or less than it should");
        for (std::size_t i = 0; i < n; i++)
            CHECK(static_cast<unsigned char>(got[i]) == (packed ? contents[want][i] ^ 0x20 : contents[want][i]), "a channel delivers something else");
        mlse_reach(packed ? "inflated" : "plain");
    }
}

}  // namespace

extern "C" void mlse_main()
{
    use_heap();
    fd_base = 5;
    if (mlse_param("mode", 0) == 1) {
        stores();
        return;
    }
    if (mlse_param("faults", 1))
        fd_base = static_cast<int>(pick("big_descriptor", 0, 1)) * 2000 + 5;
    mlse_symbolic(contents, sizeof(contents), "contents");
    fifo_len = pick("fifo_length", 0, static_cast<std::uint64_t>(mlse_param("len", 2)));
    hiccups = static_cast<int>(mlse_param("hiccups", 2));
    int next = 0, owner = -1;
    {
        struct Slot {
            Intrusive_ptr<Input_stream> s;
            int id = -1;
            std::size_t pos = 0;
            bool open = false;
        } slots[2];
        for (long step = 0; step < mlse_param("steps", 4); step++) {
            auto k = pick("slot", 0, 1);
            Slot &t = slots[k];
            auto op = pick("op", 0, 3);
            if (op == 0) {
                // Open (into a variable that may still hold a stream).
                missing = mlse_param("faults", 1) ? static_cast<int>(pick("missing", 0, 3)) : 0;
                bool explicit_id = sym_bool("explicit_id");
                int want = explicit_id ? static_cast<int>(pick("fifo_id", 0, 1)) * 5 : next;
                if (want >= num_fifos)
                    continue;
                int before = fifos[want].opened, late = missing, h = hiccups;
                timed_out = false;
                slept = 1;
                Intrusive_ptr<Input_stream> s;
                bool thrown = false;
                try {
                    std::optional<std::size_t> id;
                    if (explicit_id)
                        id = static_cast<std::size_t>(want);
                    s = make_sagemaker_pipe_input_stream("ch", std::chrono::seconds{7}, id);
                }
                catch (const std::system_error &) {
                    thrown = true;
                }
                bool opened = fifos[want].opened > before;
                mlse_trace(thrown ? 50 : 51);
                if (thrown) {
                    CHECK(owner >= 0 || late - missing >= 3 || timed_out || fd_base > 1024, "the channel cannot be opened");
                    CHECK(!fifos[want].open || (owner >= 0 && slots[owner].id == want), "a descriptor is leaked");
                    if (owner < 0) {
                        CHECK(opened || late - missing == 3, "gives up too early");
                        // A FIFO that was opened is used up.
                        next = opened ? want + 1 : want;
                        mlse_reach("open failed");
                    }
                    else {
                        CHECK(!opened, "the FIFO is opened by two streams");
                        mlse_reach("already open");
                    }
                    continue;
                }
                CHECK(owner < 0, "a channel that is in use is opened again");
                CHECK(opened, "the wrong FIFO is opened");
                (void)h;
                mlse_reach("opened");
                owner = static_cast<int>(k);
                t.s = std::move(s);    // the former stream of the slot goes away after the new one was made
                t.id = want;
                t.pos = 0;
                t.open = true;
                next = want + 1;
            }
            else if (op == 1) {
                if (!t.s)
                    continue;
                unsigned char out[4];
                std::size_t n = mlse_param("faults", 1) ? pick("n", 0, 3) : 2, v = 0;
                bool stream_error = false, system_error = false;
                int h = hiccups;
                timed_out = waited = false;
                try {
                    v = t.s->read(Mutable_memory_span{reinterpret_cast<std::byte *>(out), n});
                }
                catch (const Stream_error &) {
                    stream_error = true;
                }
                catch (const std::system_error &) {
                    system_error = true;
                }
                mlse_trace(stream_error ? 98 : system_error ? 99 : v);
                CHECK(stream_error == !t.open, "reading from a closed stream");
                if (system_error)
                    CHECK(timed_out || (waited && h - hiccups >= 3) || fd_base > 1024, "reading fails although the data arrived in time");
                else if (!stream_error) {
                    CHECK(n == 0 || v > 0 || t.pos == fifo_len, "end of stream before the last byte");
                    for (std::size_t i = 0; i < v; i++)
                        CHECK(out[i] == contents[t.id][t.pos + i], "wrong bytes");
                    t.pos += v;
                }
            }
            else {
                if (!t.s)
                    continue;
                if (op == 2)
                    t.s->close();
                else
                    t.s = nullptr;
                if (t.open) {
                    CHECK(owner == static_cast<int>(k), "harness");
                    owner = -1;
                    mlse_reach("closed");
                }
                t.open = false;
            }
            for (auto &q : slots)
                if (q.open)
                    CHECK(fifos[q.id].open && !q.s->closed(), "a stream is closed behind its owner's back");
        }
    }
    for (auto &f : fifos)
        CHECK(!f.open, "a descriptor is leaked");
}
