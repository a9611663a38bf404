// U01: file and memory streams under any history of operations.
//
// kind 0: Memory_input_stream, 1: File_input_stream over a stand-in for the
// file system whose read() returns as little as the solver likes.
#include <cerrno>
#include <cstdarg>
#include <cstring>
#include <system_error>

#include <sys/stat.h>
#include <sys/types.h>
#include <unistd.h>

#include "mlio/streams/file_input_stream.h"
#include "mlio/streams/memory_input_stream.h"
#include "mlio/streams/stream_error.h"

#include "setup.h"
#include "stream.h"

using namespace mlio;

namespace {
unsigned char content[16];
std::size_t content_size;
std::size_t file_pos;
bool fd_open;
int shorts, faults;

bool fails(const char *name)
{
    if (faults > 0 && sym_bool(name)) {
        faults--;
        errno = EIO;
        return true;
    }
    return false;
}
}  // namespace

extern "C" {
int open(const char *, int, ...)
{
    if (fails("open_fails"))
        return -1;
    fd_open = true;
    return 77;
}
int close(int fd)
{
    CHECK(fd == 77 && fd_open, "close of a descriptor that is not open");
    fd_open = false;
    return 0;
}
int posix_fadvise(int, off_t, off_t, int) noexcept { return 0; }
ssize_t read(int fd, void *p, size_t n)
{
    CHECK(fd == 77 && fd_open, "read from a descriptor that is not open");
    if (fails("read_fails"))
        return -1;
    std::size_t k = content_size - file_pos < n ? content_size - file_pos : n;
    if (k > 1 && shorts > 0) {
        shorts--;
        k = pick("read_returns", 1, k);
    }
    std::memcpy(p, content + file_pos, k);
    file_pos += k;
    return static_cast<ssize_t>(k);
}
off_t lseek(int fd, off_t o, int whence) noexcept
{
    CHECK(fd == 77 && fd_open, "lseek on a descriptor that is not open");
    if (fails("lseek_fails"))
        return -1;
    if (whence == SEEK_SET)
        file_pos = static_cast<std::size_t>(o);
    else if (whence == SEEK_CUR)
        file_pos += static_cast<std::size_t>(o);
    else
        file_pos = content_size + static_cast<std::size_t>(o);
    CHECK(file_pos <= content_size, "the position is set past the end");
    return static_cast<off_t>(file_pos);
}
int fstat(int fd, struct stat *st) noexcept
{
    CHECK(fd == 77 && fd_open, "fstat on a descriptor that is not open");
    if (fails("fstat_fails"))
        return -1;
    std::memset(st, 0, sizeof *st);
    st->st_size = static_cast<off_t>(content_size);
    return 0;
}
}

extern "C" void mlse_main()
{
    use_heap();
    const bool file = mlse_param("kind", 0) == 1;
    content_size = pick("size", 0, static_cast<std::uint64_t>(mlse_param("size", 4)));
    mlse_symbolic(content, content_size, "content");
    shorts = static_cast<int>(mlse_param("shorts", 1));
    faults = static_cast<int>(mlse_param("faults", 1));
    const bool wide = mlse_param("wide", 1) != 0;
    {
        Intrusive_ptr<Input_stream> s;
        try {
            if (file)
                s = make_intrusive<File_input_stream>("f");
            else
                s = make_intrusive<Memory_input_stream>(slice_of(content, content_size));
        }
        catch (const std::system_error &) {
            CHECK(faults == 0 && !fd_open, "opening fails although no system call did, or leaks the descriptor");
            return;
        }
        CHECK(s->seekable(), "the stream is not seekable");
        CHECK(!file || !s->supports_zero_copy(), "a file stream cannot be read without copying");
        std::size_t pos = 0;
        bool closed = false;
        for (long step = 0; step < mlse_param("steps", 3); step++) {
            std::size_t left = content_size - pos;
            bool stream_error = false, system_error = false;
            int before = faults;
            // Sizes and positions of any magnitude.
            std::size_t x;
            auto op = pick("op", 0, 5);
            if (op <= 2) {
                x = wide && op != 0 ? sym<std::size_t>("x") : sym_range("x", 0, 6);
                // The buffer of read(size) is allocated by the stream.
                if (file && op == 1)
                    mlse_assume(x <= 6);
                if (op == 0 || (file && op == 1))
                    x = mlse_concretize(x);
            }
            else
                x = 0;
            std::size_t v = 0;
            unsigned char out[8];
            std::memset(out, 0x5A, sizeof out);
            Memory_slice slice;
            try {
                switch (op) {
                case 0: v = s->read(Mutable_memory_span{reinterpret_cast<std::byte *>(out), x}); break;
                case 1: slice = s->read(x); v = slice.size(); break;
                case 2: s->seek(x); break;
                case 3: v = s->position(); break;
                case 4: v = s->size(); break;
                default: s->close(); break;
                }
            }
            catch (const Stream_error &) {
                stream_error = true;
            }
            catch (const std::system_error &) {
                system_error = true;
            }
            mlse_trace(op * 100 + (stream_error ? 98 : system_error ? 99 : v));
            CHECK(stream_error == (closed && op != 5), "operations on a closed stream, and only those, are to be refused");
            CHECK(!system_error || faults < before, "a failure although no system call failed");
            CHECK(s->closed() == (closed || op == 5), "wrong closed state");
            if (stream_error)
                continue;
            if (system_error) {
                pos = file_pos;
                continue;
            }
            switch (op) {
            case 0:
            case 1: {
                std::size_t want = x < left ? x : left;
                const unsigned char *p = op == 0 ? out : reinterpret_cast<const unsigned char *>(slice.data());
                if (file && v < want) {
                    CHECK(v > 0, "end of stream before the last byte");
                    CHECK(v < want, "short read");
                }
                else
                    CHECK(v == want, "wrong number of bytes");
                for (std::size_t i = 0; i < content_size; i++)
                    if (i < v)
                        CHECK(p[i] == content[pos + i], "wrong content");
                if (op == 0)
                    for (std::size_t i = v; i < sizeof out; i++)
                        CHECK(out[i] == 0x5A, "bytes beyond those reported are written");
                v = mlse_concretize(v);
                pos += v;
                if (v)
                    mlse_reach("read");
                break;
            }
            case 2:
                pos = x < content_size ? mlse_concretize(x) : content_size;
                mlse_reach("sought");
                break;
            case 3: CHECK(v == pos, "wrong position"); break;
            case 4: CHECK(v == content_size, "wrong size"); break;
            default: closed = true; break;
            }
        }
    }
    CHECK(!fd_open, "the descriptor is leaked");
}
