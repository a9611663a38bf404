// An input stream over a buffer which delivers as many bytes per call as the
// solver likes (at least one), the way pipes and sockets do.
#pragma once
#include <cstring>

#include "mlio/memory/external_memory_block.h"
#include "mlio/memory/memory_slice.h"
#include "mlio/streams/input_stream_base.h"
#include "mlio/streams/stream_error.h"

#include "mlse.h"

struct Chopped_stream final : mlio::Input_stream_base {
    const unsigned char *data;
    std::size_t n, pos = 0;
    int max_short;      // how many calls may come back short
    bool is_closed = false, can_seek;
    std::size_t calls = 0;
    std::size_t fail_at = ~std::size_t{}, fails = 0;    // fails so many times at this position

    Chopped_stream(const unsigned char *d, std::size_t size, int shorts, bool seek = false) : data{d}, n{size}, max_short{shorts}, can_seek{seek} {}

    using mlio::Input_stream_base::read;
    std::size_t read(mlio::Mutable_memory_span dst) final
    {
        calls++;
        if (fails && pos == fail_at) {
            fails--;
            throw mlio::Stream_error{"the stream fails"};
        }
        std::size_t k = n - pos < dst.size() ? n - pos : dst.size();
        if (fails && fail_at > pos && k > fail_at - pos)
            k = fail_at - pos;
        if (k > 1 && max_short > 0) {
            max_short--;
            k = pick("read_returns", 1, k);
        }
        std::memcpy(dst.data(), data + pos, k);
        pos += k;
        return k;
    }
    void seek(std::size_t p) final { pos = p < n ? p : n; }
    void close() noexcept final { is_closed = true; }
    std::size_t size() const final { return n; }
    std::size_t position() const final { return pos; }
    bool closed() const noexcept final { return is_closed; }
    bool seekable() const noexcept final { return can_seek; }
};

// The first chunk holds so many bytes (instead of 32 MiB); no effect if the
// code under test has no such field any more.
template<typename T>
inline auto set_first_chunk(T *r, std::size_t v, int) -> decltype((void)(r->next_chunk_size_ = v), true)
{
    r->next_chunk_size_ = v;
    return true;
}
template<typename T>
inline bool set_first_chunk(T *, std::size_t, long) { return false; }

inline mlio::Memory_slice slice_of(const void *p, std::size_t n)
{
    return mlio::Memory_slice{mlio::make_intrusive<mlio::External_memory_block>(static_cast<const std::byte *>(p), n)};
}
