// M02, M03: memory blocks and slices.
//
// mode 0: a history of resize operations on a block keeps its content, for
//         every allocator, with the system calls behind file-backed blocks
//         failing wherever the solver likes.
// mode 1: slices against intervals.
// mode 2: shared ownership.
// mode 3: the default threshold.
// mode 4: objects that own each other.
#include <cerrno>
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <string>
#include <new>
#include <stdexcept>
#include <system_error>
#include <vector>

#include <sys/mman.h>
#include <sys/sysinfo.h>
#include <sys/types.h>

#include "mlio/memory/file_backed_memory_allocator.h"
#include "mlio/memory/heap_memory_allocator.h"
#include "mlio/memory/memory_allocator.h"
#include "mlio/memory/memory_slice.h"
#include "mlio/memory/util.h"

#include "stream.h"

using namespace mlio;

namespace {

// Stand-ins for one unlinked file per descriptor, mapped shared.
struct Vfile {
    bool open = false;
    bool linked = false;    // does it have a name?
    std::size_t size = 0;
    unsigned char *map = nullptr;
    std::size_t map_size = 0;
    char path[64] = {};
};
Vfile files[16];
int num_files = 0;
int faults = 0;
bool no_memory = false;    // was that the last fault?
bool no_temporaries = false;
long total_ram = -1;

bool fails(const char *name)
{
    if (faults > 0 && sym_bool(name)) {
        faults--;
        no_memory = false;
        mlse_reach("fault");
        return true;
    }
    return false;
}

}  // namespace

extern "C" {
int mkstemp(char *path)
{
    if (no_temporaries || fails("mkstemp_fails")) {
        errno = EMFILE;
        return -1;
    }
    int k = num_files++;
    files[k].open = files[k].linked = true;
    const std::size_t l = std::strlen(path);
    CHECK(l > 6 && std::strcmp(path + l - 6, "XXXXXX") == 0, "the name of a temporary file is no template");
    path[l - 1] = static_cast<char>('a' + k);
    CHECK(l < sizeof(files[k].path), "too long a name");
    std::memcpy(files[k].path, path, l + 1);
    return 100 + k;
}
int unlink(const char *path) noexcept
{
    for (int k = 0; k < num_files; k++)
        if (files[k].linked && std::strcmp(files[k].path, path) == 0) {
            files[k].linked = false;
            return 0;
        }
    errno = ENOENT;
    return -1;
}
int sysinfo(struct sysinfo *s) noexcept
{
    if (total_ram < 0) {
        errno = EFAULT;
        return -1;
    }
    std::memset(s, 0, sizeof *s);
    s->totalram = static_cast<unsigned long>(total_ram);
    s->mem_unit = 1;
    return 0;
}
int close(int fd)
{
    CHECK(fd >= 100 && files[fd - 100].open, "a descriptor is closed twice");
    files[fd - 100].open = false;
    return 0;
}
int ftruncate(int fd, off_t n) noexcept
{
    CHECK(fd >= 100 && files[fd - 100].open, "ftruncate on a closed descriptor");
    if (fails("ftruncate_fails")) {
        errno = ENOSPC;
        return -1;
    }
    Vfile &f = files[fd - 100];
    if (f.map != nullptr && static_cast<std::size_t>(n) < f.size)
        for (std::size_t i = static_cast<std::size_t>(n); i < f.size && i < f.map_size; i++)
            f.map[i] = 0;    // what is cut off is gone
    f.size = static_cast<std::size_t>(n);
    return 0;
}
void *mmap(void *, std::size_t n, int, int, int fd, off_t) noexcept
{
    CHECK(fd >= 100 && files[fd - 100].open, "mmap on a closed descriptor");
    if (fails("mmap_fails")) {
        no_memory = sym_bool("no_memory");
        errno = no_memory ? ENOMEM : EPERM;
        return MAP_FAILED;
    }
    Vfile &f = files[fd - 100];
    CHECK(n == f.size, "the mapping is not as long as its file");
    f.map = static_cast<unsigned char *>(std::calloc(n, 1));
    f.map_size = n;
    return f.map;
}
int munmap(void *p, std::size_t n) noexcept
{
    for (int i = 0; i < num_files; i++)
        if (files[i].map == p && p != nullptr) {
            CHECK(files[i].map_size == n, "part of a mapping is left behind");
            std::free(p);
            files[i].map = nullptr;
            return 0;
        }
    CHECK(false, "munmap of what is not mapped");
    return -1;
}
void *mremap(void *p, std::size_t o, std::size_t n, int, ...) noexcept
{
    for (int i = 0; i < num_files; i++)
        if (files[i].map == p && p != nullptr) {
            Vfile &f = files[i];
            CHECK(f.map_size == o, "wrong size of the old mapping");
            if (n > o && fails("mremap_fails")) {
                no_memory = sym_bool("no_memory");
                errno = no_memory ? ENOMEM : EAGAIN;
                return MAP_FAILED;
            }
            CHECK(n <= f.size, "the mapping is longer than its file");
            auto *q = static_cast<unsigned char *>(std::calloc(n, 1));
            std::memcpy(q, p, o < n ? o : n);
            std::free(p);
            f.map = q;
            f.map_size = n;
            return q;
        }
    CHECK(false, "mremap of what is not mapped");
    return MAP_FAILED;
}
}

namespace {

void resize_history()
{
    const auto max_size = static_cast<std::uint64_t>(mlse_param("size", 6));
    const long steps = mlse_param("steps", 3);
    std::unique_ptr<Memory_allocator> owned;
    Memory_allocator *alloc;
    // How large a block may get before it goes to a file.
    std::size_t threshold = ~std::size_t{};
    if (sym_bool("file_backed")) {
        threshold = pick("threshold", 0, max_size);
        // A quarter of the memory, unless that is not known.
        if (threshold == 0) {
            if (sym_bool("ram_known"))
                total_ram = static_cast<long>(4 * (threshold = pick("ram", 1, max_size)) + pick("more", 0, 3));
            else
                threshold = 0x2000'0000;
            owned = std::make_unique<File_backed_memory_allocator>();
        }
        else
            owned = std::make_unique<File_backed_memory_allocator>(threshold);
    }
    else
        owned = std::make_unique<Heap_memory_allocator>();
    alloc = owned.get();
    faults = static_cast<int>(mlse_param("faults", 1));

    unsigned char ref[64];
    std::size_t n = pick("size", 0, max_size), largest = n;
    const std::uint64_t live = mlse_live_bytes();
    auto placed = [&] {
        int in_use = 0;
        for (int i = 0; i < num_files; i++) {
            in_use += files[i].open;
            CHECK(!files[i].linked, "a temporary file is left behind");
        }
        CHECK(in_use == 0 || largest > threshold, "a block is in a file although it is not too large");
        CHECK(in_use == 1 || n <= threshold, "a block that is too large is not in a file");
    };
    Intrusive_ptr<Mutable_memory_block> block;
    try {
        block = alloc->allocate(n);
    }
    catch (const std::exception &e) {
        CHECK(faults < mlse_param("faults", 1), "allocation fails although no system call did");
        CHECK((dynamic_cast<const std::bad_alloc *>(&e) != nullptr) == no_memory, "an error is of another class");
        goto done;
    }
    CHECK(block->size() == n, "wrong size after allocation");
    placed();
    for (long s = 0;; s++) {
        for (std::size_t i = 0; i < n; i++) {
            ref[i] = static_cast<unsigned char>(16 * (s + 1) + static_cast<long>(i));
            block->data()[i] = static_cast<std::byte>(ref[i]);
        }
        if (s == steps)
            break;
        std::size_t m = pick("new_size", 0, max_size);
        bool failed = false;
        int before = faults;
        try {
            block->resize(m);
        }
        catch (const std::exception &e) {
            failed = true;
            CHECK((dynamic_cast<const std::bad_alloc *>(&e) != nullptr) == no_memory, "an error is of another class");
        }
        mlse_trace(failed ? 999 : m);
        std::size_t kept;
        if (!failed)
            largest = m > largest ? m : largest;
        if (failed) {
            CHECK(faults < before, "resizing fails although no system call did");
            CHECK(block->size() == n, "a failed resize changes the size");
            kept = n;
        }
        else {
            mlse_reach("resized");
            CHECK(block->size() == m, "wrong size after resizing");
            kept = n < m ? n : m;
            n = m;
        }
        placed();
        for (std::size_t i = 0; i < kept; i++)
            CHECK(static_cast<unsigned char>(block->data()[i]) == ref[i], "resizing loses content");
        CHECK(block->begin() + static_cast<std::ptrdiff_t>(n) == block->end(), "begin/end disagree with the size");
    }
    block = nullptr;
done:
    for (int i = 0; i < num_files; i++) {
        CHECK(!files[i].open, "a descriptor is leaked");
        CHECK(files[i].map == nullptr, "a mapping is leaked");
        CHECK(!files[i].linked, "a temporary file is left behind");
    }
    CHECK(mlse_live_bytes() == live, "memory is leaked");
}

// The largest default threshold.
void default_threshold()
{
    total_ram = static_cast<long>(std::uint64_t{1} << pick("ram", 31, 40));
    no_temporaries = true;
    File_backed_memory_allocator a{};
    bool failed = false;
    try {
        a.allocate(0x2000'0001);
    }
    catch (const std::system_error &) {
        failed = true;
    }
    CHECK(failed, "more than half a GiB is kept in memory");
    mlse_reach("large");
}

struct Flagged_block final : Memory_block {
    const std::byte *d;
    std::size_t n;
    int *alive;
    Flagged_block(const std::byte *p, std::size_t size, int *a) : d{p}, n{size}, alive{a} { ++*alive; }
    ~Flagged_block() final { --*alive; }
    const_pointer data() const noexcept final { return d; }
    size_type size() const noexcept final { return n; }
};

void slices()
{
    std::byte mem[8]{};
    const std::size_t n = pick("size", 0, 5);
    int alive = 0;
    {
        Memory_slice s{make_intrusive<Flagged_block>(mem, n, &alive)};
        std::size_t b = 0, e = n;     // the reference interval
        for (long step = 0; step < mlse_param("steps", 3); step++) {
            // Offsets around the valid ones (the pointer arithmetic of the
            // interface itself restricts them to the block).
            auto op = pick("op", 0, 4);
            bool rvalue = sym_bool("rvalue");
            // Any offset and count at all, but iterators into the block.
            std::size_t x, y, nb, ne;
            if (op == 4 || mlse_param("wide", 0) == 0)
                x = sym_range("x", 0, 7), y = sym_range("y", 0, 7);
            else
                x = sym<std::size_t>("x"), y = op == 1 ? sym<std::size_t>("y") : 0;
            bool ok;
            switch (op) {
            case 0: nb = b + x, ne = e, ok = x <= e - b; break;
            case 1: nb = b + x, ne = b + x + y, ok = x <= e - b && y <= e - b - x; break;
            case 2: nb = b, ne = b + x, ok = x <= e - b; break;
            case 3: nb = e - x, ne = e, ok = x <= e - b; break;
            default: nb = x, ne = y, ok = b <= x && x <= y && y <= e; break;
            }
            Memory_slice r, src = s;
            bool thrown = false;
            try {
                switch (op) {
                case 0: r = rvalue ? std::move(src).subslice(x) : src.subslice(x); break;
                case 1: r = rvalue ? std::move(src).subslice(x, y) : src.subslice(x, y); break;
                case 2: r = rvalue ? std::move(src).first(x) : src.first(x); break;
                case 3: r = rvalue ? std::move(src).last(x) : src.last(x); break;
                default: r = rvalue ? std::move(src).subslice(mem + x, mem + y) : src.subslice(mem + x, mem + y); break;
                }
            }
            catch (const std::invalid_argument &) {
                thrown = true;
            }
            CHECK(thrown == !ok, thrown ? "a valid sub-range is rejected" : "a range outside of the slice is accepted");
            CHECK(s.begin() == mem + b && s.size() == e - b, "slicing changes the original");
            if (thrown) {
                mlse_reach("rejected");
                continue;
            }
            mlse_reach("sliced");
            CHECK(r.begin() == mem + nb && r.end() == mem + ne, "wrong range");
            CHECK(r.size() == ne - nb && r.empty() == (ne == nb), "wrong size");
            s = std::move(r);
            r = {};
            src = {};
            b = nb, e = ne;
            CHECK(alive == 1, "the block dies while a slice of it lives, or is copied");
        }
    }
    CHECK(alive == 0, "the block outlives its last slice");
}

struct Counted : Intrusive_ref_counter<Counted> {
    static int alive;
    Counted() { alive++; }
    virtual ~Counted() { alive--; }
    Intrusive_ptr<Counted> next;
};
int Counted::alive = 0;
struct Derived : Counted {};

void ownership()
{
    {
        Intrusive_ptr<Counted> p[3];
        int ref[3] = {-1, -1, -1};    // which object each pointer owns
        int objs = 0;
        Counted *raw[8];
        for (long step = 0; step < mlse_param("steps", 4); step++) {
            std::size_t i = pick("i", 0, 2), j = pick("j", 0, 2);
            switch (pick("op", 0, 5)) {
            case 0: {
                Intrusive_ptr<Derived> d = make_intrusive<Derived>();
                raw[objs] = d.get();
                if (j == 0)
                    p[i] = d;
                else
                    p[i] = std::move(d);
                ref[i] = objs++;
                break;
            }
            case 1: p[i] = p[j]; ref[i] = ref[j]; break;
            case 2:
                if (i != j) {
                    p[i] = std::move(p[j]);
                    ref[i] = ref[j];
                    ref[j] = -1;
                }
                break;
            case 3: p[i] = nullptr; ref[i] = -1; break;
            case 4: std::swap(p[i], p[j]); std::swap(ref[i], ref[j]); break;
            default: {
                Intrusive_ptr<Counted> c{p[j]}, m{std::move(c)};
                p[i] = m;
                ref[i] = ref[j];
                break;
            }
            }
            int want = 0;
            for (int k = 0; k < objs; k++) {
                int owners = 0;
                for (int r : ref)
                    owners += r == k;
                want += owners > 0;
                if (owners)
                    CHECK(raw[k]->use_count() == static_cast<std::size_t>(owners), "wrong reference count");
            }
            CHECK(Counted::alive == want, "an object outlives its last owner or dies before");
            for (int k = 0; k < 3; k++)
                CHECK(p[k].get() == (ref[k] < 0 ? nullptr : raw[ref[k]]), "a pointer owns the wrong object");
        }
    }
    CHECK(Counted::alive == 0, "an object outlives its last owner");
}

// Objects that own others, also the one that is assigned.
void chains()
{
    {
        const std::size_t n = 3;
        Intrusive_ptr<Counted> p[2];
        Counted *raw[n];
        int next[n], at[2] = {0, -1};
        for (std::size_t k = n; k-- > 0;) {
            Intrusive_ptr<Counted> c = k % 2 ? Intrusive_ptr<Counted>{make_intrusive<Derived>()} : make_intrusive<Counted>();
            c->next = std::move(p[0]);
            p[0] = c;
            raw[k] = c.get();
            next[k] = k + 1 < n ? static_cast<int>(k) + 1 : -1;
        }
        for (long step = 0; step < mlse_param("steps", 3); step++) {
            std::size_t i = pick("i", 0, 1), j = pick("j", 0, 1);
            mlse_assume(at[j] >= 0);
            int &from = next[at[j]];
            switch (pick("op", 0, 6)) {
            case 0: p[i] = p[j]->next; at[i] = from; break;
            case 1: {
                int was = from;
                // What is assigned to may be what held it.
                p[i] = std::move(p[j]->next);
                from = -1;
                at[i] = was;
                break;
            }
            case 2: p[i] = p[j]; at[i] = at[j]; break;
            case 3:
                p[i] = std::move(p[j]);
                if (i != j) {
                    at[i] = at[j];
                    at[j] = -1;
                }
                else if (!p[i])
                    at[i] = -1;
                break;
            case 4: p[j]->next = nullptr; from = -1; break;
            case 5:
                mlse_assume(from >= 0);
                p[j]->next = p[j]->next->next;
                from = next[from];
                break;
            default:
                mlse_assume(from >= 0);
                {
                    int was = next[from];
                    next[from] = -1;
                    p[j]->next = std::move(p[j]->next->next);
                    from = was;
                }
                break;
            }
            mlse_reach("assigned");
            bool live[n] = {};
            for (int k : at)
                for (; k >= 0; k = next[k])
                    live[k] = true;
            int want = 0;
            for (std::size_t k = 0; k < n; k++) {
                if (!live[k])
                    continue;
                want++;
                std::size_t owners = 0;
                for (int a : at)
                    owners += a == static_cast<int>(k);
                for (std::size_t m = 0; m < n; m++)
                    owners += live[m] && next[m] == static_cast<int>(k);
                CHECK(raw[k]->use_count() == owners, "wrong reference count");
                CHECK(raw[k]->next.get() == (next[k] < 0 ? nullptr : raw[next[k]]), "a pointer owns the wrong object");
            }
            CHECK(Counted::alive == want, "an object outlives its last owner or dies before");
            for (std::size_t k = 0; k < 2; k++)
                CHECK(p[k].get() == (at[k] < 0 ? nullptr : raw[at[k]]), "a pointer owns the wrong object");
        }
    }
    CHECK(Counted::alive == 0, "an object outlives its last owner");
}

}  // namespace

extern "C" void mlse_main()
{
    switch (mlse_param("mode", 0)) {
    case 4: chains(); break;
    case 0: resize_history(); break;
    case 1: slices(); break;
    case 3: default_threshold(); break;
    default: ownership(); break;
    }
}
