// K01: what data stores deliver.  L01: what an instance loads from its store.
// K02: in which order files are listed.
//
// The file system is a stand-in; "compressed" content is inflated by flipping
// each byte up to a final 0.
#include <cerrno>
#include <cstdarg>
#include <cstring>
#include <functional>
#include <string>
#include <system_error>
#include <vector>

#include <fnmatch.h>
#include <fts.h>
#include <strnatcmp.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <unistd.h>
#include <zlib.h>

#include "mlio/data_reader_error.h"
#include "mlio/data_stores/file.h"
#include "mlio/data_stores/in_memory_store.h"
#include "mlio/instance.h"
#include "mlio/memory/external_memory_block.h"
#include "mlio/not_supported_error.h"
#include "mlio/streams/input_stream.h"
#include "mlio/streams/stream_error.h"

#include "setup.h"
#include "stream.h"

using namespace mlio;

namespace {

std::size_t P(const char *name, long def) { return static_cast<std::size_t>(mlse_param(name, def)); }

// ---- The file system

std::string content;
std::size_t file_pos;
int fds, maps, mapped, faults;
bool last_opened_was_mapped;
std::string opened;

bool fails(const char *name)
{
    if (faults > 0 && sym_bool(name)) {
        faults--;
        errno = EIO;
        return true;
    }
    return false;
}

// ---- Directories

struct Entry {
    std::string name, path;
    int kind;    // 0 regular, 1 directory, 2 missing, 3 unreadable directory, 4 fifo, 5 dangling link
    std::vector<Entry> entries;
};
std::vector<Entry> tree;    // the paths to list

struct Walk {
    std::vector<FTSENT *> order;
    std::size_t at = 0;
    FTSENT *make(const Entry &e, int info)
    {
        auto *p = static_cast<FTSENT *>(calloc(1, sizeof(FTSENT) + e.name.size()));
        std::memcpy(p->fts_name, e.name.c_str(), e.name.size() + 1);
        p->fts_accpath = static_cast<char *>(malloc(e.path.size() + 1));
        std::memcpy(p->fts_accpath, e.path.c_str(), e.path.size() + 1);
        p->fts_info = static_cast<unsigned short>(info);
        p->fts_statp = static_cast<struct stat *>(calloc(1, sizeof(struct stat)));
        p->fts_statp->st_mode = e.kind == 0 ? S_IFREG : e.kind == 4 ? S_IFIFO : S_IFDIR;
        return p;
    }
    void add(const std::vector<Entry> &entries, int (*compare)(const FTSENT **, const FTSENT **))
    {
        std::vector<std::pair<FTSENT *, const Entry *>> v;
        for (auto &e : entries) {
            static const int info[] = {FTS_F, FTS_D, FTS_NS, FTS_D, FTS_DEFAULT, FTS_SLNONE};
            auto *p = make(e, info[e.kind]);
            auto i = v.end();
            while (compare && i != v.begin()) {
                const FTSENT *a = p, *b = (i - 1)->first;
                if (compare(&a, &b) >= 0)
                    break;
                --i;
            }
            v.insert(i, {p, &e});
        }
        for (auto &x : v) {
            order.push_back(x.first);
            if (x.second->kind == 1) {
                add(x.second->entries, compare);
                order.push_back(make(*x.second, FTS_DP));
            }
            else if (x.second->kind == 3)
                order.push_back(make(*x.second, FTS_DNR));
        }
    }
    ~Walk()
    {
        for (auto *p : order) {
            free(p->fts_accpath);
            free(p->fts_statp);
            free(p);
        }
    }
};
int walks;
bool walk_fails;
std::vector<int> matches;    // what fnmatch() says about each path, in order of the calls
std::vector<std::string> asked;

}  // namespace

extern "C" {
int open(const char *path, int, ...)
{
    if (fails("open fails"))
        return -1;
    fds++;
    opened = path;
    file_pos = 0;
    last_opened_was_mapped = false;
    return 77;
}
int close(int fd)
{
    CHECK(fd == 77 && fds > 0, "close of a descriptor that is not open");
    fds--;
    return 0;
}
int posix_fadvise(int, off_t, off_t, int) noexcept { return 0; }
ssize_t read(int, void *p, size_t n)
{
    if (fails("read fails"))
        return -1;
    std::size_t k = std::min(content.size() - file_pos, n);
    std::memcpy(p, content.data() + file_pos, k);
    file_pos += k;
    return static_cast<ssize_t>(k);
}
off_t lseek(int, off_t o, int whence) noexcept
{
    if (whence == SEEK_SET)
        file_pos = static_cast<std::size_t>(o);
    return static_cast<off_t>(file_pos);
}
int fstat(int, struct stat *st) noexcept
{
    if (fails("fstat fails"))
        return -1;
    std::memset(st, 0, sizeof *st);
    st->st_size = static_cast<off_t>(content.size());
    return 0;
}
void *mmap(void *, size_t n, int prot, int, int, off_t o) noexcept
{
    CHECK(n == content.size() && n > 0 && o == 0 && prot == PROT_READ, "a file is mapped in part");
    if (fails("mmap fails"))
        return MAP_FAILED;
    maps++;
    mapped++;
    last_opened_was_mapped = true;
    auto *p = static_cast<char *>(malloc(n));
    std::memcpy(p, content.data(), n);
    return p;
}
int munmap(void *p, size_t n) noexcept
{
    CHECK(n == content.size(), "a file is unmapped in part");
    maps--;
    free(p);
    return 0;
}

int inflateInit2_(z_streamp, int, const char *, int) { return Z_OK; }
int inflateEnd(z_streamp) { return Z_OK; }
int inflateReset(z_streamp) { return Z_OK; }
int inflate(z_streamp s, int)
{
    bool progress = false;
    for (; s->avail_in; progress = true) {
        if (*s->next_in == 0) {
            s->next_in++;
            s->avail_in--;
            return Z_STREAM_END;
        }
        if (!s->avail_out)
            break;
        *s->next_out++ = static_cast<Bytef>(*s->next_in++ ^ 0x20);
        s->avail_in--;
        s->avail_out--;
    }
    return progress ? Z_OK : Z_BUF_ERROR;
}

FTS *fts_open(char *const *paths, int opts, int (*compare)(const FTSENT **, const FTSENT **))
{
    if (fails("fts_open fails"))
        return nullptr;
    CHECK((opts & FTS_NOCHDIR) != 0, "listing files changes the working directory");
    std::size_t n = 0;
    while (paths[n])
        n++;
    CHECK(n == tree.size(), "wrong number of paths");
    for (std::size_t i = 0; i < n; i++)
        CHECK(tree[i].path == paths[i], "wrong path");
    auto *w = new Walk;
    w->add(tree, compare);
    walks++;
    return reinterpret_cast<FTS *>(w);
}
FTSENT *fts_read(FTS *f)
{
    auto *w = reinterpret_cast<Walk *>(f);
    if (w->at < w->order.size()) {
        auto *e = w->order[w->at++];
        // Anything in between may leave an error behind.
        errno = e->fts_info == FTS_DNR || e->fts_info == FTS_NS ? EACCES : ENOTTY;
        return e;
    }
    errno = walk_fails ? EIO : 0;
    return nullptr;
}
int fts_close(FTS *f)
{
    walks--;
    delete reinterpret_cast<Walk *>(f);
    return 0;
}
int fnmatch(const char *pattern, const char *path, int)
{
    CHECK(!std::strcmp(pattern, "*.x"), "wrong pattern");
    asked.emplace_back(path);
    matches.push_back(static_cast<int>(pick("fnmatch", 0, P("match_errors", 1) ? 2 : 1)));
    return matches.back() == 0 ? 0 : matches.back() == 1 ? FNM_NOMATCH : 99;
}
}

namespace {

std::string read_all(Input_stream &s)
{
    std::string out;
    std::byte buf[3];
    while (std::size_t n = s.read(Mutable_memory_span{buf, sizeof buf}))
        out.append(reinterpret_cast<char *>(buf), n);
    return out;
}

Compression by_name(const std::string &p)
{
    auto ends = [&](const char *e) {
        const std::size_t n = std::strlen(e);
        return p.size() > n && p.compare(p.size() - n, n, e) == 0;
    };
    return ends(".gz") ? Compression::gzip : ends(".bz2") ? Compression::bzip2 : ends(".zip") ? Compression::zip : Compression::none;
}

void fill(std::size_t n, bool compressed)
{
    content.clear();
    for (std::size_t i = 0; i < n; i++)
        content += static_cast<char>(sym_range("content", 1, 255));
    if (compressed && n)
        content += '\0';
}
std::string inflated(bool compressed)
{
    if (!compressed)
        return content;
    std::string s;
    for (char c : content)
        if (c)
            s += static_cast<char>(c ^ 0x20);
    return s;
}

const Compression compressions[] = {Compression::none, Compression::infer, Compression::gzip, Compression::bzip2, Compression::zip};

// ---- K01

void stores()
{
    const bool file = sym_bool("file"), map = file && sym_bool("map");
    Compression c = compressions[pick("compression", 0, 4)];
    std::string path;
    if (file)
        for (std::size_t n = pick("length", 0, P("path", 6)); n; n--)
            path += static_cast<char>(sym_range("path", 1, 255));
    faults = static_cast<int>(P("faults", 1));
    const int had = faults;
    const Compression effective = c != Compression::infer ? c : by_name(path);
    // So that inferring is looked at for every name.
    const bool packed = effective == Compression::gzip;
    fill(pick("content", 0, P("content", 3)), packed);
    int o = 0;
    std::string got;
    bool zero_copy = false;
    auto *bytes = reinterpret_cast<const std::byte *>(content.data());
    Intrusive_ptr<Data_store> s;
    try {
        if (file)
            s = make_intrusive<File>(path, map, c);
        else
            s = make_intrusive<In_memory_store>(Memory_slice{make_intrusive<External_memory_block>(bytes, content.size())}, c);
    }
    catch (const std::invalid_argument &) {
        o = 1;
    }
    catch (const Not_supported_error &) {
        o = 2;
    }
    const bool bad_path = file && (path.empty() || path.back() == '/' || path.back() == '\\');
    CHECK(o == (bad_path ? 1 : !file && c == Compression::infer ? 2 : 0), "a data store is wrongly accepted or rejected");
    if (o) {
        mlse_reach("rejected");
        return;
    }
    // Names tell data stores apart.
    const std::string name = s->id();
    CHECK(name == s->id(), "a data store changes its name");
    if (file)
        CHECK(name == path, "a file has another name");
    else {
        In_memory_store same{Memory_slice{make_intrusive<External_memory_block>(bytes, content.size())}, c == Compression::gzip ? Compression::none : c};
        CHECK(!name.empty() && same.id() == name, "the same memory has another name");
        if (content.size() > 1) {
            In_memory_store less{Memory_slice{make_intrusive<External_memory_block>(bytes, content.size() - 1)}}, later{Memory_slice{make_intrusive<External_memory_block>(bytes + 1, content.size() - 1)}};
            CHECK(less.id() != name && later.id() != name && less.id() != later.id(), "other memory has the same name");
        }
    }
    // A stream outlives its store, and a store can be opened many times.
    for (int k = 0; k < 2; k++) {
        Intrusive_ptr<Input_stream> in;
        try {
            in = s->open_read();
            zero_copy = in->supports_zero_copy();
            if (k == 1)
                s = nullptr;
            got = read_all(*in);
        }
        catch (const Not_supported_error &) {
            o = 2;
        }
        catch (const std::system_error &) {
            o = 3;
        }
        catch (const Stream_error &) {
            o = 4;
        }
        if (o == 3) {
            CHECK(faults < had, "a system error although no call fails");
            mlse_reach("fault");
            break;
        }
        CHECK((o == 2) == (effective == Compression::bzip2 || effective == Compression::zip), "an unsupported compression is not rejected");
        if (o)
            break;
        CHECK(faults == had, "a failing call is ignored");
        CHECK(got == inflated(packed), "a data store does not deliver its content");
        CHECK(!file || opened == path, "the wrong file is opened");
        CHECK(!file || content.empty() || last_opened_was_mapped == map, "a file is not mapped as asked");
        CHECK(zero_copy == (!packed && (!file || map)), "reading without copying is wrongly announced");
        mlse_reach(packed ? "inflated" : "plain");
    }
    s = nullptr;
    CHECK(fds == 0 && maps == 0, "a file stays open");
}

// ---- L01

// Memory that notices when loading does not end.
struct Counted_block final : Mutable_memory_block {
    std::vector<std::byte> bytes;
    int resizes = 0;
    explicit Counted_block(std::size_t n) : bytes(n) {}
    void resize(std::size_t n) final
    {
        CHECK(++resizes < 8, "loading an instance does not end");
        bytes.resize(n);
    }
    pointer data() noexcept final { return bytes.data(); }
    const_pointer data() const noexcept final { return bytes.data(); }
    size_type size() const noexcept final { return bytes.size(); }
    bool resizable() const noexcept final { return sym_bool("resizable"); }
};
struct Counting_allocator final : Memory_allocator {
    std::size_t allocations = 0;
    Intrusive_ptr<Mutable_memory_block> allocate(std::size_t n) final
    {
        CHECK(++allocations < 12, "loading an instance does not end");
        // The first block of a stream of unknown size is small, so that it has
        // to grow.
        if (n > 1000)
            n = P("initial", 2);
        return make_intrusive<Counted_block>(n);
    }
};

struct Odd_stream final : Input_stream {
    std::size_t pos = 0;
    bool can_seek, zero;
    int shorts, kind = 0;
    bool lies = false;
    void fault()
    {
        if (!faults || !sym_bool("read fails"))
            return;
        faults--;
        kind = static_cast<int>(pick("error", 0, 3));
        if (kind == 0)
            throw Stream_error{"e"};
        if (kind == 1)
            throw Not_supported_error{"e"};
        if (kind == 2)
            throw std::system_error{std::make_error_code(std::errc::io_error)};
        throw 5;
    }
    std::size_t read(Mutable_memory_span d) final
    {
        fault();
        std::size_t k = std::min(content.size() - pos, d.size());
        if (k > 1 && shorts > 0) {
            shorts--;
            k = pick("read returns", 1, k);
        }
        std::memcpy(d.data(), content.data() + pos, k);
        pos += k;
        return k;
    }
    Memory_slice read(std::size_t n) final
    {
        fault();
        std::size_t k = std::min(content.size() - pos, n);
        if (lies && k)
            k--;
        auto s = slice_of(content.data() + pos, k);
        pos += k;
        return s;
    }
    void seek(std::size_t p) final { pos = p; }
    void close() noexcept final {}
    std::size_t size() const final
    {
        CHECK(can_seek || zero, "asked for a size that is not known");
        return content.size();
    }
    std::size_t position() const final { return pos; }
    bool closed() const noexcept final { return false; }
    bool seekable() const noexcept final { return can_seek; }
    bool supports_zero_copy() const noexcept final { return zero; }
};

struct Odd_store final : Data_store {
    mutable int opens = 0;
    int open_error = 0;
    bool can_seek, zero, lies;
    Intrusive_ptr<Input_stream> open_read() const final
    {
        opens++;
        if (open_error == 1)
            throw std::system_error{std::make_error_code(std::errc::no_such_file_or_directory)};
        if (open_error == 2)
            throw std::system_error{std::make_error_code(std::errc::permission_denied)};
        if (open_error == 3)
            throw std::system_error{std::make_error_code(std::errc::io_error)};
        auto s = make_intrusive<Odd_stream>();
        s->can_seek = can_seek;
        s->zero = zero;
        s->lies = lies;
        s->shorts = static_cast<int>(P("shorts", 1));
        return s;
    }
    const std::string &id() const final
    {
        static std::string s = "store";
        return s;
    }
    std::string repr() const final { return "store"; }
};

void instances()
{
    set_memory_allocator(std::make_unique<Counting_allocator>());
    fill(pick("content", 0, P("content", 3)), false);
    auto store = make_intrusive<Odd_store>();
    faults = static_cast<int>(P("faults", 1));
    store->open_error = static_cast<int>(pick("open fails", 0, 3));
    store->zero = sym_bool("zero copy");
    store->can_seek = store->zero || sym_bool("seekable");
    store->lies = store->zero && sym_bool("short");
    Instance i{*store};
    for (int k = 0; k < 2; k++) {
        int o = 0;
        const int had = faults;
        Memory_slice bits;
        try {
            bits = i.bits();
        }
        catch (const Data_reader_error &) {
            o = 1;
        }
        catch (const std::system_error &) {
            o = 2;
        }
        catch (int) {
            o = 3;
        }
        if (store->open_error) {
            CHECK(o == (store->open_error == 3 ? 2 : 1), "a store that cannot be opened is no error");
            mlse_reach("not opened");
            store->open_error = sym_bool("still") ? store->open_error : 0;
            continue;
        }
        if (faults < had && o) {
            CHECK(o == 1 || o == 3, "a failing read is a wrong error");
            mlse_reach("fault");
            continue;
        }
        CHECK(!o, "an error although nothing fails");
        CHECK(bits.size() == content.size(), "an instance has a wrong size");
        CHECK(!std::memcmp(bits.data(), content.data(), content.size()), "an instance has wrong content");
        const int opens = store->opens;
        CHECK(i.bits().data() == bits.data() && store->opens == opens, "an instance is loaded again");
        mlse_reach("loaded");
    }
}

// ---- K02

// The natural order of texts without blanks and leading zeros.
int natural(const std::string &a, const std::string &b)
{
    auto digit = [](char c) { return c >= '0' && c <= '9'; };
    std::size_t i = 0, j = 0;
    while (i < a.size() && j < b.size()) {
        if (digit(a[i]) && digit(b[j])) {
            unsigned x = 0, y = 0;
            while (i < a.size() && digit(a[i]))
                x = x * 10 + static_cast<unsigned>(a[i++] - '0');
            while (j < b.size() && digit(b[j]))
                y = y * 10 + static_cast<unsigned>(b[j++] - '0');
            if (x != y)
                return x < y ? -1 : 1;
            continue;
        }
        if (a[i] != b[j])
            return static_cast<unsigned char>(a[i]) < static_cast<unsigned char>(b[j]) ? -1 : 1;
        i++;
        j++;
    }
    return (i < a.size()) - (j < b.size());
}

std::string name(std::size_t max, bool any)
{
    std::string s;
    for (std::size_t n = pick("length", any ? 0 : 1, max); n; n--) {
        char c = static_cast<char>(any ? sym_range("char", 1, 255) : sym_range("char", '0', 'c'));
        if (!any) {
            mlse_assume((c >= '0' && c <= '9') || (c >= 'a' && c <= 'c'));
            // No leading zeros.
            const bool before = !s.empty() && s.back() >= '0' && s.back() <= '9';
            mlse_assume(before || c != '0');
        }
        s += c;
    }
    return s;
}

void order()
{
    if (P("axioms", 0)) {
        // What std::sort() needs, for any names.
        const std::size_t l = P("length", 2);
        std::string a = name(l, true), b = name(l, true), c = name(l, true);
        const int ab = strnatcmp(a.c_str(), b.c_str()), ba = strnatcmp(b.c_str(), a.c_str()), bc = strnatcmp(b.c_str(), c.c_str()), ac = strnatcmp(a.c_str(), c.c_str());
        CHECK((ab < 0) == (ba > 0) && (ab == 0) == (ba == 0), "the order depends on the side");
        CHECK(!(ab < 0 && bc < 0) || ac < 0, "the order is not transitive");
        CHECK(!(ab == 0 && bc == 0) || ac == 0, "names of the same order are not");
        mlse_reach("order");
        return;
    }
    std::string a = name(P("length", 3), false), b = name(P("length", 3), false);
    const int r = strnatcmp(a.c_str(), b.c_str()), w = natural(a, b);
    CHECK((r < 0) == (w < 0) && (r > 0) == (w > 0), "numbers in names are not ordered by value");
    mlse_reach("order");
}

void listing()
{
    std::size_t files = 0;
    bool error = false;
    const std::size_t depth = P("depth", 2);
    std::function<Entry(const std::string &, std::size_t)> make = [&](const std::string &dir, std::size_t d) {
        Entry e;
        static const char *const names[] = {"x2", "x10", "x1.gz", "y"};
        e.name = names[pick("name", 0, P("names", 3))];
        e.path = dir + e.name;
        e.kind = static_cast<int>(pick("kind", 0, P("kinds", 5)));
        if (d == 1 && e.kind == 1)
            e.kind = 0;
        if (e.kind == 1)
            for (std::size_t n = pick("entries", 0, P("entries", 2)); n; n--) {
                e.entries.push_back(make(e.path + "/", d - 1));
                // Names are unique in their directory.
                for (std::size_t i = 0; i + 1 < e.entries.size(); i++)
                    mlse_assume(e.entries[i].name != e.entries.back().name);
            }
        files += e.kind == 0;
        error = error || e.kind == 2 || e.kind == 3;
        return e;
    };
    std::vector<std::string> paths;
    for (std::size_t n = pick("paths", 1, P("paths", 2)); n; n--) {
        tree.push_back(make("/", depth));
        paths.push_back(tree.back().path);
        for (std::size_t i = 0; i + 1 < tree.size(); i++)
            mlse_assume(tree[i].name != tree.back().name);
    }
    faults = static_cast<int>(P("faults", 1));
    const int had = faults;
    walk_fails = P("faults", 1) && sym_bool("walk fails");
    std::vector<std::string> predicated;
    std::vector<bool> keep;
    File_list_options::Predicate_callback predicate = [&](const std::string &p) {
        predicated.push_back(p);
        keep.push_back(sym_bool("predicate"));
        return keep.back();
    };
    File_list_options opts;
    const bool with_pattern = sym_bool("with pattern"), with_predicate = sym_bool("with predicate");
    if (with_pattern)
        opts.pattern = "*.x";
    if (with_predicate)
        opts.predicate = &predicate;
    opts.memory_map = sym_bool("map");
    opts.compression = compressions[pick("compression", 0, 2)];
    int o = 0;
    std::vector<Intrusive_ptr<Data_store>> got;
    try {
        got = list_files(paths, opts);
    }
    catch (const std::system_error &) {
        o = 1;
    }
    catch (const std::invalid_argument &) {
        o = 2;
    }
    bool bad_match = false;
    for (int m : matches)
        bad_match = bad_match || m == 2;
    CHECK(walks == 0, "a directory stays open");
    if (o == 1) {
        CHECK(error || walk_fails || faults < had, "an error although everything can be listed");
        mlse_reach("error");
        return;
    }
    if (o == 2) {
        CHECK(bad_match, "a good pattern is rejected");
        mlse_reach("bad pattern");
        return;
    }
    CHECK(!error && !walk_fails && faults == had && !bad_match, "what cannot be listed is left out");

    // The regular files, siblings in natural order.
    std::vector<std::string> want;
    std::function<void(std::vector<Entry>)> walk = [&](std::vector<Entry> v) {
        for (std::size_t i = 0; i < v.size(); i++)
            for (std::size_t j = i + 1; j < v.size(); j++)
                if (natural(v[j].name, v[i].name) < 0)
                    std::swap(v[i], v[j]);
        for (auto &e : v) {
            if (e.kind == 0)
                want.push_back(e.path);
            walk(e.entries);
        }
    };
    walk(tree);
    if (with_pattern) {
        CHECK(asked == want, "a file is not compared with the pattern");
        std::vector<std::string> w;
        for (std::size_t i = 0; i < want.size(); i++)
            if (matches[i] == 0)
                w.push_back(want[i]);
        want = w;
    }
    if (with_predicate) {
        CHECK(predicated == want, "a file is not compared with the predicate");
        std::vector<std::string> w;
        for (std::size_t i = 0; i < want.size(); i++)
            if (keep[i])
                w.push_back(want[i]);
        want = w;
    }
    CHECK(got.size() == want.size(), "wrong number of files");
    for (std::size_t i = 0; i < want.size(); i++)
        CHECK(got[i]->id() == want[i], "the wrong file is listed, or in the wrong order");
    mlse_reach("listed");
    if (got.empty())
        return;
    // The options arrive.
    faults = 0;
    const Compression c = opts.compression != Compression::infer ? opts.compression : by_name(want[0]);
    content = "ab";
    content += '\0';
    const bool packed = c == Compression::gzip;
    CHECK(read_all(*got[0]->open_read()) == (packed ? inflated(true) : content), "a listed file is not opened as asked");
    CHECK(last_opened_was_mapped == opts.memory_map, "a listed file is not mapped as asked");
}

}  // namespace

extern "C" void mlse_main()
{
    use_heap();
    switch (mlse_param("mode", 0)) {
    case 0: stores(); break;
    case 1: instances(); break;
    case 2: order(); break;
    default: listing(); break;
    }
}
