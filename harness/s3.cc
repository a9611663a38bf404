// K03: S3 objects as data stores.
//
// The service is a stand-in: one bucket, whose answers the harness decides.
#include <cstring>
#include <functional>
#include <string>
#include <system_error>
#include <vector>

#include <aws/s3/S3Client.h>
#include <aws/s3/model/GetObjectRequest.h>
#include <aws/s3/model/HeadObjectRequest.h>
#include <aws/s3/model/ListObjectsV2Request.h>
#include <fnmatch.h>
#include <zlib.h>

#include "mlio/data_stores/s3_object.h"
#include "mlio/not_supported_error.h"
#include "mlio/s3_client.h"
#include "mlio/streams/input_stream.h"
#include "mlio/streams/s3_input_stream.h"
#include "mlio/streams/stream_error.h"

#include "setup.h"

using namespace mlio;
using Aws::S3::S3Errors;

namespace {

std::size_t P(const char *name, long def) { return static_cast<std::size_t>(mlse_param(name, def)); }

// ---- The service

std::string bucket, key, version;    // what is to be asked for
std::string content;
int faults, shorts, requests;
S3Errors fault;
const Aws::S3::S3Client *last_client;

bool fails(const char *name)
{
    if (faults <= 0 || !sym_bool(name))
        return false;
    faults--;
    static const S3Errors errors[] = {S3Errors::UNKNOWN,       S3Errors::SERVICE_UNAVAILABLE, S3Errors::ACCESS_DENIED,
                                      S3Errors::RESOURCE_NOT_FOUND, S3Errors::NO_SUCH_BUCKET,     S3Errors::NO_SUCH_KEY,
                                      S3Errors::REQUEST_TIMEOUT,    S3Errors::INTERNAL_FAILURE};
    fault = errors[pick("error", 0, 7)];
    return true;
}
std::errc code(S3Errors e)
{
    switch (e) {
    case S3Errors::SERVICE_UNAVAILABLE: return std::errc::host_unreachable;
    case S3Errors::ACCESS_DENIED: return std::errc::permission_denied;
    case S3Errors::RESOURCE_NOT_FOUND:
    case S3Errors::NO_SUCH_BUCKET:
    case S3Errors::NO_SUCH_KEY: return std::errc::no_such_file_or_directory;
    case S3Errors::REQUEST_TIMEOUT: return std::errc::timed_out;
    default: return std::errc::io_error;
    }
}
Aws::Client::AWSError<S3Errors> error() { return Aws::Client::AWSError<S3Errors>{fault}; }

// A bucket to list.
std::vector<std::string> keys;    // in the order of the service
std::size_t page_size;
std::vector<std::string> prefixes;
std::vector<int> matches;
std::vector<std::string> asked;

}  // namespace

namespace Aws::S3 {

Model::GetObjectOutcome S3Client::GetObject(const Model::GetObjectRequest &r) const
{
    last_client = this;
    requests++;
    CHECK(r.bucket == bucket && r.key == key && r.version == version, "the wrong object is read");
    if (fails("GetObject fails"))
        return error();
    std::size_t a = 0, b = content.size() - 1;
    if (!r.range.empty()) {
        CHECK(r.range.compare(0, 6, "bytes=") == 0, "a malformed range");
        const char *p = r.range.c_str() + 6;
        auto number = [&]() {
            CHECK(*p >= '0' && *p <= '9', "a malformed range");
            std::size_t n = 0;
            while (*p >= '0' && *p <= '9')
                n = n * 10 + static_cast<std::size_t>(*p++ - '0');
            return n;
        };
        a = number();
        CHECK(*p == '-', "a malformed range");
        p++;
        if (*p)
            b = std::min(b, number());
        CHECK(*p == 0, "a malformed range");
        CHECK(content.size() != 0 && a <= b && a < content.size(), "a range that is not in the object");
    }
    Model::GetObjectResult x;
    std::size_t n = b + 1 - a;
    if (n > 1 && shorts > 0 && sym_bool("short")) {
        shorts--;
        n = pick("delivered", 1, n);
    }
    x.body.bytes = content.substr(a, n);
    return x;
}
Model::HeadObjectOutcome S3Client::HeadObject(const Model::HeadObjectRequest &r) const
{
    last_client = this;
    CHECK(r.bucket == bucket && r.key == key && r.version == version, "the wrong object is opened");
    if (fails("HeadObject fails"))
        return error();
    Model::HeadObjectResult x;
    x.length = static_cast<long long>(content.size());
    return x;
}
Model::ListObjectsV2Outcome S3Client::ListObjectsV2(const Model::ListObjectsV2Request &r) const
{
    last_client = this;
    CHECK(++requests < 12, "listing does not end");
    CHECK(r.bucket == bucket, "the wrong bucket is listed");
    if (fails("ListObjectsV2 fails"))
        return error();
    // The token tells where to go on.
    std::size_t at = 0;
    if (!r.token.empty()) {
        CHECK(r.token[0] == 't' && r.token.size() == 2, "a wrong continuation token");
        at = static_cast<std::size_t>(r.token[1] - 'a');
    }
    CHECK(r.max_keys > 0, "no keys are asked for");
    Model::ListObjectsV2Result x;
    // The service may look at a few keys only, so that a page in the middle
    // can be empty.
    const std::size_t from = at;
    while (at < keys.size() && (page_size == 1 ? at - from : x.contents.size()) < page_size) {
        if (keys[at].compare(0, r.prefix.size(), r.prefix) == 0) {
            Model::Object o;
            o.key = keys[at];
            x.contents.push_back(o);
        }
        at++;
    }
    if (at < keys.size()) {
        x.truncated = true;
        x.token = "t";
        x.token += static_cast<char>('a' + at);
    }
    return x;
}

}  // namespace Aws::S3

extern "C" {
int inflateInit2_(z_streamp, int, const char *, int) { return Z_OK; }
int inflateEnd(z_streamp) { return Z_OK; }
int inflateReset(z_streamp) { return Z_OK; }
int inflate(z_streamp s, int)
{
    bool progress = false;
    for (; s->avail_in; progress = true) {
        if (*s->next_in == 0) {
            s->next_in++;
            s->avail_in--;
            return Z_STREAM_END;
        }
        if (!s->avail_out)
            break;
        *s->next_out++ = static_cast<Bytef>(*s->next_in++ ^ 0x20);
        s->avail_in--;
        s->avail_out--;
    }
    return progress ? Z_OK : Z_BUF_ERROR;
}
int fnmatch(const char *pattern, const char *path, int)
{
    CHECK(!std::strcmp(pattern, "*.x"), "wrong pattern");
    asked.emplace_back(path);
    matches.push_back(static_cast<int>(pick("fnmatch", 0, 2)));
    return matches.back() == 0 ? 0 : matches.back() == 1 ? FNM_NOMATCH : 99;
}
}

namespace {

const Compression compressions[] = {Compression::infer, Compression::none, Compression::gzip, Compression::bzip2, Compression::zip};

Compression by_name(const std::string &p)
{
    auto ends = [&](const char *e) {
        const std::size_t n = std::strlen(e);
        return p.size() > n && p.compare(p.size() - n, n, e) == 0;
    };
    return ends(".gz") ? Compression::gzip : ends(".bz2") ? Compression::bzip2 : ends(".zip") ? Compression::zip : Compression::none;
}

std::string read_all(Input_stream &s)
{
    std::string out;
    std::byte buf[3];
    while (std::size_t n = s.read(Mutable_memory_span{buf, sizeof buf}))
        out.append(reinterpret_cast<char *>(buf), n);
    return out;
}

void fill(std::size_t n, bool packed)
{
    content.clear();
    for (std::size_t i = 0; i < n; i++)
        content += static_cast<char>(sym_range("content", 1, 255));
    if (packed)
        content += '\0';
}
std::string inflated()
{
    std::string s;
    for (char c : content)
        if (c)
            s += static_cast<char>(c ^ 0x20);
    return s;
}

Intrusive_ptr<S3_client> a_client() { return make_intrusive<S3_client>(std::make_unique<Aws::S3::S3Client>()); }

// What follows the scheme, bucket/key, if the URI is one of an object.
bool parse(const std::string &uri)
{
    bucket.clear();
    key.clear();
    if (uri.compare(0, 5, "s3://") != 0)
        return false;
    std::size_t i = 5;
    while (i < uri.size() && uri[i] != '/')
        bucket += uri[i++];
    if (i < uri.size())
        key = uri.substr(i + 1);
    return !bucket.empty() && !key.empty();
}

// ---- Which object a URI names, and what is delivered

void objects()
{
    std::string uri = sym_bool("scheme") ? "s3://" : "";
    for (std::size_t n = pick("length", 0, P("uri", 6)); n; n--)
        uri += static_cast<char>(sym_range("uri", 1, 255));
    const bool good = parse(uri);
    if (sym_bool("with version"))
        version = "v7";
    Compression c = compressions[pick("compression", 0, 4)];
    const Compression effective = c != Compression::infer ? c : by_name(uri);
    const bool packed = effective == Compression::gzip;
    auto client = a_client();
    int o = 0;
    Intrusive_ptr<Data_store> s;
    try {
        s = make_intrusive<S3_object>(client, uri, version, c);
    }
    catch (const std::invalid_argument &) {
        o = 1;
    }
    CHECK((o == 0) == good, "the URI of an object is wrongly accepted or rejected");
    if (o) {
        mlse_reach("rejected");
        return;
    }
    CHECK(s->id() == (version.empty() ? uri : uri + "@" + version), "a wrong identifier");
    fill(pick("content", 0, P("content", 2)), packed);
    for (int k = 0; k < 2; k++) {
        std::string got;
        faults = static_cast<int>(P("faults", 1));
        const int had = faults;
        std::error_code ec;
        o = 0;
        try {
            auto in = s->open_read();
            if (k == 1)
                s = nullptr;
            client = nullptr;
            got = read_all(*in);
        }
        catch (const Not_supported_error &) {
            o = 2;
        }
        catch (const std::system_error &e) {
            o = 3;
            ec = e.code();
        }
        if (faults < had) {
            CHECK(o == 3, "an error of the service is ignored");
            CHECK(ec == code(fault), "an error of the service has a wrong code");
            mlse_reach("fault");
            if (!s)
                break;
            continue;
        }
        CHECK((o == 2) == (effective == Compression::bzip2 || effective == Compression::zip), "an unsupported compression is not rejected");
        CHECK(o != 3, "an error although the service has none");
        if (o)
            break;
        CHECK(got == (packed ? inflated() : content), "an object does not deliver its content");
        mlse_reach(packed ? "inflated" : "plain");
    }
}

// ---- Its stream, for any order of calls

void streams()
{
    bucket = "b";
    key = "k/l";
    if (sym_bool("with version"))
        version = "v7";
    const std::size_t size = pick("size", 0, P("content", 3));
    fill(size, false);
    auto in = make_s3_input_stream(a_client(), "s3://b/k/l", version);
    std::size_t pos = 0;
    bool closed = false;
    shorts = static_cast<int>(P("shorts", 1));
    for (std::size_t step = 0; step < P("steps", 3); step++) {
        faults = static_cast<int>(P("faults", 1));
        const int had = faults;
        int o = 0;
        std::error_code ec;
        std::size_t n = 0, arg = 0, got = 0;
        std::byte buf[8] = {};
        const auto op = pick("op", 0, 2);
        if (op == 0)
            arg = n = pick("n", 0, P("content", 3) + 1);
        if (op == 1) {
            arg = sym<std::size_t>("position");
            if (arg <= size)
                arg = mlse_concretize(arg);    // so that it can be formatted
        }
        try {
            if (op == 0)
                got = in->read(Mutable_memory_span{buf, n});
            else if (op == 1)
                in->seek(arg);
            else
                in->close();
        }
        catch (const Stream_error &) {
            o = 1;
        }
        catch (const std::system_error &e) {
            o = 2;
            ec = e.code();
        }
        if (op == 2) {
            closed = true;
            CHECK(!o, "closing fails");
        }
        else if (closed)
            CHECK(o == 1, "a closed stream is used");
        else if (faults < had) {
            CHECK(o == 2 && ec == code(fault), "an error of the service has a wrong code");
            mlse_reach("fault");
        }
        else if (op == 1) {
            CHECK((o == 2) == (arg > size), "a position is wrongly accepted or rejected");
            if (o)
                CHECK(ec == std::errc::invalid_argument, "a bad position is a wrong error");
            else
                pos = arg;
        }
        else {
            CHECK(!o, "reading fails");
            CHECK(got <= n, "more is read than asked for");
            CHECK((got == 0) == (n == 0 || pos >= size), "reading ends too early or too late");
            for (std::size_t i = 0; i < got; i++)
                CHECK(pos + i < size && static_cast<char>(buf[i]) == content[pos + i], "wrong bytes are read");
            for (std::size_t i = got; i < sizeof buf; i++)
                CHECK(buf[i] == std::byte{}, "more is written than reported");
            pos += got;
            mlse_reach("read");
        }
        CHECK(in->closed() == closed, "closed() is wrong");
        CHECK(in->position() == pos, "position() is wrong");
        CHECK(in->size() == size && in->seekable(), "size() is wrong");
    }
}

// ---- Listing

int natural(const std::string &a, const std::string &b)
{
    auto digit = [](char c) { return c >= '0' && c <= '9'; };
    std::size_t i = 0, j = 0;
    while (i < a.size() && j < b.size()) {
        if (digit(a[i]) && digit(b[j])) {
            unsigned x = 0, y = 0;
            while (i < a.size() && digit(a[i]))
                x = x * 10 + static_cast<unsigned>(a[i++] - '0');
            while (j < b.size() && digit(b[j]))
                y = y * 10 + static_cast<unsigned>(b[j++] - '0');
            if (x != y)
                return x < y ? -1 : 1;
            continue;
        }
        if (a[i] != b[j])
            return static_cast<unsigned char>(a[i]) < static_cast<unsigned char>(b[j]) ? -1 : 1;
        i++;
        j++;
    }
    return (i < a.size()) - (j < b.size());
}

void listing()
{
    bucket = "b";
    static const char *const names[] = {"p/x10", "p/x2", "p/x3.gz", "q", "p"};
    for (std::size_t n = pick("objects", 0, P("objects", 3)); n; n--) {
        keys.emplace_back(names[pick("key", 0, P("names", 3))]);
        for (std::size_t i = 0; i + 1 < keys.size(); i++)
            mlse_assume(keys[i] != keys.back());
    }
    page_size = pick("page", 0, P("page", 2));
    std::vector<std::string> uris, pre;
    static const char *const ends[] = {"", "/", "/p", "/p/x2", "/q"};
    for (std::size_t n = pick("uris", 1, P("uris", 2)); n; n--) {
        const char *e = ends[pick("uri", 0, P("prefixes", 4))];
        uris.push_back(std::string{"s3://b"} + e);
        pre.emplace_back(*e ? e + 1 : e);
    }
    const int bad = static_cast<int>(pick("bad uri", 0, P("bad", 3)));
    static const char *const bads[] = {"", "", "s3:/b/p", "s3:///p"};
    if (bad)
        uris.emplace_back(bads[bad]);
    // An empty page must lead somewhere.
    mlse_assume(page_size > 0 || keys.empty());

    faults = static_cast<int>(P("faults", 1));
    const int had = faults;
    std::vector<std::string> predicated;
    std::vector<bool> keep;
    S3_object_list_options::Predicate_callback predicate = [&](const std::string &p) {
        predicated.push_back(p);
        keep.push_back(sym_bool("predicate"));
        return keep.back();
    };
    S3_object_list_options opts;
    const bool with_pattern = sym_bool("with pattern"), with_predicate = sym_bool("with predicate");
    if (with_pattern)
        opts.pattern = "*.x";
    if (with_predicate)
        opts.predicate = &predicate;
    opts.compression = compressions[pick("compression", 0, 2)];
    auto client = a_client();
    std::vector<Intrusive_ptr<Data_store>> got;
    int o = 0;
    std::error_code ec;
    try {
        got = list_s3_objects(*client, uris, opts);
    }
    catch (const std::invalid_argument &) {
        o = 1;
    }
    catch (const std::system_error &e) {
        o = 2;
        ec = e.code();
    }
    bool bad_match = false;
    for (int m : matches)
        bad_match = bad_match || m == 2;
    if (faults < had) {
        CHECK(o == 2 && ec == code(fault), "an error of the service has a wrong code");
        mlse_reach("error");
        return;
    }
    CHECK((o == 1) == (bad_match || bad) && o != 2, "a bad pattern or URI is accepted, or a good one rejected");
    if (o) {
        mlse_reach("rejected");
        return;
    }
    // What each prefix matches.
    std::vector<std::string> want;
    for (auto &p : pre)
        for (auto &k : keys)
            if (k.compare(0, p.size(), p) == 0)
                want.push_back("s3://b/" + k);
    if (with_pattern) {
        CHECK(asked == want, "an object is not compared with the pattern");
        std::vector<std::string> w;
        for (std::size_t i = 0; i < want.size(); i++)
            if (matches[i] == 0)
                w.push_back(want[i]);
        want = w;
    }
    if (with_predicate) {
        CHECK(predicated == want, "an object is not compared with the predicate");
        std::vector<std::string> w;
        for (std::size_t i = 0; i < want.size(); i++)
            if (keep[i])
                w.push_back(want[i]);
        want = w;
    }
    for (std::size_t i = 0; i < want.size(); i++)
        for (std::size_t j = i + 1; j < want.size(); j++)
            if (natural(want[j], want[i]) < 0)
                std::swap(want[i], want[j]);
    CHECK(got.size() == want.size(), "wrong number of objects");
    for (std::size_t i = 0; i < want.size(); i++)
        CHECK(got[i]->id() == want[i], "the wrong object is listed, or in the wrong order");
    mlse_reach("listed");
    if (got.empty())
        return;
    faults = 0;
    const Compression c = opts.compression != Compression::infer ? opts.compression : by_name(want[0]);
    content = "ab";
    content += '\0';
    key = want[0].substr(7);
    CHECK(read_all(*got[0]->open_read()) == (c == Compression::gzip ? inflated() : content), "a listed object is not opened as asked");
}

// ---- The client's options

void options()
{
    bucket = "b";
    key = "k";
    content = "x";
    // More than one client in a process.
    for (std::size_t k = 0; k < P("clients", 2); k++) {
        S3_client_options opts;
        const bool id = sym_bool("id"), secret = sym_bool("secret"), token = sym_bool("token"), profile = sym_bool("profile"), region = sym_bool("region");
        if (id)
            opts.access_key_id = "i";
        if (secret)
            opts.secret_key = "s";
        if (token)
            opts.session_token = "t";
        if (profile)
            opts.profile = "p";
        if (region)
            opts.region = "r";
        opts.use_https = sym_bool("https");
        auto client = make_s3_client(opts);
        CHECK(client->read_object_size("b", "k", "") == 1, "wrong size");
        auto &cred = last_client->credentials;
        if (!id && !secret)
            CHECK(cred.id == "default", "the credentials are not the default ones");
        else
            CHECK(cred.id == (id ? "i" : "") && cred.key == (secret ? "s" : "") && cred.token == (token ? "t" : ""), "the wrong credentials are used");
        auto &config = last_client->config;
        CHECK(config.profile == (profile ? "p" : ""), "the wrong profile is used");
        CHECK(config.region == (region ? "r" : ""), "the wrong region is used");
        CHECK(config.scheme == (opts.use_https ? Aws::Http::Scheme::HTTPS : Aws::Http::Scheme::HTTP), "the wrong scheme is used");
        mlse_reach("client");
    }
}

}  // namespace

extern "C" void mlse_main()
{
    use_heap();
    switch (mlse_param("mode", 0)) {
    case 0: objects(); break;
    case 1: streams(); break;
    case 2: listing(); break;
    default: options(); break;
    }
}
