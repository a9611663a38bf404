// C01: splitting one CSV record into fields.
//
// The record, the delimiter, the quote character and the field length limit are
// symbolic. The reference below works on the whole record: it classifies every
// byte as content or syntax first, then cuts the record at the delimiters.
#include <string>
#include <vector>

#include "mlio/csv_reader.h"
#include "mlio/csv_record_tokenizer.h"
#include "mlio/record_readers/record_error.h"

#include "mlse.h"

using namespace mlio;

namespace {

struct Ref_field {
    char text[16];
    std::size_t len = 0;
    bool truncated = false;
};

struct Ref {
    Ref_field f[17];
    std::size_t n = 0;
    bool corrupt = false;   // the record ends inside quotes
};

void reference(const char *p, std::size_t n, char delim, char quote, bool limited, std::size_t limit, Ref &r)
{
    enum { start, plain, quoted, closing } st = start;
    r.n = 1;
    for (std::size_t i = 0; i < n; i++) {
        char c = p[i];
        bool content = true;
        if (c == delim && st != quoted) {
            r.n++;
            st = start;
            continue;
        }
        if (c == quote) {
            if (st == start) {
                st = quoted;
                content = false;
            }
            else if (st == quoted) {
                st = closing;
                content = false;
            }
            else if (st == closing)
                st = quoted;    // "" stands for "
        }
        else if (st == start || st == closing)
            st = plain;
        if (content) {
            Ref_field &f = r.f[r.n - 1];
            if (limited && f.len == limit)
                f.truncated = true;
            else
                f.text[f.len++] = c;
        }
    }
    r.corrupt = st == quoted;
}

}  // namespace

extern "C" void mlse_main()
{
    const auto max_len = static_cast<std::size_t>(mlse_param("len", 6));
    std::size_t n = pick("length", 0, max_len);
    char *buf = new char[n + 1];
    mlse_symbolic(buf, n, "record");

    Csv_params prm{};
    prm.delimiter = sym<char>("delimiter");
    prm.quote_char = sym<char>("quote");
    mlse_assume(prm.delimiter != prm.quote_char);
    bool limited = sym_bool("limited");
    std::size_t limit = 0;
    if (limited) {
        limit = pick("limit", 0, 2);
        prm.max_field_length = limit;
    }

    Ref ref;
    reference(buf, n, prm.delimiter, prm.quote_char, limited, limit, ref);

    detail::Csv_record_tokenizer tok{prm};
    // Reuse after an unfinished record, as the reader does.
    static const char junk[3] = {'a', 'b', 'c'};
    tok.reset(Memory_span{reinterpret_cast<const std::byte *>(junk), 3});
    if (sym_bool("reuse")) {
        try {
            tok.next();
        }
        catch (const Corrupt_record_error &) {
        }
    }
    tok.reset(Memory_span{reinterpret_cast<const std::byte *>(buf), n});

    for (std::size_t i = 0;; i++) {
        bool more = false, thrown = false;
        try {
            more = tok.next();
        }
        catch (const Corrupt_record_error &) {
            thrown = true;
        }
        if (thrown) {
            mlse_reach("corrupt");
            mlse_trace(99);
            CHECK(ref.corrupt && i + 1 == ref.n, "the record is rejected although its quotes are balanced");
            break;
        }
        if (!more) {
            mlse_reach("end");
            CHECK(i == ref.n, "wrong number of fields");
            CHECK(tok.eof(), "end not reported");
            CHECK(!ref.corrupt, "a record that ends inside quotes is accepted");
            break;
        }
        CHECK(i < ref.n, "more fields than the record holds");
        CHECK(!tok.eof(), "end reported before the last field was returned");
        const Ref_field &f = ref.f[i];
        const std::string &v = tok.value();
        CHECK(v.size() == f.len, "wrong field length");
        for (std::size_t k = 0; k < f.len; k++)
            CHECK(v[k] == f.text[k], "wrong field content");
        mlse_trace(v.size());
        for (char ch : v)
            mlse_trace(static_cast<unsigned char>(ch));
        CHECK(tok.truncated() == f.truncated, "wrong truncation flag");
        if (tok.truncated())
            mlse_reach("truncated");
    }
    delete[] buf;
}
