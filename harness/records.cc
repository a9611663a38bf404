// C02, C03, R01, R02, C04: cutting a byte stream into records.
//
// fmt 0: text lines, 1: CSV rows, 2: RecordIO, 3: Parquet.
// The bytes are symbolic. The reference sees the whole input at once; the code
// under test sees it in one piece (zero-copy stream) or in chunks of a few
// bytes filled by reads of whatever length the solver picks.
#include <string>
#include <vector>

#include "mlio/csv_reader.h"

#include "mlio/record_readers/csv_record_reader.h"
#include "mlio/record_readers/detail/chunk_reader.h"
#include "mlio/record_readers/detail/default_chunk_reader.h"
#include "mlio/record_readers/parquet_record_reader.h"
#include "mlio/record_readers/record_error.h"
#include "mlio/record_readers/recordio_record_reader.h"
#include "mlio/record_readers/text_line_record_reader.h"
#include "mlio/streams/memory_input_stream.h"
#include "mlio/streams/stream_error.h"

#include "setup.h"
#include "stream.h"

using namespace mlio;

namespace {

constexpr std::size_t max_records = 24;

enum Outcome { at_end, corrupt, too_large, failed };

struct Ref {
    std::size_t beg[max_records], len[max_records];
    int kind[max_records];
    std::size_t n = 0;
    Outcome end = at_end;
    bool ambiguous_end = false;    // the Parquet end marker search is a heuristic
    void add(std::size_t b, std::size_t l, int k = 0)
    {
        beg[n] = b;
        len[n] = l;
        kind[n] = k;
        n++;
    }
};

// Lines end with LF, CRLF or CR; the last one may lack its terminator.
std::size_t bom(const unsigned char *p, std::size_t n)
{
    return n >= 3 && p[0] == 0xEF && p[1] == 0xBB && p[2] == 0xBF ? 3 : 0;
}

void ref_lines(const unsigned char *p, std::size_t n, bool skip_blank, Ref &r)
{
    std::size_t i = bom(p, n);
    while (i < n) {
        std::size_t b = i;
        while (i < n && p[i] != '\n' && p[i] != '\r')
            i++;
        if (!skip_blank || i > b)
            r.add(b, i - b);
        if (i < n) {
            if (p[i] == '\r' && i + 1 < n && p[i + 1] == '\n')
                i++;
            i++;
        }
    }
}

void ref_csv(const unsigned char *p, std::size_t n, const Csv_params &prm, Ref &r)
{
    std::size_t i = bom(p, n);
    const auto delim = static_cast<unsigned char>(prm.delimiter), quote = static_cast<unsigned char>(prm.quote_char);
    while (i < n) {
        std::size_t b = i;
        bool comment = prm.comment_char && p[i] == static_cast<unsigned char>(*prm.comment_char);
        bool in_quotes = false, field_start = true, closing = false;
        while (i < n) {
            unsigned char c = p[i];
            if (in_quotes) {
                if (c == quote) {
                    in_quotes = false;
                    closing = true;
                }
            }
            else if (!comment && prm.allow_quoted_new_lines && c == quote && (field_start || closing)) {
                in_quotes = true;
                field_start = closing = false;
            }
            else if (!comment && prm.allow_quoted_new_lines && c == delim) {
                field_start = true;
                closing = false;
            }
            else if (c == '\n' || c == '\r')
                break;
            else
                field_start = closing = false;
            i++;
        }
        std::size_t len = i - b;
        if (!comment && prm.max_line_length && len > *prm.max_line_length) {
            r.end = too_large;
            return;
        }
        if (in_quotes) {
            r.end = corrupt;
            return;
        }
        if (!comment && (!prm.skip_blank_lines || len > 0))
            r.add(b, len);
        if (i < n) {
            if (p[i] == '\r' && i + 1 < n && p[i + 1] == '\n')
                i++;
            i++;
        }
    }
}

std::uint32_t le32(const unsigned char *p)
{
    return p[0] | p[1] << 8 | p[2] << 16 | static_cast<std::uint32_t>(p[3]) << 24;
}

void ref_recordio(const unsigned char *p, std::size_t n, Ref &r)
{
    std::size_t i = 0;
    while (i < n) {
        if (n - i < 8 || le32(p + i) != 0xced7230a) {
            r.end = corrupt;
            return;
        }
        std::uint32_t w = le32(p + i + 4);
        std::size_t len = w & 0x1fffffff, pad = (4 - len % 4) % 4;
        if (len + pad > n - i - 8) {
            r.end = corrupt;
            return;
        }
        r.add(i + 8, len, static_cast<int>(w >> 29));
        i += 8 + len + pad;
    }
}

bool magic(const unsigned char *p) { return p[0] == 'P' && p[1] == 'A' && p[2] == 'R' && p[3] == '1'; }

// A file ends at the first place that looks like a footer: a 4-byte metadata
// length that fits between the leading magic number and itself, metadata that
// begins with a Thrift field header and ends with a stop field, PAR1.
void ref_parquet(const unsigned char *p, std::size_t n, Ref &r)
{
    std::size_t i = 0;
    while (i < n) {
        if (n - i < 12 || !magic(p + i)) {
            r.end = corrupt;
            return;
        }
        bool found = false;
        for (std::size_t e = i + 8; e + 4 <= n && !found; e++) {
            if (!magic(p + e))
                continue;
            std::uint64_t meta = le32(p + e - 4);
            std::size_t room = e - 4 - i;
            if (meta < 9 || 4 + meta > room || p[e - 5] != 0)
                continue;
            unsigned char f = p[e - 4 - meta];
            if (f != 0x15 && f != 0x29 && f != 0x36 && f != 0x49 && f != 0x59 && f != 0x68 && f != 0x79)
                continue;
            r.add(i, e + 4 - i);
            i = e + 4;
            found = true;
        }
        if (!found) {
            r.end = corrupt;
            return;
        }
    }
}

}  // namespace

extern "C" void mlse_main()
{
    use_heap();
    const long fmt = mlse_param("fmt", 0), len = mlse_param("len", 5), chunked = mlse_param("chunked", 0), shorts = mlse_param("shorts", 2), fails = mlse_param("fails", 0);
    std::size_t n = pick("length", mlse_param("min_len", 0), len);
    auto *buf = new unsigned char[n];
    mlse_symbolic(buf, n, "bytes");

    Csv_params prm{};
    bool skip_blank = false;
    Ref ref;
    if (fmt == 0) {
        skip_blank = sym_bool("skip_blank");
        ref_lines(buf, n, skip_blank, ref);
    }
    else if (fmt == 1) {
        prm.skip_blank_lines = sym_bool("skip_blank");
        prm.allow_quoted_new_lines = mlse_param("quoted", 1) != 0;
        if (mlse_param("sym_chars", 1)) {
            prm.delimiter = sym<char>("delimiter");
            prm.quote_char = sym<char>("quote");
            mlse_assume(prm.delimiter != prm.quote_char && prm.delimiter != '\n' && prm.delimiter != '\r' && prm.quote_char != '\n' && prm.quote_char != '\r');
        }
        if (sym_bool("has_comment")) {
            char c = mlse_param("sym_chars", 1) ? sym<char>("comment") : '#';
            mlse_assume(c != '\n' && c != '\r' && c != prm.delimiter && c != prm.quote_char);
            prm.comment_char = c;
        }
        if (mlse_param("limit", 1) && sym_bool("has_limit"))
            prm.max_line_length = pick("limit", 0, mlse_param("limit", 1));
        ref_csv(buf, n, prm, ref);
    }
    else if (fmt == 2) {
        if (mlse_param("magic", 0))     // keep to inputs whose headers begin with the magic number
            for (std::size_t i = 0, h = 0; i + 8 <= n && h < 4; h++) {
                mlse_assume(le32(buf + i) == 0xced7230a);
                mlse_assume((le32(buf + i + 4) & 0x1fffffff) <= 40);
                std::size_t l = mlse_concretize(le32(buf + i + 4) & 0x1fffffff);
                i += 8 + (l + 3) / 4 * 4;
            }
        ref_recordio(buf, n, ref);
    }
    else {
        if (mlse_param("magic", 0) && n >= 4)
            mlse_assume(magic(buf));
        ref_parquet(buf, n, ref);
    }

    Intrusive_ptr<Input_stream> stream;
    if (chunked) {
        auto s = make_intrusive<Chopped_stream>(buf, n, static_cast<int>(shorts));
        if (fails) {
            s->fail_at = pick("fails at", 0, n);
            s->fails = sym_bool("for ever") ? ~std::size_t{} : 1;
        }
        stream = std::move(s);
    }
    else
        stream = make_intrusive<Memory_input_stream>(slice_of(buf, n));

    Intrusive_ptr<Stream_record_reader> reader;
    if (fmt == 0)
        reader = make_intrusive<detail::Text_line_record_reader>(stream, skip_blank);
    else if (fmt == 1)
        reader = make_intrusive<detail::Csv_record_reader>(stream, prm);
    else if (fmt == 2)
        reader = make_intrusive<detail::Recordio_record_reader>(stream);
    else
        reader = make_intrusive<detail::Parquet_record_reader>(stream);
    if (chunked) {
        auto *cr = dynamic_cast<detail::Default_chunk_reader *>(reader->chunk_reader_.get());
        std::size_t c = static_cast<std::size_t>(1) << pick("log2_chunk", 0, mlse_param("log2_chunk", 2));
        if (cr == nullptr || !set_first_chunk(cr, c, 0))
            mlse_reach("chunk size not set");
    }

    bool keep = sym_bool("keep_records");
    bool peek = mlse_param("peek", 0) && sym_bool("peek");
    std::vector<Record> kept;
    kept.reserve(max_records);
    for (std::size_t i = 0;; i++) {
        std::optional<Record> rec;
        Outcome o = at_end;
        try {
            if (peek) {
                auto first = reader->peek_record();
                auto again = reader->peek_record();
                CHECK(first.has_value() == again.has_value() && (!first || first->payload().begin() == again->payload().begin()), "peeking changes what comes next");
            }
            rec = reader->read_record();
        }
        catch (const Record_too_large_error &) {
            o = too_large;
        }
        catch (const Corrupt_record_error &) {
            o = corrupt;
        }
        catch (const Stream_error &) {
            CHECK(fails, "a failure of the stream which did not fail");
            o = failed;
        }
        if (!rec) {
            mlse_reach(o == at_end ? "end" : o == corrupt ? "corrupt" : o == failed ? "failed" : "too large");
            mlse_trace(1000 + o);
            if (o != at_end) {
                // What could not be read once cannot be read later either.
                Outcome again = at_end;
                try {
                    CHECK(!(peek ? reader->peek_record() : reader->read_record()), "a record after an error");
                }
                catch (const Record_too_large_error &) {
                    again = too_large;
                }
                catch (const Corrupt_record_error &) {
                    again = corrupt;
                }
                catch (const Stream_error &) {
                    again = failed;
                }
                CHECK(again == o, "an error is forgotten");
            }
            if (o == failed)
                break;    // what was read before has been compared
            CHECK(i == ref.n, o == at_end ? "the stream ends before its last record" : "a valid record is rejected");
            CHECK(o == ref.end, "wrong outcome at the end of the stream");
            if (o == at_end)
                CHECK(!reader->read_record(), "a record after the end");
            break;
        }
        CHECK(i < ref.n, "a record too many, or a malformed record is accepted");
        mlse_reach("record");
        mlse_trace(rec->payload().size());
        CHECK(rec->payload().size() == ref.len[i], "wrong record length");
        CHECK(static_cast<int>(rec->kind()) == ref.kind[i], "wrong record kind");
        auto p = as_span<const unsigned char>(rec->payload());
        for (std::size_t k = 0; k < ref.len[i]; k++)
            CHECK(p[k] == buf[ref.beg[i] + k], "wrong record content");
        if (keep)
            kept.push_back(*rec);
    }
    for (std::size_t i = 0; i < kept.size(); i++) {
        auto p = as_span<const unsigned char>(kept[i].payload());
        for (std::size_t k = 0; k < ref.len[i]; k++)
            CHECK(p[k] == buf[ref.beg[i] + k], "a record changed after it was handed out");
    }
    delete[] buf;
}
