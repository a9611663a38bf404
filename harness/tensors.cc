// T01..T03, S01: tensors and schemas.
//
// mode 0: dense tensors and what DLPack shows of them, 1: COO and CSR tensors,
// 2: the COO builder, 3: schemas.
#include <cstring>
#include <limits>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>

#include <dlpack/dlpack.h>

#include "mlio/coo_tensor_builder.h"
#include "mlio/cpu_array.h"
#include "mlio/integ/dlpack.h"
#include "mlio/not_supported_error.h"
#include "mlio/schema.h"
#include "mlio/tensor.h"
#include "mlio/tensor_visitor.h"

#include "setup.h"

using namespace mlio;

namespace {

using I128 = __int128;

struct Kind_visitor final : Tensor_visitor {
    using Tensor_visitor::visit;
    int kind = 0;
    void visit(Tensor &) final { kind = 9; }
    void visit(const Tensor &) final { kind = 19; }
    void visit(Dense_tensor &) final { kind = 1; }
    void visit(const Dense_tensor &) final { kind = 11; }
    void visit(Coo_tensor &) final { kind = 2; }
    void visit(const Coo_tensor &) final { kind = 12; }
    void visit(Csr_tensor &) final { kind = 3; }
    void visit(const Csr_tensor &) final { kind = 13; }
};

void check_visit(Tensor &t, int kind)
{
    Kind_visitor v{};
    t.accept(v);
    CHECK(v.kind == kind, "the wrong function of a visitor is called");
    const Tensor &c = t;
    c.accept(v);
    CHECK(v.kind == kind + 10, "the wrong function of a visitor is called");
    struct Plain final : Tensor_visitor {} plain;
    bool thrown = false;
    try {
        t.accept(plain);
    }
    catch (const Not_supported_error &) {
        thrown = true;
    }
    CHECK(thrown, "a visitor that supports nothing accepts a tensor");
    thrown = false;
    try {
        c.accept(plain);
    }
    catch (const Not_supported_error &) {
        thrown = true;
    }
    CHECK(thrown, "a visitor that supports nothing accepts a tensor");
    struct Any final : Tensor_visitor {
        using Tensor_visitor::visit;
        const Tensor *seen = nullptr;
        bool constant = false;
        void visit(Tensor &x) final { seen = &x, constant = false; }
        void visit(const Tensor &x) final { seen = &x, constant = true; }
    } any;
    t.accept(any);
    CHECK(any.seen == &t && !any.constant, "a visitor of any tensor does not see a tensor");
    any.seen = nullptr;
    c.accept(any);
    CHECK(any.seen == &t && any.constant, "a visitor of any tensor does not see a tensor");
}

std::unique_ptr<Device_array> sizes(std::size_t n) { return wrap_cpu_array<Data_type::size>(std::vector<std::size_t>(n)); }

// A size: small, or one whose products are around 2^64.
std::size_t dim(const char *name, bool wide)
{
    static const std::uint64_t w[] = {0, 1, 3, 1ULL << 31, 1ULL << 32, 1ULL << 62, 1ULL << 63, ~0ULL};
    return wide ? w[pick(name, 0, 7)] : mlse_concretize(sym_range(name, 0, 3));
}

bool same_type(const DLDataType &t, int code, int bits) { return t.code == code && t.bits == bits && t.lanes == 1; }

void dense()
{
    const bool wide = mlse_param("wide", 0) != 0;
    const std::size_t rank = pick("rank", 0, static_cast<std::uint64_t>(mlse_param("rank", 3)));
    const std::size_t n = pick("data_size", 0, static_cast<std::uint64_t>(mlse_param("size", 6)));
    std::size_t d[4];
    std::ptrdiff_t st[4];
    Size_vector shape;
    Ssize_vector strides;
    for (std::size_t i = 0; i < rank; i++) {
        d[i] = dim("dim", wide);
        shape.push_back(d[i]);
    }
    const bool given = sym_bool("strides_given");
    std::size_t ns = given ? pick("num_strides", 0, rank + 1) : 0;
    for (std::size_t i = 0; i < ns; i++) {
        std::ptrdiff_t v = static_cast<std::ptrdiff_t>(wide ? dim("stride", true) : sym_range("stride", 0, 5) - 1);
        if (i < 4)
            st[i] = v;
        strides.push_back(v);
    }
    // What the arguments mean.
    bool too_large = false;
    if (ns == 0) {
        I128 p = 1;
        for (std::size_t i = rank; i-- > 0;) {
            st[i] = static_cast<std::ptrdiff_t>(p);
            if (i > 0)
                p *= d[i];
            if (p > std::numeric_limits<std::ptrdiff_t>::max()) {
                too_large = true;
                break;
            }
        }
    }
    const bool mismatch = ns > 0 && ns != rank;
    bool empty = false, fits = true;
    I128 last = 0;
    if (!mismatch && !too_large) {
        for (std::size_t i = 0; i < rank; i++)
            empty = empty || d[i] == 0;
        if (!empty && rank > 0) {
            // Stop before the sum could overflow.
            for (std::size_t i = 0; i < rank && fits; i++) {
                I128 a = st[i] < 0 ? -static_cast<I128>(st[i]) : st[i];
                last += static_cast<I128>(d[i] - 1) * a;
                fits = last < static_cast<I128>(n);
            }
        }
    }

    auto data = std::vector<std::int32_t>(n);
    Intrusive_ptr<Dense_tensor> t;
    bool thrown = false;
    try {
        t = make_intrusive<Dense_tensor>(shape, wrap_cpu_array<Data_type::int32>(std::move(data)), strides);
    }
    catch (const std::invalid_argument &) {
        thrown = true;
    }
    mlse_trace(thrown);
    if (mismatch || !fits || too_large) {
        CHECK(thrown || too_large, "a tensor that does not fit its data is made");
        mlse_reach("rejected");
        if (thrown)
            return;
    }
    CHECK(!thrown, "a tensor that fits its data is rejected");
    mlse_reach("made");
    CHECK(t->shape().size() == rank && t->strides().size() == rank, "wrong rank");
    for (std::size_t i = 0; i < rank; i++)
        CHECK(t->shape()[i] == d[i] && (too_large || t->strides()[i] == st[i]), "wrong shape or strides");
    CHECK(t->data().size() == n && t->data_type() == Data_type::int32, "wrong data");
    check_visit(*t, 1);

    // DLPack
    const std::size_t version = pick("version_ok", 0, 1) != 0 ? DLPACK_VERSION : DLPACK_VERSION + 1;
    DLManagedTensor *mt = nullptr;
    bool refused = false;
    try {
        mt = as_dlpack(*t, version);
    }
    catch (const Not_supported_error &) {
        refused = true;
    }
    CHECK(refused == (version != DLPACK_VERSION), "an unknown DLPack version is not refused");
    if (refused)
        return;
    auto &dl = mt->dl_tensor;
    CHECK(dl.ndim == static_cast<int>(rank), "DLPack: wrong number of dimensions");
    for (std::size_t i = 0; i < rank; i++)
        CHECK(dl.shape[i] == static_cast<std::int64_t>(d[i]) && (too_large || dl.strides[i] == st[i]), "DLPack: wrong shape or strides");
    CHECK(dl.byte_offset == 0 && dl.data == t->data().data(), "DLPack: wrong data");
    CHECK(same_type(dl.dtype, kDLInt, 32), "DLPack: wrong data type");
    CHECK(dl.ctx.device_type == kDLCPU && dl.ctx.device_id == 0, "DLPack: wrong device");
    void *p = dl.data;
    t = nullptr;
    if (n > 0) {
        CHECK(mlse_readable(p, 4 * n), "DLPack: the data dies before the managed tensor");
        CHECK(mt->dl_tensor.shape == nullptr || mlse_readable(mt->dl_tensor.shape, 8 * rank), "DLPack: the shape dies before the managed tensor");
    }
    mt->deleter(mt);
}

template<Data_type dt>
void dl_type(int code)
{
    auto t = make_intrusive<Dense_tensor>(Size_vector{1, 2}, make_cpu_array(dt, 2));
    DLManagedTensor *mt = nullptr;
    bool refused = false;
    try {
        mt = as_dlpack(*t, DLPACK_VERSION);
    }
    catch (const Not_supported_error &) {
        refused = true;
    }
    CHECK(refused == (code < 0), "DLPack: a data type is wrongly refused or accepted");
    if (refused)
        return;
    CHECK(same_type(mt->dl_tensor.dtype, code, 8 * static_cast<int>(sizeof(data_type_t<dt>))), "DLPack: wrong data type");
    mt->deleter(mt);
}

void sparse()
{
    const bool csr = sym_bool("csr");
    const std::size_t rank = pick("rank", 0, 3), n = sym_range("values", 0, 3);
    Size_vector shape;
    std::size_t d[3];
    for (std::size_t i = 0; i < rank; i++)
        shape.push_back(d[i] = sym_range("dim", 0, 3));
    auto nn = mlse_concretize(n);
    auto data = wrap_cpu_array<Data_type::float32>(std::vector<float>(nn));
    Intrusive_ptr<Tensor> t;
    bool thrown = false, ok;
    if (csr) {
        std::size_t ni = pick("indices", 0, 4), np = pick("indptr", 0, 4);
        ok = rank <= 2 && ni == nn && np == (rank == 0 ? 0 : rank == 1 ? 1 : d[0]) + 1;
        try {
            auto i = sizes(ni), p = sizes(np);
            const void *pi = i->data(), *pp = p->data();
            auto c = make_intrusive<Csr_tensor>(shape, std::move(data), std::move(i), std::move(p));
            CHECK(c->indices().data() == pi && c->indptr().data() == pp && c->data().size() == nn, "the arrays of a CSR tensor are mixed up");
            t = c;
        }
        catch (const std::invalid_argument &) {
            thrown = true;
        }
    }
    else {
        std::size_t nc = pick("num_coordinates", 0, 3), len[3];
        std::vector<std::unique_ptr<Device_array>> c;
        const void *pc[3];
        ok = nc == rank;
        for (std::size_t i = 0; i < nc; i++) {
            len[i] = pick("coordinates", 0, 3);
            ok = ok && len[i] == nn;
            c.push_back(sizes(len[i]));
            pc[i] = c.back()->data();
        }
        try {
            auto q = make_intrusive<Coo_tensor>(shape, std::move(data), std::move(c));
            for (std::size_t i = 0; i < rank; i++)
                CHECK(q->indices(i).data() == pc[i] && q->indices(i).size() == nn, "the coordinates of a COO tensor are mixed up");
            bool out = false;
            try {
                q->indices(rank);
            }
            catch (const std::out_of_range &) {
                out = true;
            }
            CHECK(out, "coordinates of a dimension that is not there");
            t = q;
        }
        catch (const std::invalid_argument &) {
            thrown = true;
        }
    }
    mlse_trace(thrown);
    CHECK(thrown == !ok, thrown ? "a valid sparse tensor is rejected" : "a sparse tensor whose arrays do not match is made");
    mlse_reach(thrown ? "rejected" : "made");
    if (thrown)
        return;
    CHECK(t->shape() == shape && t->data_type() == Data_type::float32, "wrong shape");
    check_visit(*t, csr ? 3 : 2);
    bool refused = false;
    try {
        as_dlpack(*t, DLPACK_VERSION);
    }
    catch (const std::invalid_argument &) {
        refused = true;
    }
    CHECK(refused, "DLPack: a sparse tensor is accepted");
}

void builder()
{
    const bool wide = mlse_param("wide", 0) != 0;
    const std::size_t rank = pick("rank", 1, static_cast<std::uint64_t>(mlse_param("rank", 3))), batch = pick("batch", 1, static_cast<std::uint64_t>(mlse_param("batch", 3)));
    Size_vector shape{batch + pick("padding", 0, 1)};
    std::size_t d[4];
    for (std::size_t i = 0; i < rank; i++)
        shape.push_back(d[i] = dim("dim", wide));
    I128 all = 1;
    for (std::size_t i = rank; i-- > 0;) {
        all *= d[i];
        mlse_assume(all <= std::numeric_limits<std::ptrdiff_t>::max());
    }
    Attribute attr{"a", Data_type::int32, shape, {}, true};
    auto b = detail::make_coo_tensor_builder(attr, batch);
    auto &impl = static_cast<detail::Coo_tensor_builder_impl<Data_type::int32> &>(*b);
    std::vector<std::int32_t> val;
    std::vector<std::uint64_t> key, row;
    for (std::size_t r = 0; r < batch; r++) {
        std::size_t n = pick("values", 0, static_cast<std::uint64_t>(mlse_param("values", 2)));
        std::vector<std::int32_t> v(n);
        std::vector<std::uint64_t> k(n);
        bool ok = true;
        for (std::size_t i = 0; i < n; i++) {
            v[i] = sym<std::int32_t>("value");
            k[i] = wide ? sym_range("key", 0, 255) << (pick("shift", 0, 2) * 30) : sym_range("key", 0, 30);
            ok = ok && static_cast<I128>(k[i]) < all;
        }
        bool got = impl.append(v, k);
        mlse_trace(got);
        CHECK(got == ok, ok ? "a valid key is rejected" : "a key outside the shape is accepted");
        if (!got) {
            mlse_reach("rejected");
            return;
        }
        for (std::size_t i = 0; i < n; i++) {
            val.push_back(v[i]);
            key.push_back(k[i]);
            row.push_back(r);
        }
    }
    auto t = b->build();
    auto *c = dynamic_cast<Coo_tensor *>(t.get());
    CHECK(c != nullptr && c->shape().size() == rank + 1 && c->shape()[0] == batch, "wrong shape");
    for (std::size_t i = 0; i < rank; i++)
        CHECK(c->shape()[i + 1] == d[i], "wrong shape");
    CHECK(c->data().size() == val.size(), "wrong number of values");
    auto v = c->data().as<std::int32_t>();
    for (std::size_t i = 0; i < val.size(); i++) {
        CHECK(v[i] == val[i] && c->indices(0).as<std::size_t>()[i] == row[i], "a value is in the wrong row");
        I128 k = 0;
        for (std::size_t j = 0; j < rank; j++) {
            std::size_t x = c->indices(j + 1).as<std::size_t>()[i];
            CHECK(x < d[j], "a coordinate is outside the shape");
            k = k * d[j] + x;
        }
        CHECK(k == key[i], "a value is at the wrong place");
    }
    mlse_reach("built");
}

void schemas()
{
    static const char *const names[] = {"", "a", "b", "ab"};
    static const Data_type types[] = {Data_type::int32, Data_type::string};
    struct A {
        std::size_t name, type, d0, d1, rank;
        bool sparse;
        std::ptrdiff_t s0, s1;
    } a[2][3];
    Intrusive_ptr<Schema> s[2];
    std::size_t n[2];
    for (int k = 0; k < 2; k++) {
        n[k] = pick("attributes", 0, static_cast<std::uint64_t>(mlse_param("attrs", 2)));
        std::vector<Attribute> attrs;
        bool dup = false;
        for (std::size_t i = 0; i < n[k]; i++) {
            A &x = a[k][i];
            x.name = pick("name", 0, 2);
            x.type = sym_range("type", 0, 1);
            x.sparse = sym_range("sparse", 0, 1) != 0;
            x.rank = pick("rank", 1, 2);
            x.d0 = sym<std::uint32_t>("d0");
            x.d1 = sym<std::uint32_t>("d1");
            for (std::size_t j = 0; j < i; j++)
                dup = dup || a[k][j].name == x.name;
            Size_vector shape{x.d0};
            if (x.rank == 2)
                shape.push_back(x.d1);
            Ssize_vector strides;
            if (mlse_param("strides", 0) && sym_bool("given strides")) {
                strides.push_back(x.s0 = sym<std::int32_t>("s0"));
                if (x.rank == 2)
                    strides.push_back(x.s1 = sym<std::int32_t>("s1"));
            }
            else if (x.rank == 2) {
                x.s0 = static_cast<std::ptrdiff_t>(x.d1);
                x.s1 = 1;
            }
            else
                x.s0 = 1;
            attrs.emplace_back(names[x.name], x.type ? types[1] : types[0], shape, strides, x.sparse);
            if (!strides.empty()) {
                if (sym_bool("too many"))
                    strides.push_back(1);
                else
                    strides.pop_back();
                bool rejected = false;
                try {
                    Attribute{names[x.name], Data_type::int32, shape, strides, x.sparse};
                }
                catch (const std::invalid_argument &) {
                    rejected = true;
                }
                CHECK(rejected || strides.empty(), "a wrong number of strides is accepted");
            }
            CHECK(attrs.back().name() == names[x.name] && attrs.back().shape() == shape && attrs.back().sparse() == x.sparse, "wrong attribute");
            CHECK(attrs.back().strides().size() == x.rank && attrs.back().strides()[0] == x.s0, "wrong strides");
            if (x.rank == 2)
                CHECK(attrs.back().strides()[1] == x.s1, "wrong strides");
        }
        bool thrown = false;
        try {
            s[k] = make_intrusive<Schema>(attrs);
        }
        catch (const std::invalid_argument &) {
            thrown = true;
        }
        mlse_trace(thrown);
        CHECK(thrown == dup, dup ? "two attributes with the same name are accepted" : "a schema is rejected");
        if (thrown) {
            mlse_reach("duplicate");
            return;
        }
        CHECK(s[k]->attributes().size() == n[k], "wrong number of attributes");
        for (std::size_t q = 0; q < 4; q++) {
            auto idx = s[k]->get_index(names[q]);
            std::size_t want = 9;
            for (std::size_t i = 0; i < n[k]; i++)
                if (a[k][i].name == q)
                    want = i;
            CHECK(idx.has_value() == (want != 9) && (!idx || *idx == want), "wrong index of an attribute");
        }
    }
    bool equal = n[0] == n[1];
    for (std::size_t i = 0; i < n[0] && equal; i++) {
        A &x = a[0][i], &y = a[1][i];
        equal = x.name == y.name && x.type == y.type && x.sparse == y.sparse && x.rank == y.rank && x.d0 == y.d0 && x.s0 == y.s0 && (x.rank == 1 || (x.d1 == y.d1 && x.s1 == y.s1));
        if (equal)
            CHECK(std::hash<Attribute>{}(s[0]->attributes()[i]) == std::hash<Attribute>{}(s[1]->attributes()[i]), "equal attributes have different hashes");
    }
    mlse_reach(equal ? "equal" : "different");
    mlse_trace(equal);
    CHECK((*s[0] == *s[1]) == equal && (*s[0] != *s[1]) == !equal, "wrong comparison of schemas");
}

}  // namespace

extern "C" void mlse_main()
{
    const long mode = mlse_param("mode", 0);
    if (mode == 0)
        dense();
    else if (mode == 1)
        sparse();
    else if (mode == 2)
        builder();
    else if (mode == 3)
        schemas();
    else {
        dl_type<Data_type::size>(kDLUInt);
        dl_type<Data_type::float16>(kDLFloat);
        dl_type<Data_type::float32>(kDLFloat);
        dl_type<Data_type::float64>(kDLFloat);
        dl_type<Data_type::int8>(kDLInt);
        dl_type<Data_type::int16>(kDLInt);
        dl_type<Data_type::int32>(kDLInt);
        dl_type<Data_type::int64>(kDLInt);
        dl_type<Data_type::uint8>(kDLUInt);
        dl_type<Data_type::uint16>(kDLUInt);
        dl_type<Data_type::uint32>(kDLUInt);
        dl_type<Data_type::uint64>(kDLUInt);
        dl_type<Data_type::string>(-1);
    }
}
