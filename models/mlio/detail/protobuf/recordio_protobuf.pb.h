// Stand-in for the code protoc generates from recordio_protobuf.proto: the same
// accessors over a parser of the protobuf wire format.
#pragma once

#include <cstddef>
#include <cstdint>
#include <cstring>
#include <map>
#include <string>
#include <vector>

namespace aialgs {
namespace data {

namespace wire {

struct Reader {
    const unsigned char *p, *e;
    bool ok = true;
    bool more() const { return ok && p < e; }
    std::uint64_t varint()
    {
        std::uint64_t v = 0;
        for (unsigned s = 0; s < 70; s += 7) {
            if (p >= e) {
                ok = false;
                return 0;
            }
            unsigned char c = *p++;
            if (s < 64)
                v |= static_cast<std::uint64_t>(c & 0x7f) << s;
            if (c < 0x80)
                return v;
        }
        ok = false;
        return 0;
    }
    Reader sub()
    {
        std::uint64_t n = varint();
        if (!ok || n > static_cast<std::uint64_t>(e - p)) {
            ok = false;
            return {p, p};
        }
        Reader r{p, p + n};
        p += n;
        return r;
    }
    template<typename T>
    T fixed()
    {
        T v{};
        if (static_cast<std::size_t>(e - p) < sizeof(T)) {
            ok = false;
            return v;
        }
        std::memcpy(&v, p, sizeof(T));
        p += sizeof(T);
        return v;
    }
    void skip(unsigned wt)
    {
        if (wt == 0)
            varint();
        else if (wt == 1)
            fixed<std::uint64_t>();
        else if (wt == 2)
            sub();
        else if (wt == 5)
            fixed<std::uint32_t>();
        else
            ok = false;
    }
    unsigned tag()
    {
        auto t = varint();
        if (t == 0 || (t >> 3) == 0 || t > 0xffffffffu)
            ok = false;
        return static_cast<unsigned>(t);
    }
    std::string str() const { return std::string(reinterpret_cast<const char *>(p), static_cast<std::size_t>(e - p)); }
};

template<typename T>
struct Repeated : std::vector<T> {
    using std::vector<T>::vector;
    int size() const { return static_cast<int>(std::vector<T>::size()); }
};

template<typename T>
struct Values {
    static void one(Reader &r, unsigned, Repeated<T> &o) { o.push_back(r.template fixed<T>()); }
    static constexpr unsigned wt = sizeof(T) == 4 ? 5 : 1;
};
template<>
struct Values<std::int32_t> {
    static void one(Reader &r, unsigned, Repeated<std::int32_t> &o) { o.push_back(static_cast<std::int32_t>(r.varint())); }
    static constexpr unsigned wt = 0;
};
template<>
struct Values<std::uint64_t> {
    static void one(Reader &r, unsigned, Repeated<std::uint64_t> &o) { o.push_back(r.varint()); }
    static constexpr unsigned wt = 0;
};

template<typename T>
bool repeated(Reader &r, unsigned wt, Repeated<T> &o)
{
    if (wt == 2) {
        Reader s = r.sub();
        while (s.more())
            Values<T>::one(s, wt, o);
        if (!s.ok)
            r.ok = false;
        return true;
    }
    if (wt == Values<T>::wt) {
        Values<T>::one(r, wt, o);
        return true;
    }
    return false;
}

}  // namespace wire

template<typename T>
class Tensor_ {
public:
    const wire::Repeated<T> &values() const { return values_; }
    const wire::Repeated<std::uint64_t> &keys() const { return keys_; }
    const wire::Repeated<std::uint64_t> &shape() const { return shape_; }
    int values_size() const { return values_.size(); }
    int keys_size() const { return keys_.size(); }
    int shape_size() const { return shape_.size(); }
    void parse(wire::Reader &r)
    {
        while (r.more()) {
            unsigned t = r.tag();
            bool done = false;
            if (t >> 3 == 1)
                done = wire::repeated(r, t & 7, values_);
            else if (t >> 3 == 2)
                done = wire::repeated(r, t & 7, keys_);
            else if (t >> 3 == 3)
                done = wire::repeated(r, t & 7, shape_);
            if (!done)
                r.skip(t & 7);
        }
    }

private:
    wire::Repeated<T> values_;
    wire::Repeated<std::uint64_t> keys_, shape_;
};
using Float32Tensor = Tensor_<float>;
using Float64Tensor = Tensor_<double>;
using Int32Tensor = Tensor_<std::int32_t>;

class Bytes {};

class Value {
public:
    enum ValueCase { kFloat32Tensor = 2, kFloat64Tensor = 3, kInt32Tensor = 7, kBytes = 9, VALUE_NOT_SET = 0 };
    ValueCase value_case() const { return case_; }
    const Float32Tensor &float32_tensor() const { return f32_; }
    const Float64Tensor &float64_tensor() const { return f64_; }
    const Int32Tensor &int32_tensor() const { return i32_; }
    void parse(wire::Reader &r)
    {
        while (r.more()) {
            unsigned t = r.tag();
            unsigned f = t >> 3;
            if ((t & 7) == 2 && (f == 2 || f == 3 || f == 7 || f == 9)) {
                auto c = static_cast<ValueCase>(f);
                if (c != case_) {
                    f32_ = {};
                    f64_ = {};
                    i32_ = {};
                    case_ = c;
                }
                wire::Reader s = r.sub();
                if (f == 2)
                    f32_.parse(s);
                else if (f == 3)
                    f64_.parse(s);
                else if (f == 7)
                    i32_.parse(s);
                if (!s.ok)
                    r.ok = false;
            }
            else
                r.skip(t & 7);
        }
    }

private:
    ValueCase case_ = VALUE_NOT_SET;
    Float32Tensor f32_;
    Float64Tensor f64_;
    Int32Tensor i32_;
};

class Record {
public:
    const std::map<std::string, Value> &features() const { return features_; }
    const std::map<std::string, Value> &label() const { return label_; }
    bool ParseFromArray(const void *d, int n)
    {
        features_.clear();
        label_.clear();
        if (n < 0)
            return false;
        wire::Reader r{static_cast<const unsigned char *>(d), static_cast<const unsigned char *>(d) + n};
        while (r.more()) {
            unsigned t = r.tag();
            if ((t & 7) == 2 && (t >> 3 == 1 || t >> 3 == 2)) {
                wire::Reader s = r.sub();
                std::string k;
                Value v;
                while (s.more()) {
                    unsigned u = s.tag();
                    if (u == 10)
                        k = s.sub().str();
                    else if (u == 18) {
                        wire::Reader q = s.sub();
                        v.parse(q);
                        if (!q.ok)
                            s.ok = false;
                    }
                    else
                        s.skip(u & 7);
                }
                if (!s.ok)
                    r.ok = false;
                (t >> 3 == 1 ? features_ : label_)[k] = std::move(v);
            }
            else if ((t & 7) == 4)
                r.ok = false;
            else
                r.skip(t & 7);
        }
        return r.ok;
    }

private:
    std::map<std::string, Value> features_, label_;
};

}  // namespace data
}  // namespace aialgs
