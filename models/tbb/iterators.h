// oneTBB 2021 dropped <tbb/iterators.h> of TBB 2018-2020. These are the
// two iterators that /repo uses, with the same interface.
#pragma once

#include <cstddef>
#include <iterator>
#include <tuple>
#include <utility>

namespace tbb {

template<typename T>
class counting_iterator {
public:
    using difference_type = std::ptrdiff_t;
    using value_type = T;
    using pointer = const T *;
    using reference = const T &;
    using iterator_category = std::random_access_iterator_tag;

    counting_iterator() = default;

    explicit counting_iterator(T v) : v_{v} {}

    reference operator*() const { return v_; }
    value_type operator[](difference_type n) const { return *(*this + n); }

    counting_iterator &operator+=(difference_type n)
    {
        v_ = static_cast<T>(static_cast<difference_type>(v_) + n);
        return *this;
    }
    counting_iterator &operator-=(difference_type n) { return *this += -n; }
    counting_iterator &operator++() { return *this += 1; }
    counting_iterator &operator--() { return *this -= 1; }
    counting_iterator operator++(int) { auto r = *this; ++*this; return r; }
    counting_iterator operator--(int) { auto r = *this; --*this; return r; }

    friend counting_iterator operator+(counting_iterator i, difference_type n) { return i += n; }
    friend counting_iterator operator+(difference_type n, counting_iterator i) { return i += n; }
    friend counting_iterator operator-(counting_iterator i, difference_type n) { return i -= n; }
    friend difference_type operator-(const counting_iterator &a, const counting_iterator &b)
    {
        return static_cast<difference_type>(a.v_) - static_cast<difference_type>(b.v_);
    }

    friend bool operator==(const counting_iterator &a, const counting_iterator &b) { return a.v_ == b.v_; }
    friend bool operator!=(const counting_iterator &a, const counting_iterator &b) { return !(a == b); }
    friend bool operator<(const counting_iterator &a, const counting_iterator &b) { return a.v_ < b.v_; }
    friend bool operator>(const counting_iterator &a, const counting_iterator &b) { return b < a; }
    friend bool operator<=(const counting_iterator &a, const counting_iterator &b) { return !(b < a); }
    friend bool operator>=(const counting_iterator &a, const counting_iterator &b) { return !(a < b); }

private:
    T v_{};
};

// Two zip iterators are compared, and subtracted, by their first
// components.
template<typename... Its>
class zip_iterator {
public:
    using difference_type = std::ptrdiff_t;
    using value_type = std::tuple<typename std::iterator_traits<Its>::value_type...>;
    using reference = std::tuple<typename std::iterator_traits<Its>::reference...>;
    using pointer = std::tuple<typename std::iterator_traits<Its>::pointer...>;
    using iterator_category = std::random_access_iterator_tag;

    zip_iterator() = default;

    explicit zip_iterator(Its... its) : its_{its...} {}

    reference operator*() const
    {
        return std::apply([](auto &...i) { return reference(*i...); }, its_);
    }
    reference operator[](difference_type n) const { return *(*this + n); }

    zip_iterator &operator+=(difference_type n)
    {
        std::apply([n](auto &...i) { ((i += n), ...); }, its_);
        return *this;
    }
    zip_iterator &operator-=(difference_type n) { return *this += -n; }
    zip_iterator &operator++() { return *this += 1; }
    zip_iterator &operator--() { return *this -= 1; }
    zip_iterator operator++(int) { auto r = *this; ++*this; return r; }
    zip_iterator operator--(int) { auto r = *this; --*this; return r; }

    friend zip_iterator operator+(zip_iterator i, difference_type n) { return i += n; }
    friend zip_iterator operator+(difference_type n, zip_iterator i) { return i += n; }
    friend zip_iterator operator-(zip_iterator i, difference_type n) { return i -= n; }
    friend difference_type operator-(const zip_iterator &a, const zip_iterator &b)
    {
        return std::get<0>(a.its_) - std::get<0>(b.its_);
    }

    friend bool operator==(const zip_iterator &a, const zip_iterator &b) { return a - b == 0; }
    friend bool operator!=(const zip_iterator &a, const zip_iterator &b) { return a - b != 0; }
    friend bool operator<(const zip_iterator &a, const zip_iterator &b) { return a - b < 0; }
    friend bool operator>(const zip_iterator &a, const zip_iterator &b) { return b < a; }
    friend bool operator<=(const zip_iterator &a, const zip_iterator &b) { return !(b < a); }
    friend bool operator>=(const zip_iterator &a, const zip_iterator &b) { return !(a < b); }

private:
    std::tuple<Its...> its_{};
};

template<typename... Its>
zip_iterator<Its...> make_zip_iterator(Its... its)
{
    return zip_iterator<Its...>{its...};
}

}  // namespace tbb
