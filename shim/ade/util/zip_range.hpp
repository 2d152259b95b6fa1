#pragma once
#include <algorithm>
#include <iterator>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>

namespace ade {
namespace util {

// indexed(range): pairs of (index, value); the range is held by reference when it is an lvalue.
template <typename V>
struct IndexedItem {
    size_t i;
    V v;
};
template <typename V> size_t index(const IndexedItem<V>& it) { return it.i; }
template <typename V> V& value(IndexedItem<V&>& it) { return it.v; }
template <typename V> V& value(const IndexedItem<V&>& it) { return it.v; }
template <typename V> const V& value(const IndexedItem<V>& it) { return it.v; }

template <typename R>
class IndexedRange {
public:
    using It = decltype(std::begin(std::declval<typename std::remove_reference<R>::type&>()));
    explicit IndexedRange(R&& r) : m_r(std::forward<R>(r)) {}
    struct iterator {
        size_t i;
        It it;
        using reference = IndexedItem<decltype(*std::declval<It&>())>;
        reference operator*() { return reference{i, *it}; }
        iterator& operator++() { ++i; ++it; return *this; }
        bool operator!=(const iterator& o) const { return it != o.it; }
        bool operator==(const iterator& o) const { return !(it != o.it); }
    };
    iterator begin() { return iterator{0, std::begin(m_r)}; }
    iterator end() { return iterator{0, std::end(m_r)}; }
private:
    R m_r;
};
template <typename R>
IndexedRange<R> indexed(R&& r) { return IndexedRange<R>(std::forward<R>(r)); }

// filter(range, pred)
template <typename R, typename P>
class FilterRange {
public:
    using It = decltype(std::begin(std::declval<typename std::remove_reference<R>::type&>()));
    FilterRange(R&& r, P p) : m_r(std::forward<R>(r)), m_p(std::move(p)) {}
    struct iterator {
        It it, last;
        P* p;
        void skip() { while (it != last && !(*p)(*it)) ++it; }
        decltype(auto) operator*() { return *it; }
        iterator& operator++() { ++it; skip(); return *this; }
        bool operator!=(const iterator& o) const { return it != o.it; }
        bool operator==(const iterator& o) const { return !(it != o.it); }
    };
    iterator begin() { iterator i{std::begin(m_r), std::end(m_r), &m_p}; i.skip(); return i; }
    iterator end() { return iterator{std::end(m_r), std::end(m_r), &m_p}; }
private:
    R m_r;
    P m_p;
};
template <typename R, typename P>
FilterRange<R, P> filter(R&& r, P p) { return FilterRange<R, P>(std::forward<R>(r), std::move(p)); }
template <typename P, typename R>
FilterRange<R, P> filter(R&& r) { return FilterRange<R, P>(std::forward<R>(r), P{}); }

template <typename R, typename O, typename F>
void transform(R&& r, O out, F f) { std::transform(std::begin(r), std::end(r), out, f); }
template <typename R, typename P>
bool any_of(R&& r, P p) { return std::any_of(std::begin(r), std::end(r), p); }
template <typename R, typename P>
bool all_of(R&& r, P p) { return std::all_of(std::begin(r), std::end(r), p); }
template <typename R, typename P>
auto find_if(R&& r, P p) { return std::find_if(std::begin(r), std::end(r), p); }
template <typename R, typename V>
auto find(R&& r, const V& v) { return std::find(std::begin(r), std::end(r), v); }
template <typename R, typename V>
bool contains(R&& r, const V& v) { return std::find(std::begin(r), std::end(r), v) != std::end(r); }

inline std::vector<size_t> iota(size_t n) {
    std::vector<size_t> r(n);
    for (size_t i = 0; i < n; ++i) r[i] = i;
    return r;
}
template <typename A, typename B>
auto zip(A&& a, B&& b) {
    using VA = typename std::decay<decltype(*std::begin(a))>::type;
    using VB = typename std::decay<decltype(*std::begin(b))>::type;
    std::vector<std::tuple<VA, VB>> r;
    auto ia = std::begin(a);
    auto ib = std::begin(b);
    for (; ia != std::end(a) && ib != std::end(b); ++ia, ++ib) r.emplace_back(*ia, *ib);
    return r;
}
template <typename R>
std::vector<typename std::decay<decltype(*std::begin(std::declval<R&>()))>::type> toRange(R&& r) {
    return {std::begin(r), std::end(r)};
}

} // namespace util
} // namespace ade
