#pragma once
#include <algorithm>
#include <cstddef>
#include <iterator>
#include <memory>
#include <tuple>
#include <utility>
#include <vector>

namespace ade { namespace util {

// indexed(range): elements paired with their position
template <class T> struct IndexedValue { size_t i; T v; };

template <class It> struct IndexedIter {
    It it; size_t i;
    using R = decltype(*std::declval<It&>());
    IndexedValue<R> operator*() const { return IndexedValue<R>{i, *it}; }
    IndexedIter& operator++() { ++it; ++i; return *this; }
    bool operator!=(const IndexedIter& o) const { return it != o.it; }
    bool operator==(const IndexedIter& o) const { return !(it != o.it); }
};
template <class C> struct IndexedRange {
    C c;   // reference for lvalues, owned for rvalues
    auto begin() { using std::begin; return IndexedIter<decltype(begin(c))>{begin(c), 0}; }
    auto end()   { using std::end; using std::begin; return IndexedIter<decltype(begin(c))>{end(c), 0}; }
};
template <class C> IndexedRange<C> indexed(C&& c) { return IndexedRange<C>{std::forward<C>(c)}; }
template <class T> size_t index(const IndexedValue<T>& x) { return x.i; }
template <class T> T&& value(const IndexedValue<T>& x) { return static_cast<T&&>(const_cast<IndexedValue<T>&>(x).v); }
template <class T> T& value(IndexedValue<T&>& x) { return x.v; }

// filter(range, pred): the elements satisfying pred (materialised)
template <class C, class P>
auto filter(C&& c, P p) {
    using std::begin; using std::end;
    using V = std::decay_t<decltype(*begin(c))>;
    std::vector<V> r;
    for (auto&& x : c) if (p(x)) r.push_back(x);
    return r;
}
template <class P, class C> auto filter(C&& c) { return filter(std::forward<C>(c), P{}); }
template <class C, class P>
auto map(C&& c, P p) {
    using V = std::decay_t<decltype(p(*std::begin(c)))>;
    std::vector<V> r;
    for (auto&& x : c) r.push_back(p(x));
    return r;
}

template <class A, class B> struct ZipRange {
    A a; B b;
    struct Iter {
        decltype(std::begin(std::declval<A&>())) i; decltype(std::begin(std::declval<B&>())) j;
        auto operator*() const { return std::tuple<decltype(*i), decltype(*j)>(*i, *j); }
        Iter& operator++() { ++i; ++j; return *this; }
        bool operator!=(const Iter& o) const { return i != o.i && j != o.j; }
    };
    Iter begin() { return {std::begin(a), std::begin(b)}; }
    Iter end()   { return {std::end(a), std::end(b)}; }
};
template <class A, class B> ZipRange<A, B> zip(A&& a, B&& b) { return {std::forward<A>(a), std::forward<B>(b)}; }

template <class It> struct Range { It b, e; It begin() const { return b; } It end() const { return e; } bool empty() const { return b == e; } };
template <class C> auto toRange(C& c) { return Range<decltype(std::begin(c))>{std::begin(c), std::end(c)}; }
inline std::vector<size_t> iota(size_t n) { std::vector<size_t> r(n); for (size_t i = 0; i < n; ++i) r[i] = i; return r; }

template <class C, class O, class F> auto transform(C&& c, O o, F f) { return std::transform(std::begin(c), std::end(c), o, f); }
template <class C, class F> void for_each(C&& c, F f) { std::for_each(std::begin(c), std::end(c), f); }
template <class C, class F> bool any_of(C&& c, F f) { return std::any_of(std::begin(c), std::end(c), f); }
template <class C, class F> bool all_of(C&& c, F f) { return std::all_of(std::begin(c), std::end(c), f); }
template <class C, class F> bool none_of(C&& c, F f) { return std::none_of(std::begin(c), std::end(c), f); }
template <class C, class F> auto find_if(C&& c, F f) { return std::find_if(std::begin(c), std::end(c), f); }
template <class C, class V> auto find(C&& c, const V& v) { return std::find(std::begin(c), std::end(c), v); }
template <class C, class V> bool contains(C&& c, const V& v) { return std::find(std::begin(c), std::end(c), v) != std::end(c); }
template <class C, class O> auto copy(C&& c, O o) { return std::copy(std::begin(c), std::end(c), o); }
template <class C, class O, class F> auto copy_if(C&& c, O o, F f) { return std::copy_if(std::begin(c), std::end(c), o, f); }
template <class C> auto max_element(C&& c) { return std::max_element(std::begin(c), std::end(c)); }
template <class T, class S> T checked_cast(S s) { return static_cast<T>(s); }

}} // namespace ade::util
