#pragma once
#include <algorithm>
#include <iterator>
#include <numeric>
namespace absl {
template <class C, class T> void c_fill(C& c, const T& v) { std::fill(std::begin(c), std::end(c), v); }
template <class C, class N, class T> auto c_fill_n(C& c, N n, const T& v) { return std::fill_n(std::begin(c), n, v); }
template <class C, class O> O c_copy(const C& c, O o) { return std::copy(std::begin(c), std::end(c), o); }
template <class C> void c_sort(C& c) { std::sort(std::begin(c), std::end(c)); }
template <class C, class P> bool c_all_of(const C& c, P p) { return std::all_of(std::begin(c), std::end(c), p); }
template <class C, class P> bool c_any_of(const C& c, P p) { return std::any_of(std::begin(c), std::end(c), p); }
template <class C, class P> bool c_none_of(const C& c, P p) { return std::none_of(std::begin(c), std::end(c), p); }
template <class C, class T> auto c_find(C& c, const T& v) { return std::find(std::begin(c), std::end(c), v); }
template <class C, class P> auto c_find_if(C& c, P p) { return std::find_if(std::begin(c), std::end(c), p); }
template <class C> auto c_max_element(C& c) { return std::max_element(std::begin(c), std::end(c)); }
template <class C> auto c_min_element(C& c) { return std::min_element(std::begin(c), std::end(c)); }
template <class C, class T> auto c_accumulate(const C& c, T t) { return std::accumulate(std::begin(c), std::end(c), t); }
template <class C, class O, class F> O c_transform(const C& c, O o, F f) { return std::transform(std::begin(c), std::end(c), o, f); }
template <class C, class F> F c_for_each(C&& c, F f) { return std::for_each(std::begin(c), std::end(c), f); }
template <class A, class B> bool c_equal(const A& a, const B& b) { return std::equal(std::begin(a), std::end(a), std::begin(b), std::end(b)); }
template <class C, class T> auto c_count(const C& c, const T& v) { return std::count(std::begin(c), std::end(c), v); }
template <class C, class P> auto c_count_if(const C& c, P p) { return std::count_if(std::begin(c), std::end(c), p); }
template <class C, class T> void c_iota(C& c, T v) { std::iota(std::begin(c), std::end(c), v); }
template <class C> void c_reverse(C& c) { std::reverse(std::begin(c), std::end(c)); }
template <class A, class B, class T> T c_inner_product(const A& a, const B& b, T t) { return std::inner_product(std::begin(a), std::end(a), std::begin(b), t); }
}
