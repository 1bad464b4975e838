#pragma once
#include <ade/graph.hpp>
namespace ade { namespace util {
template <class V> struct Indexed { size_t i; V v; };
template <class R> auto indexed(R&& r) { std::vector<Indexed<std::decay_t<decltype(*std::begin(r))>>> o; size_t i = 0; for (auto&& v : r) o.push_back({i++, v}); return o; }
template <class V> size_t index(const Indexed<V>& x) { return x.i; }
template <class V> V& value(Indexed<V>& x) { return x.v; }
template <class V> const V& value(const Indexed<V>& x) { return x.v; }
template <class R, class P> auto filter(R&& r, P p) { std::vector<std::decay_t<decltype(*std::begin(r))>> o; for (auto&& v : r) if (p(v)) o.push_back(v); return o; }
template <class R, class O, class F> O transform(R&& r, O o, F f) { for (auto&& v : r) *o++ = f(v); return o; }
}}
