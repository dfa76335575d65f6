// Included by every generated unit: wraps real library operations as opaque calls on object representations.
#pragma once
#include <dpm/simd.hpp>
#include <dpm/math.hpp>
#include <cmath>
#include <utility>
#include <functional>
#include "table.hpp"
namespace wrap {
using std::size_t;
using namespace sim;
// the object representation of a simd value lives in 64-byte aligned simulated registers
template<class X> inline X ld(const void *p) { return *static_cast<const X *>(p); }
template<class X> inline void st(void *p, const X &x) { *static_cast<X *>(p) = x; }
template<class V> void v_to(const void *raw, void *lanes) {
	using T = typename V::value_type; const V v = ld<V>(raw); T *l = static_cast<T *>(lanes);
	for (size_t i = 0; i < V::size(); ++i) l[i] = static_cast<T>(v[i]);
}
template<class V> void v_from(const void *lanes, void *raw) {
	using T = typename V::value_type; const T *l = static_cast<const T *>(lanes);
	st(raw, V([l](auto i) { return l[static_cast<size_t>(i)]; }));
}
template<class M> void m_to(const void *raw, void *lanes) {
	const M v = ld<M>(raw); auto *l = static_cast<unsigned char *>(lanes);
	for (size_t i = 0; i < M::size(); ++i) l[i] = static_cast<bool>(v[i]);
}
template<class M> void m_from(const void *lanes, void *raw) {
	auto *l = static_cast<const unsigned char *>(lanes);
	st(raw, M([l](auto i) { return l[static_cast<size_t>(i)] != 0; }));
}
template<class ABI, class X> inline dpm::simd<double, ABI> wided(const X &x) {
	double l[X::size()]; for (size_t i = 0; i < X::size(); ++i) l[i] = wide(static_cast<double>(static_cast<typename X::value_type>(x[i])));
	return dpm::simd<double, ABI>([&l](auto i) { return l[static_cast<size_t>(i)]; });
}
template<class R> struct io_of;
template<class T, class A> struct io_of<dpm::simd<T, A>> {
	using V = dpm::simd<T, A>;
	static IO get() { return {int(sizeof(V)), ty_of<T>::v, int(V::size()), &v_to<V>, &v_from<V>}; }
};
template<class T, class A> struct io_of<dpm::simd_mask<T, A>> {
	using V = dpm::simd_mask<T, A>;
	static IO get() { return {int(sizeof(V)), tb, int(V::size()), &m_to<V>, &m_from<V>}; }
};
template<class S> struct io_sc {
	static void cp(const void *a, void *b) { std::memcpy(b, a, sizeof(S)); }
	static IO get() { return {int(sizeof(S)), std::is_same_v<S, size_t> ? tz : ty_of<S>::v, 1, &cp, &cp}; }
};
template<> struct io_of<bool> : io_sc<bool> {};
template<> struct io_of<size_t> : io_sc<size_t> {};
template<class S> struct io_s : io_sc<S> {};
template<class T, size_t N, class ABI> const Shape *shape();   // defined in the shapes unit
struct RegE { RegE(EntryNode *n) { n->next = entries; entries = n; } };
}
