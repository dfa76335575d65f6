#pragma once
#include "engine.hpp"
#include <algorithm>
#include <cmath>
#include <limits>
#include <utility>
#include <type_traits>
namespace ref {
using std::size_t;
using sim::wide;
template<class T> struct WT { using w = unsigned long long; using u = std::make_unsigned_t<T>; };
template<> struct WT<float> { using w = float; using u = float; };
template<> struct WT<double> { using w = double; using u = double; };
template<class A, class B> auto P2(A a, B b) { return std::pair<std::decay_t<A>, std::decay_t<B>>{a, b}; }
struct RefReg { int op; sim::RefFn f; };
struct RefInit { RefInit(sim::Ty t, const RefReg *r, size_t n) { for (size_t i = 0; i < n; ++i) sim::ref_fn[t][r[i].op] = r[i].f; } };
}
