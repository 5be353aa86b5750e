// the parts of thrust the library uses: executed as one device operation on the stream, the host waits for it
#pragma once
#include <algorithm>
#include <iterator>
#include <numeric>
#include <vector>
#include "../cuda_runtime.h"
namespace thrust {
template <class T>
struct device_reference {
  T* p;
  device_reference& operator=(const T& v) { simgpu::deviceWrite(p, &v, sizeof(T)); return *this; }
  operator T() const {
    typename std::remove_const<T>::type v;
    simgpu::deviceRead(&v, p, sizeof(T));
    return v;
  }
};
template <class T>
struct device_ptr {
  T* p = nullptr;
  device_ptr() = default;
  explicit device_ptr(T* q) : p(q) {}
  device_reference<T> operator*() const { return {p}; }
  device_ptr operator+(ptrdiff_t n) const { return device_ptr(p + n); }
  device_ptr operator-(ptrdiff_t n) const { return device_ptr(p - n); }
  ptrdiff_t operator-(device_ptr o) const { return p - o.p; }
  T* get() const { return p; }
};
template <class T> device_ptr<T> device_pointer_cast(T* p) { return device_ptr<T>(p); }
template <class T> device_ptr<T> device_pointer_cast(device_ptr<T> p) { return p; }
template <class T> T* raw_pointer_cast(device_ptr<T> p) { return p.p; }
template <class T>
struct counting_iterator {
  T v;
  explicit counting_iterator(T x = 0) : v(x) {}
  T at(ptrdiff_t i) const { return v + (T)i; }
  counting_iterator operator+(ptrdiff_t n) const { return counting_iterator(v + (T)n); }
  ptrdiff_t operator-(counting_iterator o) const { return v - o.v; }
};
template <class T> counting_iterator<T> make_counting_iterator(T x) { return counting_iterator<T>(x); }
template <class F, class I>
struct transform_iterator {
  I it;
  F f;
  decltype(auto) at(ptrdiff_t i) const { return f(it.at(i)); }
  transform_iterator operator+(ptrdiff_t n) const { return {it + n, f}; }
  ptrdiff_t operator-(const transform_iterator& o) const { return it - o.it; }
};
template <class I, class F> transform_iterator<F, I> make_transform_iterator(I it, F f) { return {it, f}; }
template <class E, class I>
struct permutation_iterator {
  E e;
  I it;
  permutation_iterator operator+(ptrdiff_t n) const { return {e, it + n}; }
  ptrdiff_t operator-(const permutation_iterator& o) const { return it - o.it; }
};
template <class E, class I> permutation_iterator<E, I> make_permutation_iterator(E e, I i) { return {e, i}; }
// element access inside a device operation
template <class T> T& elem(T* p, ptrdiff_t i) { return p[i]; }
template <class T> T& elem(device_ptr<T> p, ptrdiff_t i) { return p.p[i]; }
template <class T> T elem(const counting_iterator<T>& p, ptrdiff_t i) { return p.at(i); }
template <class F, class I> decltype(auto) elem(const transform_iterator<F, I>& p, ptrdiff_t i) { return p.f(elem(p.it, i)); }
template <class E, class I> decltype(auto) elem(const permutation_iterator<E, I>& p, ptrdiff_t i) { return elem(p.e, elem(p.it, i)); }
template <class I> using val_t = typename std::decay<decltype(elem(std::declval<I>(), 0))>::type;

template <class T = void> struct less { bool operator()(const T& a, const T& b) const { return a < b; } };
template <class T = void> struct greater { bool operator()(const T& a, const T& b) const { return a > b; } };
template <class T = void> struct plus { T operator()(const T& a, const T& b) const { return a + b; } };
namespace cuda {
struct par_t {
  cudaStream_t s = nullptr;
  par_t on(cudaStream_t x) const { return {x}; }
};
static constexpr par_t par{};
}  // namespace cuda
using policy = cuda::par_t;
template <class I, class O>
void copy(policy p, I a, I b, O o) {
  ptrdiff_t n = b - a;
  simgpu::runOnStream(p.s, [=] { for (ptrdiff_t i = 0; i < n; i++) elem(o, i) = elem(a, i); });
}
template <class I, class V>
void sequence(policy p, I a, I b, V v) {
  ptrdiff_t n = b - a;
  simgpu::runOnStream(p.s, [=] { for (ptrdiff_t i = 0; i < n; i++) elem(a, i) = val_t<I>(v) + val_t<I>(i); });
}
template <class I, class V>
void fill(policy p, I a, I b, V v) {
  ptrdiff_t n = b - a;
  simgpu::runOnStream(p.s, [=] { for (ptrdiff_t i = 0; i < n; i++) elem(a, i) = v; });
}
template <class I, class O, class F>
void transform(policy p, I a, I b, O o, F f) {
  ptrdiff_t n = b - a;
  simgpu::runOnStream(p.s, [=] { for (ptrdiff_t i = 0; i < n; i++) elem(o, i) = f(elem(a, i)); });
}
template <class I, class F>
void for_each_n(policy p, I a, ptrdiff_t n, F f) {
  simgpu::runOnStream(p.s, [=] { for (ptrdiff_t i = 0; i < n; i++) f(elem(a, i)); });
}
template <class I, class O>
void inclusive_scan(policy p, I a, I b, O o) {
  ptrdiff_t n = b - a;
  simgpu::runOnStream(p.s, [=] {
    if (n <= 0) return;
    val_t<I> s = elem(a, 0);
    elem(o, 0) = s;
    for (ptrdiff_t i = 1; i < n; i++) {
      s = s + elem(a, i);
      elem(o, i) = s;
    }
  });
}
template <class I, class J, class T>
T inner_product(policy p, I a, I b, J c, T init) {
  ptrdiff_t n = b - a;
  T r = init;
  T* rp = &r;
  simgpu::runOnStream(p.s, [=] { for (ptrdiff_t i = 0; i < n; i++) *rp = *rp + elem(a, i) * elem(c, i); });
  return r;
}
template <class I, class J, class C>
void sortImpl(policy p, I a, I b, J v, C cmp, bool stable) {
  ptrdiff_t n = b - a;
  simgpu::runOnStream(p.s, [=] {
    std::vector<val_t<I>> k(n);
    std::vector<val_t<J>> w(n);
    std::vector<ptrdiff_t> o(n);
    for (ptrdiff_t i = 0; i < n; i++) k[i] = elem(a, i), w[i] = elem(v, i), o[i] = i;
    // an unstable sort may leave equal keys in any order
    if (!stable) std::reverse(o.begin(), o.end());
    std::stable_sort(o.begin(), o.end(), [&](ptrdiff_t x, ptrdiff_t y) { return cmp(k[x], k[y]); });
    for (ptrdiff_t i = 0; i < n; i++) elem(a, i) = k[o[i]], elem(v, i) = w[o[i]];
  });
}
template <class I, class J, class C> void sort_by_key(policy p, I a, I b, J v, C c) { sortImpl(p, a, b, v, c, false); }
template <class I, class J, class C> void stable_sort_by_key(policy p, I a, I b, J v, C c) { sortImpl(p, a, b, v, c, true); }
// without a policy: default stream
template <class I, class O> void copy(I a, I b, O o) { copy(policy{}, a, b, o); }
template <class I, class O> void inclusive_scan(I a, I b, O o) { inclusive_scan(policy{}, a, b, o); }
}  // namespace thrust
