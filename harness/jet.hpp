// Second-order forward automatic differentiation in long double: the oracle for the closed-form derivatives.
#pragma once
#include <array>
#include <cmath>

namespace ad {

template<int N>
struct Jet {
    long double v = 0;
    std::array<long double, N> g{};
    std::array<long double, N * N> h{};
    Jet() {}
    Jet(long double c) : v(c) {}
    static Jet var(long double c, int i) { Jet j(c); j.g[i] = 1; return j; }
};
template<int N> Jet<N> operator+(const Jet<N>& a, const Jet<N>& b) {
    Jet<N> r; r.v = a.v + b.v;
    for (int i = 0; i < N; ++i) r.g[i] = a.g[i] + b.g[i];
    for (int i = 0; i < N * N; ++i) r.h[i] = a.h[i] + b.h[i];
    return r;
}
template<int N> Jet<N> operator-(const Jet<N>& a, const Jet<N>& b) {
    Jet<N> r; r.v = a.v - b.v;
    for (int i = 0; i < N; ++i) r.g[i] = a.g[i] - b.g[i];
    for (int i = 0; i < N * N; ++i) r.h[i] = a.h[i] - b.h[i];
    return r;
}
template<int N> Jet<N> operator*(const Jet<N>& a, const Jet<N>& b) {
    Jet<N> r; r.v = a.v * b.v;
    for (int i = 0; i < N; ++i) r.g[i] = a.g[i] * b.v + a.v * b.g[i];
    for (int i = 0; i < N; ++i)
        for (int j = 0; j < N; ++j) r.h[i * N + j] = a.h[i * N + j] * b.v + a.v * b.h[i * N + j] + a.g[i] * b.g[j] + a.g[j] * b.g[i];
    return r;
}
// f(a) given f, f', f''
template<int N> Jet<N> chain(const Jet<N>& a, long double f, long double f1, long double f2) {
    Jet<N> r; r.v = f;
    for (int i = 0; i < N; ++i) r.g[i] = f1 * a.g[i];
    for (int i = 0; i < N; ++i)
        for (int j = 0; j < N; ++j) r.h[i * N + j] = f1 * a.h[i * N + j] + f2 * a.g[i] * a.g[j];
    return r;
}
// sum_k c_k s^k with c_k = (-1)^k / (2k + off)!   (off = 1: sin(a)/a, off = 2: (1 - cos a)/a^2, s = a^2); entire functions,
// and s <= pi^2 here, so 30 terms reach long double precision with mild cancellation.
inline void series(long double s, int off, long double& f, long double& f1, long double& f2) {
    f = f1 = f2 = 0;
    long double c = off == 1 ? 1.0L : 0.5L;
    long double pk = 1, pk1 = 0, pk2 = 0;  // s^k, k s^(k-1), k(k-1) s^(k-2)
    for (int k = 0; k < 32; ++k) {
        f += c * pk; f1 += c * pk1; f2 += c * pk2;
        pk2 = pk2 * s + 2 * pk1;
        pk1 = pk1 * s + pk;
        pk = pk * s;
        c = -c / ((2 * k + off + 1) * (long double)(2 * k + off + 2));
    }
}
template<int N> Jet<N> sinc(const Jet<N>& s) { long double f, f1, f2; series(s.v, 1, f, f1, f2); return chain(s, f, f1, f2); }
template<int N> Jet<N> cosc(const Jet<N>& s) { long double f, f1, f2; series(s.v, 2, f, f1, f2); return chain(s, f, f1, f2); }

}
