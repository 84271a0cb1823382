// Instantiates computations of std::experimental::simd for element type TT.
#include <experimental/simd>
#include <cmath>
#include <cstring>
#include <limits>
#include <tuple>
#include "ops_calc.h"
namespace stdx = std::experimental;
#include "maskmaker.h"
#ifndef ISA
#define ISA "?"
#endif
namespace {
inline uint64_t rnd(uint64_t seed, unsigned i) { return sim::mix(sim::mix(seed, i * 0x9e37 + 1), 0x1234567); }
template <class X> constexpr int cmpsize() { return std::is_same_v<X, long double> ? 10 : int(sizeof(X)); }

// ---------------------------------------------------------------- lane values
template <class A> A gen(uint64_t seed, unsigned i, int vc, int operand) {
  uint64_t r = rnd(seed, i);
  if constexpr (std::is_integral_v<A>) {
    using L = std::numeric_limits<A>;
    constexpr int bits = sizeof(A) * 8;
    switch (vc) {
      case VC_SHIFT: if (operand == 1) return A(r % L::digits); break;
      case VC_DIV:
        if (operand == 1) {
          A x = (r & 3) == 0 ? A(1 + (r >> 8) % 7) : (r & 3) == 1 ? A(r >> (8 + (r >> 3) % bits)) : A(r >> 8);
          if (x == 0) x = 3; if (std::is_signed_v<A> && x == A(-1)) x = A(-5); return x; }
        break;
      case VC_ARITH: if (std::is_signed_v<A>) { constexpr int h = L::digits / 2; return A(int64_t(r >> 5) % (int64_t(1) << (h > 1 ? h - 1 : 1))) * A((r & 1) ? -1 : 1); } break;
      case VC_CVT: case VC_MATH: case VC_BENIGN: return A(1 + (r >> 5) % 100);
      case VC_SMALL: return A((r >> 5) % 3 == 0 ? 1 : 2 * ((r >> 9) % 2)); // sums and products of up to 64 lanes fit (0, 1, 2)
      case VC_ORD: return A(r >> 3);
      case VC_CB: return sizeof(A) == 1 ? A(2) : A(2 + 2 * ((r >> 5) % 200)); // no (partial) sum of lanes is 0 or odd
    }
    if ((r & 7) == 0) { A e[] = {L::max(), L::min(), A(0), A(-1), A(1), A(A(1) << (bits - 1))}; return e[(r >> 8) % 6]; }
    if ((r & 7) == 1) return A(int((r >> 8) % 201) - 100);
    return A(r >> 3);
  } else {
    using L = std::numeric_limits<A>;
    long double m = (long double)(r >> 20) / (long double)(1ull << 44); // [0,1)
    A s = r & 16 ? A(-1) : A(1);
    switch (vc) {
      case VC_BENIGN: return A(1 + m);
      case VC_CVT: return s * A((r & 32) ? m * 100 : std::floor(m * 100) + ((r & 64) ? 0.5L : 0.0L));
      case VC_CB: return A(2 * (1 + (r >> 40) % 1000));
      case VC_ORD: return (r & 15) == 0 ? s * L::infinity() : (r & 15) == 1 ? s * L::max() : s * A(1 + m) * A(1 + int((r >> 8) % 999)); // no NaN, no zero
      case VC_MATH:
        if (r & 7) return s * A((r & 32) ? m * 2 : (r & 64) ? m * 30 : m * 1e-3L);
        break;
      case VC_ARITH: case VC_DIV:
        if ((r & 7) > 1) return s * A(std::ldexp(1 + m, int((r >> 8) % 24) - 12));
        break;
    }
    switch (r & 15) {
      case 0: return s * A(0); case 1: return s * L::infinity(); case 2: return L::quiet_NaN(); case 3: return s * L::denorm_min() * A(1 + (r >> 50));
      case 4: return s * L::max(); case 5: return s * L::min(); case 6: case 7: return s * A(int((r >> 8) % 4000)) / 2;
    }
    return s * A(std::ldexp(1 + m, L::min_exponent + int((r >> 8) % unsigned(L::max_exponent - L::min_exponent - 2))));
  }
}
template <class A> A padv(uint32_t p) {
  using L = std::numeric_limits<A>;
  switch (p % 6) {
    case 1: return A(1); case 2: return A(-1);
    case 3: return std::is_integral_v<A> ? L::max() : L::quiet_NaN();
    case 4: return std::is_integral_v<A> ? L::min() : -L::infinity();
    case 5: return std::is_integral_v<A> ? A(3) : L::max();
  }
  return A(0);
}
// ---------------------------------------------------------------- lane images
template <class X> X canon(X x) { if constexpr (std::is_floating_point_v<X>) { if (x != x) return std::numeric_limits<X>::quiet_NaN(); } return x; }
template <class X> int put(uint8_t* b, X x) { x = canon(x); std::memset(b, 0, sizeof(X)); std::memcpy(b, &x, cmpsize<X>()); return sizeof(X); }
template <class R> struct Ser { static int f(const R& r, uint8_t* b) { return put<R>(b, r); } using lane = R; };
template <> struct Ser<bool> { static int f(bool r, uint8_t* b) { *b = r; return 1; } using lane = bool; };
template <class T, class A> struct Ser<stdx::simd<T, A>> { using lane = T;
  [[gnu::noinline]] static int f(const stdx::simd<T, A>& r, uint8_t* b) { for (unsigned i = 0; i < r.size(); ++i) put<T>(b + i * sizeof(T), T(r[i])); return r.size() * sizeof(T); } };
template <class T, class A> struct Ser<stdx::simd_mask<T, A>> { using lane = bool;
  [[gnu::noinline]] static int f(const stdx::simd_mask<T, A>& r, uint8_t* b) { for (unsigned i = 0; i < r.size(); ++i) b[i] = bool(r[i]); return r.size(); } };
template <class X, class Y> struct Ser<std::pair<X, Y>> { using lane = typename Ser<X>::lane;
  static int f(const std::pair<X, Y>& r, uint8_t* b) { int n = Ser<X>::f(r.first, b); return n + Ser<Y>::f(r.second, b + n); } };
template <class... X> struct Ser<std::tuple<X...>> { using lane = void;
  static int f(const std::tuple<X...>& r, uint8_t* b) { int n = 0; std::apply([&](const auto&... x) { ((n += Ser<std::decay_t<decltype(x)>>::f(x, b + n)), ...); }, r); return n; } };
template <class X, size_t N> struct Ser<std::array<X, N>> { using lane = typename Ser<X>::lane;
  static int f(const std::array<X, N>& r, uint8_t* b) { int n = 0; for (auto& x : r) n += Ser<X>::f(x, b + n); return n; } };

// ---------------------------------------------------------------- operations
#define OP(nm, ...) struct nm { template <class V, class M> [[gnu::always_inline]] static auto f([[maybe_unused]] const V& a, [[maybe_unused]] const V& b, [[maybe_unused]] const V& c, [[maybe_unused]] const M& k, [[maybe_unused]] const M& k2) { __VA_ARGS__; } };
// scalar overloads used by references
using std::min; using std::max;
template <class V> constexpr bool isv = stdx::is_simd_v<V>;
template <class V> constexpr bool is_fixed = false;
template <class T, int N> constexpr bool is_fixed<stdx::fixed_size_simd<T, N>> = true;
#if GROUP == 1
OP(neg, return -a) OP(plus1, return +a) OP(preinc, V x = a; ++x; return x) OP(postdec, V x = a; x--; return x)
OP(add, return a + b) OP(sub, return a - b) OP(mul, return a * b) OP(div_, return a / b) OP(axpy, return a * b + c) OP(addeq, V x = a; x += b; x *= c; return x)
OP(divs, return a / b[0]) OP(sdiv, return typename V::value_type(7) / b) OP(muls, return a * b[0])
OP(rem, return a % b) OP(divrem, return std::pair<V, V>(a / b, a % b)) OP(and_, return a & b) OP(or_, return a | b) OP(xor_, return a ^ b) OP(not_, return ~a)
OP(shl, return a << b) OP(shr, return a >> b) OP(shls, return a << int(b[0])) OP(shrs, return a >> int(b[0]))
OP(eq, return a == b) OP(ne, return a != b) OP(lt, return a < b) OP(le, return a <= b) OP(gt, return a > b) OP(ge, return a >= b) OP(lnot, return !a)
OP(min_, using stdx::min; return min(a, b)) OP(max_, using stdx::max; return max(a, b)) OP(minmax_, return stdx::minmax(a, b)) OP(clamp_, return stdx::clamp(a, stdx::min(b, c), stdx::max(b, c)))
OP(abs_, return abs(a)) OP(bcast, V x = b[V::size() - 1]; return x) OP(copy, V x = a; x = b; return x)
OP(setlane, V x = a; for (unsigned i = 0; i < V::size(); i += 2) x[i] = b[i]; return x)
OP(predec, V x = a; --x; V y = x++; return std::make_pair(x, y)) OP(genl, if constexpr (isv<V>) return V([&](auto i) { return a[i]; }); else return a)
OP(compound, V x = a; x -= b; x *= c; return x) OP(compound_i, V x = a; x &= b; x |= c; x ^= a; return x) OP(compound_s, V x = a; x <<= b; x >>= b; return x) OP(compound_d, V x = a; x /= b; return x) OP(compound_r, V x = a; x %= b; return x)
OP(minmax3, return stdx::min(stdx::max(a, b), c)) OP(scal, return std::make_pair(typename V::value_type(3) + a, a - typename V::value_type(3)))
OP(k_div, return a / typename V::value_type(7)) OP(k_rem, return a % V(7)) OP(k_mulsub, return a * typename V::value_type(3) - V(5)) OP(k_shift, return (a << 3) >> 2) OP(k_bits, return (a & typename V::value_type(0x55)) | V(8)) OP(k_cmp, return (a < typename V::value_type(3)) != (b > V(7))) OP(k_where, V x = a; where(x > typename V::value_type(3), x) = typename V::value_type(5); return x) OP(k_quot, return V(100) / b)
OP(k_mask, M x = k; where(M(true), x) = k2; return x && !M(false))  OP(k_blend, V x = a; where(k, x) = V(1); return x)
// through references to elements
#define OPE(nm, se, sx) struct nm { template <class V, class M> [[gnu::always_inline]] static auto f([[maybe_unused]] const V& a, [[maybe_unused]] const V& b, [[maybe_unused]] const V& c, const M&, const M&) { \
  if constexpr (isv<V>) { using T = typename V::value_type; V x = a; for (unsigned i = 0; i < V::size(); ++i) { [[maybe_unused]] const T y = b[i]; se; } return x; } else return static_cast<V>(sx); } };
OPE(el_add, x[i] += y, a + b) OPE(el_sub, x[i] -= y, a - b) OPE(el_mul, x[i] *= y, a * b) OPE(el_div, x[i] /= y, a / b) OPE(el_rem, x[i] %= y, a % b) OPE(el_and, x[i] &= y, a & b) OPE(el_or, x[i] |= y, a | b) OPE(el_xor, x[i] ^= y, a ^ b) OPE(el_shr, x[i] >>= y, a >> b)
OPE(el_inc, x[i]++, a + 1) OPE(el_dec, --x[i], a - 1) 
struct el_swap { template <class V, class M> [[gnu::always_inline]] static auto f(const V& a, const V& b, const V&, const M&, const M&) { V x = a, y = b; for (unsigned i = 0; i + 1 < V::size(); i += 2) swap(x[i], x[V::size() - 1 - i]); typename V::value_type t = b[0]; swap(t, x[V::size() / 2]); swap(x[0], y[V::size() - 1]); swap(x[V::size() - 1], t); return std::make_pair(x, y); } };
struct conv_fix { template <class V, class M> [[gnu::always_inline]] static auto f(const V& a, const V& b, const V&, const M&, const M&) { stdx::fixed_size_simd<typename V::value_type, V::size()> x = stdx::to_fixed_size(a); x = x + stdx::to_fixed_size(b); return V(stdx::static_simd_cast<V>(x)); } };
OP(sum3, return a + b + c) OP(poly, return ((a * b + c) * b + c) * b - a)
#elif GROUP == 2
OP(where_assign, V x = a; where(k, x) = b; return x) OP(where_add, V x = a; where(k, x) += b; return x) OP(where_mul, V x = a; where(k, x) *= b; return x)
OP(where_inc, V x = a; ++where(k, x); return x) OP(where_neg, V x = a; where(k, x) = -where(k, x); return x)
OP(where_bcast, V x = a; where(k, x) = typename V::value_type(5); return x) OP(where_div, V x = a; where(k, x) /= b; return x)
OP(where_cmp, V x = a; where(a < b, x) = c; return x)
OP(where_rem, V x = a; where(k, x) %= b; return x) OP(where_and, V x = a; where(k, x) &= b; return x)
OP(where_sub, V x = a; where(k, x) -= b; return x) OP(where_postdec, V x = a; where(k, x)--; where(k2, x)++; return x) OP(where_or, V x = a; where(k, x) |= b; return x) OP(where_xor, V x = a; where(k, x) ^= b; return x) OP(where_rem1, V x = a; where(k, x) /= typename V::value_type(3); return x)
OP(where_kb, M x = k; where(k2, x) = M(true); return x)
OP(where_mask, M x = k2; where(k, x) = !k2; return x)
OP(mand, return k && k2) OP(mor, return k || k2) OP(mnot, return !k) OP(mxor, return k ^ k2) OP(meq, return k == k2) OP(mne, return k != k2) OP(mbitor, M x = k; x |= k2; return x) OP(mband, M x = k; x &= k2; return x)
OP(mset, M x = k; for (unsigned i = 0; i < M::size(); i += 3) x[i] = bool(k2[i]); return x)
OP(mbxor, M x = k; x ^= k2; return x) OP(mel, M x = k; for (unsigned i = 0; i < M::size(); ++i) { const bool y = k2[i]; if (i % 3 == 0) x[i] &= y; else if (i % 3 == 1) x[i] |= y; else x[i] ^= y; } return x) OP(q_bitset, return (unsigned long)k.__to_bitset().to_ullong()) OP(q_iter, unsigned long r = 7; for (auto i : stdx::__proposed::where(k)) r = r * 31 + i; return r)
OP(q_cmpchain, return stdx::popcount((a < b) && !(b == c))) OP(q_firstnot, M x = !k; return stdx::any_of(x) ? stdx::find_first_set(x) : -1)
OP(q_all, return stdx::all_of(k)) OP(q_any, return stdx::any_of(k)) OP(q_none, return stdx::none_of(k)) OP(q_some, return stdx::some_of(k)) OP(q_pop, return stdx::popcount(k))
OP(q_first, return stdx::any_of(k) ? stdx::find_first_set(k) : -1) OP(q_last, return stdx::any_of(k) ? stdx::find_last_set(k) : -1)
OP(q_allcmp, return stdx::all_of(a == a)) OP(q_nonecmp, return stdx::none_of(a != a)) OP(q_popcmp, return stdx::popcount(a < b)) OP(q_allnot, return stdx::all_of(!k)) OP(q_anynot, return stdx::any_of(!k)) OP(q_popnot, return stdx::popcount(!k))
OP(q_lastnot, M x = !k; return stdx::any_of(x) ? stdx::find_last_set(x) : -1) OP(q_somenot, return stdx::some_of(!k))
OP(red_add, return stdx::reduce(a)) OP(red_mul, return stdx::reduce(a, std::multiplies<>())) OP(red_and, return stdx::reduce(a, std::bit_and<>())) OP(red_or, return stdx::reduce(a, std::bit_or<>())) OP(red_xor, return stdx::reduce(a, std::bit_xor<>()))
OP(red_min, return stdx::hmin(a)) OP(red_max, return stdx::hmax(a)) OP(red_wadd, return stdx::reduce(where(k, a), std::plus<>())) OP(red_wmul, return stdx::reduce(where(k, a), std::multiplies<>())) OP(red_wmin, return stdx::hmin(where(k, a))) OP(red_wmax, return stdx::hmax(where(k, a)))
OP(red_diff, return stdx::reduce(a - b)) OP(red_minsum, return stdx::hmin(a + b)) OP(red_xornot, return stdx::reduce(~a, std::bit_xor<>()))
#elif GROUP == 8
// operations under a mask, with what they mean for one lane
static volatile TT g_seven = 7, g_zero = 0;
#define OPW(nm, vx, sx) struct nm { template <class V, class M> [[gnu::always_inline]] static auto f([[maybe_unused]] const V& a, [[maybe_unused]] const V& b, [[maybe_unused]] const V& c, [[maybe_unused]] const M& k, [[maybe_unused]] const M& k2) { \
  if constexpr (isv<V>) { using T = typename V::value_type; (void)sizeof(T); V x = a; vx; return x; } else { using T = V; (void)sizeof(T); if (!k) return a; return static_cast<V>(sx); } } };
OPW(w_assign, where(k, x) = b, b) OPW(w_bcast, where(k, x) = T(5), T(5)) OPW(w_add, where(k, x) += b, a + b) OPW(w_sub, where(k, x) -= b, a - b) OPW(w_mul, where(k, x) *= b, a * b) OPW(w_div, where(k, x) /= b, a / b)
OPW(w_divk, where(k, x) /= T(3), a / T(3)) OPW(w_divs, where(k, x) /= T(g_seven), a / T(7)) OPW(w_rem, where(k, x) %= b, a % b) OPW(w_remk, where(k, x) %= T(10), a % T(10)) OPW(w_and, where(k, x) &= b, a & b) OPW(w_or, where(k, x) |= b, a | b) OPW(w_xor, where(k, x) ^= b, a ^ b)
OPW(w_preinc, ++where(k, x), a + 1) OPW(w_postinc, where(k, x)++, a + 1) OPW(w_predec, --where(k, x), a - 1) OPW(w_postdec, where(k, x)--, a - 1) OPW(w_neg, x = -where(k, x), -a) OPW(w_addk, where(k, x) += T(3), a + T(3)) OPW(w_mulk, where(k, x) *= T(2), a * T(2))
OPW(w_chain, where(k, x) -= b; where(k, x) = x * c, (a - b) * c)
OPW(w_zero, where(k, x) = T(0), T(0)) OPW(w_negz, where(k, x) = T(-0.), T(-0.)) OPW(w_one, where(k, x) = T(1), T(1)) OPW(w_max, where(k, x) = std::numeric_limits<T>::max(), std::numeric_limits<T>::max()) OPW(w_addz, where(k, x) += T(0), a + T(0)) OPW(w_subk, where(k, x) -= T(1), a - T(1)) OPW(w_divnone, where(k && !k, x) /= T(g_zero), a) OPW(w_expr, where(k, x) = b + c, b + c)
OPW(w_remnone, where(k && !k, x) %= T(g_zero), a)
OPW(w_guard, where(k && b != T(0), x) /= b, b != T(0) ? a / b : a)
// where(bool, T): the same for a lane in a builtin type
#define OPB(nm, tx, sx) struct nm { template <class V, class M> [[gnu::always_inline]] static auto f([[maybe_unused]] const V& a, [[maybe_unused]] const V& b, [[maybe_unused]] const V& c, [[maybe_unused]] const M& k, [[maybe_unused]] const M& k2) { \
  if constexpr (isv<V>) { using T = typename V::value_type; T t = a[0]; [[maybe_unused]] const T u = b[0]; const bool q = k[0]; tx; return V(t); } else { using T = V; (void)sizeof(T); if (!k) return a; return static_cast<V>(sx); } } };
OPB(b_assign, stdx::where(q, t) = u, b) OPB(b_add, stdx::where(q, t) += u, a + b) OPB(b_sub, stdx::where(q, t) -= u, a - b) OPB(b_mul, stdx::where(q, t) *= u, a * b) OPB(b_div, stdx::where(q, t) /= u, a / b) OPB(b_rem, stdx::where(q, t) %= u, a % b) OPB(b_and, stdx::where(q, t) &= u, a & b) OPB(b_or, stdx::where(q, t) |= u, a | b) OPB(b_xor, stdx::where(q, t) ^= u, a ^ b) OPB(b_shl, stdx::where(q, t) <<= u, a << b) OPB(b_shr, stdx::where(q, t) >>= u, a >> b)
OPB(b_inc, ++stdx::where(q, t), a + 1) OPB(b_postinc, stdx::where(q, t)++, a + 1) OPB(b_dec, --stdx::where(q, t), a - 1) OPB(b_postdec, stdx::where(q, t)--, a - 1) OPB(b_neg, t = -stdx::where(q, t), -a) OPB(b_neq, const T v = t; t = -stdx::where(q, v), -a)
#define OPM(nm, vx, sx) struct nm { template <class V, class M> [[gnu::always_inline]] static auto f([[maybe_unused]] const V& a, [[maybe_unused]] const V& b, [[maybe_unused]] const V& c, [[maybe_unused]] const M& k, [[maybe_unused]] const M& k2) { \
  if constexpr (isv<V>) { M x = k2; vx; return x; } else { bool r = k2; if (k) r = sx; return r; } } };
OPM(wm_and, where(k, x) = M(k2 && k), k2 && k) OPM(wm_true, where(k, x) = M(true), true) OPM(wm_false, where(k, x) = M(false), false) OPM(wm_assign, where(k, x) = !k2, !k2) OPM(wm_cmp, where(k, x) = M(a < b), a < b) OPM(wm_eq, where(k, x) = M(a == c), a == c)
#define OPR(nm, vx, init, sx) struct nm { template <class V, class M> [[gnu::always_inline]] static auto f(const V& a, const V&, const V&, const M& k, const M&) { using T = typename V::value_type; return T(vx); } \
  template <class T> static T r0() { return init; } template <class T> static T step(T r, T x) { return T(sx); } };
OPR(r_add, stdx::reduce(where(k, a), std::plus<>()), T(0), r + x) OPR(r_addi, stdx::reduce(where(k, a), T(0), std::plus<>()), T(0), r + x) OPR(r_mul, stdx::reduce(where(k, a), std::multiplies<>()), T(1), r * x) OPR(r_and, stdx::reduce(where(k, a), std::bit_and<>()), T(~T(0)), r & x) OPR(r_or, stdx::reduce(where(k, a), std::bit_or<>()), T(0), r | x) OPR(r_xor, stdx::reduce(where(k, a), std::bit_xor<>()), T(0), r ^ x)
OPR(r_min, stdx::hmin(where(k, a)), (std::numeric_limits<T>::has_infinity ? std::numeric_limits<T>::infinity() : std::numeric_limits<T>::max()), x < r ? x : r)
OPR(r_max, stdx::hmax(where(k, a)), (std::numeric_limits<T>::has_infinity ? -std::numeric_limits<T>::infinity() : std::numeric_limits<T>::lowest()), x > r ? x : r)
#elif GROUP == 6
// memory operations on thread-private arrays; the barrier keeps them in memory
#define BAR(p) asm volatile("" : : "r"(p) : "memory")
template <class T> using Oth = std::conditional_t<std::is_same_v<T, double>, float, std::conditional_t<std::is_integral_v<T> && sizeof(T) < 8, std::conditional_t<sizeof(T) == 4, short, int>, double>>;
template <class V, class U> V ld_(const V& b) { using T = typename V::value_type; U m[V::size()]; for (unsigned i = 0; i < V::size(); ++i) m[i] = static_cast<U>(T(b[i])); BAR(m); V x; x.copy_from(m, stdx::element_aligned); return x; }
template <class V, class U> V st_(const V& a) { U m[V::size()]; a.copy_to(m, stdx::element_aligned); BAR(m); return V([&](auto i) { return static_cast<typename V::value_type>(m[int(i)]); }); }
template <class V, class M, class U> V wld_(const V& a, const V& b, const M& k) { using T = typename V::value_type; U m[V::size()]; for (unsigned i = 0; i < V::size(); ++i) m[i] = static_cast<U>(T(b[i])); BAR(m); V x = a; where(k, x).copy_from(m, stdx::element_aligned); return x; }
template <class V, class M, class U> V wst_(const V& a, const M& k) { U m[V::size()]; for (auto& x : m) x = U(1); BAR(m); where(k, a).copy_to(m, stdx::element_aligned); BAR(m); return V([&](auto i) { return static_cast<typename V::value_type>(m[int(i)]); }); }
OP(mem_ld, return ld_<V, typename V::value_type>(b)) OP(mem_st, return st_<V, typename V::value_type>(a)) OP(mem_wld, return wld_<V, M, typename V::value_type>(a, b, k)) OP(mem_wst, return wst_<V, M, typename V::value_type>(a, k))
OP(mem_ldc, return ld_<V, Oth<typename V::value_type>>(b)) OP(mem_stc, return st_<V, Oth<typename V::value_type>>(a)) OP(mem_wldc, return wld_<V, M, Oth<typename V::value_type>>(a, b, k)) OP(mem_wstc, return wst_<V, M, Oth<typename V::value_type>>(a, k))
OP(mem_kld, bool m[M::size()]; for (unsigned i = 0; i < M::size(); ++i) m[i] = k[i]; BAR(m); M x; x.copy_from(m, stdx::element_aligned); return x)
OP(mem_kst, bool m[M::size()]; k.copy_to(m, stdx::element_aligned); BAR(m); M x; for (unsigned i = 0; i < M::size(); ++i) x[i] = m[i]; return x)
OP(mem_kwld, bool m[M::size()]; for (unsigned i = 0; i < M::size(); ++i) m[i] = a[i] == b[i]; BAR(m); M x = k; where(k2, x).copy_from(m, stdx::element_aligned); return x)
OP(mem_kwst, bool m[M::size()] = {}; BAR(m); where(k2, k).copy_to(m, stdx::element_aligned); BAR(m); M x; for (unsigned i = 0; i < M::size(); ++i) x[i] = m[i]; return x)
#elif GROUP == 7
template <class To, class V> auto cvt(const V& a) { return stdx::static_simd_cast<To>(a); }
template <class To, class V> auto fxc(const V& a) { return stdx::static_simd_cast<stdx::fixed_size_simd<To, V::size()>>(a); }
#define CVT(nm, To) struct nm { template <class V, class M> [[gnu::always_inline]] static auto f(const V& a, const V&, const V&, const M&, const M&) { if constexpr (isv<V>) return fxc<To>(a); else return static_cast<To>(a); } };
CVT(cv_schar, signed char) CVT(cv_ushort, unsigned short) CVT(cv_int, int) CVT(cv_uint, unsigned) CVT(cv_long, long) CVT(cv_ulong, unsigned long) CVT(cv_float, float) CVT(cv_double, double)
OP(tofixed, return stdx::to_fixed_size(a)) OP(split2, return stdx::split<V::size() / 2, V::size() - V::size() / 2>(a)) OP(split3, return stdx::split<1, 1, V::size() - 2>(a)) OP(concat2, return stdx::concat(a, b)) OP(concat3, return stdx::concat(a, b, c))
OP(mtofixed, return stdx::to_fixed_size(k))
template <class V, int D> using Near = stdx::simd<typename V::value_type, stdx::simd_abi::deduce_t<typename V::value_type, V::size() + D>>;
OP(resize_up, return stdx::__proposed::resizing_simd_cast<Near<V, 1>>(a)) OP(resize_dn, return stdx::__proposed::resizing_simd_cast<Near<V, -1>>(a)) OP(resize_x2, return stdx::__proposed::resizing_simd_cast<Near<V, int(V::size())>>(a))
OP(mresize_dn, return stdx::__proposed::resizing_simd_cast<typename Near<V, -1>::mask_type>(k)) OP(mresize_up, return stdx::__proposed::resizing_simd_cast<typename Near<V, 1>::mask_type>(k))
OP(simdcast, return stdx::simd_cast<typename V::value_type>(a))
template <class V> using Half = stdx::simd<typename V::value_type, stdx::simd_abi::deduce_t<typename V::value_type, V::size() / 2>>;
OP(split_arr, return stdx::split<Half<V>>(a)) OP(msplit_arr, return stdx::split<typename Half<V>::mask_type>(k)) OP(concat_arr, return stdx::concat(std::array<V, 2>{a, b}))
OP(rebindf, return stdx::static_simd_cast<stdx::rebind_simd_t<float, V>>(a)) OP(rebindd, return stdx::static_simd_cast<stdx::rebind_simd_t<double, V>>(a)) OP(rebindi, return stdx::static_simd_cast<stdx::rebind_simd_t<int, V>>(a)) OP(rebinds, return stdx::static_simd_cast<stdx::rebind_simd_t<short, V>>(a))
OP(mcast, return stdx::__proposed::static_simd_cast<stdx::fixed_size_simd_mask<unsigned short, M::size()>>(k)) OP(mcastd, return stdx::__proposed::static_simd_cast<stdx::fixed_size_simd_mask<double, M::size()>>(k))
#elif GROUP == 3
template <class T> using fi = T;
// References call the C library's functions through volatile pointers, because the compiler expands calls by name
// inline under the assumption that rounding is to nearest.  Lanes that the library computes as scalars get that
// expansion, too; calc_ref_inline selects it.
template <class X, class I, class F, class D, class L, class... A> auto cref(I i, F f, D d, L l, A... a) {
  if (calc_ref_inline) return i(a...);
  if constexpr (std::is_same_v<X, float>) { F volatile p = f; return p(a...); }
  else if constexpr (std::is_same_v<X, double>) { D volatile p = d; return p(a...); }
  else { L volatile p = l; return p(a...); } }
#define MUC(nm) struct nm##_ { template <class V, class M> static auto f(const V& a, const V&, const V&, const M&, const M&) { if constexpr (!isv<V>) return cref<V>([](V x) { return std::nm(x); }, ::nm##f, (decltype(::nm(1.0)) (*)(double))::nm, ::nm##l, a); else return nm(a); } };
#define MU(nm) struct nm##_ { template <class V, class M> static auto f(const V& a, const V&, const V&, const M&, const M&) { if constexpr (!isv<V>) return std::nm(a); else return nm(a); } };
#define MBC(nm) struct nm##_ { template <class V, class M> static auto f(const V& a, const V& b, const V&, const M&, const M&) { if constexpr (!isv<V>) return cref<V>([](V x, V y) { return std::nm(x, y); }, ::nm##f, (double (*)(double, double))::nm, ::nm##l, a, b); else return nm(a, b); } };
#define MB(nm) struct nm##_ { template <class V, class M> static auto f(const V& a, const V& b, const V&, const M&, const M&) { if constexpr (!isv<V>) return std::nm(a, b); else return nm(a, b); } };
MUC(sqrt) MUC(floor) MUC(ceil) MUC(trunc) MUC(round) MUC(rint) MUC(nearbyint) MUC(fabs) MUC(logb) MUC(lrint) MUC(lround) MUC(llrint) MUC(llround)
MU(isfinite) MU(isinf) MU(isnan) MU(isnormal) MU(signbit) MU(fpclassify) MU(ilogb)
MBC(copysign) MBC(fmod) MBC(remainder) MBC(fmin) MBC(fmax) MBC(fdim) MBC(nextafter) MB(isgreater) MB(isless) MB(islessgreater) MB(isunordered) MB(islessequal) MB(isgreaterequal)
MU(sin) MU(cos) MU(tan) MU(asin) MU(acos) MU(atan) MU(sinh) MU(cosh) MU(tanh) MU(asinh) MU(acosh) MU(atanh) MU(exp) MU(exp2) MU(expm1) MU(log) MU(log10) MU(log1p) MU(log2) MU(cbrt) MU(erf) MU(erfc) MU(lgamma) MU(tgamma)
MB(pow) MB(hypot) MB(atan2)
struct fma_ { template <class V, class M> static auto f(const V& a, const V& b, const V& c, const M&, const M&) { if constexpr (!isv<V>) return cref<V>([](V x, V y, V z) { return std::fma(x, y, z); }, ::fmaf, (double (*)(double, double, double))::fma, ::fmal, a, b, c); else return fma(a, b, c); } };
struct hypot3 { template <class V, class M> static auto f(const V& a, const V& b, const V& c, const M&, const M&) { if constexpr (!isv<V>) return std::hypot(a, b, c); else return hypot(a, b, c); } };
struct frexp2 { template <class V, class M> static auto f(const V& a, const V&, const V&, const M&, const M&) {
  stdx::fixed_size_simd<int, V::size()> e; V r = frexp(a, &e); for (unsigned i = 0; i < V::size(); ++i) if (!std::isfinite(a[i])) e[i] = 0; return std::make_pair(r, e); } };
struct modf_ { template <class V, class M> static auto f(const V& a, const V&, const V&, const M&, const M&) { V ip; V r = modf(a, &ip); return std::make_pair(r, ip); } };
struct remquo_ { template <class V, class M> static auto f(const V& a, const V& b, const V&, const M&, const M&) { stdx::fixed_size_simd<int, V::size()> q = 0; V r = remquo(a, b, &q); for (unsigned i = 0; i < V::size(); ++i) { auto x = a[i], y = b[i]; if (!std::isfinite(x) || !std::isfinite(y) || y == 0) q[i] = 0; } return std::make_pair(r, q); } };
struct ldexp_ { template <class V, class M> static auto f(const V& a, const V& b, const V&, const M&, const M&) { if constexpr (!isv<V>) return std::ldexp(a, 3); else { stdx::fixed_size_simd<int, V::size()> e = 3; return ldexp(a, e); } } };
OP(fbits, using namespace stdx::__float_bitwise_operators; return ((a & b) | c) ^ a)
MB(nexttoward) struct scalbn_ { template <class V, class M> static auto f(const V& a, const V& b, const V&, const M&, const M&) { if constexpr (!isv<V>) return std::scalbn(a, -3); else { stdx::fixed_size_simd<int, V::size()> e = -3; return scalbn(a, e); } } };
OP(sincosx, return std::make_pair(sin(a), cos(a)))
OP(mixed, return sqrt(abs(a)) * b + c)
#elif GROUP == 5
#define SP1(nm) struct nm##_ { template <class V, class M> static auto f(const V& a, const V&, const V&, const M&, const M&) { stdx::fixed_size_simd<unsigned, V::size()> n([](unsigned i) { return i % 3; }); return nm(n, a); } };
SP1(hermite) SP1(laguerre) SP1(legendre)
struct assoc_laguerre_ { template <class V, class M> static auto f(const V& a, const V&, const V&, const M&, const M&) { stdx::fixed_size_simd<unsigned, V::size()> n([](unsigned i) { return i % 3; }); return assoc_laguerre(n, n, a); } };
#elif GROUP == 4
// callbacks
inline uint64_t img(double x) { return uint64_t(int64_t(x)); }
struct CbObj { CbObj() { cb_count(1); } CbObj(const CbObj&) { cb_count(1); } ~CbObj() { cb_count(-1); } };
template <class T> T cbval(int i) { return T(2 * (1 + i % 60)); }
template <class V> struct Gen { CbObj o; template <class I> typename V::value_type operator()(I i) const { cb_event(0, int(size_t(i)), nullptr, 0); return cbval<typename V::value_type>(int(size_t(i))); } };
struct Bin { CbObj o;
  template <class X> X operator()(const X& x, const X& y) const {
    uint64_t v[256]; int n = 0;
    for (unsigned i = 0; i < X::size(); ++i) { v[n++] = uint64_t(int64_t(typename X::value_type(x[i]))); v[n++] = uint64_t(int64_t(typename X::value_type(y[i]))); }
    cb_event(1, int(X::size()), v, n);
    return x + y; } };
#endif

using T = TT;
template <class V> struct Prep {
  using M = typename V::mask_type; static constexpr unsigned N = V::size();
  [[gnu::noinline]] static void prep(void* slot, uint64_t seed, int vc, uint32_t pa, uint32_t pb, uint32_t pk) {
    char* s = (char*)slot;
    V& a = *::new (s) V(padv<T>(pa)); V& b = *::new (s + 2048) V(padv<T>(pb)); V& c = *::new (s + 4096) V(padv<T>(pa + pb));
    uint8_t kb[N], kb2[N];
    uint64_t dens = sim::mix(seed, 99) % 9;
    for (unsigned i = 0; i < N; ++i) {
      a[i] = gen<T>(seed, i, vc, 0); b[i] = gen<T>(seed + 1, i, vc, 1); c[i] = gen<T>(seed + 2, i, vc, 2);
      kb[i] = rnd(seed + 3, i) % 8 < dens; kb2[i] = (rnd(seed + 4, i) & 1) != 0; }
    ::new (s + 8192) M(MaskMaker<M>::make(kb, pk)); ::new (s + 10240) M(MaskMaker<M>::make(kb2, pk / 12));
  }
  // what lanes nobody selected may hold
  static T bad(uint64_t r) {
    using L = std::numeric_limits<T>;
    if constexpr (std::is_integral_v<T>) { T e[] = {T(0), T(-1), L::min(), L::max(), T(1), T(r >> 9)}; return e[r % 6]; }
    else { T e[] = {T(0), L::quiet_NaN(), L::infinity(), -L::infinity(), L::max(), L::denorm_min(), T(-1), -T(0)}; return e[r % 8]; }
  }
  [[gnu::noinline]] static void poison(void* slot, uint64_t seed) {
    char* s = (char*)slot; const M& k = *(const M*)(s + 8192); M& k2 = *(M*)(s + 10240); uint32_t how = seed % 5; // zero divisors everywhere, MIN / -1 everywhere, or a mixture
    for (unsigned i = 0; i < N; ++i) if (!k[i]) {
      uint64_t r = rnd(seed, i);
      (*(V*)s)[i] = how == 1 ? bad(2) : bad(r); (*(V*)(s + 2048))[i] = how == 0 ? T(0) : how == 1 ? T(-1) : bad(r >> 11); (*(V*)(s + 4096))[i] = bad(r >> 22); k2[i] = bool(r >> 60 & 1); }
  }
  [[gnu::noinline]] static void lanes_of_k(const void* slot, uint8_t* kb, uint8_t* ab) { const char* s = (const char*)slot; for (unsigned i = 0; i < N; ++i) kb[i] = bool((*(const M*)(s + 8192))[i]); Ser<V>::f(*(const V*)s, ab); }
  [[gnu::noinline]] static void unpack(const void* s_, T* a, T* b, T* c, bool* k, bool* k2) {
    const char* s = (const char*)s_;
    for (unsigned i = 0; i < N; ++i) { a[i] = (*(const V*)s)[i]; b[i] = (*(const V*)(s + 2048))[i]; c[i] = (*(const V*)(s + 4096))[i]; k[i] = (*(const M*)(s + 8192))[i]; k2[i] = (*(const M*)(s + 10240))[i]; }
  }
};
template <class R> struct SerOut { [[gnu::noinline]] static int f(const void* o, uint8_t* b) { return Ser<R>::f(*(const R*)o, b); } };
template <class V, class F> struct Run {
  using M = typename V::mask_type; static constexpr unsigned N = V::size();
  static const V& A(const void* s) { return *(const V*)s; }
  static const V& B(const void* s) { return *(const V*)((const char*)s + 2048); }
  static const V& C(const void* s) { return *(const V*)((const char*)s + 4096); }
  static const M& K(const void* s) { return *(const M*)((const char*)s + 8192); }
  static const M& K2(const void* s) { return *(const M*)((const char*)s + 10240); }
  using R = std::decay_t<decltype(F::template f<V, M>(std::declval<V>(), std::declval<V>(), std::declval<V>(), std::declval<M>(), std::declval<M>()))>;
  [[gnu::noinline]] static void run(const void* s, const void*, const void*, const void*, void* out) { ::new (out) R(F::template f<V, M>(A(s), B(s), C(s), K(s), K2(s))); }
  static constexpr auto ser = &SerOut<R>::f;
  [[gnu::noinline]] static int ref(const void* s, uint8_t* buf) {
    using L = typename Ser<R>::lane; int n = 0;
    T ua[N], ub[N], uc[N]; bool uk[N], uk2[N]; Prep<V>::unpack(s, ua, ub, uc, uk, uk2);
    for (unsigned i = 0; i < N; ++i) { volatile T a = ua[i], b = ub[i], c = uc[i]; T x = a, y = b, z = c; n += Ser<L>::f(static_cast<L>(F::template f<T, bool>(x, y, z, uk[i], uk2[i])), buf + n); }
    return n; }
};
#if GROUP == 8
template <class V, class F> struct RefRed {
  [[gnu::noinline]] static int ref(const void* s, uint8_t* buf) {
    constexpr unsigned N = V::size(); T ua[N], ub[N], uc[N]; bool uk[N], uk2[N]; Prep<V>::unpack(s, ua, ub, uc, uk, uk2);
    T r = F::template r0<T>(); for (unsigned i = 0; i < N; ++i) if (uk[i]) r = F::template step<T>(r, ua[i]);
    return put<T>(buf, r); }
};
#endif
template <class V> void reg_ops(const std::string& base) {
  constexpr unsigned N = V::size(); using M = typename V::mask_type;
  constexpr bool I = std::is_integral_v<T>, FP = std::is_floating_point_v<T>, SG = std::is_signed_v<T>; (void)I; (void)FP; (void)SG; (void)sizeof(M);
  uint32_t pf = sizeof(V) > N * sizeof(T) ? CF_PADDED : 0;
#define RAW(nm, vc, fl, r, sr, rf, po) calc_ops().push_back({std::string(ISA "/") + base + "/" #nm, #nm, int(N), (fl) | pf, Prep<V>::prep, vc, r, sr, rf, po, (fl) & CF_MASKED ? Prep<V>::lanes_of_k : nullptr, (fl) & CF_MASKED ? Prep<V>::poison : nullptr})
#define R_(nm, vc) RAW(nm, vc, 0, (Run<V, nm>::run), (Run<V, nm>::ser), nullptr, nullptr)
#define RR(nm, vc, fl) RAW(nm, vc, CF_REF | (fl), (Run<V, nm>::run), (Run<V, nm>::ser), (Run<V, nm>::ref), nullptr)
#if GROUP == 1
  RR(neg, VC_ARITH, CF_IGN); RR(preinc, VC_ARITH, 0); RR(postdec, VC_ARITH, 0);
  RR(add, VC_ARITH, 0); RR(sub, VC_ARITH, 0); RR(mul, VC_ARITH, 0); RR(div_, VC_DIV, 0); R_(axpy, VC_ARITH); R_(addeq, VC_ARITH); R_(divs, VC_DIV); R_(sdiv, VC_DIV); R_(muls, VC_ARITH);
  RR(eq, VC_ANY, CF_IGN); RR(ne, VC_ANY, CF_IGN); RR(lt, VC_ANY, CF_IGN); RR(le, VC_ANY, CF_IGN); RR(gt, VC_ANY, CF_IGN); RR(ge, VC_ANY, CF_IGN); R_(lnot, VC_ANY);
  R_(min_, VC_ANY); R_(max_, VC_ANY); if constexpr (!is_fixed<V> && !std::is_same_v<typename V::abi_type, stdx::simd_abi::scalar>) { R_(minmax_, VC_ANY); } R_(clamp_, VC_ANY); R_(bcast, VC_ANY); R_(copy, VC_ANY); R_(setlane, VC_ANY); RR(sum3, VC_ARITH, 0); RR(el_add, VC_ARITH, 0); RR(el_sub, VC_ARITH, 0); RR(el_mul, VC_ARITH, 0); RR(el_div, VC_DIV, 0); RR(el_inc, VC_ARITH, 0); RR(el_dec, VC_ARITH, 0); if constexpr (N > 1) { R_(el_swap, VC_ANY); } R_(conv_fix, VC_ARITH); R_(predec, VC_ARITH); R_(genl, VC_ANY); R_(compound, VC_ARITH); R_(compound_d, VC_DIV); R_(minmax3, VC_ANY); R_(scal, VC_ARITH); R_(poly, VC_MATH);
  R_(k_div, VC_ARITH); R_(k_mulsub, VC_ARITH); R_(k_cmp, VC_ANY); R_(k_where, VC_ANY); R_(k_quot, VC_DIV); R_(k_mask, VC_ANY); R_(k_blend, VC_ANY);
  if constexpr (I) { RR(el_rem, VC_DIV, CF_IGN); RR(el_and, VC_ANY, CF_IGN); RR(el_or, VC_ANY, CF_IGN); RR(el_xor, VC_ANY, CF_IGN); RR(el_shr, VC_SHIFT, CF_IGN); RR(rem, VC_DIV, CF_IGN); R_(divrem, VC_DIV); R_(compound_i, VC_ANY); R_(k_rem, VC_ARITH); R_(k_shift, VC_ANY); R_(k_bits, VC_ANY); R_(compound_s, VC_SHIFT); R_(compound_r, VC_DIV); RR(and_, VC_ANY, CF_IGN); RR(or_, VC_ANY, CF_IGN); RR(xor_, VC_ANY, CF_IGN); RR(not_, VC_ANY, CF_IGN); R_(shl, VC_SHIFT); RR(shr, VC_SHIFT, CF_IGN); R_(shls, VC_SHIFT); R_(shrs, VC_SHIFT); }
  if constexpr (SG) { R_(abs_, VC_ARITH); }
#elif GROUP == 2
  R_(where_assign, VC_ANY); R_(where_add, VC_ARITH); R_(where_mul, VC_ARITH); R_(where_inc, VC_ARITH); R_(where_neg, VC_ARITH); R_(where_bcast, VC_ANY); R_(where_div, VC_DIV); R_(where_cmp, VC_ANY); R_(where_sub, VC_ARITH); R_(where_postdec, VC_ARITH); R_(where_rem1, VC_DIV); R_(where_kb, VC_ANY); R_(where_mask, VC_ANY);
  R_(mand, VC_ANY); R_(mor, VC_ANY); R_(mnot, VC_ANY); R_(mxor, VC_ANY); R_(meq, VC_ANY); R_(mne, VC_ANY); R_(mbitor, VC_ANY); R_(mband, VC_ANY); R_(mset, VC_ANY); R_(mbxor, VC_ANY); R_(mel, VC_ANY); if constexpr (N <= 64) { R_(q_bitset, VC_ANY); R_(q_iter, VC_ANY); } R_(q_cmpchain, VC_ANY); R_(q_firstnot, VC_ANY);
  R_(q_all, VC_ANY); R_(q_any, VC_ANY); R_(q_none, VC_ANY); R_(q_some, VC_ANY); R_(q_pop, VC_ANY); R_(q_first, VC_ANY); R_(q_last, VC_ANY); R_(q_allcmp, VC_ANY); R_(q_nonecmp, VC_ANY); R_(q_popcmp, VC_ANY);
  R_(q_allnot, VC_ANY); R_(q_anynot, VC_ANY); R_(q_popnot, VC_ANY); R_(q_lastnot, VC_ANY); R_(q_somenot, VC_ANY);
  R_(red_add, VC_ARITH); R_(red_min, VC_ARITH); R_(red_max, VC_ARITH); R_(red_wadd, VC_ARITH); R_(red_wmin, VC_ARITH); R_(red_wmax, VC_ARITH); R_(red_diff, VC_ARITH); R_(red_minsum, VC_ARITH);
  if constexpr (!I || !SG) { R_(red_mul, VC_ARITH); R_(red_wmul, VC_ARITH); }
  if constexpr (I) { R_(where_rem, VC_DIV); R_(where_and, VC_ANY); R_(where_or, VC_ANY); R_(where_xor, VC_ANY); R_(red_and, VC_ANY); R_(red_or, VC_ANY); R_(red_xor, VC_ANY); R_(red_xornot, VC_ANY); }
#elif GROUP == 8
#define RW(nm, vc) RAW(nm, vc, CF_MASKED | CF_REF, (Run<V, nm>::run), (Run<V, nm>::ser), (Run<V, nm>::ref), nullptr)
#define RWU(nm, vc) RAW(nm, vc, CF_MASKED, (Run<V, nm>::run), (Run<V, nm>::ser), nullptr, nullptr)
#define RED(nm, vc) RAW(nm, vc, CF_MASKED | CF_REF, (Run<V, nm>::run), (Run<V, nm>::ser), (RefRed<V, nm>::ref), nullptr)
  RW(w_assign, VC_ANY); RW(w_bcast, VC_ANY); RW(w_add, VC_ARITH); RW(w_sub, VC_ARITH); RW(w_mul, VC_ARITH); RW(w_div, VC_DIV); RW(w_divk, VC_ARITH); RW(w_preinc, VC_ARITH); RW(w_postinc, VC_ARITH); RW(w_predec, VC_ARITH); RW(w_postdec, VC_ARITH); RW(w_neg, VC_ARITH); RW(w_addk, VC_ARITH); RW(w_mulk, VC_ARITH); RW(w_guard, VC_DIV);
  RW(w_zero, VC_ANY); RW(w_negz, VC_ANY); RW(w_one, VC_ANY); RW(w_max, VC_ANY); RW(w_addz, VC_ANY); RW(w_subk, VC_ARITH); RW(w_divnone, VC_ANY); RW(w_expr, VC_ARITH); if constexpr (I) { RW(w_remnone, VC_ANY); }
  RW(wm_and, VC_ANY); RW(wm_true, VC_ANY); RW(wm_false, VC_ANY); RW(wm_assign, VC_ANY); RW(wm_cmp, VC_ANY); RW(wm_eq, VC_ANY); RWU(w_chain, VC_MATH);
  RED(r_min, VC_ORD); RED(r_max, VC_ORD);
  if constexpr (std::is_same_v<typename V::abi_type, stdx::simd_abi::scalar>) {
    RW(b_assign, VC_ANY); RW(b_add, VC_ARITH); RW(b_sub, VC_ARITH); RW(b_mul, VC_ARITH); RW(b_div, VC_DIV); RW(b_inc, VC_ARITH); RW(b_postinc, VC_ARITH); RW(b_dec, VC_ARITH); RW(b_postdec, VC_ARITH); RW(b_neg, VC_ARITH); RW(b_neq, VC_ARITH);
    if constexpr (I) { RW(b_rem, VC_DIV); RW(b_and, VC_ANY); RW(b_or, VC_ANY); RW(b_xor, VC_ANY); RW(b_shl, VC_SHIFT); RW(b_shr, VC_SHIFT); } }
  if constexpr (I) { RW(w_rem, VC_DIV); RW(w_remk, VC_ARITH); RW(w_and, VC_ANY); RW(w_or, VC_ANY); RW(w_xor, VC_ANY); RW(w_divs, VC_ARITH); RED(r_and, VC_ANY); RED(r_or, VC_ANY); RED(r_xor, VC_ANY); RED(r_add, VC_SMALL); RED(r_addi, VC_SMALL); RED(r_mul, VC_SMALL); }
  else { RWU(r_add, VC_ARITH); RWU(r_addi, VC_ARITH); RWU(r_mul, VC_ARITH); }
#elif GROUP == 6
  R_(mem_ld, VC_ANY); R_(mem_st, VC_ANY); R_(mem_wld, VC_ANY); R_(mem_wst, VC_ANY); R_(mem_ldc, VC_CVT); R_(mem_stc, VC_CVT); R_(mem_wldc, VC_CVT); R_(mem_wstc, VC_CVT); R_(mem_kld, VC_ANY); R_(mem_kst, VC_ANY); R_(mem_kwld, VC_ANY); R_(mem_kwst, VC_ANY);
#elif GROUP == 7
  if constexpr (N <= 32) { R_(mcast, VC_ANY); R_(mcastd, VC_ANY); }
  R_(mtofixed, VC_ANY); R_(tofixed, VC_ANY);
  if constexpr (N > 1) { R_(resize_dn, VC_ANY); R_(mresize_dn, VC_ANY); if constexpr (N % 2 == 0) { R_(split_arr, VC_ANY); R_(msplit_arr, VC_ANY); } }
  if constexpr (N < stdx::simd_abi::max_fixed_size<T>) { R_(resize_up, VC_ANY); R_(mresize_up, VC_ANY); } if constexpr (2 * N <= stdx::simd_abi::max_fixed_size<T>) { R_(resize_x2, VC_ANY); R_(concat_arr, VC_ANY); }
  R_(simdcast, VC_ANY);
  if constexpr (!is_fixed<V> && N <= 32) { constexpr int ri = FP ? VC_CVT : VC_ANY; R_(rebindf, VC_CVT); R_(rebindd, VC_CVT); R_(rebindi, ri); R_(rebinds, ri); }
  constexpr uint32_t toi = FP ? CF_IGN : CF_IGN; constexpr int vi = FP ? VC_CVT : VC_ANY;
#define RC(nm, To) RR(nm, vi, std::is_integral_v<To> ? toi : 0)
  if constexpr (N <= 32) {
  RC(cv_schar, signed char); RC(cv_ushort, unsigned short); RC(cv_int, int); RC(cv_long, long); RC(cv_float, float); RC(cv_double, double);
  if constexpr (!FP) { RC(cv_uint, unsigned); RC(cv_ulong, unsigned long); } }
  if constexpr (N > 1) { R_(split2, VC_ANY); } if constexpr (N > 2) R_(split3, VC_ANY);
  if constexpr (2 * N <= stdx::simd_abi::max_fixed_size<T>) { R_(concat2, VC_ANY); } if constexpr (3 * N <= stdx::simd_abi::max_fixed_size<T>) R_(concat3, VC_ANY);
#elif GROUP == 3
  if constexpr (FP) {
#define MR(nm, vc, fl) RR(nm##_, vc, fl)
#define MD(nm) R_(nm##_, VC_MATH)
    MR(sqrt, VC_MATH, 0); MR(floor, VC_ANY, CF_IGN); MR(ceil, VC_ANY, CF_IGN); MR(trunc, VC_ANY, CF_IGN); MR(round, VC_ANY, CF_IGN); MR(rint, VC_ANY, 0); MR(nearbyint, VC_ANY, 0); MR(fabs, VC_ANY, CF_IGN);
    MR(lrint, VC_CVT, 0); MR(lround, VC_CVT, CF_IGN); MR(llrint, VC_CVT, 0); MR(llround, VC_CVT, CF_IGN); MR(logb, VC_ANY, CF_IGN); R_(ilogb_, VC_ANY);
    MR(isfinite, VC_ANY, CF_IGN); MR(isinf, VC_ANY, CF_IGN); MR(isnan, VC_ANY, CF_IGN); MR(isnormal, VC_ANY, CF_IGN); MR(signbit, VC_ANY, CF_IGN); R_(fpclassify_, VC_ANY);
    MR(copysign, VC_ANY, CF_IGN); MR(fmod, VC_MATH, CF_IGN); MR(remainder, VC_MATH, CF_IGN); R_(fmin_, VC_ANY); R_(fmax_, VC_ANY); MR(fdim, VC_MATH, 0); MR(nextafter, VC_MATH, CF_IGN);
    MR(isgreater, VC_ANY, CF_IGN); MR(isless, VC_ANY, CF_IGN); MR(islessgreater, VC_ANY, CF_IGN); MR(isunordered, VC_ANY, CF_IGN); R_(islessequal_, VC_ANY); R_(isgreaterequal_, VC_ANY);
    MR(fma, VC_ARITH, 0); MR(ldexp, VC_MATH, 0); R_(fbits, VC_ANY); MR(scalbn, VC_MATH, 0); R_(frexp2, VC_ANY); R_(modf_, VC_ANY); R_(remquo_, VC_MATH); R_(hypot3, VC_MATH); R_(mixed, VC_MATH); R_(sincosx, VC_MATH);
    MD(sin); MD(cos); MD(tan); MD(asin); MD(acos); MD(atan); MD(sinh); MD(cosh); MD(tanh); MD(asinh); MD(acosh); MD(atanh); MD(exp); MD(exp2); MD(expm1); MD(log); MD(log10); MD(log1p); MD(log2); MD(cbrt); MD(erf); MD(erfc); MD(lgamma); MD(tgamma);
    MD(pow); MD(hypot); MD(atan2);
  }
#elif GROUP == 5
  if constexpr (FP) { R_(hermite_, VC_BENIGN); R_(laguerre_, VC_BENIGN); R_(assoc_laguerre_, VC_BENIGN); }
#elif GROUP == 4
  struct Loc {
    static void gen_ctor(const void*, const void*, const void*, const void*, void* out) { int th = -1; { Gen<V> g; try { ::new (out) V(g); } catch (CbThrown& t) { th = t.id; } } *(int*)((char*)out + 8192) = th; }
    static void gen_assign(const void*, const void*, const void*, const void*, void* out) { int th = -1; { Gen<V> g; try { *(V*)out = V(g); } catch (CbThrown& t) { th = t.id; } } *(int*)((char*)out + 8192) = th; }
    static void gen_temp(const void*, const void*, const void*, const void*, void* out) { int th = -1; try { *(V*)out = V(Gen<V>()); } catch (CbThrown& t) { th = t.id; } *(int*)((char*)out + 8192) = th; }
    static void gen_where(const void* s, const void*, const void*, const void*, void* out) { int th = -1; { Gen<V> g; try { where(*(const M*)((const char*)s + 8192), *(V*)out) = V(g); } catch (CbThrown& t) { th = t.id; } } *(int*)((char*)out + 8192) = th; }
    static void red(const void* s, const void*, const void*, const void*, void* out) { int th = -1; { Bin b; try { *(T*)out = stdx::reduce(*(const V*)s, b); } catch (CbThrown& t) { th = t.id; } } *(int*)((char*)out + 8192) = th; }
    static void redw(const void* s, const void*, const void*, const void*, void* out) { int th = -1; { Bin b; try { *(T*)out = stdx::reduce(where(*(const M*)((const char*)s + 8192), *(const V*)s), T(0), b); } catch (CbThrown& t) { th = t.id; } } *(int*)((char*)out + 8192) = th; }
    static int ser(const void* o, uint8_t* b) { int n = Ser<V>::f(*(const V*)o, b); std::memcpy(b + n, (const char*)o + 8192, 4); return n + 4; }
    static int serT(const void* o, uint8_t* b) { int n = put<T>(b, *(const T*)o); std::memcpy(b + n, (const char*)o + 8192, 4); return n + 4; }
    static int ref_gen(const void*, uint8_t* b) { for (unsigned i = 0; i < N; ++i) put<T>(b + i * sizeof(T), cbval<T>(i)); int m = -1; std::memcpy(b + N * sizeof(T), &m, 4); return N * sizeof(T) + 4; }
    static int ref_where(const void* s, uint8_t* b) { for (unsigned i = 0; i < N; ++i) put<T>(b + i * sizeof(T), (*(const M*)((const char*)s + 8192))[i] ? cbval<T>(i) : T(1)); int m = -1; std::memcpy(b + N * sizeof(T), &m, 4); return N * sizeof(T) + 4; }
    static int ref_red(const void* s, uint8_t* b) { T r = 0; for (unsigned i = 0; i < N; ++i) r = T(r + (*(const V*)s)[i]); put<T>(b, r); int m = -1; std::memcpy(b + sizeof(T), &m, 4); return sizeof(T) + 4; }
    static int ref_redw(const void* s, uint8_t* b) { T r = 0; for (unsigned i = 0; i < N; ++i) if ((*(const M*)((const char*)s + 8192))[i]) r = T(r + (*(const V*)s)[i]); put<T>(b, r); int m = -1; std::memcpy(b + sizeof(T), &m, 4); return sizeof(T) + 4; }
    static int pre(void* out) { ::new (out) V(T(1)); return 0; }
    static int preT(void* out) { *(T*)out = 1; return 0; }
  };
  RAW(gen_ctor, VC_CB, CF_CB, Loc::gen_ctor, Loc::ser, Loc::ref_gen, Loc::pre); RAW(gen_assign, VC_CB, CF_CB | CF_ASSIGN, Loc::gen_assign, Loc::ser, Loc::ref_gen, Loc::pre);
  RAW(gen_temp, VC_CB, CF_CB | CF_ASSIGN, Loc::gen_temp, Loc::ser, Loc::ref_gen, Loc::pre); RAW(gen_where, VC_CB, CF_CB | CF_ASSIGN, Loc::gen_where, Loc::ser, Loc::ref_where, Loc::pre);
  RAW(reduce_cb, VC_CB, CF_CBR | CF_ASSIGN, Loc::red, Loc::serT, Loc::ref_red, Loc::preT); RAW(reduce_where_cb, VC_CB, CF_CBR | CF_ASSIGN, Loc::redw, Loc::serT, Loc::ref_redw, Loc::preT);
#endif
}
template <class T> struct Nm;
#define NM(t, s) template <> struct Nm<t> { static constexpr const char* n = s; };
NM(char, "char") NM(signed char, "schar") NM(unsigned char, "uchar") NM(short, "short") NM(unsigned short, "ushort") NM(int, "int") NM(unsigned, "uint") NM(long, "long") NM(unsigned long, "ulong") NM(long long, "llong") NM(unsigned long long, "ullong") NM(float, "float") NM(double, "double") NM(long double, "ldouble") NM(wchar_t, "wchar") NM(char16_t, "char16") NM(char32_t, "char32")
template <class Abi> void reg(const char* abi) {
  using V = stdx::simd<T, Abi>;
  if constexpr (std::is_default_constructible_v<V>) reg_ops<V>(std::string(Nm<T>::n) + "/" + abi);
}
template <class T> void init() {
  constexpr int nat = int(stdx::native_simd<T>::size());
  using namespace stdx::simd_abi;
  [[maybe_unused]] constexpr int mx = max_fixed_size<T>;
  reg<native<T>>("native");
  if constexpr (nat > 3) reg<deduce_t<T, nat - 1>>("native-1");
#ifndef SKIP
#define SKIP 0
#endif
  if constexpr (nat != 3 && nat != 4 && SKIP != 1) reg<deduce_t<T, 3>>("deduce3");
  if constexpr (nat > 2 && SKIP != 2) reg<deduce_t<T, nat / 2>>("half");
  reg<fixed_size<std::min(mx, nat + 3)>>("fixed_nat+3");
#ifndef XS
#define XS 0
#endif
#ifndef XN
#define XN 1
#endif
  if constexpr (constexpr int w = sim::other_width(nat, XS, 0); w > 0) { static const std::string nm = "w" + std::to_string(w); reg<deduce_t<T, w>>(nm.c_str()); }
  if constexpr (constexpr int w = sim::other_width(nat, XS, 1); w > 0 && XN > 1) { static const std::string nm = "w" + std::to_string(w); reg<deduce_t<T, w>>(nm.c_str()); }
#ifndef NO_SCALAR
  reg<scalar>("scalar");
#endif
#ifdef __AVX512F__ // registers with vector masks are still there
  reg<_VecBuiltin<XS & 1 ? 16 : 32>>(XS & 1 ? "sse" : "avx");
#endif
#if GROUP == 7
  reg<fixed_size<nat>>("fixed_nat");
#endif
#if LEVEL > 0
  reg<fixed_size<1>>("fixed1"); reg<fixed_size<7>>("fixed7"); reg<fixed_size<mx>>("fixed_max");
#endif
}
struct Init { Init() { init<TT>(); } } init_;
} // namespace
