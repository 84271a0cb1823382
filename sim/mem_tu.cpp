// Instantiates the memory operations of std::experimental::simd for element
// type TT.  Compiled from /repo's headers once per ISA and type.
#include <experimental/simd>
#include <cstring>
#include <limits>
#include <cmath>
#include "ops_mem.h"
namespace stdx = std::experimental;
#include "maskmaker.h"
#ifndef KINDS
#define KINDS 31
#endif
#ifndef ISA
#define ISA "?"
#endif
namespace {
inline uint64_t rnd(uint64_t seed, unsigned i) { return sim::mix(sim::mix(seed, i * 0x9e37 + 1), 0x1234567); }

// A value of type A for which static_cast<B> is defined.
template <class A, class B> A gen(uint64_t seed, unsigned i) {
  uint64_t r = rnd(seed, i);
  if constexpr (std::is_same_v<A, bool>) return r >> 17 & 1;
  else if constexpr (std::is_integral_v<A>) {
    if ((r & 7) == 0) { A edge[] = {std::numeric_limits<A>::max(), std::numeric_limits<A>::min(), A(0), A(-1), A(1), A(A(1) << (sizeof(A) * 8 - 1))}; return edge[(r >> 8) % 6]; }
    if ((r & 7) == 1) return A(int((r >> 8) % 201) - 100);
    return A(r >> 3);
  } else if constexpr (std::is_integral_v<B> && !std::is_same_v<B, bool>) {
    constexpr int d = std::numeric_limits<B>::digits;
    int bits = int((r >> 3) % (d + 1));                 // magnitude below 2^bits <= 2^d
    long double m = (long double)(r >> 11) / (long double)(1ull << 53);
    m = std::ldexp(m, bits);
    A a = A(m);
    long double lim = std::ldexp(1.0L, d);
    if ((long double)a >= lim) a = A(std::ldexp(1.0L, d - 1));
    if (std::is_signed_v<B> && (r & 1)) a = -a;
    else if ((r & 7) == 1) a = A(-std::fmod(m, 1.0L));   // (-1,0] converts to 0
    return a;
  } else {
    constexpr int emax = std::min(std::numeric_limits<A>::max_exponent, std::numeric_limits<B>::max_exponent) - 2;
    constexpr int emin = std::max(std::numeric_limits<A>::min_exponent, std::numeric_limits<B>::min_exponent) - 5;
    switch (r & 15) { case 0: return A(0); case 1: return A(-0.0); case 2: return std::numeric_limits<A>::infinity(); }
    int e = (r & 32) ? int((r >> 8) % 40) - 20 : emin + int((r >> 8) % unsigned(emax - emin));
    long double m = 1 + (long double)(r >> 20) / (long double)(1ull << 44);
    A a = A(std::ldexp(m, e));
    return r & 16 ? -a : a;
  }
}
template <class X> constexpr int cmpsize() { return std::is_same_v<X, long double> ? 10 : int(sizeof(X)); }
template <class X> void put(void* out, unsigned i, X x) { std::memset((char*)out + i * sizeof(X), 0, sizeof(X)); std::memcpy((char*)out + i * sizeof(X), &x, cmpsize<X>()); }

// g++ may convert floating point to unsigned 64-bit integers in place (also in *p = x)
template <class T, class U> constexpr bool ATOMIC = sizeof(U) <= 8 && !(std::is_floating_point_v<T> && std::is_unsigned_v<U> && sizeof(U) == 8);
template <class V, bool> struct MaskOf { using type = V; };
template <class V> struct MaskOf<V, false> { using type = typename V::mask_type; };
template <class V, class T, class U, class F> struct Fns {
  static constexpr unsigned N = V::size();
  using M = typename MaskOf<V, stdx::is_simd_mask_v<V>>::type;
  [[gnu::noinline]] static void prep(void* slot, const uint8_t* sel, uint64_t vseed, uint32_t pad) {
    if constexpr (stdx::is_simd_mask_v<V>) { uint8_t b[N]; for (unsigned i = 0; i < N; ++i) b[i] = gen<T, U>(vseed, i); ::new (slot) V(MaskMaker<V>::make(b, pad / 12)); }
    else { V& v = *::new (slot) V(pad / 12 & 1 ? T(1) : T(0)); for (unsigned i = 0; i < N; ++i) v[i] = gen<T, U>(vseed, i); }
    ::new ((char*)slot + 8192) M(MaskMaker<M>::make(sel, pad));
  }
  [[gnu::noinline]] static void mstore(const void* v, const void* k, const void*, const void*, void* mem) { where(*(const M*)k, *(const V*)v).copy_to((U*)mem, F{}); }
  [[gnu::noinline]] static void mload(const void* v, const void* k, const void*, const void*, void* mem) { where(*(const M*)k, *(V*)v).copy_from((const U*)mem, F{}); }
  [[gnu::noinline]] static void mloadv(const void* v, const void* k, const void*, const void*, void* mem) { const V& c = *(const V*)v; V r = where(*(const M*)k, c).copy_from((const U*)mem, F{}); *(V*)v = r; }
  // masks the compiler knows: all lanes, every third lane
  template <int C> static M known() { if constexpr (C == 1) return M(true); else { M k(false); for (unsigned i = 1; i < N; i += 3) k[i] = true; return k; } }
  template <int C> [[gnu::noinline]] static void mstorek(const void* v, const void*, const void*, const void*, void* mem) { where(known<C>(), *(const V*)v).copy_to((U*)mem, F{}); }
  template <int C> [[gnu::noinline]] static void mloadk(const void* v, const void*, const void*, const void*, void* mem) { where(known<C>(), *(V*)v).copy_from((const U*)mem, F{}); }
  [[gnu::noinline]] static void store(const void* v, const void*, const void*, const void*, void* mem) { (*(const V*)v).copy_to((U*)mem, F{}); }
  [[gnu::noinline]] static void load(const void* v, const void*, const void*, const void*, void* mem) { ((V*)v)->copy_from((const U*)mem, F{}); }
  [[gnu::noinline]] static void ctor(const void* v, const void*, const void*, const void*, void* mem) { ::new ((void*)v) V((const U*)mem, F{}); }
  static void expectU(uint64_t s, void* o) { for (unsigned i = 0; i < N; ++i) put<U>(o, i, static_cast<U>(gen<T, U>(s, i))); }
  static void memfill(uint64_t s, void* o) { for (unsigned i = 0; i < N; ++i) put<U>(o, i, gen<U, T>(s, i)); }
  static void expectT(uint64_t s, void* o) { for (unsigned i = 0; i < N; ++i) put<T>(o, i, static_cast<T>(gen<U, T>(s, i))); }
  static void initT(uint64_t s, void* o) { for (unsigned i = 0; i < N; ++i) put<T>(o, i, gen<T, U>(s, i)); }
  [[gnu::noinline]] static void lanes(const void* v, void* o) { const V& x = *(const V*)v; for (unsigned i = 0; i < N; ++i) put<T>(o, i, static_cast<T>(x[i])); }
  static void reg(const std::string& base, int align, bool more = false) {
    auto add = [&](int kind, const char* kn, sim::Fn5 f, bool hm, int known = 0) {
      mem_ops().push_back({std::string(ISA "/") + base + "/" + kn, kind, stdx::is_simd_mask_v<V>, int(N), int(sizeof(T)), int(sizeof(U)), cmpsize<T>(), cmpsize<U>(), align,
                           ATOMIC<T, U>, hm, known, prep, f, expectU, memfill, expectT, lanes, initT});
    };
    if constexpr (bool(KINDS & K_MSTORE)) add(K_MSTORE, "masked_store", mstore, true);
    if constexpr (bool(KINDS & K_MLOAD)) add(K_MLOAD, "masked_load", mload, true);
    if constexpr (bool(KINDS & K_STORE)) add(K_STORE, "store", store, false);
    if constexpr (bool(KINDS & K_LOAD)) add(K_LOAD, "load", load, false);
    if constexpr (bool(KINDS & K_CTOR)) add(K_CTOR, "load_ctor", ctor, false);
#ifndef NO_KNOWN
    if constexpr (std::is_same_v<T, U> && std::is_same_v<F, stdx::element_aligned_tag>) {
      if constexpr (bool(KINDS & K_MSTORE)) { add(K_MSTORE, "masked_store_all", mstorek<1>, true, 1); add(K_MSTORE, "masked_store_third", mstorek<3>, true, 3); }
      if constexpr (bool(KINDS & K_MLOAD)) { add(K_MLOAD, "masked_load_all", mloadk<1>, true, 1); add(K_MLOAD, "masked_load_third", mloadk<3>, true, 3); }
    }
#endif
    if constexpr (bool(KINDS & K_MLOAD) && std::is_same_v<F, stdx::element_aligned_tag> && (std::is_same_v<T, U> || sizeof(T) == sizeof(U)))
      add(K_MLOAD, "masked_load_value", mloadv, true);
  }
};
// where(bool, T): the same interface for builtin types
template <class T, class U, class F> struct BFns {
  static void prep(void* slot, const uint8_t* sel, uint64_t vseed, uint32_t) { ::new (slot) T(gen<T, U>(vseed, 0)); ::new ((char*)slot + 8192) bool(sel[0]); }
  [[gnu::noinline]] static void mstore(const void* v, const void* k, const void*, const void*, void* mem) { stdx::where(*(const bool*)k, *(const T*)v).copy_to((U*)mem, F{}); }
  [[gnu::noinline]] static void mload(const void* v, const void* k, const void*, const void*, void* mem) { stdx::where(*(const bool*)k, *(T*)v).copy_from((const U*)mem, F{}); }
  [[gnu::noinline]] static void mloadv(const void* v, const void* k, const void*, const void*, void* mem) { const T& c = *(const T*)v; *(T*)v = stdx::where(*(const bool*)k, c).copy_from((const U*)mem, F{}); }
  static void lanes(const void* v, void* o) { put<T>(o, 0, *(const T*)v); }
  static void reg(const std::string& base) {
    using FN = Fns<stdx::simd<T, stdx::simd_abi::scalar>, T, U, F>;
    auto add = [&](int kind, const char* kn, sim::Fn5 f) {
      mem_ops().push_back({std::string(ISA "/") + base + "/" + kn, kind, false, 1, int(sizeof(T)), int(sizeof(U)), cmpsize<T>(), cmpsize<U>(), int(alignof(U)), ATOMIC<T, U>, true, 0, prep, f, FN::expectU, FN::memfill, FN::expectT, lanes, FN::initT}); };
    if constexpr (bool(KINDS & K_MSTORE)) add(K_MSTORE, "masked_store", mstore);
    if constexpr (bool(KINDS & K_MLOAD)) { add(K_MLOAD, "masked_load", mload); add(K_MLOAD, "masked_load_value", mloadv); }
  }
};
// mask with masked-load constructor: simd_mask(const bool*, const simd_mask&, flags)

template <class T> struct Nm;
#define NM(t, s) template <> struct Nm<t> { static constexpr const char* n = s; };
NM(char, "char") NM(signed char, "schar") NM(unsigned char, "uchar") NM(short, "short") NM(unsigned short, "ushort") NM(int, "int") NM(unsigned, "uint") NM(long, "long") NM(unsigned long, "ulong") NM(long long, "llong") NM(unsigned long long, "ullong") NM(float, "float") NM(double, "double") NM(long double, "ldouble") NM(wchar_t, "wchar") NM(char16_t, "char16") NM(char32_t, "char32") NM(bool, "bool")

using T = TT;
#ifndef USET
#define USET 0
#endif
#ifndef XS
#define XS 0
#endif
template <class U, class V> void reg_u(const char* abi, bool flags) {
  std::string b = std::string(Nm<T>::n) + "/" + abi + "/" + Nm<U>::n;
  Fns<V, T, U, stdx::element_aligned_tag>::reg(b + "/elem", alignof(U));
  if constexpr (std::is_same_v<T, U>) {
    Fns<V, T, U, stdx::vector_aligned_tag>::reg(b + "/vec", stdx::memory_alignment_v<V, U>);
    Fns<V, T, U, stdx::overaligned_tag<2 * alignof(U)>>::reg(b + "/over2x", 2 * alignof(U));
#if LEVEL >= 1
    Fns<V, T, U, stdx::overaligned_tag<1024>>::reg(b + "/over1024", 1024);
#endif
  }
}
// converting accesses with the stronger alignment promises
template <class U, class V> void reg_uf(const char* abi) {
  std::string b = std::string(Nm<T>::n) + "/" + abi + "/" + Nm<U>::n;
  if constexpr (!std::is_same_v<T, U>) Fns<V, T, U, stdx::vector_aligned_tag>::reg(b + "/vec", stdx::memory_alignment_v<V, U>);
}
template <class... U> struct List {};
#if LEVEL >= 2
using UL = List<signed char, unsigned short, int, long, float, double, unsigned char, short, unsigned, unsigned long, long double, char, wchar_t, char16_t, char32_t, long long>;
#elif defined NO_CVT
using UL = List<>;
#elif USET == 0
using UL = List<signed char, unsigned short, int, long, float, double>;
#else
using UL = List<unsigned char, short, unsigned, unsigned long, float, double>;
#endif
template <class V, class... U> void reg_ul(const char* abi, List<U...>) { ([&] { if constexpr (!std::is_same_v<T, U>) reg_u<U, V>(abi, false); }(), ...); }
template <class V, class... U> void reg_ulf(const char* abi, List<U...>) { (reg_uf<U, V>(abi), ...); }
template <class Abi> void reg_abi(const char* abi, int flags) {
  using V = stdx::simd<T, Abi>;
  if constexpr (std::is_default_constructible_v<V>) { reg_u<T, V>(abi, true); reg_ul<V>(abi, UL()); }
}
template <class Abi> void reg_abif(const char* abi) {
  using V = stdx::simd<T, Abi>;
  if constexpr (std::is_default_constructible_v<V>) {
#if LEVEL >= 1
    reg_ulf<V>(abi, UL());
#elif !defined NO_CVT
    reg_ulf<V>(abi, List<std::conditional_t<sizeof(T) == 8, int, double>>());
#endif
  }
}
template <class... U> void reg_builtin(List<U...>) { (BFns<T, U, stdx::element_aligned_tag>::reg(std::string(Nm<T>::n) + "/builtin/" + Nm<U>::n + "/elem"), ...); }
template <class Abi> void reg_mask(const char* abi) {
  using V = stdx::simd_mask<T, Abi>;
  if constexpr (std::is_default_constructible_v<stdx::simd<T, Abi>>) {
    std::string b = std::string("mask<") + Nm<T>::n + ">/" + abi + "/bool";
    Fns<V, bool, bool, stdx::element_aligned_tag>::reg(b + "/elem", 1);
    Fns<V, bool, bool, stdx::vector_aligned_tag>::reg(b + "/vec", stdx::memory_alignment_v<V>);
    Fns<V, bool, bool, stdx::overaligned_tag<2>>::reg(b + "/over2x", 2);
#if LEVEL >= 1
    Fns<V, bool, bool, stdx::overaligned_tag<1024>>::reg(b + "/over1024", 1024);
#endif
    if constexpr (bool(KINDS & K_MLOAD)) {
      using FN = Fns<V, bool, bool, stdx::element_aligned_tag>;
      mem_ops().push_back({std::string(ISA "/") + b + "/elem/masked_ctor", K_MLOAD, true, int(V::size()), 1, 1, 1, 1, 1, true, true, 0, FN::prep,
        [](const void* v, const void* k, const void*, const void*, void* mem) { V m((const bool*)mem, *(const V*)k, stdx::element_aligned); V& d = *(V*)v; where(*(const V*)k, d) = m; },
        FN::expectU, FN::memfill, FN::expectT, FN::lanes, FN::initT});
    }
  }
}
#ifndef MASKS
#define REG(abi, nm) reg_abi<abi>(nm, 0)
#else
#define REG(abi, nm) reg_mask<abi>(nm)
#endif
template <class T> void init() {
  constexpr int nat = int(stdx::native_simd<T>::size());
  using namespace stdx::simd_abi;
  [[maybe_unused]] constexpr int mx = max_fixed_size<T>;
  REG(scalar, "scalar");
  REG(native<T>, "native");
#ifdef __AVX512F__ // registers with vector masks are still there
  REG(_VecBuiltin<32>, "avx"); REG(_VecBuiltin<16>, "sse");
#endif
  if constexpr (nat > 2) { using A = deduce_t<T, nat / 2>; REG(A, "half"); }
  if constexpr (nat > 3) { using A = deduce_t<T, nat - 1>; REG(A, "native-1"); }
  if constexpr (nat != 3 && nat != 4) { using A = deduce_t<T, 3>; REG(A, "deduce3"); }
  if constexpr (constexpr int w = sim::other_width(nat, XS, 0); w > 0) { using A = deduce_t<T, w>; static const std::string nm = "w" + std::to_string(w); REG(A, nm.c_str()); }
  if constexpr (constexpr int w = sim::other_width(nat, XS, 1); w > 0) { using A = deduce_t<T, w>; static const std::string nm = "w" + std::to_string(w); REG(A, nm.c_str()); }
#ifndef MASKS
  reg_abif<native<T>>("native");
  if constexpr (nat > 3) reg_abif<deduce_t<T, nat - 1>>("native-1");
  reg_abif<fixed_size<std::min(mx - 1, nat + 5)>>("fixed_nat+5");
  reg_builtin(UL());
#endif
  REG(fixed_size<1>, "fixed1");
  REG(fixed_size<3>, "fixed3");
  REG(fixed_size<7>, "fixed7");
  { using A = fixed_size<std::min(mx - 1, nat + 5)>; REG(A, "fixed_nat+5"); }
  REG(fixed_size<mx>, "fixed_max");
}
struct Init { Init() { init<TT>(); } } init_;
} // namespace
