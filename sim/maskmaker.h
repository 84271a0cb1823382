namespace {
// A mask with the given lanes, obtained in different ways; what the operations leave in the unused part of a
// partially filled register is part of the scenario.
template <class M> struct MaskMaker {
  using W = typename M::simd_type; using E = typename W::value_type; static constexpr unsigned N = M::size();
  [[gnu::noinline]] static M lanes(M k, const uint8_t* sel, uint8_t inv) { for (unsigned i = 0; i < N; ++i) k[i] = (sel[i] != 0) != (inv != 0); return k; }
  [[gnu::noinline]] static W vec(E pad, const uint8_t* sel, E t, E f) { W x(pad); for (unsigned i = 0; i < N; ++i) x[i] = sel[i] ? t : f; return x; }
  [[gnu::noinline]] static M make(const uint8_t* sel, uint32_t how) {
    switch (how % 12) {
      case 1: return lanes(M(true), sel, 0);
      case 2: return !lanes(M(false), sel, 1);
      case 3: return vec(E(1), sel, E(1), E(0)) == W(E(1));
      case 4: return vec(E(1), sel, E(1), E(0)) != W(E(0));
      case 5: return !(vec(E(1), sel, E(1), E(0)) == W(E(0)));
      case 6: return lanes(M(false), sel, 0) | (vec(E(3), sel, E(2), E(2)) == W(E(3)));
      case 7: return !(lanes(M(true), sel, 1) ^ (vec(E(3), sel, E(2), E(2)) != W(E(2))));
      case 8: return vec(E(1), sel, E(1), E(0)) > W(E(0));
      case 9: return vec(E(0), sel, E(0), E(1)) <= W(E(0));
      case 10: if constexpr (N <= 32) { stdx::fixed_size_simd_mask<short, N> f(false); for (unsigned i = 0; i < N; ++i) f[i] = !sel[i]; return stdx::__proposed::static_simd_cast<M>(!f); } break;
      case 11: return M(true) && lanes(!M(false), sel, 0);
    }
    return lanes(M(false), sel, 0);
  }
};
} // namespace
namespace sim {
// The widths 2..nat-2 are too many to compile all of them for every ISA and element type: a translation unit gets the
// j-th of those chosen by s, and neighbouring s get others.  3 and nat/2 are always there.
constexpr int other_width(int nat, int s, int j) {
  int c[64] = {}, n = 0;
  for (int w = 2; w <= nat - 2; ++w) if (w != 3 && w != nat / 2) c[n++] = w;
  return n == 0 || (j && n == 1) ? 0 : c[(s * 5 + j * ((n + 1) / 2)) % n];
}
} // namespace sim
