// EnumBitset against mask operations.  Never executed.
#include <initializer_list>
#include "enum_bitset.hpp"
#define X extern "C"
enum class F1 : unsigned char { a };
enum class F2 : int { a };
enum class F3 : unsigned long { a };
template <typename F> static void out(const dso::EnumBitset<F> &f, F q, bool *o) { o[0] = f.check(q); o[1] = f.is_clean(); }
template <typename U> static void ref(U b, U q, bool *o) { o[0] = (b & q) != 0; o[1] = b == 0; }
#define ALL(T, F, U) \
  X void impl_init_##T(U a, U q, bool *o) { out(dso::EnumBitset<F>(F(a)), F(q), o); } \
  X void spec_init_##T(U a, U q, bool *o) { ref<U>(a, q, o); } \
  X void impl_empty_##T(U q, bool *o) { out(dso::EnumBitset<F>(), F(q), o); } \
  X void spec_empty_##T(U q, bool *o) { ref<U>(0, q, o); } \
  X void impl_list_##T(U a, U b, U c, U q, bool *o) { out(dso::EnumBitset<F>({F(a), F(b), F(c)}), F(q), o); } \
  X void spec_list_##T(U a, U b, U c, U q, bool *o) { ref<U>(a | b | c, q, o); } \
  X void impl_set_##T(U a, U b, U q, bool *o) { dso::EnumBitset<F> f{F(a)}; f.set(F(b)); out(f, F(q), o); } \
  X void spec_set_##T(U a, U b, U q, bool *o) { ref<U>(a | b, q, o); } \
  X void impl_chain_##T(U a, U b, U c, U q, bool *o) { dso::EnumBitset<F> f{F(a)}; f.set(F(b)).clear(F(c)).set(F(a)); out(f, F(q), o); } \
  X void spec_chain_##T(U a, U b, U c, U q, bool *o) { ref<U>(((a | b) & ~c) | a, q, o); } \
  X void impl_clear_##T(U a, U b, U q, bool *o) { dso::EnumBitset<F> f{F(a)}; f.clear(F(b)); out(f, F(q), o); } \
  X void spec_clear_##T(U a, U b, U q, bool *o) { ref<U>(a & ~b, q, o); } \
  X void impl_wipe_##T(U a, U q, bool *o) { dso::EnumBitset<F> f{F(a)}; f.clear(); out(f, F(q), o); } \
  X void spec_wipe_##T(U a, U q, bool *o) { ref<U>(0, q, o); } \
  X bool impl_same_##T(U a, U b) { return dso::EnumBitset<F>{F(a)} == dso::EnumBitset<F>{F(b)}; } \
  X bool spec_same_##T(U a, U b) { return a == b; } \
  X bool impl_other_##T(U a, U b) { return dso::EnumBitset<F>{F(a)} != dso::EnumBitset<F>{F(b)}; } \
  X bool spec_other_##T(U a, U b) { return a != b; }
ALL(uchar, F1, unsigned char)
ALL(int, F2, int)
ALL(ulong, F3, unsigned long)
