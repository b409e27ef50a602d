// Event flags of var/flags.cc against set semantics on a bit mask.  Never executed.
#define main flags_main
#include "flags.cc"
#undef main
#define X extern "C"
using U = Sp3Flag::uitype;
static Sp3Event ev(unsigned e) { return static_cast<Sp3Event>(e % 16); }
#define OKE(e) if (e > 11) return
#define BIT(b, e) (((b) >> (e)) & U(1))
static void out(const Sp3Flag &f, bool *o) { for (unsigned k = 0; k < 12; k++) o[k] = f.is_set(ev(k)); o[12] = f.is_clean(); }
static void ref(U b, bool *o) { for (unsigned k = 0; k < 12; k++) o[k] = BIT(b, k); o[12] = (b & 0xFFF) == 0; }
// the flag reached from the events of the mask m
static Sp3Flag from(unsigned m) { Sp3Flag f; for (unsigned k = 0; k < 12; k++) if ((m >> k) & 1) f.set(ev(k)); return f; }
X void impl_state(unsigned m, bool *o) { out(from(m), o); }
X void spec_state(unsigned m, bool *o) { ref(m & 0xFFF, o); }
X void impl_set(unsigned m, unsigned e, bool *o) { OKE(e); Sp3Flag f = from(m); f.set(ev(e)); out(f, o); }
X void spec_set(unsigned m, unsigned e, bool *o) { OKE(e); ref((m & 0xFFF) | (1u << e), o); }
X void impl_clear(unsigned m, unsigned e, bool *o) { OKE(e); Sp3Flag f = from(m); f.clear(ev(e)); out(f, o); }
X void spec_clear(unsigned m, unsigned e, bool *o) { OKE(e); ref((m & 0xFFF) & ~(1u << e), o); }
X void impl_reset(unsigned m, bool *o) { Sp3Flag f = from(m); f.reset(); out(f, o); }
X void spec_reset(unsigned m, bool *o) { ref(0, o); }
X bool impl_query(unsigned m, unsigned e) { if (e > 11) return false; return from(m).is_set(ev(e)); }
X bool spec_query(unsigned m, unsigned e) { if (e > 11) return false; return BIT(m, e); }
X void impl_two(unsigned a, unsigned b, bool *o) { OKE(a); OKE(b); Sp3Flag f; f.set(ev(a) | ev(b)); out(f, o); }
X void spec_two(unsigned a, unsigned b, bool *o) { OKE(a); OKE(b); ref((1u << a) | (1u << b), o); }
X void impl_three(unsigned a, unsigned b, unsigned c, bool *o) { OKE(a); OKE(b); OKE(c); Sp3Flag f; f.set(ev(a) | ev(b) | ev(c)); out(f, o); }
X void spec_three(unsigned a, unsigned b, unsigned c, bool *o) { OKE(a); OKE(b); OKE(c); ref((1u << a) | (1u << b) | (1u << c), o); }
X void impl_twelve(bool *o) {
  Sp3Flag f;
  f.set(ev(0) | ev(1) | ev(2) | ev(3) | ev(4) | ev(5) | ev(6) | ev(7) | ev(8) | ev(9) | ev(10) | ev(11));
  out(f, o);
}
X void spec_twelve(bool *o) { ref(0xFFF, o); }
X void impl_undo(unsigned m, unsigned e, bool *o) { OKE(e); Sp3Flag f = from(m); f.set(ev(e)); f.clear(ev(e)); f.set(ev(e)); out(f, o); }
X void spec_undo(unsigned m, unsigned e, bool *o) { OKE(e); ref((m & 0xFFF) | (1u << e), o); }
