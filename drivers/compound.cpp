// Packed measurement flags of var/compound_measurement.cc.  Never executed.
#define main compound_main
#include "compound_measurement.cc"
#undef main
#define X extern "C"
using u8 = unsigned char;
static Flag mk(u8 a, u8 b, u8 m) { Flag f; f.set_flag1(a); f.set_flag2(b); f.set_missing(m); return f; }
static void out(const Flag &f, int *o) { o[0] = f.get_flag1(); o[1] = f.get_flag2(); o[2] = f.get_missing(); }
static void ref(u8 a, u8 b, u8 m, int *o) { o[0] = a; o[1] = b; o[2] = m; }
X void impl_fresh(int *o) { out(Flag(), o); }
X void spec_fresh(int *o) { ref(0, 0, 0, o); }
X void impl_state(u8 a, u8 b, u8 m, int *o) { out(mk(a, b, m), o); }
X void spec_state(u8 a, u8 b, u8 m, int *o) { ref(a, b, m, o); }
X void impl_flag1(u8 a, u8 b, u8 m, u8 v, int *o) { Flag f = mk(a, b, m); f.set_flag1(v); out(f, o); }
X void spec_flag1(u8 a, u8 b, u8 m, u8 v, int *o) { ref(v, b, m, o); }
X void impl_flag2(u8 a, u8 b, u8 m, u8 v, int *o) { Flag f = mk(a, b, m); f.set_flag2(v); out(f, o); }
X void spec_flag2(u8 a, u8 b, u8 m, u8 v, int *o) { ref(a, v, m, o); }
X void impl_missing(u8 a, u8 b, u8 m, u8 v, int *o) { Flag f = mk(a, b, m); f.set_missing(v); out(f, o); }
X void spec_missing(u8 a, u8 b, u8 m, u8 v, int *o) { ref(a, b, v, o); }
X void impl_other_order(u8 a, u8 b, u8 m, int *o) { Flag f; f.set_missing(m); f.set_flag2(b); f.set_flag1(a); out(f, o); }
X void spec_other_order(u8 a, u8 b, u8 m, int *o) { ref(a, b, m, o); }
#ifdef VALUES
// the value of a measurement depends on its flags the same way in every layout
static double value(bool gone, int f1, int f2, double v) { return gone ? -999.99 : f1 > 16 ? v + 1e3 : f2 < 16 ? v - 1e-3 : v / 1e3; }
X double impl_value1(double v, int missing, int a, int b) { Measurement1 m; m.val_ = v; m.missing_ = missing != 0; m.flagm1_ = a > 16 ? 20 : 3; m.flagm2_ = b < 16 ? 2 : 50; return foo1(m); }
X double spec_value1(double v, int missing, int a, int b) { return value(missing != 0, a, b, v); }
X double impl_value2(double v, int a, int b) { Measurement2 m; m.val_ = v; m.flagm1_ = a > 16 ? 20 : 3; m.flagm2_ = b < 16 ? 2 : 50; return foo1(m); }
X double spec_value2(double v, int a, int b) { return value(v == MISSING, a, b, v); }
X double impl_value3(double v, int missing, int a, int b) { Measurement3 m; m.val_ = v; m.flag_.set_missing(missing != 0); m.flag_.set_flag1(a > 16 ? 20 : 3); m.flag_.set_flag2(b < 16 ? 2 : 50); return foo1(m); }
X double spec_value3(double v, int missing, int a, int b) { return value(missing != 0, a, b, v); }
#endif
