// Every copy into a text field of the header reader, with the room and the
// number of characters.  Never executed.
#include <cassert>
#include <cctype>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <string>
#include <algorithm>
#include <limits>
#include <cmath>
extern "C" void note_copy(long room, long n);
extern "C" void read_line(char *);
extern "C" bool some_state(int);
extern "C" int isspace(int) noexcept __attribute__((const));
template <typename D> __attribute__((always_inline)) __attribute__((always_inline)) static inline void vp_copy_(D &d, std::size_t n) {
  // a destination that is an array knows its room
  if constexpr (std::is_array_v<D>) note_copy((long)sizeof(d), (long)n);
}
struct vp_string_ { const char *s; vp_string_(const char *c) : s(c) {} const char *c_str() const { return s; } const char *data() const { return s; } };
struct vp_ifstream_ {
  typedef long pos_type;
  template <typename T> vp_ifstream_(T, int = 0) {}
  bool is_open() const { return some_state(0); }
  vp_ifstream_ &seekg(long) { return *this; }
  long tellg() { return 0; }
  vp_ifstream_ &getline(char *b, long) { read_line(b); return *this; }
  bool fail() const { return some_state(1); }
  bool bad() const { return some_state(1); }
  bool eof() const { return some_state(2); }
  bool good() const { return some_state(3); }
  explicit operator bool() const { return some_state(4); }
  bool operator!() const { return !some_state(4); }
  void clear() {}
  void close() {}
};
template <typename... T> static inline int vp_fprintf(T...) { return 0; }
namespace std { typedef ::vp_ifstream_ vp_ifstream; typedef ::vp_string_ vp_string; using ::vp_fprintf; }
#define ifstream vp_ifstream
#define string vp_string
#define fprintf vp_fprintf
namespace std { template <typename D> __attribute__((always_inline)) static inline void vp_copy(D &d, const char *, std::size_t n) { vp_copy_(d, n); } }
using std::vp_copy;
#define strncpy vp_copy
#define memcpy vp_copy
#define private public
#include "icgemio_rdhead.cpp"
#undef private
extern "C" int copies_head(dso::Icgem *f) { return f->parse_header(); }
