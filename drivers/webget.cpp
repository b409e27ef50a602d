// The download function against a reference in a world of one local file, an
// arbitrary transfer and arbitrary failures.  Never executed.
#include <cassert>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <filesystem>
#include <fstream>
#include <string>
#include <system_error>
#include <unistd.h>
#include <sys/stat.h>
#include <curl/curl.h>
extern "C" bool pure_there() __attribute__((const));
extern "C" bool pure_opens() __attribute__((const));
extern "C" bool pure_lost() __attribute__((const));
extern "C" bool pure_taken(int k) __attribute__((const));
extern "C" long pure_part(int k) __attribute__((const));
static int the_file[4];
static int writes;
static inline FILE *vp_fopen(const char *n, const char *m) {
  if (n[0] != 'l') ++world.wrong;
  if (!pure_opens()) return nullptr;
  ++world.opens;
  if (m[0] == 'w') { world.fresh = true; world.written = 0; }
  else ++world.wrong;
  world.there = true; world.open = true;
  return (FILE *)the_file;
}
static inline std::size_t vp_fwrite(const void *p, std::size_t a, std::size_t b, FILE *f) {
  if (f != (FILE *)the_file || !world.open || p != (void *)vp_data) { ++world.wrong; return 0; }
  int k = writes++;
  std::size_t r = pure_taken(k) ? b : (std::size_t)pure_part(k);
  world.written += (long)(a * r);
  return r;
}
static std::size_t plain_write(void *p, std::size_t a, std::size_t b, void *f) { return vp_fwrite(p, a, b, (FILE *)f); }
static inline int vp_fclose(FILE *f) {
  if (f != (FILE *)the_file || !world.open) { ++world.wrong; return -1; }
  world.open = false;
  return pure_lost() ? -1 : 0;
}
static inline int vp_fflush(FILE *) { return 0; }
static inline int vp_ferror(FILE *) { return 0; }
static inline int vp_remove(const char *n) { if (n[0] != 'l') ++world.wrong; world.there = false; world.fresh = false; return 0; }
static inline int vp_unlink(const char *n) { return vp_remove(n); }
static inline int vp_access(const char *n, int) { if (n[0] != 'l') ++world.wrong; return world.there ? 0 : -1; }
template <typename... T> static inline int vp_fprintf(T...) { return 0; }
namespace std {
using ::vp_fopen; using ::vp_fwrite; using ::vp_fclose; using ::vp_remove; using ::vp_fprintf; using ::vp_fflush; using ::vp_ferror;
namespace vp_filesystem {
struct path { const char *s; path(const char *c) : s(c) {} const char *c_str() const { return s; } };
struct file_status { bool there; };
static inline bool exists(const path &p) { return vp_access(p.s, 0) == 0; }
static inline bool exists(const path &p, std::error_code &) { return vp_access(p.s, 0) == 0; }
static inline bool exists(file_status s) { return s.there; }
static inline file_status status(const path &p) { return file_status{vp_access(p.s, 0) == 0}; }
static inline file_status status(const path &p, std::error_code &) { return file_status{vp_access(p.s, 0) == 0}; }
static inline bool is_regular_file(const path &p) { return vp_access(p.s, 0) == 0; }
static inline bool is_regular_file(const path &p, std::error_code &) { return vp_access(p.s, 0) == 0; }
static inline bool is_regular_file(file_status s) { return s.there; }
static inline bool vp_remove(const path &p) { return ::vp_remove(p.s) == 0; }
static inline bool vp_remove(const path &p, std::error_code &) { return ::vp_remove(p.s) == 0; }
}
}
#define fopen vp_fopen
#define fwrite vp_fwrite
#define fclose vp_fclose
#define fflush vp_fflush
#define ferror vp_ferror
#define remove vp_remove
#define unlink vp_unlink
#define access vp_access
#define fprintf vp_fprintf
#define filesystem vp_filesystem
#include "http_get.cpp"
#define X extern "C"
static inline __attribute__((always_inline)) void start() { world = World{}; world.there = pure_there(); writes = 0; }
static inline __attribute__((always_inline)) int result(int s, int *o, long *n) {
  o[0] = world.there; o[1] = world.fresh; o[2] = world.open; o[3] = world.transfers > 0; o[4] = world.sessions; o[5] = world.wrong; o[6] = s < 0;
  n[0] = world.there && world.fresh ? world.written : -1;
  return s != 0;
}
// the transfer of the reference
static inline bool arrives(long &w) {
  w = 0;
  if (pure_fails(0) || pure_refused()) return false;
  for (int k = 0; k < 2; k++) {
    if (!pure_chunk(k)) return !pure_fails(k + 1);
    long t = pure_taken(k) ? pure_size(k) : pure_part(k);
    w += t;
    if (t != pure_size(k)) return false;
  }
  return !pure_fails(3);
}
static inline __attribute__((always_inline)) int wanted(bool force, int *o, long *n) {
  bool there = pure_there(), fresh = false;
  int s; long w = 0; bool tried = false;
  if (!force && there) s = -1;
  else if (!pure_opens()) s = 1;
  else {
    tried = true;
    bool ok = arrives(w) && !pure_lost();
    s = ok ? 0 : 1;
    there = fresh = ok;
  }
  o[0] = there; o[1] = fresh; o[2] = 0; o[3] = tried; o[4] = 0; o[5] = 0; o[6] = s < 0;
  n[0] = fresh ? w : -1;
  return s != 0;
}
X int impl_get(bool force, int *o, long *n) { start(); int s = dso::http_get("u", "l", force); return result(s, o, n); }
X int spec_get(bool force, int *o, long *n) { return wanted(force, o, n); }
X int impl_usual(int *o, long *n) { start(); int s = dso::http_get("u", "l"); return result(s, o, n); }
X int spec_usual(int *o, long *n) { return wanted(false, o, n); }
