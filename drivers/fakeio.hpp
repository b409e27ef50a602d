// Abstract files and text conversion: a line is a kind and a row of tokens
// whose values are uninterpreted functions of the place in the file.
#pragma once
#include <cassert>
#include <cctype>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <string>
#include <algorithm>
#include <limits>
#include <cmath>
extern "C" bool pure_opens(int name) __attribute__((const));
// there is a line after the first k lines from the place p
extern "C" bool pure_more(int p, int k) __attribute__((const));
extern "C" bool pure_unterminated(int place) __attribute__((const));
#ifndef LINES
#define LINES 2
#endif
// what the line number k (from 1) after the place p holds; defined by the driver
static inline void fill_line(int p, int k, char *b);
// there is a line after line k
static inline bool more_lines(int p, int k);
struct vp_string_ {
  const char *s;
  vp_string_(const char *c) : s(c) {}
  const char *c_str() const { return s; }
  const char *data() const { return s; }
};
struct vp_ifstream_ {
  typedef long pos_type;
  bool open_, failed_, eof_;
  int place, line;
  vp_ifstream_(const char *n, int = 0) : open_(pure_opens(n[0])), failed_(!open_), eof_(false), place(0), line(0) {}
  vp_ifstream_(const vp_string_ &n, int = 0) : vp_ifstream_(n.c_str()) {}
  bool is_open() const { return open_; }
  vp_ifstream_ &seekg(long p) { if (!failed_) { place = (int)p; line = 0; } return *this; }
  long tellg() { return failed_ ? -1 : place + line; }
  vp_ifstream_ &getline(char *b, long) {
    if (!failed_) {
      if (!more_lines(place, line)) { failed_ = true; eof_ = true; b[0] = 0; }
      else {
        ++line;
        fill_line(place, line, b);
        if (!more_lines(place, line) && pure_unterminated(place)) eof_ = true;
      }
    } else b[0] = 0;
    return *this;
  }
  bool fail() const { return failed_; }
  bool bad() const { return false; }
  bool eof() const { return eof_; }
  bool good() const { return !failed_ && !eof_; }
  explicit operator bool() const { return !failed_; }
  bool operator!() const { return failed_; }
  void clear() { failed_ = false; eof_ = false; }
  void close() { open_ = false; }
};
static inline std::size_t vp_strlen(const char *s) { std::size_t n = 0; while (s[n]) ++n; return n; }
static inline int vp_strncmp(const char *a, const char *b, std::size_t n) {
  for (std::size_t i = 0; i < n; i++) {
    if (a[i] != b[i]) return (unsigned char)a[i] < (unsigned char)b[i] ? -1 : 1;
    if (!a[i]) return 0;
  }
  return 0;
}
// keywords are shorter than 32 characters
static inline int vp_strcmp(const char *a, const char *b) { return vp_strncmp(a, b, 32); }
static inline int vp_isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
namespace std {
using ::vp_isspace; using ::vp_strcmp; using ::vp_strlen; using ::vp_strncmp;
typedef ::vp_ifstream_ vp_ifstream;
typedef ::vp_string_ vp_string;
}
// messages are of no interest
template <typename... T> static inline int vp_fprintf(T...) { return 0; }
namespace std { using ::vp_fprintf; }
#define fprintf vp_fprintf
