// A transfer library whose session records its options and whose transfers
// are arbitrary.  Never executed.
#pragma once
#include <cstddef>
#include <type_traits>
#define CURL_GLOBAL_SSL 1
#define CURL_GLOBAL_WIN32 2
#define CURL_GLOBAL_ALL 3
#define CURL_GLOBAL_DEFAULT 3
#define CURL_GLOBAL_NOTHING 0
enum CURLcode { CURLE_OK = 0, CURLE_UNSUPPORTED_PROTOCOL, CURLE_FAILED_INIT, CURLE_URL_MALFORMAT, CURLE_COULDNT_RESOLVE_HOST = 6, CURLE_COULDNT_CONNECT = 7, CURLE_HTTP_RETURNED_ERROR = 22, CURLE_WRITE_ERROR = 23, CURLE_READ_ERROR = 26, CURLE_OUT_OF_MEMORY = 27, CURLE_OPERATION_TIMEDOUT = 28, CURLE_ABORTED_BY_CALLBACK = 42, CURLE_BAD_FUNCTION_ARGUMENT = 43, CURLE_GOT_NOTHING = 52, CURLE_RECV_ERROR = 56, CURL_LAST = 99 };
enum CURLoption { CURLOPT_WRITEDATA = 10001, CURLOPT_URL = 10002, CURLOPT_ERRORBUFFER = 10010, CURLOPT_WRITEFUNCTION = 20011, CURLOPT_TIMEOUT = 13, CURLOPT_USERAGENT = 10018, CURLOPT_VERBOSE = 41, CURLOPT_HEADER = 42, CURLOPT_NOPROGRESS = 43, CURLOPT_NOBODY = 44, CURLOPT_FAILONERROR = 45, CURLOPT_FOLLOWLOCATION = 52, CURLOPT_SSL_VERIFYPEER = 64, CURLOPT_MAXREDIRS = 68, CURLOPT_CONNECTTIMEOUT = 78, CURLOPT_SSL_VERIFYHOST = 81, CURLOPT_NOSIGNAL = 99 };
typedef CURLoption curl_option;
extern "C" bool pure_fails(int when) __attribute__((const));
extern "C" bool pure_early(int when) __attribute__((const));
static inline int some_code(int when) { return pure_early(when) ? 7 : 56; }
extern "C" bool pure_refused() __attribute__((const));
extern "C" bool pure_chunk(int k) __attribute__((const));
extern "C" long pure_size(int k) __attribute__((const));
struct Session {
  const char *url;
  bool url_set, fail, nobody, header;
  std::size_t (*fn)(void *, std::size_t, std::size_t, void *);
  void *stream;
};
struct World {
  bool there, fresh, open;       // the local file exists, has new content, is open
  long written;
  int opens, transfers, sessions, wrong;
  Session s;
};
static World world;
static char vp_data[16];
typedef Session CURL;
static std::size_t plain_write(void *p, std::size_t a, std::size_t b, void *f);
static inline CURLcode curl_global_init(long) { return CURLE_OK; }
static inline void curl_global_cleanup() {}
static inline CURL *curl_easy_init() {
  ++world.sessions;
  world.s.url = nullptr; world.s.url_set = world.s.fail = world.s.nobody = world.s.header = false; world.s.fn = plain_write; world.s.stream = nullptr;
  return &world.s;
}
template <typename T> static inline CURLcode curl_easy_setopt(CURL *h, CURLoption o, T v) {
  if (!h) return CURLE_BAD_FUNCTION_ARGUMENT;
  if constexpr (std::is_pointer_v<T>) {
    if constexpr (std::is_function_v<std::remove_pointer_t<T>>) { if (o == CURLOPT_WRITEFUNCTION) h->fn = (std::size_t(*)(void *, std::size_t, std::size_t, void *))v; }
    else {
      if (o == CURLOPT_WRITEDATA) h->stream = (void *)v;
      if constexpr (std::is_convertible_v<T, const char *>) if (o == CURLOPT_URL) { h->url = v; h->url_set = true; }
    }
  } else if constexpr (std::is_integral_v<T>) {
    if (o == CURLOPT_FAILONERROR) h->fail = v != 0;
    if (o == CURLOPT_NOBODY) h->nobody = v != 0;
    if (o == CURLOPT_HEADER) h->header = v != 0;
  }
  return CURLE_OK;
}
static inline CURLcode curl_easy_perform(CURL *h) {
  if (!h) return CURLE_BAD_FUNCTION_ARGUMENT;
  ++world.transfers;
  if (!h->url_set || h->url[0] != 'u') { ++world.wrong; return CURLE_URL_MALFORMAT; }
  if (h->header || h->nobody) ++world.wrong;
  if (pure_fails(0)) return (CURLcode)some_code(0);
  if (pure_refused() && h->fail) return CURLE_HTTP_RETURNED_ERROR;
  for (int k = 0; k < 2; k++) {
    if (!pure_chunk(k)) return pure_fails(k + 1) ? (CURLcode)some_code(k + 1) : CURLE_OK;
    if (h->fn(vp_data, 1, (std::size_t)pure_size(k), h->stream) != (std::size_t)pure_size(k)) return CURLE_WRITE_ERROR;
  }
  return pure_fails(3) ? (CURLcode)some_code(3) : CURLE_OK;
}
static inline void curl_easy_cleanup(CURL *h) { if (h) --world.sessions; }
static inline const char *curl_easy_strerror(CURLcode) { return "x"; }
