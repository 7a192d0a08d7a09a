// Log messages, how they should come out, and a reader for log files.
#ifndef VERIF_C24_LOG_H_
#define VERIF_C24_LOG_H_
#include <sys/time.h>
#include <time.h>
#include <sstream>
#include <thread>
#include "posix_common.h"

namespace logs {
inline std::string this_thread() {
  std::ostringstream o;
  o << std::this_thread::get_id();
  return o.str();
}
struct Msg {
  int kind = 0;
  std::string a, b;
  int i = 0, w = 0;
  unsigned long long u = 0;
  double d = 0;
};
inline Msg gen(pbt::Ctx& c, const std::string& tag, size_t header) {
  Msg m;
  m.kind = (int)c.weighted({6, 2, 2, 2, 1, 1, 1, 1, 1, 1});
  size_t len;
  switch (c.weighted({3, 6, 2, 1, 1})) {
    case 0:
      len = c.below(40);
      break;
    case 1:  // around the size of any fixed buffer
    {
      static const size_t edges[] = {512, 511, 1024, 256, 128, 4096, 8192, 2048};
      size_t e = edges[c.weighted({10, 2, 2, 1, 1, 3, 1, 1})];
      size_t spread = c.chance(1, 4) ? 140 : 6;
      long v = (long)e - (long)(c.chance(1, 4) ? 0 : header + tag.size()) - (long)spread / 2 + (long)c.below(spread);
      len = v < 0 ? 0 : (size_t)v;
      break;
    }
    case 2:
      len = c.below(2000);
      break;
    case 3:
      len = 4000 + c.below(10000);
      break;
    default:
      len = (size_t)c.u64(300000);
  }
  std::string s;
  switch (c.weighted({4, 1, 1, 1, 1})) {
    case 0:
      s = std::string(len, 'a' + (char)c.below(26));
      break;
    case 1:
      s = pbt::Ctx::pattern(c.below(1000), len);
      break;
    case 2:  // lines
      for (size_t i = 0; i < len; i++) s += i % 7 == 3 ? '\n' : (char)('0' + i % 10);
      break;
    case 3:  // looks like formats
      for (size_t i = 0; i < len; i++) s += "%s%n%d%5"[i % 8];
      break;
    default:
      s = std::string(len, '\xff');
  }
  for (auto& ch : s)
    if (ch == 0) ch = 1;
  switch (c.weighted({6, 2, 1, 1})) {
    case 1:
      s += '\n';
      break;
    case 2:
      s += "\n\n";
      break;
    case 3:
      s += "\r";
      break;
  }
  m.a = tag + s;
  m.b = std::string(c.below(20), 'b');
  m.i = (int)c.u64(0xffffffffu);
  m.w = (int)c.below(30);
  m.u = c.u64();
  m.d = (double)m.i / 7;
  return m;
}
#define LOG_KINDS(CALL)                                            \
  switch (m.kind) {                                                \
    case 0:                                                        \
      CALL("%s", m.a.c_str());                                     \
      break;                                                       \
    case 1:                                                        \
      CALL("%s%d", m.a.c_str(), m.i);                              \
      break;                                                       \
    case 2:                                                        \
      CALL("%s%d %s\n", m.a.c_str(), m.i, m.b.c_str());            \
      break;                                                       \
    case 3:                                                        \
      CALL("%s%*d %llu %s %.3f", m.a.c_str(), m.w, m.i, m.u, m.b.c_str(), m.d); \
      break;                                                       \
    case 4:                                                        \
      CALL("%.*s", (int)m.a.size(), m.a.c_str());                  \
      break;                                                       \
    case 5:                                                        \
      CALL("%s%%", m.a.c_str());                                   \
      break;                                                       \
    case 6:                                                        \
      CALL("%s%c", m.a.c_str(), '\n');                             \
      break;                                                       \
    case 7:                                                        \
      CALL("%s%c%s", m.a.c_str(), 0, m.b.c_str());                 \
      break;                                                       \
    case 8:                                                        \
      CALL("%s%a%d%e%d%s%llx", m.a.c_str(), m.d, m.i, m.d * 3, m.w, m.b.c_str(), m.u); \
      break;                                                       \
    case 9:                                                        \
      CALL("%s%s%s%s%s%s%s%s%d", m.a.c_str(), "1", "2", "3", "4", "5", "6", "7", m.w); \
      break;                                                       \
  }
inline std::string text(const Msg& m) {
  std::string out;
  int n = 0;
#define CALL_(...)                          \
  n = snprintf(nullptr, 0, __VA_ARGS__);    \
  out.resize(n + 1);                        \
  snprintf(&out[0], n + 1, __VA_ARGS__);    \
  out.resize(n)
  LOG_KINDS(CALL_)
#undef CALL_
  if (out.empty() || out.back() != '\n') out += '\n';
  return out;
}
inline void log(lsmdb::Logger* l, const Msg& m) {
#define CALL_(...) lsmdb::Log(l, __VA_ARGS__)
  LOG_KINDS(CALL_)
#undef CALL_
}
inline void direct_v(lsmdb::Logger* l, const char* f, ...) {
  va_list ap;
  va_start(ap, f);
  l->Logv(f, ap);
  va_end(ap);
}
inline void direct(lsmdb::Logger* l, const Msg& m) {
#define CALL_(...) direct_v(l, __VA_ARGS__)
  LOG_KINDS(CALL_)
#undef CALL_
}
// Parses "YYYY/MM/DD-HH:MM:SS.uuuuuu ID " at pos; returns the position behind it, or npos.
// The time, as the microseconds that would be printed that way.
struct Head {
  std::string stamp, id;
};
inline size_t head(const std::string& s, size_t pos, Head* h) {
  static const char pat[] = "dddd/dd/dd-dd:dd:dd.dddddd ";
  // years of more than four digits take more room
  size_t y = pos;
  while (y < s.size() && isdigit((unsigned char)s[y])) y++;
  if (y - pos < 4 || y - pos > 9) return std::string::npos;
  size_t p = y - 4;
  for (const char* q = pat; *q; q++, p++) {
    if (p >= s.size()) return std::string::npos;
    if (*q == 'd' ? !isdigit((unsigned char)s[p]) : s[p] != *q) return std::string::npos;
  }
  h->stamp = s.substr(pos, p - 1 - pos);
  size_t e = s.find(' ', p);
  if (e == std::string::npos || e == p || e - p > 40) return std::string::npos;
  h->id = s.substr(p, e - p);
  return e + 1;
}
inline std::string stamp(struct timeval tv) {
  time_t t = tv.tv_sec;
  struct tm tm;
  localtime_r(&t, &tm);
  return pbt::strf("%04d/%02d/%02d-%02d:%02d:%02d.%06d", tm.tm_year + 1900, tm.tm_mon + 1, tm.tm_mday, tm.tm_hour, tm.tm_min, tm.tm_sec, (int)tv.tv_usec);
}
}  // namespace logs
#endif
