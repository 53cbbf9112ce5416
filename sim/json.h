// Minimal JSON reader.  Strings are latin-1: \u00XX is one byte.
#pragma once
#include <string>
#include <vector>
#include <map>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <stdexcept>
struct J {
  enum T { NUL, BOOL, NUM, STR, ARR, OBJ } t = NUL;
  double d = 0; int64_t i = 0; std::string s; std::vector<J> a; std::map<std::string, J> o;
  const J& operator[](const char* k) const { static J nul; if (t != OBJ) return nul; auto it = o.find(k); return it == o.end() ? nul : it->second; }
  bool has(const char* k) const { return t == OBJ && o.count(k); }
  int64_t num(int64_t def = 0) const { return t == NUM ? i : t == BOOL ? i : def; }
  const std::string& str() const { return s; }
  std::string str(const char* def) const { return t == STR ? s : std::string(def); }
};
struct JP {
  const char *p, *e;
  void ws() { while (p < e && (*p == ' ' || *p == '\n' || *p == '\t' || *p == '\r')) p++; }
  [[noreturn]] void bad(const char* m) { throw std::runtime_error(std::string("json: ") + m); }
  static void utf(std::string& s, unsigned c) { s += (char)(c & 0xff); }
  std::string str() {
    std::string s; p++;
    while (p < e && *p != '"') {
      unsigned char c = *p;
      if (c == '\\') {
        p++;
        switch (*p) {
          case 'n': s += '\n'; break; case 't': s += '\t'; break; case 'r': s += '\r'; break;
          case 'b': s += '\b'; break; case 'f': s += '\f'; break;
          case 'u': { char h[5] = {p[1], p[2], p[3], p[4], 0}; utf(s, (unsigned)strtoul(h, 0, 16)); p += 4; break; }
          default: s += *p;
        }
        p++;
      } else { const char* q = p; while (q < e && *q != '"' && *q != '\\') q++; s.append(p, q - p); p = q; }
    }
    if (p >= e) bad("eof in string");
    p++; return s;
  }
  J val() {
    ws(); J v; if (p >= e) bad("eof");
    switch (*p) {
      case '{': v.t = J::OBJ; p++; ws(); if (*p == '}') { p++; return v; }
        for (;;) { ws(); if (*p != '"') bad("key"); std::string k = str(); ws(); if (*p != ':') bad("colon"); p++; v.o[k] = val(); ws(); if (*p == ',') { p++; continue; } if (*p == '}') { p++; return v; } bad("obj"); }
      case '[': v.t = J::ARR; p++; ws(); if (*p == ']') { p++; return v; }
        for (;;) { v.a.push_back(val()); ws(); if (*p == ',') { p++; continue; } if (*p == ']') { p++; return v; } bad("arr"); }
      case '"': v.t = J::STR; v.s = str(); return v;
      case 't': v.t = J::BOOL; v.i = 1; p += 4; return v;
      case 'f': v.t = J::BOOL; v.i = 0; p += 5; return v;
      case 'n': p += 4; return v;
      default: { char* q; v.t = J::NUM; v.i = strtoll(p, &q, 10); v.d = strtod(p, &q); if (q == p) bad("value"); if (v.d != (double)v.i && (v.d > 9e18 || v.d < -9e18 || v.d != (double)(int64_t)v.d)) v.i = (int64_t)v.d; p = q; return v; }
    }
  }
};
inline J jparse(const std::string& s) { JP q{s.data(), s.data() + s.size()}; return q.val(); }
inline void jstr(std::string& out, const std::string& s) {
  out += '"';
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { out += '\\'; out += (char)c; }
    else if (c < 32 || c > 126) { char b[8]; static const char* hx = "0123456789abcdef"; b[0] = '\\'; b[1] = 'u'; b[2] = '0'; b[3] = '0'; b[4] = hx[c >> 4]; b[5] = hx[c & 15]; out.append(b, 6); }
    else out += (char)c;
  }
  out += '"';
}
