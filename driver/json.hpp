// Minimal JSON reader and writer for the driver.
#pragma once
#include <cctype>
#include <cstdio>
#include <cstdlib>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>
namespace js {
struct V {
  enum T { NUL, BOOL, NUM, STR, ARR, OBJ } t = NUL;
  double num = 0;
  std::string str;
  std::vector<V> arr;
  std::vector<std::pair<std::string, V>> obj;
  const V *find(const std::string &k) const {
    for (auto &p : obj)
      if (p.first == k) return &p.second;
    return nullptr;
  }
  bool has(const std::string &k) const { return find(k) != nullptr; }
  const V &operator[](const std::string &k) const {
    const V *p = find(k);
    if (!p) throw std::string("missing field " + k);
    return *p;
  }
  const V &operator[](std::size_t i) const { return arr.at(i); }
  std::size_t size() const { return arr.size(); }
  // numbers are literals in strings, or plain integers
  double d() const { return t == STR ? std::strtod(str.c_str(), nullptr) : num; }
  long i() const { return t == STR ? std::atol(str.c_str()) : (long)num; }
};
struct Parser {
  const char *p;
  explicit Parser(const char *s) : p(s) {}
  void ws() { while (*p && std::isspace((unsigned char)*p)) ++p; }
  std::string str() {
    std::string r;
    ++p;
    while (*p && *p != '"') {
      if (*p == '\\') {
        ++p;
        r += *p == 'n' ? '\n' : *p;
        ++p;
      } else
        r += *p++;
    }
    if (*p) ++p;
    return r;
  }
  V val() {
    ws();
    V v;
    if (*p == '{') {
      v.t = V::OBJ;
      ++p; ws();
      while (*p && *p != '}') {
        ws();
        std::string k = str();
        ws();
        ++p;  // :
        v.obj.emplace_back(k, val());
        ws();
        if (*p == ',') ++p;
        ws();
      }
      if (*p) ++p;
    } else if (*p == '[') {
      v.t = V::ARR;
      ++p; ws();
      while (*p && *p != ']') {
        v.arr.push_back(val());
        ws();
        if (*p == ',') ++p;
        ws();
      }
      if (*p) ++p;
    } else if (*p == '"') {
      v.t = V::STR;
      v.str = str();
    } else if (*p == 't') { v.t = V::BOOL; v.num = 1; p += 4; }
    else if (*p == 'f') { v.t = V::BOOL; p += 5; }
    else if (*p == 'n') { p += 4; }
    else {
      v.t = V::NUM;
      char *e;
      v.num = std::strtod(p, &e);
      if (e == p) throw std::string("bad json");
      p = e;
    }
    return v;
  }
};
}  // namespace js
