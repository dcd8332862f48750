// Run-time support for the generated schema translation units: values in and
// out of structs through the public interface, the stream kinds, one cast.
#pragma once
#include "s2s.hpp"
#include <array>
#include <bit>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <iostream>
#include <map>
#include <new>
#include <optional>
#include <sstream>
#include <streambuf>
#include <string>
#include <string_view>
#include <type_traits>
#include <variant>
#include <vector>

using namespace s2s_literals;
using u8 = unsigned char;
using u16 = unsigned short;
using u32 = unsigned int;
using u64 = unsigned long long;
using i8 = signed char;
using i16 = short;
using i32 = int;
using i64 = long long;
using f32 = float;
using f64 = double;
using slong = long;
using ulong = unsigned long;

namespace h {
// Numbers as the specification's expressions see them: the object's bits as
// a natural, saturated at 2^28.
inline constexpr u64 SAT = 268435456;
template <class T> constexpr u64 num(const T& v) {
  using bits = typename std::conditional_t<std::is_same_v<T, bool>, std::type_identity<bool>, std::make_unsigned<T>>::type;
  const u64 x = static_cast<u64>(static_cast<bits>(v));
  return x >= SAT ? SAT : x;
}
template <class C> constexpr u64 byt(const C& c, std::size_t k) {
  if constexpr(requires { c.value[0]; c.to_sv(); })
    return k < c.value.size() ? static_cast<u8>(c.value[k]) : 0;
  else if constexpr(std::is_array_v<C>)
    return k < std::extent_v<C> ? static_cast<u8>(c[k]) : 0;
  else
    return k < c.size() ? static_cast<u8>(c[k]) : 0;
}
template <class O> constexpr u64 onum(const O& o) { return o ? num(*o) : 0; }

// ---------------------------------------------------------------- tokens
struct Tok {
  std::string_view s;
  std::size_t p{0};
  constexpr void ws() { while(p < s.size() && (s[p] == ' ' || s[p] == '\n')) ++p; }
  constexpr char peek() { ws(); return p < s.size() ? s[p] : '\0'; }
  constexpr char ch() { ws(); return p < s.size() ? s[p++] : '\0'; }
  constexpr std::string_view word() {
    ws();
    auto b = p;
    while(p < s.size() && s[p] != ' ' && s[p] != '\n') ++p;
    return s.substr(b, p - b);
  }
  constexpr static long number(std::string_view w) {
    long x = 0;
    for(char c: w) if(c != '-') x = 10 * x + (c - '0');
    return !w.empty() && w[0] == '-' ? -x : x;
  }
  constexpr long integer() { return number(word()); }
  constexpr static int nib(char c) { return c <= '9' ? c - '0' : c - 'a' + 10; }
  // ".<hex>"
  constexpr std::string bytes() {
    auto w = word();
    std::string r;
    for(std::size_t i = 1; i + 1 < w.size(); i += 2)
      r += static_cast<char>(nib(w[i]) * 16 + nib(w[i + 1]));
    return r;
  }
  constexpr void skip() {
    int d = 0;
    do {
      auto w = word();
      if(w == "(") ++d;
      else if(w == ")") --d;
      else if(w == "+" || w.starts_with("@")) { if(!d) { skip(); return; } }
      if(w.empty()) return;
    } while(d > 0);
  }
};

constexpr void put_byte(std::string& o, u8 b) {
  if(b >= 100) o += static_cast<char>('0' + b / 100);
  if(b >= 10) o += static_cast<char>('0' + b / 10 % 10);
  o += static_cast<char>('0' + b % 10);
}
constexpr void put_list(std::string& o, const auto* b, std::size_t n) {
  o += '[';
  for(std::size_t i = 0; i < n; ++i) {
    if(i) o += ',';
    put_byte(o, static_cast<u8>(b[i]));
  }
  o += ']';
}
inline void put_bytes(std::string& o, const void* p, std::size_t n) { put_list(o, static_cast<const u8*>(p), n); }

// The object's bytes, also during constant evaluation.
template <class T> constexpr void append_bytes(std::string& b, const T& v) {
  const auto a = std::bit_cast<std::array<char, sizeof(T)>>(v);
  b.append(a.data(), a.size());
}
template <class T> constexpr void from_bytes(const char* b, T& v) {
  if constexpr(std::is_array_v<T>) {
    for(auto& e: v) { from_bytes(b, e); b += sizeof e; }
  } else {
    std::array<char, sizeof(T)> a{};
    for(std::size_t i = 0; i < a.size(); ++i) a[i] = b[i];
    v = std::bit_cast<T>(a);
  }
}

// ---------------------------------------------------------------- values
template <class T> struct rec_io;  // generated for every record type
template <class T> concept record = requires { sizeof(rec_io<T>); };

template <class T> constexpr void put(std::string& o, const T& v);
template <class T> constexpr void set(Tok& t, T& v);

template <class T> struct io {
  static constexpr void put(std::string& o, const T& v) {
    if constexpr(record<T>) rec_io<T>::put(o, v);
    else if consteval { std::string b; append_bytes(b, v); put_list(o, b.data(), b.size()); }
    else { put_bytes(o, &v, sizeof v); }         // scalars, arrays, C arrays
  }
  static constexpr void set(Tok& t, T& v) {
    if constexpr(record<T>) rec_io<T>::set(t, v);
    else {
      auto b = t.bytes();
      if consteval { if(b.size() >= sizeof v) from_bytes(b.data(), v); }
      else { std::memcpy(static_cast<void*>(&v), b.data(), std::min(b.size(), sizeof v)); }
    }
  }
};
template <class T, std::size_t N> requires record<T> struct io<std::array<T, N>> {
  static constexpr void put(std::string& o, const std::array<T, N>& v) {
    o += '[';
    for(std::size_t i = 0; i < N; ++i) { if(i) o += ','; rec_io<T>::put(o, v[i]); }
    o += ']';
  }
  static constexpr void set(Tok& t, std::array<T, N>& v) {
    t.word();
    for(auto& e: v) { if(t.peek() == ')') break; rec_io<T>::set(t, e); }
    while(t.peek() != ')' && t.peek() != '\0') t.skip();
    t.word();
  }
};
template <class T> struct io<std::vector<T>> {
  static constexpr void put(std::string& o, const std::vector<T>& v) {
    if constexpr(record<T>) {
      o += '[';
      for(std::size_t i = 0; i < v.size(); ++i) { if(i) o += ','; rec_io<T>::put(o, v[i]); }
      o += ']';
    } else if consteval {
      std::string b;
      for(auto& e: v) append_bytes(b, e);
      put_list(o, b.data(), b.size());
    } else { put_bytes(o, v.data(), v.size() * sizeof(T)); }
  }
  static constexpr void set(Tok& t, std::vector<T>& v) {
    v.clear();
    if constexpr(record<T>) {
      t.word();
      while(t.peek() != ')' && t.peek() != '\0') { v.emplace_back(); rec_io<T>::set(t, v.back()); }
      t.word();
    } else {
      auto b = t.bytes();
      v.resize(b.size() / sizeof(T));
      if consteval { for(std::size_t i = 0; i < v.size(); ++i) from_bytes(b.data() + i * sizeof(T), v[i]); }
      else { if(!v.empty()) std::memcpy(static_cast<void*>(v.data()), b.data(), v.size() * sizeof(T)); }
    }
  }
};
template <> struct io<std::string> {
  static constexpr void put(std::string& o, const std::string& v) { put_list(o, v.data(), v.size()); }
  static constexpr void set(Tok& t, std::string& v) { v = t.bytes(); }
};
template <class T> struct io<std::optional<T>> {
  static constexpr void put(std::string& o, const std::optional<T>& v) {
    o += '[';
    if(v) io<T>::put(o, *v);
    o += ']';
  }
  static constexpr void set(Tok& t, std::optional<T>& v) {
    auto w = t.word();
    if(w == "-") { v.reset(); return; }
    T x{};
    io<T>::set(t, x);
    v = std::move(x);
  }
};
template <class... Ts> struct io<std::variant<Ts...>> {
  using V = std::variant<Ts...>;
  static constexpr void put(std::string& o, const V& v) {
    o += "{\"i\":";
    put_byte(o, static_cast<u8>(v.index() + 1));
    o += ",\"v\":";
    std::visit([&](const auto& x) { io<std::remove_cvref_t<decltype(x)>>::put(o, x); }, v);
    o += '}';
  }
  template <std::size_t I> static constexpr void one(Tok& t, V& v, std::size_t i) {
    if(i == I) {
      std::variant_alternative_t<I, V> x{};
      io<std::variant_alternative_t<I, V>>::set(t, x);
      v.template emplace<I>(std::move(x));
    }
  }
  static constexpr void set(Tok& t, V& v) {
    auto w = t.word();
    const std::size_t i = static_cast<std::size_t>(Tok::number(w.substr(1))) - 1;
    [&]<std::size_t... I>(std::index_sequence<I...>) { (one<I>(t, v, i), ...); }
      (std::index_sequence_for<Ts...>{});
  }
};
// A C array or other non-copyable field value keeps its own type.
template <class T> constexpr void put(std::string& o, const T& v) { io<T>::put(o, v); }
template <class T> constexpr void set(Tok& t, T& v) { io<T>::set(t, v); }

template <class R, class A> constexpr void put_field(std::string& o, const R& r, A a) {
  if constexpr(requires { r[a]; }) put(o, r[a]);
  else o += "[]";
}
template <class R, class A> constexpr void set_field(Tok& t, R& r, A a) {
  if constexpr(requires { r[a]; }) {
    if constexpr(!std::is_const_v<std::remove_reference_t<decltype(r[a])>>) { set(t, r[a]); return; }
  }
  t.skip();
}

// ---------------------------------------------------------------- streams
struct store {
  std::string buf;
  std::size_t rp{0};
  std::size_t cap{static_cast<std::size_t>(-1)};
};

struct membuf : std::streambuf {
  store& m;
  explicit membuf(store& m): m(m) {}
  std::streamsize xsgetn(char* d, std::streamsize n) override {
    auto k = std::min<std::size_t>(static_cast<std::size_t>(n), m.buf.size() - m.rp);
    if(k) std::memcpy(d, m.buf.data() + m.rp, k);
    m.rp += k;
    return static_cast<std::streamsize>(k);
  }
  int_type underflow() override {
    return m.rp < m.buf.size() ? traits_type::to_int_type(m.buf[m.rp]) : traits_type::eof();
  }
  int_type uflow() override {
    return m.rp < m.buf.size() ? traits_type::to_int_type(m.buf[m.rp++]) : traits_type::eof();
  }
  std::streamsize xsputn(const char* s, std::streamsize n) override {
    auto room = m.cap > m.buf.size() ? m.cap - m.buf.size() : 0;
    auto k = std::min<std::size_t>(static_cast<std::size_t>(n), room);
    m.buf.append(s, k);
    return static_cast<std::streamsize>(k);
  }
  int_type overflow(int_type c) override {
    if(m.buf.size() >= m.cap) return traits_type::eof();
    m.buf += traits_type::to_char_type(c);
    return c;
  }
};
struct std_stream {
  membuf b;
  std::iostream s;
  explicit std_stream(store& m): b(m), s(&b) {}
  void sync() {}
  auto& get() { return s; }
};

class byte_stream {
  store& m;
  bool ok{true};
public:
  explicit byte_stream(store& m): m(m) {}
  byte_stream(const byte_stream&) = delete;
  auto read(char* d, std::streamsize n) -> byte_stream& {
    if(!ok) return *this;
    auto k = static_cast<std::size_t>(n);
    if(k > m.buf.size() - m.rp) { ok = false; return *this; }
    if(k) std::memcpy(d, m.buf.data() + m.rp, k);
    m.rp += k;
    return *this;
  }
  auto write(const char* s, std::size_t n) -> byte_stream& {
    if(!ok) return *this;
    auto room = m.cap > m.buf.size() ? m.cap - m.buf.size() : 0;
    m.buf.append(s, std::min(n, room));
    if(n > room) ok = false;
    return *this;
  }
  explicit operator bool() const { return ok; }
};
struct cus_stream {
  byte_stream s;
  explicit cus_stream(store& m): s(m) {}
  void sync() {}
  auto& get() { return s; }
};

class array_stream : s2s::constexpr_stream {
  store& m;
  bool ok{true};
public:
  explicit array_stream(store& m): m(m) {}
  array_stream(const array_stream&) = delete;
  template <std::size_t N> auto read(std::array<char, N>& d, std::size_t n) -> array_stream& {
    for(std::size_t i = 0; ok && i < n; ++i) {
      if(m.rp >= m.buf.size()) ok = false;
      else d.at(i) = m.buf[m.rp++];
    }
    return *this;
  }
  template <std::size_t N> auto write(const std::array<char, N>& d, std::size_t n) -> array_stream& {
    for(std::size_t i = 0; ok && i < n; ++i) {
      if(m.buf.size() >= m.cap) ok = false;
      else m.buf += d.at(i);
    }
    return *this;
  }
  explicit operator bool() const { return ok; }
};
struct cx_stream {
  array_stream s;
  explicit cx_stream(store& m): s(m) {}
  void sync() {}
  auto& get() { return s; }
};

// The same streams seen through one direction only.
class byte_source {
  byte_stream& b;
public:
  explicit byte_source(byte_stream& b): b(b) {}
  byte_source(const byte_source&) = delete;
  auto read(char* d, std::streamsize n) -> byte_source& { b.read(d, n); return *this; }
  explicit operator bool() const { return static_cast<bool>(b); }
};
class byte_sink {
  byte_stream& b;
public:
  explicit byte_sink(byte_stream& b): b(b) {}
  byte_sink(const byte_sink&) = delete;
  auto write(const char* s, std::size_t n) -> byte_sink& { b.write(s, n); return *this; }
  explicit operator bool() const { return static_cast<bool>(b); }
};
class array_source : s2s::constexpr_stream {
  array_stream& b;
public:
  explicit array_source(array_stream& b): b(b) {}
  array_source(const array_source&) = delete;
  template <std::size_t N> auto read(std::array<char, N>& d, std::size_t n) -> array_source& { b.read(d, n); return *this; }
  explicit operator bool() const { return static_cast<bool>(b); }
};
class array_sink : s2s::constexpr_stream {
  array_stream& b;
public:
  explicit array_sink(array_stream& b): b(b) {}
  array_sink(const array_sink&) = delete;
  template <std::size_t N> auto write(const std::array<char, N>& d, std::size_t n) -> array_sink& { b.write(d, n); return *this; }
  explicit operator bool() const { return static_cast<bool>(b); }
};

// A plain std::stringstream; it refuses nothing.
struct ss_stream {
  store& m;
  std::stringstream s;
  explicit ss_stream(store& m): m(m), s(m.buf, std::ios::in | std::ios::out | std::ios::binary | std::ios::ate) {
    s.seekg(static_cast<std::streamoff>(m.rp));
  }
  auto& get() { return s; }
  void sync() {
    m.buf = s.str();
    if(s.good()) m.rp = static_cast<std::size_t>(s.tellg());
  }
};

// ---------------------------------------------------------------- casts
extern thread_local std::size_t g_max_alloc;   // largest single request since the last reset
extern thread_local bool g_counting;

struct counted {
  counted() { g_max_alloc = 0; g_counting = true; }
  ~counted() { g_counting = false; }
};

inline const char* reason(s2s::error_reason r) {
  switch(r) {
    case s2s::buffer_exhaustion: return "buffer_exhaustion";
    case s2s::validation_failure: return "validation_failure";
    case s2s::type_deduction_failure: return "type_deduction_failure";
    case s2s::found_contradicting_length: return "found_contradicting_length";
    case s2s::excessive_length: return "excessive_length";
  }
  return "?";
}

inline void put_string(std::string& o, std::string_view s) {
  o += '"';
  char t[8];
  for(char c: s) {
    if(c == '"' || c == '\\') { o += '\\'; o += c; }
    else if(static_cast<u8>(c) < 32 || static_cast<u8>(c) > 126) {
      std::snprintf(t, sizeof t, "\\u%04x", static_cast<unsigned>(static_cast<u8>(c)));
      o += t;
    } else o += c;
  }
  o += '"';
}

inline void outcome(std::string& o, bool ok, const s2s::cast_error* e) {
  o += ok ? "\"ok\":true,\"r\":\"\",\"at\":\"\"" : "\"ok\":false,\"r\":\"";
  if(!ok) {
    o += reason(e->failure_reason);
    o += "\",\"at\":";
    put_string(o, e->failed_at);
  }
}

template <class S, class Stream> auto cast_in(bool be, Stream& st) {
  counted c;
  return be ? s2s::struct_cast_be<S>(st) : s2s::struct_cast_le<S>(st);
}
template <class S, class Stream> auto cast_out(bool be, Stream& st, const S& x) {
  counted c;
  return be ? s2s::stream_cast_be<S>(st, x) : s2s::stream_cast_le<S>(st, x);
}

struct entry {
  // op: 'R' read; 'B' write back the struct last read; 'W' write a fresh struct;
  // 'M' write a struct that was read from other bytes first. The struct's
  // description follows in the tokens.
  void (*call)(char op, bool be, int kind, void* stream, Tok& t, std::string& o);
};
std::vector<entry>& entries();
std::map<std::string, std::size_t>& sizes();

template <class S> std::optional<S>& last_read() { thread_local std::optional<S> s; return s; }

inline void trailer(std::string& o, const std::string& err) {
  o += ",\"exc\":";
  put_string(o, err);
  o += ",\"alloc\":" + std::to_string(std::min<std::size_t>(g_max_alloc, 1u << 30));
}

template <class S, class Stream>
void read_on(bool be, Stream& st, std::string& o) {
  std::string err;
  bool ok = false;
  std::string post = "[]", out;
  try {
    auto r = cast_in<S>(be, st);
    ok = r.has_value();
    outcome(out, ok, ok ? nullptr : &r.error());
    if(ok) { post.clear(); rec_io<S>::put(post, *r); last_read<S>().reset(); last_read<S>().emplace(*r); }
  } catch(const std::exception& e) { err = e.what(); if(err.empty()) err = "exception"; }
    catch(...) { err = "exception"; }
  if(out.empty()) out = "\"ok\":false,\"r\":\"exception\",\"at\":\"\"";
  o += "\"pre\":[]," + out + ",\"post\":" + post;
  trailer(o, err);
}

template <class S, class Stream>
void write_on(char op, bool be, Stream& st, Tok& t, std::string& o) {
  std::string err;
  std::string pre = "[]", post = "[]", out;
  try {
    S x{};
    if(op == 'M') {
      const bool sbe = t.integer() != 0;
      store sm;
      sm.buf = t.bytes();
      cus_stream ss(sm);
      auto r = cast_in<S>(sbe, ss.get());
      if(r) x = *r;
    }
    if(op == 'B') x = *last_read<S>();
    else rec_io<S>::set(t, x);
    pre.clear();
    rec_io<S>::put(pre, x);
    auto r = cast_out<S>(be, st, x);
    const bool ok = r.has_value();
    outcome(out, ok, ok ? nullptr : &r.error());
    post.clear();
    rec_io<S>::put(post, x);
  } catch(const std::exception& e) { err = e.what(); if(err.empty()) err = "exception"; }
    catch(...) { err = "exception"; }
  if(out.empty()) out = "\"ok\":false,\"r\":\"exception\",\"at\":\"\"";
  o += "\"pre\":" + pre + "," + out + ",\"post\":" + post;
  trailer(o, err);
}

#ifndef KINDS
#define KINDS 1
#endif
// bits 0 to 6: std::iostream, custom, constexpr stream, std::stringstream, then
// std::istream/ostream, custom and constexpr streams of one direction only
template <class S>
void call_any(char op, bool be, int kind, void* p, Tok& t, std::string& o) {
  auto both = [&](auto& in, auto& out) {
    if(op == 'R') read_on<S>(be, in, o);
    else write_on<S>(op, be, out, t, o);
  };
  if constexpr(KINDS & 1) if(kind == 0) { auto& s = *static_cast<std::iostream*>(p); both(s, s); return; }
  if constexpr(KINDS & 2) if(kind == 1) { auto& s = *static_cast<byte_stream*>(p); both(s, s); return; }
  if constexpr(KINDS & 4) if(kind == 2) { auto& s = *static_cast<array_stream*>(p); both(s, s); return; }
  if constexpr(KINDS & 8) if(kind == 3) { auto& s = *static_cast<std::stringstream*>(p); both(s, s); return; }
  if constexpr(KINDS & 16) if(kind == 4) { auto& s = *static_cast<std::iostream*>(p); both(static_cast<std::istream&>(s), static_cast<std::ostream&>(s)); return; }
  if constexpr(KINDS & 32) if(kind == 5) { auto& s = *static_cast<byte_stream*>(p); byte_source a(s); byte_sink b(s); both(a, b); return; }
  if constexpr(KINDS & 64) if(kind == 6) { auto& s = *static_cast<array_stream*>(p); array_source a(s); array_sink b(s); both(a, b); return; }
}
template <class S> struct reg {
  explicit reg(std::size_t i) {
    auto& e = entries();
    if(e.size() <= i) e.resize(i + 1);
    e[i] = entry{&call_any<S>};
  }
};
template <class R> struct size_reg {
  explicit size_reg(const char* n) { sizes()[n] = sizeof(R); }
};
} // namespace h
