// Casts made during constant evaluation, recorded as text the program prints.
#pragma once
#include "rt.hpp"

namespace ce {
struct mem {
  std::string buf;
  std::size_t rp{0};
  std::size_t cap{static_cast<std::size_t>(-1)};
};
class stream : s2s::constexpr_stream {
  mem& m;
  bool ok{true};
public:
  constexpr explicit stream(mem& m): m(m) {}
  constexpr stream(const stream&) = delete;
  template <std::size_t N> constexpr auto read(std::array<char, N>& d, std::size_t n) -> stream& {
    for(std::size_t i = 0; ok && i < n; ++i) {
      if(m.rp >= m.buf.size()) ok = false;
      else d.at(i) = m.buf[m.rp++];
    }
    return *this;
  }
  template <std::size_t N> constexpr auto write(const std::array<char, N>& d, std::size_t n) -> stream& {
    for(std::size_t i = 0; ok && i < n; ++i) {
      if(m.buf.size() >= m.cap) ok = false;
      else m.buf += d.at(i);
    }
    return *this;
  }
  constexpr explicit operator bool() const { return ok; }
};

constexpr void number(std::string& o, std::size_t n) {
  if(n >= 10) number(o, n / 10);
  o += static_cast<char>('0' + n % 10);
}
constexpr const char* reason(s2s::error_reason r) {
  switch(r) {
    case s2s::buffer_exhaustion: return "buffer_exhaustion";
    case s2s::validation_failure: return "validation_failure";
    case s2s::type_deduction_failure: return "type_deduction_failure";
    case s2s::found_contradicting_length: return "found_contradicting_length";
    case s2s::excessive_length: return "excessive_length";
  }
  return "?";
}
constexpr void outcome(std::string& o, const auto& r) {
  if(r.has_value()) { o += "\"ok\":true,\"r\":\"\",\"at\":\"\""; return; }
  o += "\"ok\":false,\"r\":\"";
  o += reason(r.error().failure_reason);
  o += "\",\"at\":\"";
  o += r.error().failed_at;
  o += '"';
}

template <class S> constexpr auto read(bool be, std::string_view bytes) -> std::string {
  mem m;
  h::Tok t{bytes};
  m.buf = t.bytes();
  stream st(m);
  auto r = be ? s2s::struct_cast_be<S>(st) : s2s::struct_cast_le<S>(st);
  std::string o = "{\"op\":\"R\",\"pre\":[],";
  outcome(o, r);
  o += ",\"post\":";
  if(r.has_value()) h::rec_io<S>::put(o, *r);
  else o += "[]";
  o += ",\"rp\":";
  number(o, m.rp);
  return o + ",\"exc\":\"\",\"app\":[]}";
}
template <class S> constexpr auto write(bool be, long cap, std::string_view toks) -> std::string {
  mem m;
  if(cap >= 0) m.cap = static_cast<std::size_t>(cap);
  stream st(m);
  S x{};
  h::Tok t{toks};
  h::rec_io<S>::set(t, x);
  std::string o = "{\"op\":\"W\",\"pre\":";
  h::rec_io<S>::put(o, x);
  o += ',';
  auto r = be ? s2s::stream_cast_be<S>(st, x) : s2s::stream_cast_le<S>(st, x);
  outcome(o, r);
  o += ",\"post\":";
  h::rec_io<S>::put(o, x);
  o += ",\"rp\":";
  number(o, m.rp);
  o += ",\"exc\":\"\",\"app\":";
  h::put_list(o, m.buf.data(), m.buf.size());
  return o + '}';
}

// The text of a constant evaluation, as an object of the program.
template <auto F> consteval auto freeze() {
  constexpr std::size_t n = F().size();
  std::array<char, n + 1> a{};
  const auto s = F();
  for(std::size_t i = 0; i < n; ++i) a[i] = s[i];
  return a;
}
} // namespace ce
