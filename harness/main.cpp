// Session driver. Input, one session per line group:
//   S <id> <kind> <cap|-1> <read position> .<initial bytes>
//   R <schema> <be>                      read
//   W <schema> <be> <struct>             write a fresh struct
//   M <schema> <be> <sbe> .<bytes> <struct>   write a struct read from bytes
//   B <schema> <be>                      write the struct the session last read
//   E
// Output: one JSON object per session.
#include "rt.hpp"
#include <barrier>
#include <csignal>
#include <cstring>
#include <cstdlib>
#include <fstream>
#include <malloc.h>
#include <sys/time.h>
#include <thread>
#include <unistd.h>

namespace h {
thread_local std::size_t g_max_alloc = 0;
thread_local bool g_counting = false;
std::vector<entry>& entries() { static std::vector<entry> e; return e; }
std::map<std::string, std::size_t>& sizes() { static std::map<std::string, std::size_t> s; return s; }
}

static void* take(std::size_t n) {
  if(h::g_counting) {
    if(n > h::g_max_alloc) h::g_max_alloc = n;
    if(n > (std::size_t{256} << 20)) throw std::bad_alloc{};
  }
  void* p = std::malloc(n ? n : 1);
  if(!p) throw std::bad_alloc{};
  // memory nobody initialised has a value nobody expects
  std::memset(p, 0xa5, n);
  return p;
}
void* operator new(std::size_t n) { return take(n); }
void* operator new[](std::size_t n) { return take(n); }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete[](void* p) noexcept { std::free(p); }
void operator delete(void* p, std::size_t) noexcept { std::free(p); }
void operator delete[](void* p, std::size_t) noexcept { std::free(p); }

static void on_alarm(int) {
  static const char m[] = "\n{\"hang\":true}\n";
  (void)!write(1, m, sizeof m - 1);
  _exit(97);
}
static void arm(int s) {
  itimerval v{};
  v.it_value.tv_sec = s;
  setitimer(ITIMER_REAL, &v, nullptr);
}

struct script { std::string head; std::vector<std::string> calls; };

template <class W>
static void session(const std::vector<std::string>& calls, std::string& o, int kind, bool through, h::store& m) {
  W w(m);
  bool first = true, dead = false;
  for(const auto& line: calls) {
    if(dead) break;
    h::Tok t{line};
    const char op = t.ch();
    const auto s = static_cast<std::size_t>(t.integer());
    const bool be = t.integer() != 0;
    const auto before = m.buf.size();
    if(!first) o += ',';
    first = false;
    o += "{\"op\":\"";
    o += op == 'R' ? 'R' : 'W';
    o += "\",\"s\":" + std::to_string(s) + ",\"be\":" + (be ? "true," : "false,");
    const auto mark = o.size();
    h::entries()[s].call(op, be, kind, static_cast<void*>(&w.get()), t, o);
    w.sync();
    // a healthy stream serves further calls, if the session wants them
    if(o.find("\"ok\":false", mark) != std::string::npos)
      dead = !through || o.find("\"r\":\"buffer_exhaustion", mark) != std::string::npos || o.find("\"r\":\"exception", mark) != std::string::npos;
    o += ",\"rp\":" + std::to_string(m.rp) + ",\"app\":";
    h::put_bytes(o, m.buf.data() + before, m.buf.size() - before);
    o += '}';
  }
}

static std::string id_of(const script& x) {
  h::Tok t{x.head};
  t.ch();
  return std::string(t.word());
}

static std::string execute(const script& x) {
  h::Tok t{x.head};
  t.ch();
  std::string id(t.word());
  const int kind = static_cast<int>(t.integer());
  const bool through = t.integer() != 0;
  const long cap = t.integer();
  h::store m;
  m.rp = static_cast<std::size_t>(t.integer());
  m.buf = t.bytes();
  if(cap >= 0) m.cap = static_cast<std::size_t>(cap);
  std::string o = "{\"id\":" + id + ",\"calls\":[";
  if(kind == 0 || kind == 4) session<h::std_stream>(x.calls, o, kind, through, m);
  else if(kind == 1 || kind == 5) session<h::cus_stream>(x.calls, o, kind, through, m);
  else if(kind == 2 || kind == 6) session<h::cx_stream>(x.calls, o, kind, through, m);
  else session<h::ss_stream>(x.calls, o, kind, through, m);
  o += "]}\n";
  return o;
}

static bool next(std::istream& in, script& x) {
  std::string line;
  while(std::getline(in, line))
    if(!line.empty() && line[0] == 'S') {
      x.head = line;
      x.calls.clear();
      while(std::getline(in, line) && line != "E") x.calls.push_back(line);
      return true;
    }
  return false;
}

// Every session by every thread at the same time, each on a stream of its own.
static void together(std::istream& in, unsigned n) {
  std::vector<script> all;
  for(script x; next(in, x);) all.push_back(x);
  std::vector<std::vector<std::string>> out(n, std::vector<std::string>(all.size()));
  std::vector<std::thread> ts;
  std::barrier sync(n);
  for(unsigned k = 0; k < n; ++k)
    ts.emplace_back([&, k] {
      for(std::size_t i = 0; i < all.size(); ++i) {
        sync.arrive_and_wait();
        out[k][i] = execute(all[i]);
      }
    });
  for(auto& t: ts) t.join();
  for(std::size_t i = 0; i < all.size(); ++i)
    for(unsigned k = 0; k < n; ++k) std::fputs(out[k][i].c_str(), stdout);
  std::fflush(stdout);
}

int main(int argc, char** argv) {
  if(argc > 1 && std::string(argv[1]) == "--info") {
    std::printf("{");
    bool first = true;
    for(auto& [k, v]: h::sizes()) { std::printf("%s\"%s\":%zu", first ? "" : ",", k.c_str(), v); first = false; }
    std::printf("}\n");
    return 0;
  }
  if(argc > 3 && std::string(argv[1]) == "--together") {
    std::ifstream in(argv[3]);
    together(in, static_cast<unsigned>(std::atoi(argv[2])));
    return 0;
  }
  std::signal(SIGALRM, on_alarm);
  std::ifstream in(argv[1]);
  for(script x; next(in, x);) {
    std::printf("# %s\n", id_of(x).c_str());
    std::fflush(stdout);
    arm(30);
    const std::string o = execute(x);
    arm(0);
    std::fputs(o.c_str(), stdout);
    std::fflush(stdout);
  }
  return 0;
}
