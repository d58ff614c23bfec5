// Shared by all drivers: a small JSON reader/writer, the command loop and projections.
// The drivers contain no oracle: they execute commands on real strictpp objects and print
// what they observed. Expected values come from the TLA+ specifications only.
#pragma once
#include <strictpp/strict.hpp>

#include <cctype>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <optional>
#include <sstream>
#include <stdexcept>
#include <string>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

struct J {
   enum K { NUL, BOOL, INT, STR, ARR, OBJ } k = NUL;
   long i = 0;
   std::string s;
   std::vector<J> a;
   std::map<std::string, J> o;

   bool has(const char* key) const { return o.count(key) != 0; }
   const J& operator[](const char* key) const {
      auto it = o.find(key);
      if(it == o.end()) { throw std::runtime_error(std::string("driver: missing field ") + key); }
      return it->second;
   }
   const J& operator[](size_t n) const { return a.at(n); }
   const J& operator[](int n) const { return a.at(static_cast<size_t>(n)); }
   long num() const {
      if(k != INT && k != BOOL) throw std::runtime_error("driver: not a number");
      return i;
   }
   long num(const char* key) const { return (*this)[key].num(); }
   int inum(const char* key) const { return static_cast<int>((*this)[key].num()); }
   const std::string& str(const char* key) const { return (*this)[key].s; }
   std::vector<long> vec() const {
      std::vector<long> r;
      for(auto& x : a) r.push_back(x.num());
      return r;
   }
   std::vector<long> vec(const char* key) const { return (*this)[key].vec(); }
   size_t size() const { return a.size(); }
};

inline const char* json_ws(const char* p) {
   while(*p && std::isspace(static_cast<unsigned char>(*p))) ++p;
   return p;
}
inline const char* json_parse(const char* p, J& out) {
   p = json_ws(p);
   if(*p == '{') {
      out.k = J::OBJ;
      p = json_ws(p + 1);
      while(*p != '}') {
         J key;
         p = json_ws(json_parse(p, key));
         if(*p != ':') throw std::runtime_error("driver: json :");
         p = json_ws(json_parse(p + 1, out.o[key.s]));
         if(*p == ',') p = json_ws(p + 1);
      }
      return p + 1;
   }
   if(*p == '[') {
      out.k = J::ARR;
      p = json_ws(p + 1);
      while(*p != ']') {
         out.a.emplace_back();
         p = json_ws(json_parse(p, out.a.back()));
         if(*p == ',') p = json_ws(p + 1);
      }
      return p + 1;
   }
   if(*p == '"') {
      out.k = J::STR;
      ++p;
      while(*p != '"') {
         if(*p == 0) throw std::runtime_error("driver: json string");
         if(*p == '\\') {
            ++p;
            switch(*p) {
            case 'n': out.s += '\n'; break;
            case 't': out.s += '\t'; break;
            case 'r': out.s += '\r'; break;
            default: out.s += *p;
            }
            ++p;
         } else {
            out.s += *p++;
         }
      }
      return p + 1;
   }
   if(!std::strncmp(p, "true", 4)) { out.k = J::BOOL; out.i = 1; return p + 4; }
   if(!std::strncmp(p, "false", 5)) { out.k = J::BOOL; out.i = 0; return p + 5; }
   if(!std::strncmp(p, "null", 4)) { return p + 4; }
   char* e;
   out.k = J::INT;
   out.i = std::strtol(p, &e, 10);
   if(e == p) throw std::runtime_error(std::string("driver: json value ") + p);
   return e;
}
inline J json(const std::string& s) {
   J j;
   json_parse(s.c_str(), j);
   return j;
}
inline std::string jq(const std::string& s) {
   std::string r = "\"";
   for(char c : s) {
      if(c == '"' || c == '\\') { r += '\\'; r += c; }
      else if(c == '\n') r += "\\n";
      else if(c == '\t') r += "\\t";
      else if(c == '\r') r += "\\r";
      else if(static_cast<unsigned char>(c) < 32) { char b[8]; std::snprintf(b, 8, "\\u%04x", c); r += b; }
      else r += c;
   }
   return r + "\"";
}

// Scale applied to floating values before printing (spec/Expr.tla counts in quarters).
#ifndef SHOW_SCALE
#define SHOW_SCALE 1
#endif
// Scalars are projected to exact integers; anything else is shown as text, which no
// specification value equals.
#ifdef SHOW_EXACT
template <typename T>
std::string exact(T x);
#endif
template <typename T>
std::string show(T x) {
#ifdef SHOW_EXACT
   return exact(x);
#else
   if constexpr(std::is_same_v<T, bool>) {
      return x ? "1" : "0";
   } else if constexpr(std::is_integral_v<T>) {
      return std::to_string(x);
   } else {
      long double v = static_cast<long double>(x) * SHOW_SCALE;
      if(std::isnan(v)) return "\"nan\"";
      if(std::isinf(v)) return v > 0 ? "\"inf\"" : "\"-inf\"";
      if(v == std::floor(v) && std::fabs(v) < 9e17L) return std::to_string(static_cast<long>(v));
      char b[64];
      std::snprintf(b, 64, "\"%.21Lg\"", v);
      return b;
   }
#endif
}
template <typename T>
std::string show(spp::Strict<T> x) { return show(x.val()); }
template <typename V>
std::string show_all(const V& v) {
   std::string r = "[";
   for(size_t i = 0; i < v.size(); ++i) {
      if(i) r += ",";
      r += show(v[i]);
   }
   return r + "]";
}
inline std::string ok() { return "{\"k\":\"ok\",\"v\":[]}"; }
inline std::string okv(const std::string& v) { return "{\"k\":\"ok\",\"v\":" + v + "}"; }
inline std::string ok1(const std::string& x) { return "{\"k\":\"ok\",\"v\":[" + x + "]}"; }
inline std::string err() { return "{\"k\":\"err\",\"v\":[]}"; }

// Runs f, which returns an outcome string; a strictpp rejection becomes "err".
template <typename F>
std::string guarded(F f) {
   try {
      return f();
   } catch(const spp::StrictException&) {
      return err();
   } catch(const std::exception& e) {
      if(!std::strncmp(e.what(), "driver:", 7)) throw;
      return std::string("{\"k\":\"exception\",\"v\":[") + jq(e.what()) + "]}";
   }
}

// A request that takes this much processor time does not terminate: SIGPROF ends the process.
inline void allow_time() {
   const char* t = std::getenv("REQUEST_SECONDS");
   itimerval v{};
   v.it_value.tv_sec = t ? std::atol(t) : 20;
   setitimer(ITIMER_PROF, &v, nullptr);
}

// Runs f in a child process and reports how it ended: used only where the specification
// says the call aborts.
template <typename F>
std::string forked(F f) {
   std::fflush(stdout);
   pid_t p = fork();
   if(p == 0) {
      if(!std::freopen("/dev/null", "w", stderr)) {}
      allow_time();
      try {
         f();
      } catch(const spp::StrictException&) {
         _exit(3);
      } catch(...) {
         _exit(4);
      }
      _exit(0);
   }
   int st = 0;
   waitpid(p, &st, 0);
   if(WIFSIGNALED(st)) return WTERMSIG(st) == SIGABRT ? "{\"k\":\"abort\",\"v\":[]}" : "{\"k\":\"signal\",\"v\":[]}";
   if(WEXITSTATUS(st) == 3) return err();
   if(WEXITSTATUS(st) == 0) return ok();
   return "{\"k\":\"exit\",\"v\":[]}";
}

// Runs a command in a process of its own because it may die; its answer is kept if it does not.
template <typename F>
std::string isolated(F f) {
   std::fflush(stdout);
   const int out = memfd_create("answer", 0), diag = memfd_create("diagnostic", 0);
   auto slurp = [](int fd) {
      std::string r;
      char buf[4096];
      lseek(fd, 0, SEEK_SET);
      for(ssize_t k; (k = read(fd, buf, sizeof buf)) > 0;) r.append(buf, static_cast<size_t>(k));
      close(fd);
      return r;
   };
   const pid_t p = fork();
   if(p == 0) {
      dup2(diag, 1);
      dup2(diag, 2);
      allow_time();
      std::string o;
      try { o = guarded(f); } catch(const std::exception& e) { o = jq(e.what()); }
      if(write(out, o.data(), o.size()) < 0) _exit(9);
      _exit(0);
   }
   int st = 0;
   waitpid(p, &st, 0);
   const std::string o = slurp(out), d = slurp(diag);
   if(WIFEXITED(st) && WEXITSTATUS(st) == 0) return o;
   if(WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT)
      return d.find("Assertion") != std::string::npos ? "{\"k\":\"abort\",\"v\":[]}" : "{\"k\":\"silent abort\",\"v\":[]}";
   return "{\"k\":\"died\",\"v\":[" + jq(d.substr(0, 300)) + "]}";
}

// The command loop. One JSON object per input line; "s" (optional) replaces the state before
// the command "c" is executed.
template <typename Load, typename Exec, typename Proj>
int command_loop(Load load, Exec exec, Proj proj) {
   std::string line;
   while(std::getline(std::cin, line)) {
      if(line.empty()) continue;
      std::string res;
      allow_time();
      try {
         J j = json(line);
         if(j.has("s")) load(j["s"]);
         std::string o = j["c"].has("fork") ? isolated([&] { return exec(j["c"]); }) : guarded([&] { return exec(j["c"]); });
         res = "{\"o\":" + o + ",\"t\":" + proj() + "}";
      } catch(const spp::StrictException& e) { // a legitimate state cannot be built or looked at
         res = "{\"o\":" + jq(std::string("rejected outside the request: ") + e.what()) + ",\"t\":\"odd\"}";
      } catch(const std::exception& e) {
         res = std::string("{\"fatal\":") + jq(e.what()) + "}";
      }
      res += "\n";
      std::fputs(res.c_str(), stdout);
      std::fflush(stdout);
   }
   return 0;
}

// Every way of observing a one-dimensional object must agree; the projection is their
// common value, or the word "disagree" with the observer that differs.
template <typename A>
std::string proj1(A& a) {
   using namespace spp;
   const auto& c = a;
   const long n = c.size().val();
   if(n < 0 || n > 4096) return "\"bad size " + std::to_string(n) + "\"";
   std::vector<std::string> v;
   for(long i = 0; i < n; ++i) v.push_back(show(c.un(i)));
   auto bad = [&](const char* what) { return std::string("\"disagree ") + what + "\""; };
   if(bool{c.empty()} != (n == 0)) return bad("empty");
   if(c.size_m1().val() != n - 1) return bad("size_m1");
   for(long i = 0; i < n; ++i) {
      auto k = static_cast<size_t>(i);
      if(show(c[i]) != v[k]) return bad("[]const");
      if(show(a[i]) != v[k]) return bad("[]");
      if(show(a.un(i)) != v[k]) return bad("un");
      if(show(a.at(i)) != v[k]) return bad("at");
      if(show(c.at(static_cast<int>(i))) != v[k]) return bad("at const");
      if(show(c[Strict{i}]) != v[k]) return bad("[Strict]");
      if(show(c[last - (n - 1 - i)]) != v[k]) return bad("[last]");
      if(show(a[last - (n - 1 - i)]) != v[k]) return bad("[last] mutable");
      if(show(c.at(last - (n - 1 - i))) != v[k]) return bad("at(last)");
      if(show(c.un(last - (n - 1 - i))) != v[k]) return bad("un(last)");
   }
   size_t k = 0;
   for(auto x : c) {
      if(k >= v.size() || show(x) != v[k]) return bad("range-for const");
      ++k;
   }
   if(k != v.size()) return bad("range-for length");
   k = 0;
   for(auto it = a.begin(); it != a.end(); ++it, ++k) {
      if(k >= v.size() || show(*it) != v[k]) return bad("iterator");
   }
   if(k != v.size()) return bad("iterator length");
   k = v.size();
   for(auto it = a.rbegin(); it != a.rend(); ++it) {
      if(k == 0 || show(*it) != v[--k]) return bad("reverse iterator");
   }
   if(k != 0) return bad("reverse iterator length");
   k = v.size();
   for(auto it = c.crbegin(); it != c.crend(); ++it) {
      if(k == 0 || show(*it) != v[--k]) return bad("const reverse iterator");
   }
   if(k != 0) return bad("const reverse iterator length");
   k = v.size();
   for(auto it = c.rbegin(); it != c.rend(); ++it) {
      if(k == 0 || show(*it) != v[--k]) return bad("const reverse iterator");
   }
   if(k != 0) return bad("const reverse iterator length");
   std::string r = "[";
   for(size_t q = 0; q < v.size(); ++q) r += (q ? "," : "") + v[q];
   return r + "]";
}

// The same for objects that own contiguous storage.
template <typename A>
std::string proj1_owner(A& a) {
   using namespace spp;
   std::string r = proj1(a);
   const auto& c = a;
   const long n = c.size().val();
   if(n > 0) {
      if(c.data() != a.data()) return "\"disagree data const\"";
      for(long i = 0; i < n && i < 4096; ++i)
         if(show(c.data()[i]) != show(c.un(i)) || &c.data()[i] != &c.un(i)) return "\"disagree data\"";
      if constexpr(requires { a.blas_data(); }) {
         for(long i = 0; i < n && i < 4096; ++i)
            if(show(c.blas_data()[i]) != show(c.un(i)) || show(a.blas_data()[i]) != show(c.un(i)))
               return "\"disagree blas_data\"";
      }
      if(a.alignment() > 0 && reinterpret_cast<std::uintptr_t>(c.data()) % static_cast<std::uintptr_t>(a.alignment()) != 0)
         return "\"disagree alignment\"";
   }
   const auto u = static_cast<double>(a.bytes().val());
   if(a.bytes().val() != n * static_cast<long>(sizeof(typename A::value_type)) || c.kbytes().val() * 1024. != u || c.mbytes().val() * 1048576. != u || c.gbytes().val() * 1073741824. != u)
      return "\"disagree bytes\"";
   if(c.dimension().val() != 1 || bool{c.is_dynamic()} != requires { a.resize_and_assign(a); }) return "\"disagree kind\"";
   return r;
}

// Two-dimensional objects project to [rows, cols, row-major elements].
template <typename A>
std::string proj2(A& a) {
   using namespace spp;
   const auto& c = a;
   const long m = c.rows().val(), n = c.cols().val();
   auto bad = [&](const char* what) { return std::string("\"disagree ") + what + "\""; };
   if(m < 0 || n < 0 || m > 512 || n > 512) return bad("shape");
   if(c.size().val() != m * n) {
      return "{\"m\":" + std::to_string(m) + ",\"n\":" + std::to_string(n) + ",\"d\":\"size "
           + std::to_string(c.size().val()) + "\"}";
   }
   std::vector<std::string> v;
   for(long i = 0; i < m * n; ++i) v.push_back(show(c.un(i)));
   if(bool{c.empty()} != (m * n == 0)) return bad("empty");
   if(c.rows_m1().val() != m - 1 || c.cols_m1().val() != n - 1 || c.size_m1().val() != m * n - 1) return bad("m1");
   for(long i = 0; i < m; ++i) {
      for(long j = 0; j < n; ++j) {
         const auto& e = v[static_cast<size_t>(i * n + j)];
         if(show(a(i, j)) != e || show(c(i, j)) != e) return bad("(i,j)");
         if(show(a.un(i, j)) != e || show(c.un(i, j)) != e) return bad("un(i,j)");
         if(show(a.at(i, j)) != e || show(c.at(i, j)) != e) return bad("at(i,j)");
         if(show(a.un(i * n + j)) != e) return bad("un(k)");
         if(show(c(last - (m - 1 - i), last - (n - 1 - j))) != e) return bad("(last,last)");
         if(show(a(last - (m - 1 - i), j)) != e || show(c(i, last - (n - 1 - j))) != e) return bad("(last,j)");
         if(show(a.at(last - (m - 1 - i), last - (n - 1 - j))) != e) return bad("at(last)");
         if(show(c.un(last - (m - 1 - i), last - (n - 1 - j))) != e) return bad("un(last)");
      }
   }
   size_t k = 0;
   for(auto x : c) {
      if(k >= v.size() || show(x) != v[k]) return bad("range-for const");
      ++k;
   }
   if(k != v.size()) return bad("range-for length");
   k = 0;
   for(auto it = a.begin(); it != a.end(); ++it, ++k) {
      if(k >= v.size() || show(*it) != v[k]) return bad("iterator");
   }
   if(k != v.size()) return bad("iterator length");
   k = v.size();
   for(auto it = a.rbegin(); it != a.rend(); ++it) {
      if(k == 0 || show(*it) != v[--k]) return bad("reverse iterator");
   }
   if(k != 0) return bad("reverse iterator length");
   k = v.size();
   for(auto it = c.rbegin(); it != c.rend(); ++it) {
      if(k == 0 || show(*it) != v[--k]) return bad("const reverse iterator");
   }
   if(k != 0) return bad("const reverse iterator length");
   std::string r = "{\"m\":" + std::to_string(m) + ",\"n\":" + std::to_string(n) + ",\"d\":[";
   for(size_t q = 0; q < v.size(); ++q) r += (q ? "," : "") + v[q];
   return r + "]}";
}
template <typename A>
std::string proj2_owner(A& a) {
   std::string r = proj2(a);
   const auto& c = a;
   const long n = c.size().val();
   if(n > 0) {
      for(long i = 0; i < n && i < 4096; ++i)
         if(&c.data()[i] != &c.un(i) || &a.data()[i] != &c.un(i)) return "\"disagree data\"";
      if constexpr(requires { a.blas_data(); }) {
         for(long i = 0; i < n && i < 4096; ++i)
            if(show(c.blas_data()[i]) != show(c.un(i))) return "\"disagree blas_data\"";
      }
      if(a.alignment() > 0 && reinterpret_cast<std::uintptr_t>(c.data()) % static_cast<std::uintptr_t>(a.alignment()) != 0)
         return "\"disagree alignment\"";
   }
   const auto u = static_cast<double>(a.bytes().val());
   if(a.bytes().val() != n * static_cast<long>(sizeof(typename A::value_type)) || c.kbytes().val() * 1024. != u || c.mbytes().val() * 1048576. != u || c.gbytes().val() * 1073741824. != u)
      return "\"disagree bytes\"";
   if(c.dimension().val() != 2 || bool{c.is_dynamic()} != requires { a.resize_and_assign(a); }) return "\"disagree kind\"";
   return r;
}

template <typename T>
std::vector<spp::Strict<T>> to_strict(const std::vector<long>& xs) {
   std::vector<spp::Strict<T>> r;
   for(long x : xs) r.push_back(spp::Strict<T>{static_cast<T>(x)});
   return r;
}
inline std::vector<spp::ImplicitInt> to_idx(const std::vector<long>& xs) {
   // evenly spaced positions come from the library's own generator
   const size_t n = xs.size();
   bool even = n < 2 || n > 2;
   for(size_t i = 2; i < n; ++i) even = even && xs[i] - xs[i - 1] == xs[1] - xs[0];
   const long m = static_cast<long>(n), from = n ? xs[0] : 0, by = n > 1 ? xs[1] - xs[0] : 1;
   if(even) {
      if(from == 0 && by == 1) return spp::implicit_vector_sequence(m);
      if(by == 1) return spp::implicit_vector_sequence(m, from);
      if(n % 2) return spp::implicit_vector_sequence(spp::Size{m}, spp::Start<long>{spp::Strict<long>{from}}, spp::Incr<long>{spp::Strict<long>{by}});
      return spp::implicit_vector_sequence(m, from, by);
   }
   std::vector<spp::ImplicitInt> r;
   for(long x : xs) r.push_back(spp::ImplicitInt{x});
   return r;
}
// Calls f with a braced list of the given run-time length (initializer_list sizes are
// only known at compile time in the real interface).
template <typename T, typename F>
auto with_list(const std::vector<T>& v, F f) {
   using L = std::initializer_list<T>;
   switch(v.size()) {
   case 0: return f(L{});
   case 1: return f(L{v[0]});
   case 2: return f(L{v[0], v[1]});
   case 3: return f(L{v[0], v[1], v[2]});
   case 4: return f(L{v[0], v[1], v[2], v[3]});
   case 5: return f(L{v[0], v[1], v[2], v[3], v[4]});
   case 6: return f(L{v[0], v[1], v[2], v[3], v[4], v[5]});
   case 7: return f(L{v[0], v[1], v[2], v[3], v[4], v[5], v[6]});
   case 8: return f(L{v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7]});
   case 9: return f(L{v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8]});
   case 10: return f(L{v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9]});
   case 11: return f(L{v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10]});
   case 12: return f(L{v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11]});
   default: throw std::runtime_error("driver: list too long");
   }
}
