// Conformance driver for spec/Config.tla: whole programs over one array and one matrix, each
// run in a process of its own, so that death is observed as such.
#include "common.hpp"
#include <sys/mman.h>
using namespace spp;
#ifndef T_
#define T_ int
#endif
#ifndef AF_
#define AF_ Unaligned
#endif
using T = T_;
static Array1D<T, AF_> a;
static Array2D<T, AF_> b;
static FixedArray1D<T, 3, AF_> fa;
static FixedArray2D<T, 2, 2, AF_> fb;

static void load(const J& s) {
   auto x = s["a"].vec();
   a.resize(static_cast<long>(x.size()));
   for(size_t i = 0; i < x.size(); ++i) a.un(static_cast<long>(i)) = Strict<T>{static_cast<T>(x[i])};
   b.resize(s["b"].num("m"), s["b"].num("n"));
   x = s["b"]["d"].vec();
   for(size_t i = 0; i < x.size(); ++i) b.un(static_cast<long>(i)) = Strict<T>{static_cast<T>(x[i])};
   for(int i = 0; i < 3; ++i) fa.un(i) = Strict<T>{static_cast<T>(11 + i)};
   for(int i = 0; i < 4; ++i) fb.un(i) = Strict<T>{static_cast<T>(11 + i)};
}
// an index in each of its spellings
template <typename F>
auto idx(long k, bool l, int w, F f) {
   if(l) {
      switch(w % 3) {
      case 0: return f(last - k);
      case 1: return f(last - static_cast<int>(k));
      default: return f(last + (-k));
      }
   }
   switch(w % 4) {
   case 0: return f(k);
   case 1: return f(static_cast<int>(k));
   case 2: return f(Strict<long>{k});
   default: return f(Strict<int>{static_cast<int>(k)});
   }
}
template <typename F>
std::string with1(const std::string& h, F f) {
   const auto& ca = a;
   const auto& cb = b;
   if(h == "own") return f(a);
   if(h == "const") return f(ca);
   if(h == "rev") return f(a(place::reverse));
   if(h == "crev") return f(ca(place::reverse));
   if(h == "even") return f(a(place::even));
   if(h == "expr") return f(ca + a);
   if(h == "temp") return f(Array1D<T, AF_>(a));
   if(h == "view") return f(b.view1D());
   if(h == "cview") return f(cb.view1D());
   if(h == "row") return f(b.row(0));
   if(h == "col") return f(cb.col(0));
   if(h == "fixed") return f(fa);
   throw std::runtime_error("driver: holder " + h);
}
template <typename F>
std::string with2(const std::string& h, F f) {
   const auto& ca = a;
   const auto& cb = b;
   if(h == "own") return f(b);
   if(h == "const") return f(cb);
   if(h == "temp") return f(Array2D<T, AF_>(b));
   if(h == "brev") return f(b(place::reverse, place::all));
   if(h == "trans") return f(transpose(cb));
   if(h == "expr") return f(cb + b);
   if(h == "view2") return f(ca.view2D(1, ca.size()));
   if(h == "fixed") return f(fb);
   throw std::runtime_error("driver: holder " + h);
}
template <typename V>
std::string seen2(V&& v) { return okv(proj2(v)); }
static std::string step(const J& c, int w) {
   const std::string &op = c.str("op"), &h = c.str("h");
   const bool l = c.num("last") != 0;
   const long i = c.num("i"), j = c.num("j");
   const auto& ca = a;
   const auto& cb = b;
   if(op == "at1") return with1(h, [&](auto&& x) { return idx(i, l, w, [&](auto k) { return ok1(show(x.at(k))); }); });
   if(op == "sub1") return with1(h, [&](auto&& x) { return idx(i, l, w, [&](auto k) { return ok1(show(x[k])); }); });
   if(op == "at2") return with2(h, [&](auto&& x) { return idx(i, l, w, [&](auto k) { return l ? ok1(show(x.at(k, last - j))) : ok1(show(x.at(k, j))); }); });
   if(op == "sub2")
      return with2(h, [&](auto&& x) {
         return idx(i, l, w, [&](auto k) {
#ifdef __cpp_multidimensional_subscript
            if(w % 2) return l ? ok1(show(x[k, last - j])) : ok1(show(x[k, j]));
#endif
            return l ? ok1(show(x(k, last - j))) : ok1(show(x(k, j)));
         });
      });
   if(op == "put1") {
      auto f = [&](auto&& x) { return idx(i, l, w, [&](auto k) { x.at(k) = Strict<T>{static_cast<T>(99)}; return ok(); }); };
      if(h == "own") return f(a);
      if(h == "rev") return f(a(place::reverse));
      if(h == "even") return f(a(place::even));
      return f(b.view1D());
   }
   if(op == "put2") {
      auto f = [&](auto&& x) { return idx(i, l, w, [&](auto k) { (l ? x.at(k, last - j) : x.at(k, j)) = Strict<T>{static_cast<T>(99)}; return ok(); }); };
      if(h == "own") return f(b);
      return f(b(place::reverse, place::all));
   }
   if(op == "v1") {
      if(h == "own") return seen2(a.view2D(i, j));
      if(h == "const") return seen2(ca.view2D(i, j));
      if(h == "rev") return seen2(a(place::reverse).view2D(i, j));
      if(h == "crev") { auto r = ca(place::reverse); return seen2(r.view2D(i, j)); }
      if(h == "view") return seen2(b.view1D().view2D(i, j));
      return seen2(cb.view1D().view2D(i, j));
   }
   if(op == "v2") {
      if(h == "own") return seen2(b.view2D(i, j));
      if(h == "const") return seen2(cb.view2D(i, j));
      return seen2(b(place::reverse, place::all).view2D(i, j));
   }
   if(op == "div") return ok1(show(Strict<int>{static_cast<int>(i)} / Strict<int>{static_cast<int>(j)}));
   if(op == "resize") { a.resize(i); return ok(); }
   if(op == "pop") { a.remove(last); return ok(); }
   if(op == "cut") { return okv(proj1(*std::make_unique<Array1D<T>>(ca(seqN{i, j})))); }
   if(op == "max") return ok1(show(max(ca)));
   if(op == "add") { a += b.view1D(); return ok(); }
   if(op == "list") { a = {Strict<T>{static_cast<T>(5)}, Strict<T>{static_cast<T>(6)}}; return ok(); }
   if(op == "un") return ok1(show(a.un(i)));
   throw std::runtime_error("driver: op " + op);
}
// Every answer is written as soon as it is known.
static std::string program(const J& p) {
   const int w0 = p.has("w") ? p.inum("w") : 0;
   const int out = memfd_create("answers", 0), diag = memfd_create("diagnostics", 0);
   auto slurp = [](int fd) {
      std::string r;
      char buf[4096];
      lseek(fd, 0, SEEK_SET);
      for(ssize_t k; (k = read(fd, buf, sizeof buf)) > 0;) r.append(buf, static_cast<size_t>(k));
      close(fd);
      return r;
   };
   pid_t pid = fork();
   if(pid == 0) {
      dup2(diag, 1);
      dup2(diag, 2);
      auto say = [&](const std::string& x) {
         if(write(out, x.data(), x.size()) < 0) _exit(9);
      };
      int w = w0;
      try {
         load(p["q"]);
         for(const J& c : p["cs"].a) {
            say((w == w0 ? "" : ",") + guarded([&] { return step(c, w); }));
            ++w;
         }
         say("\n{\"a\":" + proj1_owner(a) + ",\"b\":" + proj2_owner(b) + "}");
      } catch(const std::exception& e) {
         say(std::string("\n") + jq(e.what()));
      }
      a.resize(0);
      b.resize(0, 0);
      std::fflush(nullptr);
      _exit(0);
   }
   int st = 0;
   waitpid(pid, &st, 0);
   std::string o = slurp(out), d = slurp(diag);
   const auto cut = o.find('\n');
   std::string t = "\"none\"";
   if(cut != std::string::npos) {
      t = o.substr(cut + 1);
      o = o.substr(0, cut);
   }
   std::string end = "ok";
   if(WIFSIGNALED(st)) end = WTERMSIG(st) != SIGABRT ? "signal" : d.find("Assertion") != std::string::npos ? "abort" : "silent abort";
   else if(WEXITSTATUS(st) != 0) end = "exit: " + d.substr(0, 300);
   return "{\"k\":\"ok\",\"v\":{\"os\":[" + o + "],\"end\":" + jq(end) + ",\"t\":" + t + "}}";
}
static std::string exec(const J& c) {
   if(c.str("op") == "banner") {
      std::ostringstream o;
      auto* old = std::cout.rdbuf(o.rdbuf());
      print_config_info();
      std::cout.rdbuf(old);
      auto has = [&](const char* x) { return o.str().find(x) != std::string::npos ? "1" : "0"; };
      return okv(std::string("[") + has("mode: DEBUG") + "," + has("mode: RELEASE") + "," + has("handling: EXCEPTIONS") + "," + has("precision: ON") + "," + has("stacktrace: ON") + "]");
   }
   return program(c);
}
int main() {
   return command_loop([](const J&) {}, exec, [] { return std::string("0"); });
}
