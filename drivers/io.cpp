// Conformance driver for spec/IO.tla: one array, one matrix, two files and the output format.
// All files live in the directory named by IO_DIR, which the check creates and removes.
#define SHOW_EXACT
#include "bignum.hpp"
#include <sys/stat.h>
using namespace spp;
#ifndef AF_
#define AF_ Unaligned
#endif
static std::string dir() {
   const char* d = std::getenv("IO_DIR");
   if(!d) throw std::runtime_error("driver: IO_DIR");
   static const auto pid = getpid(); // the files stay the same in commands run in a process of their own
   return d + std::string("/") + std::to_string(pid);
}
static std::string path(long i) { return dir() + "-" + std::to_string(i) + ".txt"; }
static void erase(long i) {


   std::remove(path(i).c_str()); // removes a file or an empty directory
}
static std::string chars(const std::vector<long>& v) {
   std::string r;
   for(long x : v) r += static_cast<char>(x);
   return r;
}
static std::string codes(const std::string& x) {
   std::string r = "[";
   for(size_t i = 0; i < x.size(); ++i) r += (i ? "," : "") + std::to_string(static_cast<int>(static_cast<unsigned char>(x[i])));
   return r + "]";
}
struct Fmt {
   int sci = 1, pf = 7, pd = 16, pl = 19, pq = 33, det = 0, row = 0;
} static g;
static std::string kind[3];
static void put(long i, const std::string& k, const std::string& x) {
   erase(i);
   kind[i] = k;
   if(k == "text") { std::ofstream f(path(i), std::ios::binary); f << x; }
   if(k == "dir" && mkdir(path(i).c_str(), 0700) != 0) throw std::runtime_error("driver: mkdir");
}
static std::string slurp(long i) {
   std::ifstream f(path(i), std::ios::binary);
   std::ostringstream o;
   o << f.rdbuf();
   return o.str();
}
static void apply(int w) {
   if(w % 2) format.reset();
   format.scientific(g.sci != 0);
   if(g.pf == g.pd && g.pd == g.pl && g.pl == g.pq) format.precision(g.pf);
   format.precision_float(g.pf).precision_double(g.pd).precision_long_double(g.pl);
#ifdef STRICT_QUAD_PRECISION
   format.precision_quad(g.pq);
#endif
   if(w % 2) array_format.reset();
   array_format.detailed(g.det != 0);
   g.row ? array_format.row_style() : array_format.col_style();
}
// Output of f on std::cout.
template <typename F>
std::string captured(F f) {
   std::ostringstream o;
   auto* old = std::cout.rdbuf(o.rdbuf());
   try { f(); } catch(...) { std::cout.rdbuf(old); throw; }
   std::cout.rdbuf(old);
   return o.str();
}
struct World {
   virtual ~World() = default;
   virtual std::string arrays() = 0;
   virtual void load(const J& s) = 0;
   virtual std::string exec(const J& c, int w) = 0;
};
template <typename T>
struct Of : World {
   Array1D<T, AF_> a;
   Array2D<T, AF_> b;
   void set1(const J& q) {
      a.resize(static_cast<long>(q.size()));
      for(size_t i = 0; i < q.size(); ++i) a.un(static_cast<long>(i)) = Strict<T>{from_num<T>(q[i])};
   }
   void set2(const J& m) {
      b.resize(m.num("m"), m.num("n"));
      for(size_t i = 0; i < m["d"].size(); ++i) b.un(static_cast<long>(i)) = Strict<T>{from_num<T>(m["d"][i])};
   }
   void load(const J& s) override {
      set1(s["a"]);
      set2(s["b"]);
   }
   std::string arrays() override { return std::string("\"t\":\"") + tname<T>() + "\",\"a\":" + proj1_owner(a) + ",\"b\":" + proj2_owner(b); }
   template <typename F>
   auto source(const J& c, F f) {
      const std::string k = c.str("k");
      const Array1D<T, AF_>& ca = a;
      const Array2D<T, AF_>& cb = b;
      if(k == "a") return f(ca);
      if(k == "rev") return f(a(place::reverse));
      if(k == "even") return f(ca(place::even));
      if(k == "row") return f(cb.row(c.num("i")));
      if(k == "col") return f(b.col(c.num("i")));
      if(k == "view") return f(cb.view1D());
      if(k == "b") return f(cb);
      if(k == "brev") return f(b(place::reverse, place::all));
      if(k == "twice") return f(merge(ca, a));
      if(k == "bT") return f(transpose(cb));
      if constexpr(Floating<T> || SignedInteger<T>) {
         if(k == "neg") return f(-ca);
         if(k == "bneg") return f(-cb);
      }
      throw std::runtime_error("driver: source " + k);
   }
   // after a successful read the stream is usable again and has nothing left
   template <typename Stream, typename A>
   std::string consume(Stream& is, A& x) {
      A rest(x);
      is >> x;
      if(is.fail()) return "\"stream left failed\"";
      is >> rest;
      return bool{rest.empty()} ? ok() : std::string("\"something left\"");
   }
   template <typename A>
   std::string read(long i, A& x, int w) {
      switch(w % 3) {
      case 0: read_from_file(path(i), x); return ok();
      case 1: {
         std::ifstream f(path(i));
         f >> x;
         return f.fail() ? std::string("\"stream left failed\"") : ok();
      }
      default:
         if(kind[i] != "text") { read_from_file(path(i), x); return ok(); }
         std::istringstream f(slurp(i));
         return consume(f, x);
      }
   }
   std::string exec(const J& c, int w) override {
      const std::string& op = c.str("op");
      if(op == "seta") { set1(c["q"]); return ok(); }
      if(op == "setb") { set2(c["m"]); return ok(); }
      if(op == "read1") return read(c.num("i"), a, w);
      if(op == "read2") return read(c.num("i"), b, w);
      if(op == "unread") {
         std::ifstream missing(dir() + "-nowhere/x");
         std::istringstream broken("1 2");
         broken.setstate(std::ios::failbit);
         switch(w % 6) {
         case 0: missing >> a; break;
         case 1: missing >> b; break;
         case 2: broken >> a; break;
         case 3: broken >> b; break;
         case 4: read_from_file(dir() + "-nowhere/x", a); break;
         default: read_from_file(dir() + "-nowhere/x", b);
         }
         return ok();
      }
      if(op == "scal") {
         std::istringstream is(chars(c.vec("x")));
         std::string q;
         long k = 0, n = c.num("n");
         for(Strict<T> v; k < n; ++k) {
            v = Zero<T>;
            try { is >> v; } catch(const StrictException&) { break; }
            q += (k ? "," : "") + exact(v);
         }
         return okv("{\"q\":[" + q + "],\"all\":" + (k == n ? "1" : "0") + "}");
      }
      if(op == "write") {
         const auto name = chars(c.vec("name"));
         const long i = c.num("i");
         erase(i);
         kind[i] = "text";
         source(c["src"], [&](auto const& x) {
            if(w % 3 == 0 && name.empty()) { std::ofstream f(path(i)); f << x; }
            else if(w % 3 == 1 && name.empty()) print_to_file(path(i), x);
            else print_to_file(path(i), x, name);
         });
         return ok();
      }
      if(op == "wbad") {
         source(c["src"], [&](auto const& x) { print_to_file(dir() + "-nowhere/x", x); });
         return ok();
      }
      if(op == "emit") {
         const auto name = chars(c.vec("name"));
         const J& ss = c["srcs"];
         std::string out;
         if(ss.size() == 1) {
            source(ss[0], [&](auto const& x) {
               if(name.empty() && w % 4 == 0) { std::ostringstream o; o << x; out = o.str(); }
               else if(name.empty() && w % 4 == 1) out = captured([&] { std::cout << x; });
               else if(name.empty() && w % 4 == 2) out = captured([&] { w % 8 == 2 ? print(x) : printn(x); });
               else out = captured([&] { w % 8 < 4 ? print(x, name) : printn(x, name); });
            });
         } else {
            source(ss[0], [&](auto const& x) {
               // the second one is always the array itself: all pairs of kinds would be too many instances
               out = captured([&] { w % 2 ? print(x, a) : printn(x, a); });
            });
         }
         return okv(codes(out));
      }
      if(op == "emitx") {
         const auto name = chars(c.vec("name"));
         const J& q = c["q"];
         std::vector<Strict<T>> v;
         for(size_t i = 0; i < q.size(); ++i) v.push_back(Strict<T>{from_num<T>(q[i])});
         return okv(codes(captured([&] {
            if(v.size() == 1 && (!name.empty() || w % 4 == 0)) w % 2 ? print(v[0], name) : printn(v[0], name);
            else if(w % 4 == 1) for(auto x : v) std::cout << x << '\n';
            else if(v.size() == 1) w % 2 ? print(v[0]) : printn(v[0]);
            else if(v.size() == 2) w % 2 ? print(v[0], v[1]) : printn(v[0], v[1]);
            else if(v.size() == 3) w % 2 ? print(v[0], v[1], v[2]) : printn(v[0], v[1], v[2]);
         })));
      }
      if(op == "index") {
         std::vector<ImplicitInt> v;
         for(size_t i = 0; i < c["q"].size(); ++i) v.emplace_back(from_num<long>(c["q"][i]));
         std::ostringstream o;
         o << v;
         return okv(codes(o.str()));
      }
      throw std::runtime_error("driver: op " + op);
   }
};
static std::unique_ptr<World> world;
static void make(const std::string& t) {
   world = nullptr;
#define TRY(T) if(t == tname<T>()) world = std::make_unique<Of<T>>();
   TYPES_
   if(!world) throw std::runtime_error("driver: type " + t);
}
static void fmt_of(const J& j) { g = {j.inum("sci"), j.inum("pf"), j.inum("pd"), j.inum("pl"), j.inum("pq"), j.inum("det"), j.inum("row")}; }
static std::string proj() {
   std::string f = "[";
   for(long i = 1; i <= 2; ++i) f += (i > 1 ? ",{\"k\":\"" : "{\"k\":\"") + kind[i] + "\",\"x\":" + (kind[i] == "text" ? codes(slurp(i)) : "[]") + "}";
   char b[128];
   std::snprintf(b, sizeof b, "{\"sci\":%d,\"pf\":%d,\"pd\":%d,\"pl\":%d,\"pq\":%d,\"det\":%d,\"row\":%d}", g.sci, g.pf, g.pd, g.pl, g.pq, g.det, g.row);
   return "{" + world->arrays() + ",\"f\":" + f + "],\"g\":" + b + "}";
}
static void load(const J& s) {
   make(s.str("t"));
   world->load(s);
   for(int i = 0; i < 2; ++i) put(i + 1, s["f"][i].str("k"), chars(s["f"][i].vec("x")));
   fmt_of(s["g"]);
   apply(0);
}
static std::string exec(const J& c) {
   const std::string& op = c.str("op");
   const int w = c.has("w") ? c.inum("w") : 0;
   if(op == "init") {
      make(c.str("t"));
      put(1, "none", "");
      put(2, "none", "");
      g = Fmt{};
      format.reset();
      array_format.reset();
      return ok();
   }
   if(op == "fmt") { fmt_of(c["g"]); apply(w); return ok(); }
   if(op == "resetfmt") {
      g = Fmt{};
      format.reset();
      array_format.reset();
      // nothing is applied afterwards: printing has to use what reset chose
      return ok();
   }
   if(op == "text") { put(c.num("i"), "text", chars(c.vec("x"))); return ok(); }
   if(op == "del") { put(c.num("i"), "none", ""); return ok(); }
   if(op == "dir") { put(c.num("i"), "dir", ""); return ok(); }
   return world->exec(c, w);
}
int main() {
   int r = command_loop(load, exec, proj);
   erase(1);
   erase(2);
   return r;
}
