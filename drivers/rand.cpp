// Answers the requests of spec/Rand.tla with the real generators and fills.
#define SHOW_EXACT
#include "bignum.hpp"
using namespace spp;
#ifndef AF_
#define AF_ Unaligned
#endif
// the entropy behind the non-portable generators is part of the request
static unsigned rd_state = 1;
std::random_device::result_type std::random_device::_M_getval() {
   const unsigned r = rd_state;
   rd_state = rd_state * 1664525U + 1013904223U;
   return r;
}
template <typename T>
struct Of {
   const J& c;
   int w;
   Strict<T> low, high;
   bool dflt, named, not0;
   Seed seed;
   bool seeded;
   Array1D<T, AF_> a;
   Array2D<T, AF_> b;
   std::string q = "[]", lh = "[]";
   explicit Of(const J& j, int v)
       : c(j), w(v), low{from_num<T>(j["low"])}, high{from_num<T>(j["high"])}, dflt(j.num("dflt") != 0), named(j.num("named") != 0), not0(j.num("not0") != 0),
         seed{static_cast<unsigned>(j.num("seed") < 0 ? 1 : j.num("seed"))}, seeded(j.num("seed") >= 0), a(7, Strict<T>{from_num<T>(j["old"])}), b(3, 4, Strict<T>{from_num<T>(j["old"])}) {}
   std::string text() { return "\"lh\":" + lh + ",\"q\":" + q + ",\"a\":" + list(a) + ",\"b\":" + list(b); }
   template <typename A>
   std::string list(const A& x) {
      std::string r = "[";
      for(long i = 0; i < x.size().val(); ++i) r += (i ? "," : "") + exact(x.un(i));
      return r + "]";
   }
   Low<T> L() { return Low<T>{low}; }
   High<T> H() { return High<T>{high}; }
   static constexpr bool R = Real<T>;
   Strict<T> draw(bool semi) {
      if(!semi) {
         if constexpr(R) {
            if(not0) return dflt ? rands_not0<T>() : named ? rands_not0(L(), H()) : rands_not0(low, high);
            if(!dflt) return named ? rands(L(), H()) : rands(low, high);
         }
         return rands<T>();
      }
      if constexpr(R) {
         if(not0 && seeded) return dflt ? semi_rands_not0<T>(seed) : named ? semi_rands_not0(L(), H(), seed) : semi_rands_not0(low, high, seed);
         if(not0) return dflt ? semi_rands_not0<T>() : named ? semi_rands_not0(L(), H()) : semi_rands_not0(low, high);
         if(!dflt && seeded) return named ? semi_rands(L(), H(), seed) : semi_rands(low, high, seed);
         if(!dflt) return named ? semi_rands(L(), H()) : semi_rands(low, high);
      }
      return seeded ? semi_rands<T>(seed) : semi_rands<T>();
   }
   template <typename A>
   void fill(bool semi, A&& x) {
      if(!semi) {
         if constexpr(R) {
            if(not0) return dflt ? random_not0(x) : named ? random_not0(x, L(), H()) : random_not0(x, low, high);
            if(!dflt) return named ? random(x, L(), H()) : random(x, low, high);
         }
         return random(x);
      }
      if constexpr(R) {
         if(dflt) return not0 ? semi_random_not0(x) : semi_random(x);
         if(not0 && seeded) return named ? semi_random_not0(x, L(), H(), seed) : semi_random_not0(x, low, high, seed);
         if(not0) return named ? semi_random_not0(x, L(), H()) : semi_random_not0(x, low, high);
         if(seeded) return named ? semi_random(x, L(), H(), seed) : semi_random(x, low, high, seed);
         return named ? semi_random(x, L(), H()) : semi_random(x, low, high);
      }
      semi_random(x);
   }
   void several(bool semi) {
      if constexpr(R) {
         if(semi) return not0 ? semi_random_not0(a, b) : semi_random(a, b);
         if(not0) return dflt ? random_not0(a, b) : named ? random_not0(a, b, L(), H()) : random_not0(b, a, low, high);
         if(!dflt) return named ? random(b, a, L(), H()) : random(a, b, low, high);
      }
      semi ? semi_random(a, b) : random(a, b);
   }
   // an expression of random numbers can be used in place
#define KEEP(...) do { auto x = use_it([&]() -> decltype(auto) { return __VA_ARGS__; }); q = x; return; } while(0)
   template <typename F>
   std::string use_it(F f) {
      if constexpr(requires { f().low_rand(); }) {
         const auto e = f();
         lh = "[" + exact(e.low_rand()) + "," + exact(e.high_rand()) + "]";
      }
      if constexpr(requires { f().rows(); }) {
         if(w % 2) { Array2D<T, AF_> x = f(); return list(x); }
         Array2D<T, AF_> x;
         x.resize_and_assign(f());
         return list(x);
      } else {
         if(w % 2) { Array1D<T, AF_> x = f(); return list(x); }
         Array1D<T, AF_> x;
         x.resize_and_assign(f());
         return list(x);
      }
   }
   void expr1(bool semi) {
      const long n = c.num("n");
      if(!semi) {
         if constexpr(R) {
            if(not0) { if(dflt) { if(named) KEEP(random_not0<T>(Size{n})); KEEP(random_not0<T>(n)); } if(named) KEEP(random_not0<T>(Size{n}, L(), H())); KEEP(random_not0<T>(n, low, high)); }
            if(!dflt) { if(named) KEEP(random<T>(Size{n}, L(), H())); KEEP(random<T>(n, low, high)); }
         }
         if(named) KEEP(random<T>(Size{n}));
         KEEP(random<T>(n));
      }
      if constexpr(R) {
         if(not0 && dflt) { if(named) { if(seeded) KEEP(semi_random_not0<T>(Size{n}, seed)); KEEP(semi_random_not0<T>(Size{n})); } if(seeded) KEEP(semi_random_not0<T>(n, seed)); KEEP(semi_random_not0<T>(n)); }
         if(not0) { if(named) { if(seeded) KEEP(semi_random_not0<T>(Size{n}, L(), H(), seed)); KEEP(semi_random_not0<T>(Size{n}, L(), H())); } if(seeded) KEEP(semi_random_not0<T>(n, low, high, seed)); KEEP(semi_random_not0<T>(n, low, high)); }
         if(!dflt) { if(named) { if(seeded) KEEP(semi_random<T>(Size{n}, L(), H(), seed)); KEEP(semi_random<T>(Size{n}, L(), H())); } if(seeded) KEEP(semi_random<T>(n, low, high, seed)); KEEP(semi_random<T>(n, low, high)); }
      }
      if(named) { if(seeded) KEEP(semi_random<T>(Size{n}, seed)); KEEP(semi_random<T>(Size{n})); }
      if(seeded) KEEP(semi_random<T>(n, seed));
      KEEP(semi_random<T>(n));
   }
   void expr2(bool semi) {
      const long m = c.num("n"), n = c.num("k");
      if(!semi) {
         if constexpr(R) {
            if(not0) { if(dflt) { if(named) KEEP(random_not0<T>(Rows{m}, Cols{n})); KEEP(random_not0<T>(m, n)); } if(named) KEEP(random_not0<T>(Rows{m}, Cols{n}, L(), H())); KEEP(random_not0<T>(m, n, low, high)); }
            if(!dflt) { if(named) KEEP(random<T>(Rows{m}, Cols{n}, L(), H())); KEEP(random<T>(m, n, low, high)); }
         }
         if(named) KEEP(random<T>(Rows{m}, Cols{n}));
         KEEP(random<T>(m, n));
      }
      if constexpr(R) {
         if(not0 && dflt) { if(named) { if(seeded) KEEP(semi_random_not0<T>(Rows{m}, Cols{n}, seed)); KEEP(semi_random_not0<T>(Rows{m}, Cols{n})); } if(seeded) KEEP(semi_random_not0<T>(m, n, seed)); KEEP(semi_random_not0<T>(m, n)); }
         if(not0) { if(named) { if(seeded) KEEP(semi_random_not0<T>(Rows{m}, Cols{n}, L(), H(), seed)); KEEP(semi_random_not0<T>(Rows{m}, Cols{n}, L(), H())); } if(seeded) KEEP(semi_random_not0<T>(m, n, low, high, seed)); KEEP(semi_random_not0<T>(m, n, low, high)); }
         if(!dflt) { if(named) { if(seeded) KEEP(semi_random<T>(Rows{m}, Cols{n}, L(), H(), seed)); KEEP(semi_random<T>(Rows{m}, Cols{n}, L(), H())); } if(seeded) KEEP(semi_random<T>(m, n, low, high, seed)); KEEP(semi_random<T>(m, n, low, high)); }
      }
      if(named) { if(seeded) KEEP(semi_random<T>(Rows{m}, Cols{n}, seed)); KEEP(semi_random<T>(Rows{m}, Cols{n})); }
      if(seeded) KEEP(semi_random<T>(m, n, seed));
      KEEP(semi_random<T>(m, n));
   }
   void go() {
      const bool semi = c.num("semi") != 0;
      const std::string& form = c.str("form");
      if(form == "scalar") {
         std::string r = "[";
         for(long i = 0; i < c.num("n"); ++i) r += (i ? "," : "") + exact(draw(semi));
         q = r + "]";
      } else if(form == "expr1") expr1(semi);
      else if(form == "expr2") expr2(semi);
      else {
         const std::string& t = c.str("what");
         if(t == "a") fill(semi, a);
         else if(t == "even") fill(semi, a(place::even));
         else if(t == "rev") fill(semi, a(place::reverse));
         else if(t == "list") fill(semi, a(std::vector<ImplicitInt>{5, 1, 2}));
         else if(t == "b") fill(semi, b);
         else if(t == "row") fill(semi, b.row(1));
         else if(t == "col") fill(semi, b.col(2));
         else if(t == "diag") fill(semi, b.diag());
         else if(t == "blk") fill(semi, b(place::skipN(2), seqN{0, 2, 3}));
         else if(t == "multi") several(semi);
         else throw std::runtime_error("driver: what " + t);
      }
   }
};
int main() {
   return command_loop([](const J&) {},
                       [](const J& c) -> std::string {
                          const int w = c.has("w") ? c.inum("w") : 0;
                          rd_state = static_cast<unsigned>(c.has("rd") ? c.num("rd") : 1);
                          auto r = by_type(c.str("t"), [&](auto z) -> std::string {
                             Of<decltype(z)> x(c, w), y(c, w);
                             std::string k = "ok";
                             auto run = [&](auto& o) { try { o.go(); } catch(const StrictException&) { k = "err"; } };
                             run(x);
                             if(c.num("semi") == 1) run(y);
                             return "{\"k\":\"" + k + "\",\"v\":{" + x.text() + ",\"again\":" + (c.num("semi") == 1 && x.text() == y.text() ? "1" : "0") + "}}";
                          });
                          return r;
                       },
                       [] { return std::string("0"); });
}
