// Sorting, shuffling, filtering and visiting through views (spec/Sorting.tla).
// ROOT: 0 the array itself, 1 a constant reference to it, 2 an expression equal to it
#include "world.hpp"
#ifndef ROOT
#define ROOT 0
#endif

static long mod3(long x) { return ((x % 3) + 3) % 3; }
template <typename V>
std::string seen(const V& v) { return proj1(v); }

struct Act {
   const J& a;
   Forms w;
   std::string out;

   static bool pred(const std::string& p, long x) {
      if(p == "even") return x % 2 == 0;
      if(p == "pos") return x > 0;
      if(p == "every") return true;
      return false;
   }
   template <typename V, typename F>
   void filtered(V&& v, const J& g, F f) {
      const std::string& k = g.str("f");
      if(k == "cond") {
         std::string p = g.str("p");
         f(in_cond_range(std::forward<V>(v), [p](S x) { return StrictBool{pred(p, long(x.val()))}; }));
         return;
      }
      S lo{T(g.num("lo"))}, hi{T(g.num("hi"))};
      if(k == "open") {
         if(w.named()) f(in_open_range(std::forward<V>(v), Low{lo}, High{hi}));
         else f(in_open_range(std::forward<V>(v), lo, hi));
      } else {
         if(w.named()) f(in_closed_range(std::forward<V>(v), Low{lo}, High{hi}));
         else f(in_closed_range(std::forward<V>(v), lo, hi));
      }
   }
   template <typename R>
   void finish_filter(R&& r) {
      out = okv(proj1(r));
#if ROOT == 0
      if(a.num("wr") == 1) r = S{T(a.num("x"))};
#endif
   }
   template <typename V>
   void act(V&& v) {
      constexpr bool two = TwoDimBaseType<RemoveRef<V>>;
      const std::string& k = a.str("k");
      out = ok();
      if(k == "see" || k == "each") {
         std::string r;
         auto note = [&](auto x) { r += (r.empty() ? "" : ",") + show(x); };
         if(k == "see") spp::for_each(std::forward<V>(v), [&](const auto& x) { note(x); });
#if ROOT == 0
         else spp::for_each(std::forward<V>(v), [&](auto& x) { note(x); x = Strict{T(2)} * x + Strict{T(1)}; });
#endif
         out = okv("[" + r + "]");
         return;
      }
      if(k == "filter") {
         if constexpr(!two) {
            if(a["fs"].size() == 1) filtered(std::forward<V>(v), a["fs"][0], [&](auto r) { finish_filter(r); });
            else filtered(std::forward<V>(v), a["fs"][0], [&](auto q) {
               filtered(w.braced() ? std::move(q) : std::move(q), a["fs"][1], [&](auto r) { finish_filter(r); }); });
         }
         return;
      }
#if ROOT == 0
      if(k == "shuffle") {
         spp::shuffle(std::forward<V>(v));
      } else if(k == "sort") {
         const std::string& f = a.str("f");
         if(f == "inc") {
            if(w.named()) spp::sort(std::forward<V>(v), [](auto x, auto y) { return x < y; });
            else spp::sort_increasing(std::forward<V>(v));
         } else if(f == "dec") {
            if(w.named()) spp::sort(std::forward<V>(v), [](auto x, auto y) { return x > y; });
            else spp::sort_decreasing(std::forward<V>(v));
         } else if(f == "mod") {
            spp::sort(std::forward<V>(v), [](S x, S y) { return StrictBool{mod3(long(x.val())) < mod3(long(y.val()))}; });
         } else {
            spp::sort(std::forward<V>(v), [](const S& x, const S& y) { return abss(x) > abss(y); });
         }
      } else
#endif
         throw std::runtime_error("driver: action " + k);
   }
   template <int R, typename V>
   void at(V& v) {
      if constexpr(views_rvalue<V>) {
         if(w.rvalue()) {
            act(V(v));
            return;
         }
      }
      act(v);
   }
};
static std::string exec(const J& c) {
   if(c.str("op") == "init") {
      load(c);
      return ok();
   }
   Forms w{c.has("w") ? c.inum("w") & 15 : 0};
   Act act{c["a"], w, {}};
#if ROOT == 0
   walk<TOP>(W->A, c["path"], w, act);
#elif ROOT == 1
   walk<TOP>(std::as_const(W->A), c["path"], w, act);
#else
   auto e = -(-W->A);
   walk<TOP>(e, c["path"], w, act);
#endif
   return act.out;
}
int main() { return command_loop(load, exec, proj); }
