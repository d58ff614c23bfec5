// Answers the questions of spec/Stable.tla with the real compensated reductions.
#include "operands.hpp"
using namespace spp;
template <typename T, typename A>
std::string reduce(const std::string& f, A&& a, const J& c) {
   const auto d = c["d"].size() ? std::optional<Strict<T>>{Strict<T>{from_num<T>(c["d"][0])}} : std::nullopt;
#define ONE(name, fn) if(f == name) return typed(d ? fn(a, *d) : fn(a))
   ONE("sum", stable_sum);
   ONE("semi_sum", semi_stable_sum);
   ONE("prod", stable_prod);
   ONE("mean", stable_mean);
   ONE("norm1", stable_norm1);
   ONE("norm1_scaled", stable_norm1_scaled);
   ONE("norm2", stable_norm2);
   ONE("norm2_scaled", stable_norm2_scaled);
#undef ONE
   const int lp = static_cast<int>(c.num("lp"));
   if(f == "norm_lp") return typed(d ? stable_norm_lp(a, lp, *d) : stable_norm_lp(a, Strict{lp}));
   if(f == "norm_lp_scaled") return typed(d ? stable_norm_lp_scaled(a, lp, *d) : stable_norm_lp_scaled(a, Strict{lp}));
   throw std::runtime_error("driver: function " + f);
}
template <typename T, typename A, typename B>
std::string product(const std::string& f, A&& a, B&& b, const J& c) {
   const auto d = c["d"].size() ? std::optional<Strict<T>>{Strict<T>{from_num<T>(c["d"][0])}} : std::nullopt;
   if(f == "dot") return typed(d ? stable_dot_prod(a, b, *d) : stable_dot_prod(a, b));
   return typed(d ? semi_stable_dot_prod(a, b, *d) : semi_stable_dot_prod(a, b));
}
template <typename P, typename F>
std::string powers(const J& c, F f) {
   Array1D<P> p(Size{static_cast<long>(c["p"].size())});
   for(size_t i = 0; i < c["p"].size(); ++i) p[static_cast<long>(i)] = Strict<P>{static_cast<P>(c["p"][i].num())};
   return c.num("w") % 3 ? f(p) : f(p(place::all));
}
template <typename T>
std::string call(const J& c) {
   const std::string f = c.str("f");
   const long w = c.num("w");
   const auto a = nums<T>(c["a"]), b = nums<T>(c["b"]);
   const auto d = c["d"].size() ? std::optional<Strict<T>>{Strict<T>{from_num<T>(c["d"][0])}} : std::nullopt;
   const auto sa = c.vec("sa"), sb = c.vec("sb");
   if(f == "dot" || f == "semi_dot") {
      if(sa.size() == 1)
         return operand1<T>(a, w, [&](auto&& x) {
            switch(w / kinds1 % 3) {
            case 0: return operand1<T>(b, 0, [&](auto&& y) { return product<T>(f, x, y, c); });
            case 1: { Array1D<T> y = plain1(b); return product<T>(f, x, y(place::all), c); }
            default: { Array1D<T> y = plain1(b); return product<T>(f, x, -(-y), c); }
            }
         });
      return operand2<T>(a, sa[0], sa[1], w, [&](auto&& x) {
         if(w / kinds2 % 2) { Array2D<T> y = plain2(b, sb[0], sb[1]); return product<T>(f, x, y, c); }
         Array2D<T> y = plain2(b, sb[0], sb[1]);
         return product<T>(f, x, y(place::all, place::all), c);
      });
   }
   if(f == "poly") {
      const Strict<T> x{from_num<T>(c["x"])};
      return operand1<T>(a, w, [&](auto&& k) { return typed(d ? stable_polynomial(k, x, *d) : stable_polynomial(k, x)); });
   }
   if(f == "polyp") {
      const Strict<T> x{from_num<T>(c["x"])};
      auto g = [&](auto&& p) { return operand1<T>(a, w, [&](auto&& k) { return typed(d ? stable_polynomial(k, x, p, *d) : stable_polynomial(k, x, p)); }); };
      return w % 2 ? powers<int>(c, g) : powers<long>(c, g);
   }
   if(f == "gpoly") {
      Array1D<T> y = plain1(b);
      auto g = [&](auto&& p) { return operand1<T>(a, w, [&](auto&& k) { return typed(d ? stable_gpolynomial(k, y, p, *d) : stable_gpolynomial(k, y, p)); }); };
      return w % 2 ? powers<int>(c, g) : powers<long>(c, g);
   }
   if(sa.size() == 1) return operand1<T>(a, w, [&](auto&& x) { return reduce<T>(f, x, c); });
   return operand2<T>(a, sa[0], sa[1], w, [&](auto&& x) { return reduce<T>(f, x, c); });
}
int main() {
   return command_loop([](const J&) {},
                       [](const J& c) -> std::string {
                          const auto t = c.str("t");
                          if(t == "float") return call<float>(c);
                          if(t == "double") return call<double>(c);
                          if(t == "ld") return call<long double>(c);
#ifdef STRICT_QUAD_PRECISION
                          if(t == "quad") return call<float128>(c);
#endif
                          throw std::runtime_error("driver: type " + t);
                       },
                       [] { return std::string("0"); });
}
