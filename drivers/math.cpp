// Answers the questions of spec/Math.tla with the real scalar functions.
#include "bignum.hpp"
using namespace spp;
[[noreturn]] static void no(const std::string& f) { throw std::runtime_error("driver: function " + f); }
template <typename T>
std::string pair_of(const use::StrictPair<Strict<T>>& p) {
   return okv(std::string("[\"") + tname<T>() + "\"," + exact(p.first) + "," + exact(p.second) + "]");
}
template <typename T>
std::string call(const std::string& f, const J& args, long w) {
   auto a = [&](int i) { return Strict<T>{from_num<T>(args[i])}; };
   auto n = [&](int i) { return from_num<long>(args[i]); };
   auto x = [&] { return a(0); };
   if(f == "signs") return typed(signs(x()));
   if(f == "abss") return typed(abss(x()));
   if(f == "mins") return typed(mins(x(), a(1)));
   if(f == "maxs") return typed(maxs(x(), a(1)));
   if(f == "squares") return typed(squares(x()));
   if(f == "cubes") return typed(cubes(x()));
   if(f == "clamps") return w % 2 ? typed(clamps(x(), a(1), a(2))) : typed(clamps(x(), Low<T>{a(1)}, High<T>{a(2)}));
   if(f == "in_open") return w % 2 ? typed(in_open(x(), a(1), a(2))) : typed(in_open(Value<T>{x()}, Low<T>{a(1)}, High<T>{a(2)}));
   if(f == "in_closed") return w % 2 ? typed(in_closed(x(), a(1), a(2))) : typed(in_closed(Value<T>{x()}, Low<T>{a(1)}, High<T>{a(2)}));
   if constexpr(Integer<T>) {
      if(f == "ipows") return typed(pows(x(), a(1)));
      if constexpr(SameAs<T, long>) {
         if(f == "factorial") return typed(w % 2 ? factorial(n(0)) : factorial(static_cast<int>(n(0))));
         if(f == "binom_coeff") return typed(w % 2 ? binom_coeff(n(0), n(1)) : binom_coeff(Strict<long>{n(0)}, Strict<int>{static_cast<int>(n(1))}));
      }
   } else {
      if(f == "invs") return typed(invs(x()));
      if(f == "sqrts") return typed(sqrts(x()));
      if(f == "fmas") return typed(fmas(x(), a(1), a(2)));
      if(f == "floors") return typed(floors(x()));
      if(f == "ceils") return typed(ceils(x()));
      if(f == "isinfs") return typed(isinfs(x()));
      if(f == "isnans") return typed(isnans(x()));
      if(f == "isfinites") return typed(isfinites(x()));
      if(f == "exps") return typed(exps(x()));
      if(f == "logs") return typed(logs(x()));
      if(f == "log2s") return typed(log2s(x()));
      if(f == "log10s") return typed(log10s(x()));
      if(f == "cbrts") return typed(cbrts(x()));
      if(f == "sins") return typed(sins(x()));
      if(f == "coss") return typed(coss(x()));
      if(f == "tans") return typed(tans(x()));
      if(f == "pows") return typed(pows(x(), a(1)));
      if(f == "exps_int") return typed(exps_int<T>(n(0)));
      if(f == "pows_int") return typed(pows_int(x(), n(1)));
      if(f == "fast_pows_int") return typed(fast_pows_int(x(), n(1)));
      if(f == "two_sums") return pair_of(two_sums(x(), a(1)));
      if(f == "two_prods") return pair_of(two_prods(x(), a(1)));
      if(f == "pow_prods") return pair_of(pow_prods(x(), n(1)));
      if(f == "epsilon") return typed(constants::epsilon<T>);
      if(f == "pi") return typed(constants::pi<T>);
      if(f == "e") return typed(constants::e<T>);
      if(f == "sqrt2") return typed(constants::sqrt2<T>);
   }
   no(f);
}
int main() {
   return command_loop([](const J&) {},
                       [](const J& c) -> std::string {
                          return by_type(c.str("t"), [&](auto z) -> std::string {
                             using T = decltype(z);
                             if constexpr(Boolean<T>) no("bool");
                             else return call<T>(c.str("f"), c["a"], c.has("w") ? c.num("w") : 0);
                          });
                       },
                       [] { return std::string("0"); });
}
