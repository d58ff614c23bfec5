// Answers the questions of spec/Tol.tla with the real comparisons and error measures.
#include "operands.hpp"
using namespace spp;
template <typename T>
std::string maybe(const std::optional<Strict<T>>& x) { return x ? typed(*x) : okv("[\"none\"]"); }
template <typename T, typename X, typename Y>
std::string compare(const std::string& f, const X& x, const Y& y, const J& c) {
   auto o = [&](const char* k) { return Strict<T>{from_num<T>(c[k][0])}; };
   const bool tol = c["tol"].size(), near = c["near"].size(), dflt = c["dflt"].size();
   if(f == "abs") {
      if(dflt) return typed(within_tol_abs(x, y, tol ? o("tol") : DefaultTol<T>::value, StrictBool{c["dflt"][0].num() != 0}));
      return typed(tol ? within_tol_abs(x, y, o("tol")) : within_tol_abs(x, y));
   }
   if(f == "rel") {
      if(dflt) return typed(within_tol_rel(x, y, tol ? o("tol") : DefaultTol<T>::value, near ? o("near") : DefaultTol<T>::value, StrictBool{c["dflt"][0].num() != 0}));
      if(near) return typed(within_tol_rel(x, y, tol ? o("tol") : DefaultTol<T>::value, o("near")));
      return typed(tol ? within_tol_rel(x, y, o("tol")) : within_tol_rel(x, y));
   }
   throw std::runtime_error("driver: function " + f);
}
template <typename T, typename X, typename Y>
std::string measure(const std::string& f, const X& x, const Y& y, const J& c) {
   auto d = [&] { return Strict<T>{from_num<T>(c["dflt"][0])}; };
   const bool dflt = c["dflt"].size();
   if(f == "max_abs_error") return typed(dflt ? max_abs_error(x, y, d()) : max_abs_error(x, y));
   if(f == "max_rel_error") return maybe<T>(dflt ? max_rel_error(x, y, d()) : max_rel_error(x, y));
   return compare<T>(f, x, y, c);
}
// Lists are written in the source: one call for each length. The side with the list varies.
template <typename T, typename A, typename Call>
std::string list1(const std::vector<Strict<T>>& l, const A& a, bool left, Call call) {
   auto go = [&](const use::List1D<Strict<T>>& q) { return left ? call(q, a) : call(a, q); };
   switch(l.size()) {
   case 1: return go({l[0]});
   case 2: return go({l[0], l[1]});
   case 3: return go({l[0], l[1], l[2]});
   default: return go({l[0], l[1], l[2], l[3]});
   }
}
template <typename T, typename A, typename Call>
std::string list2(const std::vector<Strict<T>>& l, long m, const A& a, bool left, Call call) {
   auto go = [&](const use::List2D<Strict<T>>& q) { return left ? call(q, a) : call(a, q); };
   const long n = static_cast<long>(l.size()) / m;
   if(m == 1 && n == 1) return go({{l[0]}});
   if(m == 1 && n == 2) return go({{l[0], l[1]}});
   if(m == 1 && n == 3) return go({{l[0], l[1], l[2]}});
   if(m == 2 && n == 1) return go({{l[0]}, {l[1]}});
   if(m == 3 && n == 1) return go({{l[0]}, {l[1]}, {l[2]}});
   if(m == 2 && n == 2) return go({{l[0], l[1]}, {l[2], l[3]}});
   if(m == 2 && n == 3) return go({{l[0], l[1], l[2]}, {l[3], l[4], l[5]}});
   if(m == 3 && n == 2) return go({{l[0], l[1]}, {l[2], l[3]}, {l[4], l[5]}});
   throw std::runtime_error("driver: list shape");
}
template <typename T>
std::string call(const J& c) {
   const std::string f = c.str("f");
   const long w = c.num("w");
   const auto a = nums<T>(c["a"]), b = nums<T>(c["b"]);
   const auto sa = c.vec("sa"), sb = c.vec("sb");
   auto o = [&](const char* k) { return Strict<T>{from_num<T>(c[k][0])}; };
   if(sa.empty()) {
      const Strict<T> x{a[0]}, y{b[0]};
      if(f == "abs_error") return typed(abs_error(x, y));
      if(f == "rel_error") return maybe<T>(rel_error(x, y));
      const bool tol = c["tol"].size(), near = c["near"].size();
      if(f == "abs") return typed(tol ? within_tol_abs(x, y, o("tol")) : within_tol_abs(x, y));
      if(f == "rel") return typed(near ? within_tol_rel(x, y, tol ? o("tol") : DefaultTol<T>::value, o("near")) : tol ? within_tol_rel(x, y, o("tol")) : within_tol_rel(x, y));
   }
   if(const long form = c.has("list") ? c.num("list") : 0; form) {
      // 1: the second operand is a list, 2: the first one
      std::vector<Strict<T>> l;
      for(auto v : form == 1 ? b : a) l.push_back(Strict<T>{v});
      const auto& other = form == 1 ? a : b;
      auto go = [&](auto&& x, auto&& y) { return compare<T>(f, x, y, c); };
      if(sa.size() == 1) {
         Array1D<T> z = plain1(other);
         return w % 2 ? list1<T>(l, z, form == 2, go) : list1<T>(l, z(place::all), form == 2, go);
      }
      const auto& so = form == 1 ? sa : sb;
      Array2D<T> z = plain2(other, so[0], so[1]);
      const long m = form == 1 ? sb[0] : sa[0];
      return w % 2 ? list2<T>(l, m, z, form == 2, go) : list2<T>(l, m, z(place::all, place::all), form == 2, go);
   }
   if(sa.size() == 1)
      return operand1<T>(a, w, [&](auto&& x) {
         Array1D<T> y = plain1(b);
         switch(w / kinds1 % 3) {
         case 0: return measure<T>(f, x, y, c);
         case 1: return measure<T>(f, x, std::as_const(y)(place::all), c);
         default: return measure<T>(f, x, -(-y), c);
         }
      });
   return operand2<T>(a, sa[0], sa[1], w, [&](auto&& x) {
      Array2D<T> y = plain2(b, sb[0], sb[1]);
      return w / kinds2 % 2 ? measure<T>(f, x, y, c) : measure<T>(f, x, y(place::all, place::all), c);
   });
}
int main() {
   return command_loop([](const J&) {},
                       [](const J& c) -> std::string {
                          const auto t = c.str("t");
                          if(t == "float") return call<float>(c);
                          if(t == "double") return call<double>(c);
                          if(t == "ld") return call<long double>(c);
#ifdef STRICT_QUAD_PRECISION
                          if(t == "quad") return call<float128>(c);
#endif
                          throw std::runtime_error("driver: type " + t);
                       },
                       [] { return std::string("0"); });
}
