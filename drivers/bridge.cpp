// Conformance driver for spec/Bridge.tla: three matrices and their maps. Which kinds of arrays
// hold them is chosen by KIND_: 0 resizable, 1 fixed-size, 2 mixed.
#include "common.hpp"
#include <array>
using namespace spp;
using T = T_;
using S = Strict<T>;
static S sx(long x) { return S{static_cast<T>(x)}; }
#if KIND_ == 0
using A0 = Array2D<T, AF_>;
using A1 = Array2D<T, AF_>;
using A2 = Array2D<T, OTHER_AF>;
#elif KIND_ == 1
using A0 = FixedArray2D<T, M0, N0, AF_>;
using A1 = FixedArray2D<T, M1, N1, OTHER_AF>;
using A2 = FixedArray2D<T, M2, N2, AF_>;
#else
using A0 = FixedArray2D<T, M0, N0, AF_>;
using A1 = Array2D<T, OTHER_AF>;
using A2 = Array2D<T, AF_>;
#endif
static std::tuple<std::unique_ptr<A0>, std::unique_ptr<A1>, std::unique_ptr<A2>> pool;
template <typename F>
static std::string with(long i, F f) {
   switch(i) {
   case 1: return f(*std::get<0>(pool));
   case 2: return f(*std::get<1>(pool));
   case 3: return f(*std::get<2>(pool));
   default: throw std::runtime_error("driver: slot");
   }
}
template <typename A>
static void load1(std::unique_ptr<A>& p, const J& j) {
   const long m = j.num("m"), n = j.num("n");
   if constexpr(A::is_fixed()) {
      p = std::make_unique<A>();
      if(p->rows().val() != m || p->cols().val() != n) throw std::runtime_error("driver: shape");
   } else {
      p = std::make_unique<A>(Rows{m}, Cols{n});
   }
   auto d = j.vec("d");
   for(size_t k = 0; k < d.size(); ++k) p->un(static_cast<long>(k)) = sx(d[k]);
}
// What a map shows: [rows, cols, elements in row-major order], read element by element.
template <typename M>
static std::vector<std::string> seen(const M& m) {
   std::vector<std::string> v{std::to_string(m.rows()), std::to_string(m.cols())};
   for(long i = 0; i < m.rows(); ++i)
      for(long j = 0; j < m.cols(); ++j) v.push_back(show(m(i, j)));
   return v;
}
static std::string joined(const std::vector<std::string>& v) {
   std::string r = "[";
   for(size_t i = 0; i < v.size(); ++i) r += (i ? "," : "") + v[i];
   return r + "]";
}
template <typename A>
static std::string shape_and(const A& a) {
   std::vector<std::string> v{std::to_string(a.rows().val()), std::to_string(a.cols().val())};
   for(long i = 0; i < a.size().val(); ++i) v.push_back(show(a.un(i)));
   return joined(v);
}
template <typename A>
static std::string proj_of(A& a) {
   auto m = eigen::map(a);
   const A& ca = a;
   auto cm = eigen::map(ca);
   if(joined(seen(m)) != shape_and(ca) || joined(seen(cm)) != shape_and(ca)) return "\"disagree map\"";
   if(a.size().val() > 0 && (m.data() != a.blas_data() || cm.data() != ca.blas_data())) return "\"map of other storage\"";
   // an all-at-once evaluation sees the same elements
   typename std::decay_t<decltype(m)>::PlainObject copy = m;
   if(joined(seen(copy)) != shape_and(ca)) return "\"disagree copy\"";
   return proj2_owner(a);
}
static std::string exec(const J& c) {
   const std::string op = c.str("op");
   const long w = c.has("w") ? c.num("w") : 0;
   const long i = c.num("i");
   auto r = [&] { return c.num("r"); };
   auto q = [&] { return c.num("c"); };
   if(op == "put") return with(i, [&](auto& a) {
      auto m = eigen::map(a);           // made before the write
      a(r(), q()) = sx(c.num("x"));
      return show(m(r(), q())) == show(sx(c.num("x"))) ? ok() : std::string("{\"k\":\"stale\",\"v\":[]}");
   });
   if(op == "map_put") return with(i, [&](auto& a) {
      auto m = eigen::map(a);
      const auto& e = a.un(r(), q());
      m(r(), q()) = static_cast<T>(c.num("x"));
      return show(e) == show(sx(c.num("x"))) ? ok() : std::string("{\"k\":\"stale\",\"v\":[]}");
   });
   if(op == "get") return with(i, [&](auto& a) { return ok1(show(a(r(), q()))); });
   if(op == "map_get") return with(i, [&](auto& a) { return ok1(w % 2 ? show(eigen::map(std::as_const(a))(r(), q())) : show(eigen::map(a)(r(), q()))); });
   if(op == "map_shape") return with(i, [&](auto& a) { auto m = eigen::map(a); return okv("[" + std::to_string(m.rows()) + "," + std::to_string(m.cols()) + "]"); });
   if(op == "map_const") return with(i, [&](auto& a) {
      const auto& ca = a;
      auto m = eigen::map(ca);
      constexpr bool writable = requires { m(0L, 0L) = T{}; } || requires { *m.data() = T{}; } || requires { m.coeffRef(0L, 0L) = T{}; };
      auto v = seen(m);
      v.insert(v.begin(), writable ? "1" : "0");
      return okv(joined(v));
   });
   if(op == "map_fill") return with(i, [&](auto& a) {
      auto m = eigen::map(a);
      if(w % 2) m.setConstant(static_cast<T>(c.num("x")));
      else m.array() = static_cast<T>(c.num("x"));
      return ok();
   });
   if(op == "map_scale") return with(i, [&](auto& a) { eigen::map(a) *= static_cast<T>(c.num("x")); return ok(); });
   if(op == "map_copy") return with(i, [&](auto& a) {
      return with(c.num("j"), [&](auto& b) {
         if constexpr(requires { eigen::map(a) = eigen::map(b); }) {
#if KIND_ != 0
            // shapes are known at compile time: others are never asked for
            constexpr long am = std::decay_t<decltype(eigen::map(a))>::RowsAtCompileTime, bm = std::decay_t<decltype(eigen::map(b))>::RowsAtCompileTime;
            constexpr long an = std::decay_t<decltype(eigen::map(a))>::ColsAtCompileTime, bn = std::decay_t<decltype(eigen::map(b))>::ColsAtCompileTime;
            if constexpr((am == bm || am < 0 || bm < 0) && (an == bn || an < 0 || bn < 0))
#endif
               eigen::map(a) = eigen::map(b);
         }
         return ok();
      });
   });
   auto product = [&](auto f) {
      return with(i, [&](auto& a) {
         return with(c.num("j"), [&](auto& b) -> std::string {
            constexpr long an = std::decay_t<decltype(eigen::map(a))>::ColsAtCompileTime, bm = std::decay_t<decltype(eigen::map(b))>::RowsAtCompileTime;
            if constexpr(an >= 0 && bm >= 0 && an != bm) return err();      // not a program
            else return f(a, b);
         });
      });
   };
   if(op == "prod") return product([&](auto& a, auto& b) {
      auto p = matrix_prod(a, b);
      static_assert(std::is_same_v<decltype(p), Array2D<T>>);
      return okv(shape_and(p));
   });
   if(op == "prod_into") return product([&](auto& a, auto& b) {
      return with(c.num("k"), [&](auto& d) -> std::string {
         constexpr long am = std::decay_t<decltype(eigen::map(a))>::RowsAtCompileTime, dm = std::decay_t<decltype(eigen::map(d))>::RowsAtCompileTime;
         constexpr long bn = std::decay_t<decltype(eigen::map(b))>::ColsAtCompileTime, dn = std::decay_t<decltype(eigen::map(d))>::ColsAtCompileTime;
         if constexpr((am >= 0 && dm >= 0 && am != dm) || (bn >= 0 && dn >= 0 && bn != dn)) return err();
         else {
            matrix_prod(a, b, d);
            return ok();
         }
      });
   });
   throw std::runtime_error("driver: op " + op);
}
int main() {
   return command_loop([](const J& s) { load1(std::get<0>(pool), s[0]); load1(std::get<1>(pool), s[1]); load1(std::get<2>(pool), s[2]); }, exec,
                       [] { return "[" + proj_of(*std::get<0>(pool)) + "," + proj_of(*std::get<1>(pool)) + "," + proj_of(*std::get<2>(pool)) + "]"; });
}
