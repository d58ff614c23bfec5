// Writes through selections and views (spec/Writes.tla).
// BASE: 0 own 1D, 1 own 2D, 4 attached 1D, 5 attached 2D, 10 fixed 1D (FN), 11 fixed 2D (FM x FN)
#include "world.hpp"
#include <any>
#include <functional>
static Array1D<T> arr1(const J& A) {
   auto v = A.vec("d");
   Array1D<T> r(static_cast<long>(v.size()));
   for(size_t i = 0; i < v.size(); ++i) r.un(long(i)) = S{T(v[i])};
   return r;
}
static Array2D<T> arr2(const J& A) {
   auto v = A.vec("d");
   Array2D<T> r(A.num("m"), A.num("n"));
   for(size_t i = 0; i < v.size(); ++i) r.un(long(i)) = S{T(v[i])};
   return r;
}

static const char* complaint = nullptr;
template <typename V, typename R>
void same_object(V& v, R&& r) {
   if(static_cast<const void*>(std::addressof(v)) != static_cast<const void*>(std::addressof(r))) complaint = "returned object";
}

struct Act {
   const J& a;
   Forms w;
   int operand;  // 0 array, 1 selection, 2 expression, 3 const array

   template <typename B, typename F>
   void with_operand(B& b, F f) const {
      if(operand == 1) {
         if constexpr(TwoDimBaseType<B>) f(b(place::all, place::all));
         else f(b(place::all));
      } else if(operand == 2) f(-(-b));
      else if(operand == 3) f(static_cast<const B&>(b));
      else f(b);
   }
   template <typename B, typename F>
   void plain_operand(B& b, F f) const { f(b); }

   template <typename V, typename B>
   void compound(V& v, const std::string& f, const B& x) const {
      if(f == "+") same_object(v, v += x);
      else if(f == "-") same_object(v, v -= x);
      else if(f == "*") same_object(v, v *= x);
      else if(f == "/") same_object(v, v /= x);
      else if constexpr(std::is_integral_v<T>) {
         if(f == "%") same_object(v, v %= x);
         else if(f == "<<") same_object(v, v <<= x);
         else if(f == ">>") same_object(v, v >>= x);
         else if(f == "&") same_object(v, v &= x);
         else if(f == "|") same_object(v, v |= x);
         else if(f == "^") same_object(v, v ^= x);
         else throw std::runtime_error("driver: operator " + f);
      } else throw std::runtime_error("driver: operator " + f);
   }

   template <int R, typename V>
   void go(V& v) {
      constexpr bool two = TwoDimBaseType<V>;
      const std::string& k = a.str("k");
      auto with = [&](auto& b, auto f) {
         if constexpr(R >= TOP - 1) with_operand(b, f);
         else plain_operand(b, f);
      };
      if(k == "fill") {
         same_object(v, v = S{T(a.num("x"))});
      } else if(k == "list") {
         if constexpr(!two) with_list(to_strict<T>(a.vec("xs")), [&](auto l) { same_object(v, v = l); });
      } else if(k == "rows") {
         if constexpr(two) {
            auto d = to_strict<T>(a["A"].vec("d"));
            const size_t m = size_t(a["A"].num("m")), n = size_t(a["A"].num("n"));
            std::vector<std::vector<S>> rows;
            for(size_t i = 0; i < m; ++i) rows.emplace_back(d.begin() + long(i * n), d.begin() + long((i + 1) * n));
            with_rows(v, rows);
         }
      } else if(k == "arr") {
         if constexpr(two) { auto b = arr2(a["A"]); with(b, [&](auto&& x) { same_object(v, v = x); }); }
         else { auto b = arr1(a["A"]); with(b, [&](auto&& x) { same_object(v, v = x); }); }
      } else if(k == "expr") {
         S x{T(a.num("x"))}, y{T(a.num("y"))};
         if constexpr(two) { auto b = arr2(a["A"]); same_object(v, v = b * x + y); }
         else { auto b = arr1(a["A"]); same_object(v, v = b * x + y); }
      } else if(k == "cs") {
         compound(v, a.str("f"), S{T(a.num("x"))});
      } else if(k == "ca") {
         if constexpr(two) { auto b = arr2(a["A"]); with(b, [&](auto&& x) { compound(v, a.str("f"), x); }); }
         else { auto b = arr1(a["A"]); with(b, [&](auto&& x) { compound(v, a.str("f"), x); }); }
      } else if(k == "elem") {
         const long i = a.num("i");
         S x{T(a.num("x"))};
         const bool in = i >= 0 && i < v.size().val();
         if constexpr(two) {
            const long n = v.cols().val();
            const long r = n > 0 && i >= 0 ? i / n : i, c = n > 0 && i >= 0 ? i % n : i;
            if(w.rvalue()) v(r, c) = x;
            else if(w.braced()) v.at(r, c) = x;
            else if(w.named() && in) v(last - (v.rows().val() - 1 - r), last - (n - 1 - c)) = x;
            else if(in && w.expiring()) *(v.begin() + i) = x;
            else if(in) v.un(r, c) = x;
            else v(r, c) = x;
         } else {
            if(w.rvalue()) v[i] = x;
            else if(w.braced()) v.at(i) = x;
            else if(w.named() && in) v[last - (v.size().val() - 1 - i)] = x;
            else if(in && w.expiring()) *(v.begin() + i) = x;
            else if(in) v.un(i) = x;
            else v[Strict{i}] = x;
         }
      } else {
         throw std::runtime_error("driver: action " + k);
      }
   }
   template <typename V>
   void with_rows(V& v, const std::vector<std::vector<S>>& r) {
      using L = std::initializer_list<S>;
      std::vector<L> acc;
      build_rows(r, 0, acc, [&](std::initializer_list<L> l) { same_object(v, v = l); });
   }
   static void build_rows(const std::vector<std::vector<S>>& r, size_t i, std::vector<std::initializer_list<S>>& acc,
                          const std::function<void(std::initializer_list<std::initializer_list<S>>)>& f) {
      using L = std::initializer_list<S>;
      if(i == r.size()) {
         with_list(acc, [&](std::initializer_list<L> l) { f(l); });
      } else {
         with_list(r[i], [&](L l) {
            acc.push_back(l);
            build_rows(r, i + 1, acc, f);
         });
      }
   }
};
struct Fin {
   Act& act;
   template <int R, typename V>
   void at(V& v) { act.template go<R>(v); }
};
// Two objects reached by the same path on two bases have the same type: v = u.
struct Keep {
   std::any& held;
   template <int R, typename V>
   void at(V& v) { held = std::any{v}; }
};
struct AssignHeld {
   std::any& held;
   bool move;
   template <int R, typename V>
   void at(V& v) {
      V& u = std::any_cast<V&>(held);
      if(move) same_object(v, v = std::move(u));
      else same_object(v, v = u);
   }
};

static std::string exec(const J& c) {
   complaint = nullptr;
   if(c.str("op") == "init") {
      start(c["base"]);
      return ok();
   }
   const int bits = c.has("w") ? c.inum("w") : 0;
   Forms w{bits & 15};
   // other live views of the same elements
#if BASE == 0 || BASE == 4 || BASE == 10
   auto other = W->A(place::reverse);
#else
   auto other = W->A.view1D()(place::reverse);
#endif
   if(c["a"].str("k") == "twin") {
      std::any held;
      Keep keep{held};
      AssignHeld assign{held, w.expiring()};
      walk<TOP>(W->B, c["path"], w, keep);
      walk<TOP>(W->A, c["path"], w, assign);
   } else
   {
      Act act{c["a"], w, (bits >> 4) & 3};
      Fin fin{act};
      walk<TOP>(W->A, c["path"], w, fin);
   }
   for(long i = 0, n = W->A.size().val(); i < n; ++i)
      if(show(other[n - 1 - i]) != show(W->A.un(i)) || &other[n - 1 - i] != &W->A.un(i)) complaint = "another view";
   if(complaint) return std::string("{\"k\":\"") + complaint + "\",\"v\":[]}";
   return ok();
}
int main() { return command_loop(load, exec, proj); }
