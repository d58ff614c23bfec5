// Replays spec/Scalar.tla on real spp::Strict<T> registers.
#include "bignum.hpp"
#include <variant>
using namespace spp;

using Reg = std::variant<Strict<bool>, Strict<int>, Strict<long>, Strict<unsigned>, Strict<unsigned long>, Strict<float>, Strict<double>, Strict<long double>
#ifdef STRICT_QUAD_PRECISION
                         , Strict<float128>
#endif
                         >;
static Reg reg;

static void set(const std::string& t, const J& y) {
   by_type(t, [&](auto z) {
      using T = decltype(z);
      reg = Strict<T>{from_num<T>(y)};
      return 0;
   });
}
[[noreturn]] static void no(const std::string& f) { throw std::runtime_error("driver: operation " + f); }

template <typename T>
std::string bin(const std::string& f, Strict<T> x, Strict<T> y) {
   const Strict<T> x0 = x, y0 = y;
   auto r = [&]() -> std::string {
      if(f == "==") return typed(x == y);
      if(f == "equal") return typed(equal(x, y));
      if(f == "!=") return typed(x != y);
      if(f == "<") return typed(x < y);
      if(f == "<=") return typed(x <= y);
      if(f == ">") return typed(x > y);
      if(f == ">=") return typed(x >= y);
      if constexpr(Boolean<T>) {
         if(f == "^") return typed(x ^ y);
         if(f == "&&") return typed(x && y);
         if(f == "||") return typed(x || y);
      } else {
         if(f == "+") return typed(x + y);
         if(f == "-") return typed(x - y);
         if(f == "*") return typed(x * y);
         if(f == "/") return typed(x / y);
         if constexpr(Integer<T>) {
            if(f == "%") return typed(x % y);
            if(f == "<<") return typed(x << y);
            if(f == ">>") return typed(x >> y);
            if(f == "&") return typed(x & y);
            if(f == "|") return typed(x | y);
            if(f == "^") return typed(x ^ y);
         }
      }
      no(f);
   }();
   if(exact(x) != exact(x0) || exact(y) != exact(y0)) return "\"operand changed\"";
   return r;
}
template <typename T>
std::string comp(const std::string& f, Strict<T>& x, const Strict<T>& y) {
   auto ret = [&](Strict<T>& r) { return &r == &x ? typed(r) : std::string("\"not the register\""); };
   if constexpr(Real<T>) {
      if(f == "+") return ret(x += y);
      if(f == "-") return ret(x -= y);
      if(f == "*") return ret(x *= y);
      if(f == "/") return ret(x /= y);
      if constexpr(Integer<T>) {
         if(f == "%") return ret(x %= y);
         if(f == "<<") return ret(x <<= y);
         if(f == ">>") return ret(x >>= y);
         if(f == "&") return ret(x &= y);
         if(f == "|") return ret(x |= y);
         if(f == "^") return ret(x ^= y);
      }
   }
   no(f);
}
template <typename T>
std::string un(const std::string& f, Strict<T>& x) {
   if constexpr(Boolean<T>) {
      if(f == "!") return typed(!x);
   } else {
      if(f == "+") return typed(+x);
      if constexpr(!UnsignedInteger<T>) {
         if(f == "-") return typed(-x);
      }
      if constexpr(Integer<T>) {
         if(f == "~") return typed(~x);
      }
      if(f == "++") { auto& r = ++x; return &r == &x ? typed(r) : "\"not the register\""; }
      if(f == "--") { auto& r = --x; return &r == &x ? typed(r) : "\"not the register\""; }
      if(f == "p++") return typed(x++);
      if(f == "p--") return typed(x--);
   }
   no(f);
}
// Every spelling of the same conversion; w selects one.
template <typename To, typename T>
Strict<To> conv(long w, Strict<T> x) {
   auto method = [&] {
      if constexpr(SameAs<To, bool>) return x.sb();
      else if constexpr(SameAs<To, int>) return x.si();
      else if constexpr(SameAs<To, long>) return x.sl();
      else if constexpr(SameAs<To, unsigned>) return x.sui();
      else if constexpr(SameAs<To, unsigned long>) return x.sul();
      else if constexpr(SameAs<To, float>) return x.sf();
      else if constexpr(SameAs<To, double>) return x.sd();
#ifdef STRICT_QUAD_PRECISION
      else if constexpr(SameAs<To, float128>) return x.sq();
#endif
      else return x.sld();
   };
   static_assert(SameAs<decltype(method()), Strict<To>>);
   switch(w % 7) {
   case 1: return strict_cast<To>(x);
   case 2: return strict_cast<To>(x.val());
   case 3: return Strict<To>{builtin_cast<To>(x)};
   case 4: return Strict<To>{builtin_cast<To>(x.val())};
   case 5:
      if constexpr(Real<T> && Real<To>) {
         static_assert(SameAs<decltype(real_cast<To>(x)), To>);
         return w % 2 ? Strict<To>{real_cast<To>(x)} : Strict<To>{real_cast<To>(x.val())};
      } else break;
   case 6:
      if constexpr(Floating<To> && Integer<T>) return w % 2 ? whole<To>(x) : whole<To>(x.val());
      else if constexpr(SameAs<To, unsigned long>) return Strict<To>{w % 2 ? to_size_t(x) : to_size_t(x.val())};
      else if constexpr(SameAs<To, long>) return w % 2 ? to_index_t(x) : to_index_t(x.val());
      else break;
   }
   return method();
}
template <typename T>
Strict<T> constant(const std::string& f) {
   if(f == "default") { Strict<T> z; return z; }
   if(f == "Zero") return Zero<T>;
   if(f == "One") return One<T>;
   if constexpr(Real<T>) {
      if(f == "Thousand") return Thousand<T>;
      if(f == "Million") return Million<T>;
      if(f == "Billion") return Billion<T>;
      if constexpr(!UnsignedInteger<T>) {
         if(f == "NegOne") return NegOne<T>;
      }
   }
   no(f);
}

// Named argument types; w selects construction from the built-in or from the strict value.
template <typename N, typename T>
std::string named(T x, long w) {
   if(w % 2) return typed(N{x}.get());
   return typed(N{Strict<T>{x}}.get());
}
static std::string name_it(const std::string& f, const std::string& t, const J& c, long w) {
   if(f == "last" || f == "int") {
      Last l = last;
      ImplicitInt k;
      ImplicitIntStatic q;
      bool first = true;
      for(auto& z : c["terms"].a) {
         const long y = from_num<long>(z["y"]);
         if(z.str("sg") == "-") {
            l = l - ImplicitInt{y};
            k = k - ImplicitInt{y};
            q = q - ImplicitIntStatic{y};
         } else {
            l = (w % 2) ? l + ImplicitInt{y} : ImplicitInt{y} + l;
            k = (w % 2) ? k + ImplicitInt{y} : ImplicitInt{y} + k;
            q = (w % 2) ? q + ImplicitIntStatic{y} : ImplicitIntStatic{y} + q;
         }
         first = false;
      }
      if(q.get().val() != k.get().val()) return "\"ImplicitIntStatic differs\"";
      return f == "last" ? typed(l.get()) : typed(k.get());
   }
   return by_type(t, [&](auto z) -> std::string {
      using T = decltype(z);
      T x = from_num<T>(c["y"]);
#define HOLD(N) if(f == #N) return w % 3 == 0 ? typed(N<T>{x}.get()) : w % 3 == 1 ? typed(N<T>{Strict<T>{x}}.get()) : typed(N{Strict<T>{x}}.get());
      HOLD(Low) HOLD(High) HOLD(Start) HOLD(End) HOLD(Incr) HOLD(Value)
      if constexpr(SameAs<T, unsigned>) {
         if(f == "Seed") return named<Seed>(x, w);
      }
      if constexpr(Boolean<T>) {
         if(f == "ImplicitBool") return named<ImplicitBool>(x, w);
      }
      if constexpr(SignedInteger<T>) {
#define NAME(N) if(f == #N) return named<N>(x, w);
         NAME(First) NAME(Endmost) NAME(Size) NAME(Count) NAME(Pos) NAME(Stride) NAME(Index) NAME(Rows) NAME(Cols) NAME(ImplicitInt) NAME(ImplicitNonNegInt) NAME(ImplicitIntStatic)
      }
      no(f);
   });
}

int main() {
   return command_loop(
      [](const J& s) { set(s.str("t"), s["v"]); },
      [](const J& c) -> std::string {
         const auto& op = c.str("op");
         if(op == "set") {
            set(c.str("t"), c["y"]);
            return ok();
         }
         if(op == "named") return name_it(c.str("f"), c.str("t"), c, c.has("w") ? c.num("w") : 0);
         Reg next = reg;
         std::string out = std::visit([&](auto& x) -> std::string {
            using T = typename std::remove_cvref_t<decltype(x)>::value_type;
            const long w = c.has("w") ? c.num("w") : 0;
            if(op == "val") {
               if(static_cast<T>(x) != x.val() && x.val() == x.val()) return "\"explicit conversion differs\"";
               return typed(Strict<T>{x.val()});
            }
            if(op == "un") return un(c.str("f"), x);
            if(op == "bin") return bin(c.str("f"), x, Strict<T>{from_num<T>(c["y"])});
            if(op == "rbin") return bin(c.str("f"), Strict<T>{from_num<T>(c["y"])}, x);
            if(op == "comp") return comp(c.str("f"), x, Strict<T>{from_num<T>(c["y"])});
            if(op == "self") return comp(c.str("f"), x, x);
            if(op == "const") {
               x = constant<T>(c.str("f"));
               return typed(x);
            }
            if(op == "conv") {
               return by_type(c.str("to"), [&](auto z) {
                  auto r = conv<decltype(z)>(w, x);
                  next = r;
                  return typed(r);
               });
            }
            no(op);
         }, reg);
         if(op == "conv") reg = next;
         return out;
      },
      [] {
         return std::visit([](auto& x) {
            using T = typename std::remove_cvref_t<decltype(x)>::value_type;
            return std::string("{\"t\":\"") + tname<T>() + "\",\"v\":" + exact(x) + "}";
         }, reg);
      });
}
