// Conformance driver for spec/Fixed.tla: fixed-size arrays of several declared shapes and a
// resizable one, in DIM dimensions. M_, N_ and M2_, N2_ are the declared shapes.
#include "common.hpp"
#include <algorithm>
#include <tuple>
#include <utility>
using namespace spp;
using T = T_;
using S = Strict<T>;
#if DIM == 1
using F = FixedArray1D<T, N_, AF_>;
using G = FixedArray1D<T, N_, OTHER_AF>;
using H = FixedArray1D<T, N2_, AF_>;
using A = Array1D<T, AF_>;
#else
using F = FixedArray2D<T, M_, N_, AF_>;
using G = FixedArray2D<T, M_, N_, OTHER_AF>;
using H = FixedArray2D<T, M2_, N2_, AF_>;
using A = Array2D<T, AF_>;
#endif
static S sx(long x) { return S{static_cast<T>(x)}; }
// Objects live in storage that holds other bits before they are constructed.
template <typename X>
struct Box {
   unsigned char* raw = nullptr;
   X* x = nullptr;
   Box() = default;
   Box(const Box&) = delete;
   ~Box() { clear(); }
   void clear() {
      if(x) x->~X();
      std::free(raw);
      x = nullptr;
      raw = nullptr;
   }
   // builds the new object first, so that a rejected construction leaves the old one alone
   template <typename Make>
   void make(Make f) {
      Box n;
      const size_t a = std::max<size_t>(alignof(X), 64);
      n.raw = static_cast<unsigned char*>(std::aligned_alloc(a, (sizeof(X) + a - 1) / a * a + a));
      std::memset(n.raw, 0xA5, sizeof(X));
      n.x = f(static_cast<void*>(n.raw));
      std::swap(raw, n.raw);
      std::swap(x, n.x);
   }
};
static std::tuple<Box<F>, Box<F>, Box<G>, Box<H>, Box<A>> pool;
template <typename Fn>
static auto with(long i, Fn f) {
   switch(i) {
   case 0: return f(std::get<0>(pool));
   case 1: return f(std::get<1>(pool));
   case 2: return f(std::get<2>(pool));
   case 3: return f(std::get<3>(pool));
   case 4: return f(std::get<4>(pool));
   default: throw std::runtime_error("driver: slot");
   }
}
template <typename Fn>
static void each(Fn f) { for(long i = 0; i < 5; ++i) with(i, f); }
template <typename X>
static constexpr bool fixed = !std::is_same_v<X, A>;
template <typename X>
static std::string one(X& x) {
   if constexpr(fixed<X>) {
      static_assert(bool{X::is_fixed()} && !bool{X::is_dynamic()});
      if(alignof(X) < static_cast<size_t>(x.alignment())) return "\"disagree alignof\"";
   }
#if DIM == 1
   return "{\"m\":1,\"n\":" + std::to_string(x.size().val()) + ",\"d\":" + proj1_owner(x) + "}";
#else
   return proj2_owner(x);
#endif
}
static std::string proj() {
   std::string r = "[";
   each([&](auto& b) { r += (r.size() > 1 ? "," : "") + one(*b.x); });
   return r + "]";
}
static void load(const J& s) {
   long i = 0;
   each([&](auto& b) {
      const J& q = s[static_cast<size_t>(i++)];
      using X = std::remove_reference_t<decltype(*b.x)>;
      b.make([&](void* p) {
         if constexpr(fixed<X>) return new(p) X();
         else if constexpr(DIM == 1) return new(p) X(q.num("n"));
         else return new(p) X(q.num("m"), q.num("n"));
      });
      auto d = q["d"].vec();
      if(b.x->size().val() != static_cast<long>(d.size())) throw std::runtime_error("driver: shape of a fixed slot");
      for(size_t k = 0; k < d.size(); ++k) b.x->un(static_cast<long>(k)) = sx(d[k]);
   });
}
template <typename Fn>
static auto with_rows(const J& ll, Fn f) {
#if DIM == 1
   auto v = to_strict<T>(ll[0].vec());
   return with_list(v, f);
#else
   using L = std::initializer_list<S>;
   using LL = std::initializer_list<L>;
   auto row = [&](int q, auto g) { auto v = to_strict<T>(ll[q].vec()); return with_list(v, g); };
   switch(ll.size()) {
   case 0: return f(LL{});
   case 1: return row(0, [&](L a) { return f(LL{a}); });
   case 2: return row(0, [&](L a) { return row(1, [&](L b) { return f(LL{a, b}); }); });
   case 3: return row(0, [&](L a) { return row(1, [&](L b) { return row(2, [&](L c) { return f(LL{a, b, c}); }); }); });
   default: throw std::runtime_error("driver: list too long");
   }
#endif
}
template <typename X>
static X through(X x) { return x; }
template <typename X>
static X build_on(const X& from) {
   X r;
   r = from;
   return r;
}
static std::string exec(const J& c) {
   const std::string& op = c.str("op");
   const int w = c.has("w") ? c.inum("w") : 0;
   auto P = [&](const char* k) { return c.num(k); };
   auto self = [&](auto& ret, auto& a) { return static_cast<void*>(&ret) == static_cast<void*>(&a) ? ok() : std::string("\"wrong return\""); };
   auto part = [&](auto& x) {
#if DIM == 1
      return x(seqN{P("b2"), P("n2"), P("st2")});
#else
      return x(seqN{P("b"), P("n"), P("st")}, seqN{P("b2"), P("n2"), P("st2")});
#endif
   };
   if(op == "init") {
      each([&](auto& b) { using X = std::remove_reference_t<decltype(*b.x)>; b.make([&](void* p) { return new(p) X(); }); });
      return ok();
   }
   return with(P("i"), [&](auto& bi) -> std::string {
      using X = std::remove_reference_t<decltype(*bi.x)>;
      if(op == "new0") {
         if(w % 3 == 0) bi.make([&](void* p) { return new(p) X(); });
         else if(w % 3 == 1) bi.make([&](void* p) { return new(p) X; });
         else bi.make([&](void* p) { return new(p) X{}; });
         return ok();
      }
      if(op == "new_x") {
         if constexpr(fixed<X>) {
            if(w % 2) bi.make([&](void* p) { return new(p) X(sx(P("x"))); });
            else bi.make([&](void* p) { return new(p) X(Value{sx(P("x"))}); });
         }
         return ok();
      }
      if(op == "new_list") {
         return with_rows(c["ll"], [&](auto l) { bi.make([&](void* p) { return new(p) X(l); }); return ok(); });
      }
      X& a = *bi.x;
      if(op == "set_x") { auto& r = (a = sx(P("x"))); return self(r, a); }
      if(op == "set_list") return with_rows(c["ll"], [&](auto l) { auto& r = (a = l); return self(r, a); });
      if(op == "addx") { auto& r = (a += sx(P("x"))); return self(r, a); }
      if(op == "sort") { if(w % 2) sort_increasing(a); else sort(a, [](auto x, auto y) { return x < y; }); return ok(); }
      if(op == "sum") {
         if(w % 2 && a.size() != 0_sl) return ok1(show(sum(a)));
         S r{};
         for(auto x : std::as_const(a)) r += x;
         return ok1(show(r));
      }
      if(op == "get" || op == "get_last" || op == "put") {
         const X& k = a;
#if DIM == 1
         const long q = P("q");
         if(op == "put") { if(w % 2) a[q] = sx(P("x")); else a.at(q) = sx(P("x")); return ok(); }
         if(op == "get") return ok1(show(w % 4 == 0 ? k[q] : w % 4 == 1 ? a.at(q) : w % 4 == 2 ? a[static_cast<int>(q)] : k.at(Strict{q})));
         return ok1(show(w % 3 == 0 ? k[last - q] : w % 3 == 1 ? a.at(last - q) : a[last - q]));
#else
         const long p = P("p"), q = P("q");
         if(op == "put") { if(w % 2) a(p, q) = sx(P("x")); else a.at(p, q) = sx(P("x")); return ok(); }
         if(op == "get") return ok1(show(w % 4 == 0 ? k(p, q) : w % 4 == 1 ? a.at(p, q) : w % 4 == 2 ? a(static_cast<int>(p), q) : k.at(Strict{p}, q)));
         return ok1(show(w % 3 == 0 ? k(last - p, last - q) : w % 3 == 1 ? a.at(last - p, last - q) : a(last - p, last - q)));
#endif
      }
      if(op == "put_part_x") { auto s = part(a); s = sx(P("x")); return ok(); }
      if(op == "get_part") {
         auto s = w % 2 ? std::string() : std::string("c");
         std::string r = "[";
         auto list = [&](auto&& v) { for(long k = 0; k < v.size().val(); ++k) r += (k ? "," : "") + show(v.un(k)); };
         if(w % 2) list(part(a)); else list(part(std::as_const(a)));
         return okv(r + "]");
      }
      return with(P("j"), [&](auto& bj) -> std::string {
         using Y = std::remove_reference_t<decltype(*bj.x)>;
         Y& b = *bj.x;
         constexpr bool same = std::is_same_v<X, Y>;
         if(op == "new_copy") {
            if(!same && w % 3 == 0) bi.make([&](void* p) { return new(p) X(std::move(b)); });
            else if(w % 3 == 1) bi.make([&](void* p) { return new(p) X(std::as_const(b)); });
            else bi.make([&](void* p) { return new(p) X(b); });
            return ok();
         }
         if(op == "new_move") {
            if constexpr(same) bi.make([&](void* p) { return new(p) X(std::move(b)); });
            return ok();
         }
         if(op == "new_iter") {
#if DIM == 1
            if(w % 2) bi.make([&](void* p) { return new(p) X(b.begin() + P("b"), b.begin() + P("e")); });
            else bi.make([&](void* p) { return new(p) X(b.cbegin() + P("b"), b.cbegin() + P("e")); });
#endif
            return ok();
         }
         if(op == "new_part") {
            if(w % 2) bi.make([&](void* p) { return new(p) X(part(std::as_const(b))); });
            else bi.make([&](void* p) { return new(p) X(part(b)); });
            return ok();
         }
         if(op == "assign") {
            if constexpr(!same) { if(w % 3 == 0) { auto& r = (a = std::move(b)); return self(r, a); } }
            if(w % 3 == 1) { auto& r = (a = std::as_const(b)); return self(r, a); }
            auto& r = (a = b);
            return self(r, a);
         }
         if(op == "assign_part") {
            if(w % 2) { auto& r = (a = part(std::as_const(b))); return self(r, a); }
            auto& r = (a = part(b));
            return self(r, a);
         }
         if(op == "put_part") {
            auto s = part(a);
            if constexpr(!same) { if(w % 3 == 0) { s = std::move(b); return ok(); } }
            s = b;
            return ok();
         }
         if(op == "move") {
            if constexpr(same) { auto& r = (a = std::move(b)); return self(r, a); }
            return ok();
         }
         if(op == "swap") {
            if constexpr(same) { using std::swap; if(w % 2) swap(a, b); else std::swap(a, b); }
            return ok();
         }
         if(op == "pass") {
            if constexpr(same) {
               if(w % 3 == 0) { a = through(b); return ok(); }
               if(w % 3 == 1 && fixed<X>) { a = build_on(b); return ok(); }
               X t = through(through(X(b)));
               a = t;
            }
            return ok();
         }
         if(op == "raa") {
            if constexpr(!fixed<X>) {
               if(!same && w % 2) { auto& r = a.resize_and_assign(std::move(b)); return self(r, a); }
               auto& r = a.resize_and_assign(b);
               return self(r, a);
            }
            return ok();
         }
         if(op == "add") { auto& r = (a += b); return self(r, a); }
         if(op == "sub") { auto& r = (a -= std::as_const(b)); return self(r, a); }
         if(op == "dot") return ok1(show(dot_prod(a, b)));
         if(op == "eq") return okv("[" + show(a == b) + "," + show(a != b) + "," + show(equal(a, b)) + "," + show(same_size(a, b)) + "]");
         return with(P("k"), [&](auto& bk) -> std::string {
            auto& e = *bk.x;
            if(op == "new_sum") { bi.make([&](void* p) { return new(p) X(b + e); }); return ok(); }
            if(op == "assign_sum") { auto& r = (a = b + std::as_const(e)); return self(r, a); }
            throw std::runtime_error("driver: unknown op " + op);
         });
      });
   });
}
int main() {
   exec(json("{\"op\":\"init\",\"i\":0}"));
   return command_loop(load, exec, proj);
}
