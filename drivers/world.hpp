// One underlying array (and a twin that must never change) for drivers that write through
// views.  BASE: 0 own 1D, 1 own 2D, 4 attached 1D, 5 attached 2D, 10 fixed 1D (FN), 11 fixed 2D (FM x FN)
#pragma once
#include "paths.hpp"
using namespace spp;
#ifndef T_
#define T_ int
#endif
using T = T_;
using S = Strict<T>;
constexpr bool is2d = BASE == 1 || BASE == 5 || BASE == 11;

struct World {
   J base;
#if BASE == 0
   Array1D<T> A, B;
   World(const J& b) : base{b}, A(b.num("n")), B(b.num("n")) {}
#elif BASE == 1
   Array2D<T> A, B;
   World(const J& b) : base{b}, A(b.num("m"), b.num("n")), B(b.num("m"), b.num("n")) {}
#elif BASE == 4
   std::unique_ptr<T[]> ma, mb;
   T *pa, *pb;
   decltype(attach1D(std::declval<T*&>(), 1)) A, B;
   World(const J& b) : base{b}, ma(new T[size_t(b.num("n") + 2)]), mb(new T[size_t(b.num("n") + 2)]), pa(ma.get() + 1), pb(mb.get() + 1),
                       A{attach1D(pa, b.num("n"))}, B{attach1D(pb, b.num("n"))} { ma[0] = T(-7); ma[size_t(b.num("n") + 1)] = T(-8); }
   bool guards() const { return ma[0] == T(-7) && ma[size_t(base.num("n") + 1)] == T(-8); }
#elif BASE == 5
   std::unique_ptr<T[]> ma, mb;
   T *pa, *pb;
   decltype(attach2D(std::declval<T*&>(), 1, 1)) A, B;
   World(const J& b) : base{b}, ma(new T[size_t(b.num("n") * b.num("m") + 2)]), mb(new T[size_t(b.num("n") * b.num("m") + 2)]), pa(ma.get() + 1), pb(mb.get() + 1),
                       A{attach2D(pa, b.num("m"), b.num("n"))}, B{attach2D(pb, b.num("m"), b.num("n"))} { ma[0] = T(-7); ma[size_t(b.num("n") * b.num("m") + 1)] = T(-8); }
   bool guards() const { return ma[0] == T(-7) && ma[size_t(base.num("n") * base.num("m") + 1)] == T(-8); }
#elif BASE == 10
   FixedArray1D<T, FN> A, B;
   World(const J& b) : base{b} {}
#elif BASE == 11
   FixedArray2D<T, FM, FN> A, B;
   World(const J& b) : base{b} {}
#endif
};
static std::unique_ptr<World> W;

static void start(const J& base) {
   W = std::make_unique<World>(base);
   for(long i = 0; i < W->A.size().val(); ++i) {
      W->A.un(i) = S{T(i + 1)};
      W->B.un(i) = S{T(101 + i)};
   }
}
static void load(const J& s) {
   start(s["base"]);
   auto v = s.vec("d");
   for(size_t i = 0; i < v.size(); ++i) W->A.un(long(i)) = S{T(v[i])};
}
template <int R, typename V, typename F>
void walk(V& v, const J& path, Forms w, F& fin) {
   if constexpr(is2d) walk2<R>(v, path, 0, w, fin);
   else walk1<R>(v, path, 0, w, fin);
}
static std::string proj() {
   auto shape = [](auto& a) { if constexpr(is2d) return proj2(a); else return proj1(a); };
   std::string d = shape(W->A);
   std::string base = "{\"d\":" + std::to_string(W->base.num("d"));
   if(W->base.has("m")) base += ",\"m\":" + std::to_string(W->base.num("m"));
   base += ",\"n\":" + std::to_string(W->base.num("n")) + "}";
   if(is2d) {
      J j = json(d[0] == '{' ? d : "{\"d\":[]}");
      if(d[0] == '{' && j["d"].k == J::ARR && j.num("m") == W->base.num("m") && j.num("n") == W->base.num("n")) {
         auto p = d.find("\"d\":");
         d = d.substr(p + 4, d.size() - p - 5);
      }
   }
   for(long i = 0; i < W->B.size().val(); ++i)
      if(show(W->B.un(i)) != std::to_string(101 + i)) d = "\"twin changed\"";
#if BASE == 4 || BASE == 5
   if(!W->guards()) d = "\"wrote outside\"";
   for(long i = 0; i < W->A.size().val(); ++i)
      if(show(W->A.un(i)) != show(W->pa[i])) d = "\"buffer differs\"";
#endif
   return "{\"base\":" + base + ",\"d\":" + d + "}";
}
