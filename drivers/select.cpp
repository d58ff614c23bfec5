// Selection paths: builds the base object, walks the path, prints what the final view shows.
// BASE: 0 own 1D, 1 own 2D, 2 const own 1D, 3 const own 2D, 4 attached 1D, 5 attached 2D,
//       6 attached const 1D, 7 attached const 2D, 8 expression 1D, 9 expression 2D,
//       10 fixed 1D, 11 fixed 2D (FM x FN)
#include "paths.hpp"
using namespace spp;
#ifndef T_
#define T_ int
#endif
using T = T_;

static std::string shown;
struct Look1 {
   template <int R, typename V>
   void at(V& v) const {
      constexpr bool two = TwoDimBaseType<V>;
      if constexpr(two) shown = proj2(v);
      else shown = proj1(v);
   }
};

static std::string exec(const J& c) {
   shown = "[]";
   const J& b = c["base"];
   const J& path = c["path"];
   Forms w{c.has("w") ? c.inum("w") : 0};
   Look1 fin;
#if BASE == 0 || BASE == 2 || BASE == 8
   Array1D<T> A(b.num("n"));
   for(long i = 0; i < b.num("n"); ++i) A.un(i) = Strict<T>{T(i + 1)};
#if BASE == 0
   walk1<TOP>(A, path, 0, w, fin);
#elif BASE == 2
   const auto& C = A;
   walk1<TOP>(C, path, 0, w, fin);
#else
   auto e = -(-A);
   walk1<TOP>(e, path, 0, w, fin);
#endif
#elif BASE == 1 || BASE == 3 || BASE == 9
   Array2D<T> A(b.num("m"), b.num("n"));
   for(long i = 0; i < b.num("m") * b.num("n"); ++i) A.un(i) = Strict<T>{T(i + 1)};
#if BASE == 1
   walk2<TOP>(A, path, 0, w, fin);
#elif BASE == 3
   const auto& C = A;
   walk2<TOP>(C, path, 0, w, fin);
#else
   auto e = +A;
   walk2<TOP>(e, path, 0, w, fin);
#endif
#elif BASE == 4 || BASE == 6
   const size_t n = static_cast<size_t>(b.num("n"));
   auto mem = std::make_unique<T[]>(n + 1);  // exactly sized blocks would do; one guard for n = 0
   T* p = mem.get();
   for(size_t i = 0; i < n; ++i) p[i] = T(i + 1);
#if BASE == 4
   auto v = attach1D(p, b.num("n"));
#else
   const T* q = p;
   auto v = attach1D(q, b.num("n"));
#endif
   walk1<TOP>(v, path, 0, w, fin);
#elif BASE == 5 || BASE == 7
   const size_t n = static_cast<size_t>(b.num("m") * b.num("n"));
   auto mem = std::make_unique<T[]>(n + 1);
   T* p = mem.get();
   for(size_t i = 0; i < n; ++i) p[i] = T(i + 1);
#if BASE == 5
   auto v = attach2D(p, b.num("m"), b.num("n"));
#else
   const T* q = p;
   auto v = attach2D(q, b.num("m"), b.num("n"));
#endif
   walk2<TOP>(v, path, 0, w, fin);
#elif BASE == 10
   FixedArray1D<T, FN> A;
   for(long i = 0; i < FN; ++i) A.un(i) = Strict<T>{T(i + 1)};
   walk1<TOP>(A, path, 0, w, fin);
#elif BASE == 11
   FixedArray2D<T, FM, FN> A;
   for(long i = 0; i < FM * FN; ++i) A.un(i) = Strict<T>{T(i + 1)};
   walk2<TOP>(A, path, 0, w, fin);
#endif
   return ok();
}

int main() {
   return command_loop([](const J&) {}, exec, [] { return shown; });
}
