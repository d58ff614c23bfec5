// Executes a path of selecting calls (spec/Select.tla) on a real object. The type of the
// object reached depends on the path, so the walk is a bounded template recursion that
// finally calls fin(view). The bits of w choose between equivalent forms of the same call.
#pragma once
#include "common.hpp"

#ifndef TOP
#define TOP 2
#endif

// FEW: only a few kinds of selector for products at the root as well
#ifndef FEW
#define FEW 0
#endif

struct Forms {
   int w;
   bool rvalue() const { return (w & 1) != 0; }    // call on an rvalue view
   bool braced() const { return (w & 2) != 0; }    // {i, j, ..} instead of a vector
   bool named() const { return (w & 4) != 0; }     // First{..}, Size{..} instead of numbers
   bool expiring() const { return (w & 8) != 0; }  // the intermediate view dies before use
};

// a selector tells the numbers it was made of (anything else ends the run as a crash)
template <typename S>
S told(S x, const J& s) {
   auto same = [](auto a, long b) {
      if(a.val() != b) {
         std::fprintf(stderr, "ERROR: a selector does not tell what it was made of\n");
         std::abort();
      }
   };
   if constexpr(requires { x.start(); }) { same(x.start(), s.num("f")); same(x.size(), s.num("c")); same(x.stride(), s.num("st")); }
   else if constexpr(requires { x.first(); }) { same(x.first(), s.num("f")); same(x.last(), s.num("l")); same(x.stride(), s.num("st")); }
   else if constexpr(requires { x.stride(); }) same(x.stride(), s.num("c"));
   else same(x.get(), s.num("c"));
   return x;
}
// f(selector) for every selector that is not a list of positions
template <typename F>
auto linear_selector(const J& s, Forms w, F f) {
   using namespace spp;
   const std::string& k = s.str("sel");
   if(k == "seq")
      return w.named() ? f(told(seq{First{s.num("f")}, Endmost{s.num("l")}, Stride{s.num("st")}}, s))
           : s.num("st") == 1 && w.braced() ? f(told(seq{s.num("f"), s.num("l")}, s))
                            : f(told(seq{s.num("f"), s.num("l"), s.num("st")}, s));
   if(k == "seqN")
      return w.named() ? f(told(seqN{First{s.num("f")}, Size{s.num("c")}, Stride{s.num("st")}}, s))
           : s.num("st") == 1 && w.braced() ? f(told(seqN{s.num("f"), s.num("c")}, s))
                                            : f(told(seqN{s.num("f"), s.num("c"), s.num("st")}, s));
   if(k == "all") return f(place::all);
   if(k == "even") return f(place::even);
   if(k == "odd") return f(place::odd);
   if(k == "rev") return f(place::reverse);
   if(k == "skip") return w.named() ? f(told(place::skipN{Stride{s.num("c")}}, s)) : f(told(place::skipN{s.num("c")}, s));
   if(k == "first") return w.named() ? f(told(place::firstN{Count{s.num("c")}}, s)) : f(told(place::firstN{s.num("c")}, s));
   if(k == "last") return w.named() ? f(told(place::lastN{Count{s.num("c")}}, s)) : f(told(place::lastN{s.num("c")}, s));
   throw std::runtime_error("driver: selector " + k);
}
inline bool is_list(const J& s) { return s.str("sel") == "list" || s.str("sel") == "compl"; }

// g(callable taking one selector) is invoked with the right selector: single-argument calls
// v(sel), v.rows(sel), v.cols(sel).
template <typename Call, typename Cont>
void with_selector(const J& s, Forms w, Call call, Cont cont) {
   using namespace spp;
   if(!is_list(s)) {
      linear_selector(s, w, [&](auto x) { cont(call(x)); });
      return;
   }
   auto ix = to_idx(s.vec("ix"));
   if(s.str("sel") == "compl") {
      if(w.braced() && ix.size() <= 12)
         with_list(ix, [&](auto l) { cont(call(place::complement(l))); });
      else
         cont(call(place::complement{ix}));
   } else {
      if(w.braced() && ix.size() <= 12)
         with_list(ix, [&](auto l) { cont(call(l)); });
      else
         cont(call(ix));
   }
}

template <typename F>
void index_arg(const J& c, const char* key, F f) {
   // a position counted from the start, or from the end when e = 1
   using namespace spp;
   long i = c.num(key);
   if(c.num("e") == 1) f(last - i);
   else if(i % 2 == 0) f(i);
   else f(Strict{i});
}

// A view of depth R more steps. D = dimension.
template <int R, typename V, typename F>
void walk1(V& v, const J& path, size_t k, Forms w, F& fin);
template <int R, typename V, typename F>
void walk2(V& v, const J& path, size_t k, Forms w, F& fin);

// Root objects own their data and may not be selected from as rvalues.
template <typename V>
constexpr bool views_rvalue = !std::is_const_v<V> && !spp::detail::ArrayOneDimType<V> && !spp::detail::ArrayTwoDimType<V>;

template <int R, typename V, typename F, typename C, typename D>
void step1(V& v, const J& path, size_t k, Forms w, F& fin, C via, D done) {
   using namespace spp;
   const J& c = path[k];
   const std::string& st = c.str("st");
   auto go1 = [&](auto r) { done(); walk1<R - 1>(r, path, k + 1, w, fin); };
   auto go2 = [&](auto r) { done(); walk2<R - 1>(r, path, k + 1, w, fin); };
   if(st == "sel") {
      with_selector(c["s"], w, [&](auto x) { return via(v)(x); }, go1);
   } else if(st == "view1") {
      go1(via(v).view1D());
   } else if(st == "view2") {
      go2(via(v).view2D(c.num("m"), c.num("n")));
   } else {
      throw std::runtime_error("driver: step1 " + st);
   }
}
// seqN, reverse, position lists and complements only
template <typename F>
void few_selector(const J& s, Forms w, F f) {
   using namespace spp;
   const std::string& k = s.str("sel");
   if(k == "seqN") f(w.named() ? seqN{First{s.num("f")}, Size{s.num("c")}, Stride{s.num("st")}} : seqN{s.num("f"), s.num("c"), s.num("st")});
   else if(k == "rev") f(place::reverse);
   else if(k == "list") f(to_idx(s.vec("ix")));
   else if(k == "compl") f(place::complement{to_idx(s.vec("ix"))});
   else throw std::runtime_error("driver: selector " + k + " below the root");
}
template <int R, typename V, typename F, typename C, typename D>
void step2(V& v, const J& path, size_t k, Forms w, F& fin, C via, D done) {
   using namespace spp;
   const J& c = path[k];
   const std::string& st = c.str("st");
   auto go1 = [&](auto r) { done(); walk1<R - 1>(r, path, k + 1, w, fin); };
   auto go2 = [&](auto r) { done(); walk2<R - 1>(r, path, k + 1, w, fin); };
   if(st == "sub") {
      // at the root rows and columns may be any two kinds of selector; deeper a few kinds
      if constexpr(R == TOP && !FEW) {
         with_selector(c["r"], w, [&](auto r) {
            with_selector(c["c"], w, [&](auto s) { return via(v)(r, s); }, go2);
            return 0; }, [](int) {});
      } else {
         few_selector(c["r"], w, [&](auto r) {
            few_selector(c["c"], w, [&](auto s) { go2(via(v)(r, s)); }); });
      }
   } else if(st == "rows") {
      with_selector(c["s"], w, [&](auto x) { return via(v).rows(x); }, go2);
   } else if(st == "cols") {
      with_selector(c["s"], w, [&](auto x) { return via(v).cols(x); }, go2);
   } else if(st == "row") {
      index_arg(c, "i", [&](auto i) { go1(via(v).row(i)); });
   } else if(st == "col") {
      index_arg(c, "i", [&](auto i) { go1(via(v).col(i)); });
   } else if(st == "diag0") {
      go1(via(v).diag());
   } else if(st == "diag") {
      go1(via(v).diag(c.num("i")));
   } else if(st == "block") {
      index_arg(c, "i", [&](auto i) { index_arg(c, "j", [&](auto j) {
         if constexpr(std::is_same_v<decltype(i), decltype(j)>) {
            index_arg(c, "i2", [&](auto i2) { index_arg(c, "j2", [&](auto j2) {
               go2(via(v).block(i, j, i2, j2)); }); });
         } else {
            if(c.num("e") == 1) go2(via(v).block(last - c.num("i"), last - c.num("j"), last - c.num("i2"), last - c.num("j2")));
            else go2(via(v).block(i, j, c.num("i2"), c.num("j2")));
         } }); });
   } else if(st == "blockN") {
      if(c.num("e") == 1) go2(via(v).blockN(last - c.num("i"), last - c.num("j"), c.num("nr"), c.num("nc")));
      else go2(via(v).blockN(c.num("i"), c.num("j"), c.num("nr"), c.num("nc")));
   } else if(st == "view1") {
      go1(via(v).view1D());
   } else if(st == "view2") {
      go2(via(v).view2D(c.num("m"), c.num("n")));
   } else {
      throw std::runtime_error("driver: step2 " + st);
   }
}
template <int R, typename V, typename F, typename S>
void walk_from(V& v, const J& path, size_t k, Forms w, F& fin, S step) {
   if(k == path.size()) {
      fin.template at<R>(v);
      return;
   }
   if constexpr(R > 0) {
      if constexpr(views_rvalue<V>) {
         if(w.expiring()) {
            auto p = std::make_unique<V>(v);
            auto done = [&] { p.reset(); };
            if(w.rvalue()) step(*p, [](V& x) -> V&& { return std::move(x); }, done);
            else step(*p, [](V& x) -> V& { return x; }, done);
            return;
         }
      }
      step(v, [](V& x) -> V& { return x; }, [] {});
   } else {
      throw std::runtime_error("driver: path too long");
   }
}
template <int R, typename V, typename F>
void walk1(V& v, const J& path, size_t k, Forms w, F& fin) {
   walk_from<R>(v, path, k, w, fin, [&](auto& x, auto via, auto done) {
      if constexpr(R > 0) step1<R>(x, path, k, w, fin, via, done);
   });
}
template <int R, typename V, typename F>
void walk2(V& v, const J& path, size_t k, Forms w, F& fin) {
   walk_from<R>(v, path, k, w, fin, [&](auto& x, auto via, auto done) {
      if constexpr(R > 0) step2<R>(x, path, k, w, fin, via, done);
   });
}
