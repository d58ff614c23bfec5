// Iterator sessions (spec/Iter.tla). ROOT: 0 the array, 1 a constant reference to it, 2 an expression
#include "world.hpp"
#ifndef ROOT
#define ROOT 0
#endif

static std::string outs, regs_;

template <typename It>
struct Side { It b, e; };

template <typename It, bool Elements, bool Writes, bool Reverse>
struct Machine {
   using Sd = Side<It>;
   Sd side[2];
   std::vector<It> it{It{}, It{}, It{}};
   std::vector<int> arr{0, 0, 0};

   Machine(Sd a, Sd b) : side{a, b} {}
   It begin(long a) { return side[a - 1].b; }
   It end(long a) { return side[a - 1].e; }

   template <typename V>
   static std::string value(V&& v) {
      if constexpr(Elements) return "[" + show(v) + "]";
      else return proj1(v);
   }
   static std::string flag(bool b) { return ok1(b ? "1" : "0"); }
   template <typename X>
   void self(X& x, size_t r) {
      if(&x != &it[r]) throw std::runtime_error("another iterator returned");
   }
   std::string step(const J& c) {
      const std::string& op = c.str("op");
      const size_t r = size_t(c.num("r") - 1), q = size_t(c.num("q") - 1);
      const long k = c.num("k");
      if(op == "none") { it[r] = It{}; arr[r] = 0; return ok(); }
      if(op == "begin") { it[r] = begin(k); arr[r] = int(k); return ok(); }
      if(op == "end") { it[r] = end(k); arr[r] = int(k); return ok(); }
      if(op == "copy") { it[q] = it[r]; arr[q] = arr[r]; return ok(); }
      if(op == "inc") { self(++it[r], r); return ok(); }
      if(op == "dec") { self(--it[r], r); return ok(); }
      if(op == "+=") { self(it[r] += k, r); return ok(); }
      if(op == "-=") { self(it[r] -= k, r); return ok(); }
      if(op == "+") { it[q] = it[r] + k; arr[q] = arr[r]; return ok(); }
      if(op == "k+") { it[q] = k + it[r]; arr[q] = arr[r]; return ok(); }
      if(op == "-") { it[q] = it[r] - k; arr[q] = arr[r]; return ok(); }
      if(op == "post++") { It old = it[r]++; it[q] = old; arr[q] = arr[r]; return ok(); }
      if(op == "post--") { It old = it[r]--; it[q] = old; arr[q] = arr[r]; return ok(); }
      if(op == "diff") return ok1(std::to_string(it[r] - it[q]));
      if(op == "cmp") {
         const std::string& f = c.str("f");
         const It &a = it[r], &b = it[q];
         if(f == "==") return flag(a == b);
         if(f == "!=") return flag(a != b);
         if(f == "<") return flag(a < b);
         if(f == "<=") return flag(a <= b);
         if(f == ">") return flag(a > b);
         return flag(a >= b);
      }
      if(op == "some") {
         if constexpr(Reverse) return flag(bool{it[r].base().points_somewhere()});
         else return flag(bool{it[r].points_somewhere()});
      }
      if(op == "->") {
#if ROOT != 2
         if constexpr(Elements) return okv(value(*it[r].operator->()));
#endif
         return okv(value(*it[r]));
      }
      if(op == "*") return okv(value(*it[r]));
      if(op == "[]") return okv(value(it[r][k]));
      if(op == "set") {
         if constexpr(Writes) {
            S x{T(c.num("x"))};
            if constexpr(Elements) {
               if(k == 0) *it[r] = x;
               else it[r][k] = x;
            } else {
               auto row = k == 0 ? *it[r] : it[r][k];
               row = x;
            }
         }
         return ok();
      }
      if(op == "visit") {
         std::string s;
         auto note = [&](auto&& v) {
            std::string e = value(v);
            e = e.substr(1, e.size() - 2);
            if(!e.empty()) s += (s.empty() ? "" : ",") + e;
         };
         long count = 0;
         for(It i = begin(k); i != end(k); ++i, ++count) note(*i);
         if(end(k) - begin(k) != count) return okv("\"distance\"");
         return okv("[" + s + "]");
      }
      throw std::runtime_error("driver: op " + op);
   }
   void run(const J& c) {
      if(c.has("it"))
         for(size_t r = 0; r < c["it"].size(); ++r) {
            long a = c["it"][r].num("a");
            arr[r] = int(a);
            if(a) it[r] = begin(a) + c["it"][r].num("p");
         }
      for(size_t q = 0; q < c["cs"].size(); ++q) outs += (q ? "," : "") + guarded([&] { return step(c["cs"][q]); });
      const size_t n = c.has("it") ? c["it"].size() : 3;
      for(size_t r = 0; r < n; ++r)
         regs_ += (r ? "," : "") + std::string("{\"a\":") + std::to_string(arr[r]) + ",\"p\":" + std::to_string(arr[r] ? it[r] - begin(arr[r]) : 0) + "}";
   }
};
template <bool Elements, bool Writes, bool Reverse, typename It>
void session(It b1, It e1, It b2, It e2, const J& c) {
   Machine<It, Elements, Writes, Reverse> m{{b1, e1}, {b2, e2}};
   m.run(c);
}
constexpr bool W0 = ROOT == 0;

template <typename V>
void flavours(V& a, V& b, const J& c) {
   const std::string& fl = c.str("fl");
   const auto &ca = a, &cb = b;
   if(fl == "fwd") return session<true, W0, false>(a.begin(), a.end(), b.begin(), b.end(), c);
   if(fl == "cfwd") return session<true, false, false>(a.cbegin(), ca.end(), cb.begin(), b.cend(), c);
   if(fl == "rev") return session<true, W0, true>(a.rbegin(), a.rend(), b.rbegin(), b.rend(), c);
   if(fl == "crev") return session<true, false, true>(a.crbegin(), ca.rend(), cb.rbegin(), b.crend(), c);
   if constexpr(TwoDimBaseType<V>) {
      if(fl == "row" || fl == "rrow" || fl == "crow") {
         RowIt ra{a}, rb{b};
         const RowIt ka{a}, kb{b};
         if(fl == "row") return session<false, W0, false>(ra.begin(), ra.end(), rb.begin(), rb.end(), c);
         if(fl == "rrow") return session<false, W0, true>(ra.rbegin(), ra.rend(), rb.rbegin(), rb.rend(), c);
         return session<false, false, false>(ra.cbegin(), ka.end(), kb.begin(), rb.cend(), c);
      }
      if(fl == "col" || fl == "rcol" || fl == "ccol") {
         ColIt ra{a}, rb{b};
         const ColIt ka{a}, kb{b};
         if(fl == "col") return session<false, W0, false>(ra.begin(), ra.end(), rb.begin(), rb.end(), c);
         if(fl == "rcol") return session<false, W0, true>(ra.rbegin(), ra.rend(), rb.rbegin(), rb.rend(), c);
         return session<false, false, false>(ra.cbegin(), ka.end(), kb.begin(), rb.cend(), c);
      }
   }
   throw std::runtime_error("driver: flavour " + fl);
}
#include <any>
struct Keep {
   std::any& held;
   template <int R, typename V>
   void at(V& v) {
      if constexpr(std::is_copy_constructible_v<V> && views_rvalue<V>) held = std::any{v};
      else held = std::any{const_cast<std::remove_const_t<V>*>(&v)};
   }
};
struct Both {
   std::any& held;
   const J& c;
   template <int R, typename V>
   void at(V& v) {
      if constexpr(std::is_copy_constructible_v<V> && views_rvalue<V>) flavours(v, std::any_cast<V&>(held), c);
      else flavours(v, static_cast<V&>(*std::any_cast<std::remove_const_t<V>*>(held)), c);
   }
};

static void grid(const J& c) {
   using P = detail::PlaneIterator;
   std::optional<P> it[3];
   for(auto& x : it) x.emplace();
   auto pairs = [](std::pair<index_t, index_t> p) { return "[" + show(p.first) + "," + show(p.second) + "]"; };
   auto range = [](const J& a) {
      const long m = a.num("m"), n = a.num("n");
      if(m > 0 && n > 0 && (m + n) % 2 == 0) return IndexRange2D{Array2D<int>(m, n)};
      return IndexRange2D{m, n};
   };
   auto step = [&](const J& a) -> std::string {
      const std::string& op = a.str("op");
      P &r = *it[a.num("r") - 1], &q = *it[a.num("q") - 1];
      if(op == "none") { it[a.num("r") - 1].emplace(); return ok(); }
      if(op == "begin") { auto x = range(a); it[a.num("r") - 1].emplace(x.begin()); return ok(); }
      if(op == "end") { auto x = range(a); it[a.num("r") - 1].emplace(x.end()); return ok(); }
      if(op == "copy") { q = r; return ok(); }
      if(op == "inc") { return &++r == &r ? ok() : std::string("\"other\""); }
      if(op == "post++") { return okv(pairs(*(r++))); }
      if(op == "cmp") return ok1((a.str("f") == "==" ? bool{r == q} : bool{r != q}) ? "1" : "0");
      if(op == "*") return okv(pairs(*r));
      if(op == "visit") {
         std::string s;
         for(auto [i, j] : range(a)) s += (s.empty() ? "" : ",") + show(i) + "," + show(j);
         return okv("[" + s + "]");
      }
      throw std::runtime_error("driver: grid op " + op);
   };
   for(size_t q = 0; q < c["cs"].size(); ++q) outs += (q ? "," : "") + guarded([&] { return step(c["cs"][q]); });
}

static std::string exec(const J& c) {
   outs.clear();
   regs_.clear();
   if(c.str("fl") == "grid") {
      W.reset();
      grid(c);
      return ok();
   }
   start(c["base"]);
   if(c.has("d"))
      for(long i = 0; i < W->A.size().val(); ++i) {
         W->A.un(i) = S{T(c["d"][0][size_t(i)].num())};
         W->B.un(i) = S{T(c["d"][1][size_t(i)].num())};
      }
   Forms w{c.has("w") ? c.inum("w") & 7 : 0};
   std::any held;
   Keep keep{held};
   Both both{held, c};
#if ROOT == 0
   auto &a = W->A, &b = W->B;
#elif ROOT == 1
   const auto &a = W->A, &b = W->B;
#else
   auto a = -(-W->A), b = -(-W->B);
#endif
   walk<TOP>(b, c["path"], w, keep);
   walk<TOP>(a, c["path"], w, both);
   return ok();
}
static std::string state() {
   std::string d = "[";
   if(W) {
      auto flat = [](auto& x) {
         std::string s = "[";
         for(long i = 0; i < x.size().val(); ++i) s += (i ? "," : "") + show(x.un(i));
         return s + "]";
      };
      d += flat(W->A) + "," + flat(W->B);
   }
   return "{\"os\":[" + outs + "],\"it\":[" + regs_ + "],\"d\":" + d + "]}";
}
int main() { return command_loop([](const J&) {}, exec, state); }
