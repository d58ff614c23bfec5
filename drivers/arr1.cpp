// Conformance driver for spec/Arr1.tla: a pool of resizable one-dimensional arrays.
#include "common.hpp"
using namespace spp;
#ifndef T_
#define T_ int
#endif
#ifndef AF_
#define AF_ Unaligned
#endif
using T = T_;
using S = Strict<T>;
using A = Array1D<T, AF_>;
#if defined OTHER_AF
using B = Array1D<T, OTHER_AF>;
#else
using B = Array1D<T, Aligned>;
#endif

static std::vector<std::unique_ptr<A>> pool;
static S sx(long x) { return S{static_cast<T>(x)}; }

static std::string proj() {
   std::string r = "[";
   for(size_t i = 0; i < pool.size(); ++i) r += (i ? "," : "") + proj1_owner(*pool[i]);
   return r + "]";
}
static std::unique_ptr<A> from_list(const std::vector<long>& v) {
   auto p = std::make_unique<A>(static_cast<long>(v.size()));
   for(size_t i = 0; i < v.size(); ++i) p->un(static_cast<long>(i)) = sx(v[i]);
   return p;
}
static void load(const J& s) {
   pool.clear();
   for(size_t i = 0; i < s.size(); ++i) pool.push_back(from_list(s[i].vec()));
}
static std::string exec(const J& c) {
   const std::string& op = c.str("op");
   const int w = c.has("w") ? c.inum("w") : 0; // overload variant; the specification ignores it
   auto at = [&](const char* k) -> A& { return *pool.at(static_cast<size_t>(c.num(k))); };
   auto slot = [&]() -> std::unique_ptr<A>& { return pool.at(static_cast<size_t>(c.num("i"))); };
   auto P = [&](const char* k) { return c.num(k); };
   auto self = [&](auto& ret, A& a) { return static_cast<void*>(&ret) == static_cast<void*>(&a) ? ok() : std::string("\"wrong return\""); };
   // A rejected construction must leave the pool alone, so objects are built first.
   if(op == "init") { pool.clear(); for(long q = 0; q < P("n"); ++q) pool.push_back(std::make_unique<A>()); return ok(); }
   if(op == "new0") { slot() = std::make_unique<A>(); return ok(); }
   if(op == "new_n") {
      const long n = P("n");
      std::unique_ptr<A> t;
      switch(w % 4) {
      case 0: t = std::make_unique<A>(n); break;
      case 1: t = std::make_unique<A>(static_cast<int>(n)); break;
      case 2: t = std::make_unique<A>(Strict{n}); break;
      default: t = std::make_unique<A>(Size{n});
      }
      slot() = std::move(t);
      return ok();
   }
   if(op == "new_nx") {
      const long n = P("n");
      auto t = w % 2 ? std::make_unique<A>(Size{n}, Value{sx(P("x"))}) : std::make_unique<A>(n, sx(P("x")));
      slot() = std::move(t);
      return ok();
   }
   if(op == "new_list") {
      auto v = to_strict<T>(c.vec("xs"));
      slot() = with_list(v, [&](auto l) {
         if(w % 2) { return std::make_unique<A>(A(l)); }
         return std::make_unique<A>(l);
      });
      return ok();
   }
   if(op == "new_iter") {
      A& a = at("j");
      std::unique_ptr<A> t;
      if(w % 2 == 0) t = std::make_unique<A>(a.begin() + P("b"), a.begin() + P("e"));
      else t = std::make_unique<A>(a.cbegin() + P("b"), a.cbegin() + P("e"));
      slot() = std::move(t);
      return ok();
   }
   if(op == "new_copy") { auto t = std::make_unique<A>(at("j")); slot() = std::move(t); return ok(); }
   if(op == "new_move") { auto t = std::make_unique<A>(std::move(at("j"))); slot() = std::move(t); return ok(); }
   if(op == "new_conv") { B b(at("j")); auto t = std::make_unique<A>(b); slot() = std::move(t); return ok(); }
   if(op == "new_eval") { auto t = std::make_unique<A>(at("j").eval()); slot() = std::move(t); return ok(); }
   if(op == "new_slice") {
      A& a = at("j");
      auto t = std::make_unique<A>(a(seqN{P("b"), P("n"), P("st")}));
      slot() = std::move(t);
      return ok();
   }
   if(op == "new_expr") { auto t = std::make_unique<A>(at("j") + at("k")); slot() = std::move(t); return ok(); }
   A& a = at("i");
   if(op == "set_x") { auto& r = (a = sx(P("x"))); return self(r, a); }
   if(op == "set_list") {
      auto v = to_strict<T>(c.vec("xs"));
      return with_list(v, [&](auto l) { auto& r = (a = l); return self(r, a); });
   }
   if(op == "assign") { auto& r = (a = at("j")); return self(r, a); }
   if(op == "assign_conv") { B b(at("j")); auto& r = (a = b); return self(r, a); }
   if(op == "assign_expr") { auto& r = (a = at("j") + at("k")); return self(r, a); }
   if(op == "assign_slice") {
      const A& b = at("j");
      auto& r = (a = b(seqN{P("b"), P("n"), P("st")}));
      return self(r, a);
   }
   if(op == "move_assign") { auto& r = (a = std::move(at("j"))); return self(r, a); }
   if(op == "move_assign_abort") { A& b = at("j"); return forked([&] { a = std::move(b); }); }
   if(op == "swap") {
      A& b = at("j");
      if(w % 2) a.swap(std::move(b)); else a.swap(b);
      return ok();
   }
   if(op == "resize") {
      const long n = P("n");
      switch(w % 4) {
      case 0: { auto& r = a.resize(n); return self(r, a); }
      case 1: { auto& r = a.resize(static_cast<int>(n), true); return self(r, a); }
      case 2: { auto& r = a.resize(Strict{n}, Strict{true}); return self(r, a); }
      default: { auto& r = a.resize(n, ImplicitBool{true}); return self(r, a); }
      }
   }
   if(op == "resize_fill") { // contents are unspecified without preservation, so they are overwritten
      auto& r = a.resize(P("n"), false);
      if(a.size().val() != P("n")) return "\"wrong size after resize\"";
      r = sx(P("x"));
      return ok();
   }
   if(op == "raa") { auto& r = a.resize_and_assign(at("j")); return self(r, a); }
   if(op == "raa_move") { auto& r = a.resize_and_assign(std::move(at("j"))); return self(r, a); }
   if(op == "raa_expr") { auto& r = a.resize_and_assign(at("j") + at("k")); return self(r, a); }
   if(op == "raa_slice") {
      A& b = at("j");
      auto& r = a.resize_and_assign(b(seqN{P("b"), P("n"), P("st")}));
      return self(r, a);
   }
   if(op == "remove") {
      const long p = P("p"), n = P("n");
      switch(w % 3) {
      case 0: { auto& r = a.remove(p, n); return self(r, a); }
      case 1: { auto& r = a.remove(Pos{p}, Count{n}); return self(r, a); }
      default: { auto& r = a.remove(Strict{p}, static_cast<int>(n)); return self(r, a); }
      }
   }
   if(op == "remove1") { auto& r = w % 2 ? a.remove(Pos{P("p")}) : a.remove(P("p")); return self(r, a); }
   if(op == "remove_front") {
      const long n = P("n");
      if(n == 1 && w % 3 == 2) { auto& r = a.remove_front(); return self(r, a); }
      auto& r = w % 3 == 1 ? a.remove_front(Count{n}) : a.remove_front(n);
      return self(r, a);
   }
   if(op == "remove_back") {
      const long n = P("n");
      if(n == 1 && w % 3 == 2) { auto& r = a.remove_back(); return self(r, a); }
      auto& r = w % 3 == 1 ? a.remove_back(Count{n}) : a.remove_back(n);
      return self(r, a);
   }
   if(op == "remove_last") {
      const long p = P("p");
      if(p == 0 && w % 2) { auto& r = a.remove(last); return self(r, a); }
      auto& r = p < 0 && w % 3 ? a.remove(last + (-p)) : a.remove(last - p);
      return self(r, a);
   }
   if(op == "remove_list") { auto& r = a.remove(to_idx(c.vec("xs"))); return self(r, a); }
   if(op == "insert") {
      const long p = P("p");
      S x = sx(P("x"));
      switch(w % 3) {
      case 0: { auto& r = a.insert(p, x); return self(r, a); }
      case 1: { auto& r = a.insert(Pos{p}, Value{x}); return self(r, a); }
      default: { auto& r = a.insert(static_cast<int>(p), x); return self(r, a); }
      }
   }
   if(op == "insert_elem") { auto& r = a.insert(P("p"), a[P("q")]); return self(r, a); }
   if(op == "insert_front") { S x = sx(P("x")); auto& r = w % 2 ? a.insert_front(Value{x}) : a.insert_front(x); return self(r, a); }
   if(op == "insert_back") { S x = sx(P("x")); auto& r = w % 2 ? a.insert_back(Value{x}) : a.insert_back(x); return self(r, a); }
   if(op == "insert_arr") {
      const long p = P("p");
      A& b = at("j");
      switch(w % 5) {
      case 0: { auto& r = a.insert(p, b); return self(r, a); }
      case 1: { auto& r = a.insert(Pos{p}, b); return self(r, a); }
      case 2: { auto& r = a.insert(p, b(place::all)); return self(r, a); }
      case 3: { auto& r = a.insert(p, +b); return self(r, a); }
      default: { auto& r = a.insert(p, B(b)); return self(r, a); }
      }
   }
   if(op == "insert_arr_front") { A& b = at("j"); auto& r = w % 2 ? a.insert_front(b(place::all)) : a.insert_front(b); return self(r, a); }
   if(op == "insert_arr_back") { A& b = at("j"); auto& r = w % 2 ? a.insert_back(b(place::all)) : a.insert_back(b); return self(r, a); }
   if(op == "insert_slice") {
      A& b = at("j");
      auto& r = a.insert(P("p"), b(seqN{P("b"), P("n"), P("st")}));
      return self(r, a);
   }
   if(op == "get") {
      const long p = P("p");
      const bool in = p >= 0 && p < a.size().val();
      switch(in ? w % 6 : w % 4) {
      case 0: return ok1(show(a[p]));
      case 1: return ok1(show(std::as_const(a)[static_cast<int>(p)]));
      case 2: return ok1(show(a.at(p)));
      case 3: return ok1(show(std::as_const(a).at(Strict{p})));
      case 4: return ok1(show(*(a.begin() + p)));
      default: return ok1(show(a.cbegin()[p]));
      }
   }
   if(op == "get_last") {
      const long p = P("p");
      switch(w % 4) {
      case 0: return ok1(show(a[last - p]));
      case 1: return ok1(show(std::as_const(a)[last - p]));
      case 2: return ok1(show(a.at(last + (-p))));
      default: return ok1(show(std::as_const(a).at(-p + last)));
      }
   }
   if(op == "put") {
      const long p = P("p");
      S x = sx(P("x"));
      const bool in = p >= 0 && p < a.size().val();
      switch(in ? w % 5 : w % 4) {
      case 0: a[p] = x; break;
      case 1: a.at(p) = x; break;
      case 2: a[Strict{p}] = x; break;
      case 3: a.at(static_cast<int>(p)) = x; break;
      default: *(a.begin() + p) = x;
      }
      return ok();
   }
   if(op == "put_last") { const long p = P("p"); if(w % 2) a.at(last - p) = sx(P("x")); else a[last - p] = sx(P("x")); return ok(); }
   if(op == "eq") {
      A& b = at("j");
      std::string r = "[";
      r += show(a == b) + "," + show(a != b) + "," + show(equal(a, b)) + "," + show(same_size(a, b)) + "]";
      return okv(r);
   }
   throw std::runtime_error("driver: unknown op " + op);
}
int main() { return command_loop(load, exec, proj); }
