// Conformance driver for spec/Arr2.tla: a pool of resizable two-dimensional arrays.
#include "common.hpp"
using namespace spp;
#ifndef T_
#define T_ int
#endif
#ifndef AF_
#define AF_ Unaligned
#endif
#ifndef OTHER_AF
#define OTHER_AF Aligned
#endif
using T = T_;
using S = Strict<T>;
using A = Array2D<T, AF_>;
using B = Array2D<T, OTHER_AF>;
using A1 = Array1D<T, AF_>;

static std::vector<std::unique_ptr<A>> pool;
static S sx(long x) { return S{static_cast<T>(x)}; }
static std::string proj() {
   std::string r = "[";
   for(size_t i = 0; i < pool.size(); ++i) r += (i ? "," : "") + proj2_owner(*pool[i]);
   return r + "]";
}
static void load(const J& s) {
   pool.clear();
   for(size_t i = 0; i < s.size(); ++i) {
      auto p = std::make_unique<A>(s[i].num("m"), s[i].num("n"));
      auto d = s[i].vec("d");
      for(size_t q = 0; q < d.size(); ++q) p->un(static_cast<long>(q)) = sx(d[q]);
      pool.push_back(std::move(p));
   }
}
static A1 vec1(const J& c) {
   auto v = c.vec("xs");
   A1 a(static_cast<long>(v.size()));
   for(size_t q = 0; q < v.size(); ++q) a.un(static_cast<long>(q)) = sx(v[q]);
   return a;
}
// Calls f with a nested braced list.
template <typename F>
static auto with_list2(const J& ll, F f) {
   using L = std::initializer_list<S>;
   using LL = std::initializer_list<L>;
   auto row = [&](int q, auto g) { auto v = to_strict<T>(ll[q].vec()); return with_list(v, g); };
   switch(ll.size()) {
   case 0: return f(LL{});
   case 1: return row(0, [&](L a) { return f(LL{a}); });
   case 2: return row(0, [&](L a) { return row(1, [&](L b) { return f(LL{a, b}); }); });
   case 3: return row(0, [&](L a) { return row(1, [&](L b) { return row(2, [&](L c) { return f(LL{a, b, c}); }); }); });
   case 4: return row(0, [&](L a) { return row(1, [&](L b) { return row(2, [&](L c) { return row(3, [&](L d) { return f(LL{a, b, c, d}); }); }); }); });
   default: throw std::runtime_error("driver: list too long");
   }
}
template <typename V>
static std::string seq_of(V&& v) { return proj1(v); }

static std::string exec(const J& c) {
   const std::string& op = c.str("op");
   const int w = c.has("w") ? c.inum("w") : 0;
   auto at = [&](const char* k) -> A& { return *pool.at(static_cast<size_t>(c.num(k))); };
   auto slot = [&]() -> std::unique_ptr<A>& { return pool.at(static_cast<size_t>(c.num("i"))); };
   auto P = [&](const char* k) { return c.num(k); };
   auto self = [&](auto& ret, A& a) { return static_cast<void*>(&ret) == static_cast<void*>(&a) ? ok() : std::string("\"wrong return\""); };
   auto rs = [&] { return seqN{P("b"), P("n"), P("st")}; };
   auto cs = [&] { return seqN{P("b2"), P("n2"), P("st2")}; };
   if(op == "init") { pool.clear(); for(long q = 0; q < P("n"); ++q) pool.push_back(std::make_unique<A>()); return ok(); }
   if(op == "new0") { slot() = std::make_unique<A>(); return ok(); }
   if(op == "new_mn") {
      const long m = P("m"), n = P("n");
      std::unique_ptr<A> t;
      switch(w % 3) {
      case 0: t = std::make_unique<A>(m, n); break;
      case 1: t = std::make_unique<A>(static_cast<int>(m), Strict{n}); break;
      default: t = std::make_unique<A>(Rows{m}, Cols{n});
      }
      slot() = std::move(t);
      return ok();
   }
   if(op == "new_mnx") {
      const long m = P("m"), n = P("n");
      auto t = w % 2 ? std::make_unique<A>(Rows{m}, Cols{n}, Value{sx(P("x"))}) : std::make_unique<A>(m, n, sx(P("x")));
      slot() = std::move(t);
      return ok();
   }
   if(op == "new_list") {
      slot() = with_list2(c["ll"], [&](auto l) { return std::make_unique<A>(l); });
      return ok();
   }
   if(op == "new_copy") { auto t = std::make_unique<A>(at("j")); slot() = std::move(t); return ok(); }
   if(op == "new_move") { auto t = std::make_unique<A>(std::move(at("j"))); slot() = std::move(t); return ok(); }
   if(op == "new_conv") { B b(at("j")); auto t = std::make_unique<A>(b); slot() = std::move(t); return ok(); }
   if(op == "new_eval") { auto t = std::make_unique<A>(at("j").eval()); slot() = std::move(t); return ok(); }
   if(op == "new_slice") { A& a = at("j"); auto t = std::make_unique<A>(a(rs(), cs())); slot() = std::move(t); return ok(); }
   if(op == "new_expr") { auto t = std::make_unique<A>(at("j") + at("k")); slot() = std::move(t); return ok(); }
   A& a = at("i");
   if(op == "set_x") { auto& r = (a = sx(P("x"))); return self(r, a); }
   if(op == "set_list") return with_list2(c["ll"], [&](auto l) { auto& r = (a = l); return self(r, a); });
   if(op == "assign") { auto& r = (a = at("j")); return self(r, a); }
   if(op == "assign_conv") { B b(at("j")); auto& r = (a = b); return self(r, a); }
   if(op == "assign_expr") { auto& r = (a = at("j") + at("k")); return self(r, a); }
   if(op == "assign_slice") { const A& b = at("j"); auto& r = (a = b(rs(), cs())); return self(r, a); }
   if(op == "move_assign") { auto& r = (a = std::move(at("j"))); return self(r, a); }
   if(op == "move_assign_abort") { A& b = at("j"); return forked([&] { a = std::move(b); }); }
   if(op == "swap") { A& b = at("j"); if(w % 2) a.swap(std::move(b)); else a.swap(b); return ok(); }
   if(op == "resize") {
      const long m = P("m"), n = P("n");
      switch(w % 3) {
      case 0: { auto& r = a.resize(m, n); return self(r, a); }
      case 1: { auto& r = a.resize(static_cast<int>(m), n, true); return self(r, a); }
      default: { auto& r = a.resize(Strict{m}, n, Strict{true}); return self(r, a); }
      }
   }
   if(op == "resize_fill") {
      auto& r = a.resize(P("m"), P("n"), false);
      if(a.rows().val() != P("m") || a.cols().val() != P("n") || a.size().val() != P("m") * P("n")) return "\"wrong shape after resize\"";
      r = sx(P("x"));
      return ok();
   }
   if(op == "raa") { auto& r = a.resize_and_assign(at("j")); return self(r, a); }
   if(op == "raa_move") { auto& r = a.resize_and_assign(std::move(at("j"))); return self(r, a); }
   if(op == "raa_expr") { auto& r = a.resize_and_assign(at("j") + at("k")); return self(r, a); }
   if(op == "raa_slice") { A& b = at("j"); auto& r = a.resize_and_assign(b(rs(), cs())); return self(r, a); }
   if(op == "rem_rows") { auto& r = w % 2 ? a.remove_rows(Pos{P("p")}, Count{P("n")}) : a.remove_rows(P("p"), P("n")); return self(r, a); }
   if(op == "rem_cols") { auto& r = w % 2 ? a.remove_cols(Pos{P("p")}, Count{P("n")}) : a.remove_cols(P("p"), P("n")); return self(r, a); }
   if(op == "rem_row") { auto& r = w % 2 ? a.remove_row(Pos{P("p")}) : a.remove_row(P("p")); return self(r, a); }
   if(op == "rem_col") { auto& r = w % 2 ? a.remove_col(Pos{P("p")}) : a.remove_col(P("p")); return self(r, a); }
   if(op == "rem_row_last") { const long p = P("p"); auto& r = p == 0 && w % 2 ? a.remove_row(last) : a.remove_row(last - p); return self(r, a); }
   if(op == "rem_col_last") { const long p = P("p"); auto& r = p == 0 && w % 2 ? a.remove_col(last) : a.remove_col(last - p); return self(r, a); }
   if(op == "rem_rows_front") { auto& r = w % 2 ? a.remove_rows_front(Count{P("n")}) : a.remove_rows_front(P("n")); return self(r, a); }
   if(op == "rem_cols_front") { auto& r = w % 2 ? a.remove_cols_front(Count{P("n")}) : a.remove_cols_front(P("n")); return self(r, a); }
   if(op == "rem_rows_back") { auto& r = w % 2 ? a.remove_rows_back(Count{P("n")}) : a.remove_rows_back(P("n")); return self(r, a); }
   if(op == "rem_cols_back") { auto& r = w % 2 ? a.remove_cols_back(Count{P("n")}) : a.remove_cols_back(P("n")); return self(r, a); }
   if(op == "rem_rows_list") { auto& r = a.remove_rows(to_idx(c.vec("xs"))); return self(r, a); }
   if(op == "rem_cols_list") { auto& r = a.remove_cols(to_idx(c.vec("xs"))); return self(r, a); }
#define INS2(NAME)                                                                              \
   {                                                                                            \
      A& b = at("j");                                                                           \
      switch(w % 5) {                                                                           \
      case 0: { auto& r = a.NAME(P("p"), b); return self(r, a); }                               \
      case 1: { auto& r = a.NAME(Pos{P("p")}, b); return self(r, a); }                          \
      case 2: { auto& r = a.NAME(P("p"), b(place::all, place::all)); return self(r, a); }       \
      case 3: { auto& r = a.NAME(P("p"), +b); return self(r, a); }                              \
      default: { auto& r = a.NAME(P("p"), B(b)); return self(r, a); }                           \
      }                                                                                         \
   }
   if(op == "ins_rows") INS2(insert_rows)
   if(op == "ins_cols") INS2(insert_cols)
   if(op == "ins_rows_front") { A& b = at("j"); auto& r = w % 2 ? a.insert_rows_front(+b) : a.insert_rows_front(b); return self(r, a); }
   if(op == "ins_rows_back") { A& b = at("j"); auto& r = w % 2 ? a.insert_rows_back(+b) : a.insert_rows_back(b); return self(r, a); }
   if(op == "ins_cols_front") { A& b = at("j"); auto& r = w % 2 ? a.insert_cols_front(+b) : a.insert_cols_front(b); return self(r, a); }
   if(op == "ins_cols_back") { A& b = at("j"); auto& r = w % 2 ? a.insert_cols_back(+b) : a.insert_cols_back(b); return self(r, a); }
   if(op == "ins_rows_slice") { A& b = at("j"); auto& r = a.insert_rows(P("p"), b(rs(), cs())); return self(r, a); }
   if(op == "ins_cols_slice") { A& b = at("j"); auto& r = a.insert_cols(P("p"), b(rs(), cs())); return self(r, a); }
#define INS1(NAME)                                                                              \
   {                                                                                            \
      A1 x = vec1(c);                                                                           \
      switch(w % 4) {                                                                           \
      case 0: { auto& r = a.NAME(P("p"), x); return self(r, a); }                               \
      case 1: { auto& r = a.NAME(Pos{P("p")}, x); return self(r, a); }                          \
      case 2: { auto& r = a.NAME(P("p"), x(place::all)); return self(r, a); }                   \
      default: { auto& r = a.NAME(P("p"), +x); return self(r, a); }                             \
      }                                                                                         \
   }
   if(op == "ins_row") INS1(insert_row)
   if(op == "ins_col") INS1(insert_col)
   if(op == "ins_row_front") { A1 x = vec1(c); auto& r = w % 2 ? a.insert_row_front(x.view1D()) : a.insert_row_front(x); return self(r, a); }
   if(op == "ins_row_back") { A1 x = vec1(c); auto& r = w % 2 ? a.insert_row_back(x.view1D()) : a.insert_row_back(x); return self(r, a); }
   if(op == "ins_col_front") { A1 x = vec1(c); auto& r = w % 2 ? a.insert_col_front(x.view1D()) : a.insert_col_front(x); return self(r, a); }
   if(op == "ins_col_back") { A1 x = vec1(c); auto& r = w % 2 ? a.insert_col_back(x.view1D()) : a.insert_col_back(x); return self(r, a); }
   if(op == "ins_row_of") { A& b = at("j"); auto& r = w % 2 ? a.insert_row(P("p"), std::as_const(b).row(P("q"))) : a.insert_row(P("p"), b.row(P("q"))); return self(r, a); }
   if(op == "ins_col_of") { A& b = at("j"); auto& r = w % 2 ? a.insert_col(P("p"), std::as_const(b).col(P("q"))) : a.insert_col(P("p"), b.col(P("q"))); return self(r, a); }
   if(op == "get") {
      const long p = P("p"), q = P("q");
      switch(w % 4) {
      case 0: return ok1(show(a(p, q)));
      case 1: return ok1(show(std::as_const(a)(static_cast<int>(p), Strict{q})));
      case 2: return ok1(show(a.at(p, q)));
      default: return ok1(show(std::as_const(a).at(p, static_cast<int>(q))));
      }
   }
   if(op == "get_last") {
      const long p = P("p"), q = P("q"), pa = a.rows().val() - 1 - p, qa = a.cols().val() - 1 - q;
      switch(w % 6) {
      case 0: return ok1(show(a(last - p, last - q)));
      case 1: return ok1(show(std::as_const(a)(last - p, qa)));
      case 2: return ok1(show(a(pa, last - q)));
      case 3: return ok1(show(a.at(last - p, last - q)));
      case 4: return ok1(show(std::as_const(a).at(last - p, qa)));
      default: return ok1(show(std::as_const(a).at(pa, last - q)));
      }
   }
   if(op == "put") {
      const long p = P("p"), q = P("q");
      switch(w % 3) {
      case 0: a(p, q) = sx(P("x")); break;
      case 1: a.at(p, q) = sx(P("x")); break;
      default: a(last - (a.rows().val() - 1 - p), last - (a.cols().val() - 1 - q)) = sx(P("x"));
      }
      return ok();
   }
   if(op == "row") { if(w % 2) { auto r = std::as_const(a).row(P("p")); return okv(proj1(r)); } auto r = a.row(P("p")); return okv(proj1(r)); }
   if(op == "col") { if(w % 2) { auto r = std::as_const(a).col(P("p")); return okv(proj1(r)); } auto r = a.col(P("p")); return okv(proj1(r)); }
   if(op == "row_last") { auto r = a.row(last - P("p")); return okv(proj1(r)); }
   if(op == "col_last") { auto r = std::as_const(a).col(last - P("p")); return okv(proj1(r)); }
   if(op == "eq") {
      A& b = at("j");
      return okv("[" + show(a == b) + "," + show(a != b) + "," + show(equal(a, b)) + "," + show(same_size(a, b)) + "]");
   }
   throw std::runtime_error("driver: unknown op " + op);
}
int main() { return command_loop(load, exec, proj); }
