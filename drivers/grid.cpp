// Answers the questions of spec/Grid.tla with the real generated sequences.
#define SHOW_EXACT
#include "bignum.hpp"
using namespace spp;
template <typename E>
std::string look(const E& e, const J& c) {
   std::string r = "{\"k\":\"ok\",\"v\":[" + std::to_string(e.size().val());
   const auto ix = c.vec("ix");
   if(c.num("w") % 2) {
      auto it = e.begin();
      for(long i : ix) r += "," + exact(it[i]);
   } else {
      for(long i : ix) r += "," + exact(e[i]);
   }
   return r + "]}";
}
template <typename T>
std::string call(const J& c) {
   const Strict<T> s{from_num<T>(c["s"])}, h{from_num<T>(c["h"])};
   const long n = c.num("n"), w = c.num("w");
   auto go = [&](const auto& e) -> std::string {
      switch(w / 4 % 3) {
      case 0: return look(e, c);
      case 1: { Array1D<T> a = e; return look(a, c); }
      default: return look(e(place::all), c);
      }
   };
   if(c.str("f") == "seq") return w & 2 ? go(sequence<T>(Size{n}, Start<T>{s}, Incr<T>{h})) : go(sequence<T>(n, s, h));
   return w & 2 ? go(linspace<T>(Size{n}, Start<T>{s}, End<T>{h})) : go(linspace<T>(n, s, h));
}
int main() {
   return command_loop([](const J&) {}, [](const J& c) -> std::string {
      return by_type(c.str("t"), [&](auto z) -> std::string {
         using T = decltype(z);
         if constexpr(Floating<T>) return call<T>(c);
         else throw std::runtime_error("driver: type");
      });
   }, [] { return std::string("0"); });
}
