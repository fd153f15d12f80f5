// Runtime for sequential harnesses: exact allocation accounting and fault injection.
#ifndef SEQRT_H
#define SEQRT_H
#include "mc.h"
#include <cstddef>
#include <locale>
#include <string>
namespace seq {
// An application whose global C++ locale writes 12.345,6 for 12345.6.
struct GlobalLocale {
   struct Punct : std::numpunct<char> {
      char do_thousands_sep() const override { return '.'; }
      char do_decimal_point() const override { return ','; }
      std::string do_grouping() const override { return "\3"; }
      std::string do_truename() const override { return "vero"; }
      std::string do_falsename() const override { return "falso"; }
   };
   std::locale old;
   explicit GlobalLocale(bool on) : old(std::locale()) { if (on) std::locale::global(std::locale(std::locale::classic(), new Punct)); }
   ~GlobalLocale() { std::locale::global(old); }
};
// Number of live operator-new blocks.
long live();
// Makes the n-th allocation from now (0 = next) throw std::bad_alloc; <0: none.
void failAlloc(long n);
bool allocFaultFired();
// Number of allocations so far.
long allocs();

// An element type that counts its instances, notices misuse and can throw.
struct Elem {
   int v;
   unsigned magic;
   bool moved = false;           // its value has been moved away
   Elem* self;
   static long live;             // live instances
   static long ops;              // constructions and assignments that may fault
   static long faultAt;          // ops index that throws (<0: never)
   static bool fired;
   struct Fault {};
   static void reset() { live = 0; ops = 0; faultAt = -1; fired = false; }
   static void tick() { if (faultAt >= 0 && ops++ == faultAt) { fired = true; throw Fault(); } }
   Elem(): v(-1) { born(); }
   Elem(int x): v(x) { tick(); born(); }
   Elem(int a, int b): v(a * 16 + b) { tick(); born(); }
   Elem(const Elem& o): v(o.v) { o.check("copy source"); tick(); born(); }
   Elem(Elem&& o): v(o.v) { o.check("move source"); tick(); born(); o.leave(); }
   Elem& operator=(Elem&& o) { check("assigned"); o.check("move source"); tick(); v = o.v; moved = o.moved; if (this != &o) o.leave(); return *this; }
   Elem& operator=(const Elem& o) { check("assigned"); o.check("assignment source"); tick(); v = o.v; moved = o.moved; return *this; }
   ~Elem() { check("destroyed"); magic = 0xdeadbeef; self = nullptr; --live; }
   bool operator==(const Elem& o) const { return v == o.v; }
   void born() { magic = 0xe1e3e27u; self = this; ++live; }
   void check(const char* what) const {
      if (magic != 0xe1e3e27u || self != this) mc::fail("element %s is not a live object (magic %x)", what, magic);
   }
   void leave() { moved = true; v = -77777; }
   int get() const { check("read"); if (moved) mc::fail("an element was read whose value had been moved away"); return v; }
};
}
#endif
