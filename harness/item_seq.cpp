// Items, type handlers and code objects, properties C24-C27: every input of a bounded
// domain and every operation sequence up to a depth, on the real classes.
#include "seqrt.h"
#include <falcon/engine/item.h>
#include <falcon/engine/compiler.h>
#include <falcon/engine/code.h>
#include <climits>
#include <cmath>
#include <cstring>
#include <deque>
#include <map>
#include <limits>
#include <memory>
#include <sstream>
#include <vector>

using namespace falcon;
using mc::choose;

namespace {

std::string show(const std::string& s) {
   std::string r = "\"";
   for (unsigned char c : s.substr(0, 40)) { if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); r += b; } else r += c; }
   return r + (s.size() > 40 ? "...\"" : "\"");
}

// ---- values ------------------------------------------------------------------
struct Val {
   enum Kind { NIL, BOOL, CHAR, BYTE, I32, U32, I64, U64, NUM, CSTR, STR, BIG } kind;
   long long i = 0; unsigned long long u = 0; double d = 0; std::string s;
   std::string text() const {
      static const char* k[] = {"nil", "bool", "char", "byte", "int32", "uint32", "int64", "uint64", "numeric", "ccstring", "string", "BigNum"};
      std::string v;
      switch (kind) { case NIL: break; case NUM: v = std::to_string(d); break; case CSTR: case STR: case BIG: v = show(s); break; case U32: case U64: v = std::to_string(u); break; default: v = std::to_string(i); }
      return std::string(k[kind]) + "(" + v + ")";
   }
   const char* type() const { return kind == NIL ? "Nil" : kind == BOOL ? "Bool" : kind == NUM ? "Float" : kind == BIG ? "BigNum" : kind >= CSTR ? "String" : "Int"; }
};
Item* fresh(const Val& v) {
   switch (v.kind) {
   case Val::NIL: return new Item();
   case Val::BOOL: return new Item((bool)v.i);
   case Val::CHAR: return new Item((char)v.i);
   case Val::BYTE: return new Item((byte)v.i);
   case Val::I32: return new Item((int32)v.i);
   case Val::U32: return new Item((uint32)v.u);
   case Val::I64: return new Item((int64)v.i);
   case Val::U64: return new Item((uint64)v.u);
   case Val::NUM: return new Item(v.d);
   case Val::CSTR: return new Item((ccstring)v.s.c_str());
   case Val::STR: return new Item(v.s);
   case Val::BIG: return new Item(BigNum(v.s));
   }
   return nullptr;
}
// the leading number of a string
long long leading(const std::string& s) {
   size_t k = 0; const char* p = s.c_str();
   while (p[k] == ' ' || (p[k] >= '\t' && p[k] <= '\r')) ++k;
   bool neg = p[k] == '-'; if (p[k] == '-' || p[k] == '+') ++k;
   __int128 v = 0; bool any = false;
   for (; p[k] >= '0' && p[k] <= '9'; ++k) { any = true; if (v < ((__int128)1 << 100)) v = v * 10 + (p[k] - '0'); }
   if (!any) return 0;
   if (neg) v = -v;
   if (v > LLONG_MAX) return LLONG_MAX;
   if (v < LLONG_MIN) return LLONG_MIN;
   return (long long)v;
}
bool outOfRange(const std::string& s) { long long v = leading(s); return v == LLONG_MAX || v == LLONG_MIN; }

void checkString(const Item& it, const Val& v, const char* how) {
   std::string s = it.toString();
   const std::string& t = v.kind == Val::CSTR ? std::string(v.s.c_str()) : v.s;
   switch (v.kind) {
   case Val::NIL: MC_CHECK(s == "nil", "%s %s: toString() is %s", how, v.text().c_str(), show(s).c_str()); break;
   case Val::BOOL: MC_CHECK(s == (v.i ? "true" : "false"), "%s %s: toString() is %s", how, v.text().c_str(), show(s).c_str()); break;
   case Val::CHAR: case Val::BYTE: case Val::I32: case Val::I64: MC_CHECK(s == std::to_string(v.i), "%s %s: toString() is %s", how, v.text().c_str(), show(s).c_str()); break;
   case Val::U32: MC_CHECK(s == std::to_string(v.u), "%s %s: toString() is %s", how, v.text().c_str(), show(s).c_str()); break;
   case Val::U64: if (v.u <= LLONG_MAX) MC_CHECK(s == std::to_string(v.u), "%s %s: toString() is %s", how, v.text().c_str(), show(s).c_str()); break;
   case Val::NUM: {
      char* e; double r = strtod(s.c_str(), &e);
      MC_CHECK(!s.empty() && !*e, "%s %s: toString() is %s", how, v.text().c_str(), show(s).c_str());
      if (std::isnan(v.d)) MC_CHECK(std::isnan(r), "%s NaN: toString() is %s", how, show(s).c_str());
      else if (std::isinf(v.d)) MC_CHECK(r == v.d, "%s infinity: toString() is %s", how, show(s).c_str());
      else MC_CHECK(std::fabs(r - v.d) <= std::fabs(v.d) * 1e-5 && std::signbit(r) == std::signbit(v.d), "%s %s (%.17g): toString() is %s", how, v.text().c_str(), v.d, show(s).c_str());
      break; }
   case Val::CSTR: case Val::STR: MC_CHECK(s == t, "%s %s: toString() is %s", how, v.text().c_str(), show(s).c_str()); break;
   case Val::BIG: {
      BigNum a(v.s), b(s);
      BigNum err = abs(a - b);
      MC_CHECK(err <= abs(a) * BigNum("1e-5"), "%s %s: toString() is %s", how, v.text().c_str(), show(s).c_str());
      break; }
   }
}
void checkInt(const Item& it, const Val& v, const char* how) {
   long long want = 0; bool claim = true;
   switch (v.kind) {
   case Val::NIL: want = 0; break;
   case Val::U32: want = v.u; break;
   case Val::U64: want = (long long)v.u; claim = v.u <= LLONG_MAX; break;
   case Val::NUM: claim = std::fabs(v.d) < 9e18; want = claim ? (long long)v.d : 0; break;   // false for NaN
   case Val::CSTR: want = leading(v.s.c_str()); break;
   case Val::STR: want = leading(v.s); claim = !outOfRange(v.s); break;
   case Val::BIG: { BigNum b(v.s); claim = abs(b) < BigNum("9e18"); want = claim ? b.convert_to<long long>() : 0; break; }
   default: want = v.i;
   }
   if (v.kind == Val::NUM && !claim) return;      // the conversion itself is undefined in the language
   long long got = it.toInt();
   if (claim) MC_CHECK(got == want, "%s %s: toInt() is %lld instead of %lld", how, v.text().c_str(), got, want);
}
void checkBool(const Item& it, const Val& v, const char* how) {
   bool want = false;
   switch (v.kind) {
   case Val::NIL: break;
   case Val::U32: case Val::U64: want = v.u != 0; break;
   case Val::NUM: want = v.d != 0; break;
   case Val::CSTR: want = v.s.c_str()[0] != 0; break;
   case Val::STR: want = !v.s.empty(); break;
   case Val::BIG: want = BigNum(v.s) != 0; break;
   default: want = v.i != 0;
   }
   MC_CHECK(it.toBool() == want, "%s %s: toBool() is %d", how, v.text().c_str(), it.toBool());
}
void checkGet(const Item& it, const Val& v, const char* how) {
   switch (v.kind) {
   case Val::NIL: break;
   case Val::BOOL: MC_CHECK(it.get<bool>() == (bool)v.i, "%s %s: get<bool>()", how, v.text().c_str()); break;
   case Val::CHAR: case Val::BYTE: case Val::I32: case Val::I64: MC_CHECK(it.get<int64>() == v.i, "%s %s: get<int64>() is %lld", how, v.text().c_str(), it.get<int64>());
      if (v.i >= 0) MC_CHECK(it.get<uint64>() == (uint64)v.i, "%s %s: get<uint64>()", how, v.text().c_str());
      break;
   case Val::U32: case Val::U64: MC_CHECK(it.get<uint64>() == v.u, "%s %s: get<uint64>() is %llu", how, v.text().c_str(), it.get<uint64>()); 
      if (v.u <= LLONG_MAX) MC_CHECK(it.get<int64>() == (int64)v.u, "%s %s: get<int64>()", how, v.text().c_str());
      break;
   case Val::NUM: { double g = it.get<numeric>(); MC_CHECK(!memcmp(&g, &v.d, sizeof g), "%s %s: get<numeric>() is %.17g", how, v.text().c_str(), g); break; }
   case Val::CSTR: MC_CHECK(it.get<String>() == v.s.c_str(), "%s %s: get<String>() is %s", how, v.text().c_str(), show(it.get<String>()).c_str()); break;
   case Val::STR: MC_CHECK(it.get<String>() == v.s, "%s %s: get<String>() is %s", how, v.text().c_str(), show(it.get<String>()).c_str()); break;
   case Val::BIG: MC_CHECK(it.get<BigNum>() == BigNum(v.s), "%s %s: get<BigNum>() is %s", how, v.text().c_str(), it.get<BigNum>().str().c_str()); break;
   }
   if (v.kind != Val::NIL) { bool threw = false; try { (void)it.get<float>(); } catch (const std::exception&) { threw = true; } MC_CHECK(threw, "get() of an unsupported type does not throw"); }
   MC_CHECK(it.handler->typeName() == v.type(), "%s %s: type name is %s", how, v.text().c_str(), it.handler->typeName().c_str());
}
void checkOne(const Item& it, const Val& v, int what, const char* how) {
   switch (what) { case 0: checkGet(it, v, how); break; case 1: checkString(it, v, how); break; case 2: checkInt(it, v, how); break; case 3: checkBool(it, v, how); break; }
}
void checkAll(const Item& it, const Val& v, const char* how) { for (int w = 0; w < 4; ++w) checkOne(it, v, w, how); }

long long edgeInt(int bits, bool sgn) {
   // -2^k, -2^k-1, 2^k-1, 2^k, 2^k+1 for every k
   int k = choose(bits), w = choose(sgn ? 6 : 3);
   unsigned __int128 p = (unsigned __int128)1 << k; __int128 v;
   switch (w) { case 0: v = p - 1; break; case 1: v = p; break; case 2: v = p + 1; break; case 3: v = -(__int128)p; break; case 4: v = -(__int128)p - 1; break; default: v = -(__int128)p + 1; }
   __int128 hi = sgn ? ((__int128)1 << (bits - 1)) - 1 : ((__int128)1 << bits) - 1, lo = sgn ? -((__int128)1 << (bits - 1)) : 0;
   if (v > hi) v = hi;
   if (v < lo) v = lo;
   return (long long)(unsigned long long)v;
}
const double NUMS[] = {0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 0.999999, -0.999999, 1.5, -1.5, 2.5, 123456.0, 1234567.0, -1234567.5, 1e10, -1e15, 9007199254740993.0, 1e17, 8.9e18, -8.9e18, 1e-7, -1e-7, 5e-324,
   2147483647.0, 2147483648.0, -2147483649.0, 4294967295.5, 1e300, -1e300, std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(), std::numeric_limits<double>::quiet_NaN(), std::numeric_limits<double>::denorm_min(), std::numeric_limits<double>::epsilon()};
const char* BIGS[] = {"0", "1", "-1", "0.5", "-0.5", "2.75", "123456789", "-987654321", "2147483648", "-2147483649", "9007199254740993", "8999999999999999999", "-8999999999999999999", "1e-30", "-1e-30", "1e40", "-1e40",
   "12345678901234567890123456789", "0.1234567890123456789012345678901234567890", "1e-300", "99999.99999"};
const char* LONGS[] = {"9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "99999999999999999999999999", "-99999999999999999999999999", "00000000000000000000000000000000001", "12345678901234 and more",
   "1e5", "0x10", "   42   ", "\t\n\v\f\r7", "+-3", "--3", "3.99", "-3.99", "infinity", "nan", "four", "a much longer string, well beyond any small buffer, 12"};

Val pickValue(int strLen) {
   Val v; v.kind = (Val::Kind)choose(12);
   switch (v.kind) {
   case Val::NIL: break;
   case Val::BOOL: v.i = choose(2); break;
   case Val::CHAR: v.i = choose(256) - 128; break;
   case Val::BYTE: v.i = choose(256); break;
   case Val::I32: v.i = edgeInt(32, true); break;
   case Val::U32: v.u = (unsigned long long)edgeInt(32, false); break;
   case Val::I64: v.i = edgeInt(64, true); break;
   case Val::U64: v.u = (unsigned long long)edgeInt(64, false); break;
   case Val::NUM: v.d = NUMS[choose(sizeof NUMS / sizeof *NUMS)]; break;
   case Val::BIG: v.s = BIGS[choose(sizeof BIGS / sizeof *BIGS)]; break;
   case Val::CSTR: case Val::STR: {
      if (choose(2)) { v.s = LONGS[choose(sizeof LONGS / sizeof *LONGS)]; break; }
      static const char A[] = {'0', '9', '-', '+', ' ', '.', 'a', '\n', '\0', (char)0xe9};
      int n = choose(strLen + 1);
      for (int i = 0; i < n; ++i) v.s += A[choose(v.kind == Val::STR ? 10 : 8)];
      break; }
   }
   return v;
}
struct Bal {
   long before = seq::live();
   void done(const char* w) { MC_CHECK(seq::live() == before, "%s: %ld blocks of memory not released", w, seq::live() - before); }
};

// ============================ C24 =============================================
void c24(int strLen, bool local = false) {
   seq::GlobalLocale loc(local);
   Bal bal;
   {
      Val v = pickValue(strLen);
      mc::note("%s\n", v.text().c_str());
      std::unique_ptr<Item> it(fresh(v));
      // every order of the conversions: none of them changes the item
      int order[4] = {0, 1, 2, 3};
      for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) { checkOne(*it, v, order[i], "built"); checkOne(*it, v, order[j], "built"); }
      Item copy(*it); checkAll(copy, v, "copied");
      Item other(std::string("previous")); other = *it; checkAll(other, v, "assigned");
      checkAll(*it, v, "built, then copied");
      mc::transition(6);
      mc::state(mc::hashStr(v.text())); mc::outcome(mc::hashStr(it->toString()));
   }
   bal.done("C24");
}
// Long texts: spaces, sign, zeros, digits, anything, and big numbers of many digits.
void c24long() {
   Bal bal;
   {
      static const int N[] = {0, 1, 9, 10, 15, 16, 18, 19, 20, 22, 23, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 4095, 4096, 4097, 65536, 70000};
      const int C = sizeof N / sizeof *N;
      Val v; int kind = choose(3); v.kind = kind == 0 ? Val::CSTR : kind == 1 ? Val::STR : Val::BIG;
      if (kind < 2) {
         int sp = N[choose(C)], sg = choose(3), z = N[choose(C)], dg = choose(3), tail = N[choose(C)];
         if (sp > 100 && z > 100 && tail > 100) { mc::transition(); mc::state(1); return; }
         v.s = std::string(sp, ' ') + (sg == 0 ? "" : sg == 1 ? "-" : "+") + std::string(z, '0') + (dg == 0 ? "" : dg == 1 ? "7" : "1234567890123456789") + std::string(tail, 'x');
      } else {
         int sg = choose(2), dg = 1 + choose(60), fr = choose(20);
         v.s = sg ? "-" : ""; for (int i = 0; i < dg; ++i) v.s += '1' + i % 9;
         if (fr) { v.s += '.'; for (int i = 0; i < fr; ++i) v.s += '1' + i % 9; }
         if (dg + fr > 50) { mc::transition(); mc::state(2); return; }
      }
      mc::note("%s (%zu)\n", v.text().c_str(), v.s.size());
      std::unique_ptr<Item> it(fresh(v)); checkAll(*it, v, "built");
      Item copy(*it); it.reset(); checkAll(copy, v, "copied");
      mc::transition(2); mc::state(mc::hashStr(v.s, kind));
   }
   bal.done("C24");
}
struct Odd { int x = 0; };
template<typename T> void rejected(const char* name, T v) {
   bool threw = false;
   try { Item it(v); } catch (const std::exception&) { threw = true; }
   MC_CHECK(threw, "an item was built from the unsupported type %s", name);
}
template<typename T> void getRejected(const char* name, const Item& it) {
   bool threw = false;
   try { (void)it.get<T>(); } catch (const std::exception&) { threw = true; }
   MC_CHECK(threw, "get<%s>() does not throw", name);
}
void c24rejects() {
   Bal bal;
   int k = choose(10); int x = 0;
   static int sx; (void)x;
   switch (k) {
   case 0: rejected("float", 1.5f); break;
   case 1: rejected("short", (short)1); break;
   case 2: rejected("unsigned short", (unsigned short)1); break;
   case 3: rejected("struct", Odd()); break;
   case 4: rejected("long double", 1.0L); break;
   case 5: rejected("int*", &sx); break;
   case 6: { Item i(1); getRejected<float>("float", i); getRejected<short>("short", i); getRejected<Odd>("struct", i); break; }
   case 7: { Item i(std::string("x")); getRejected<float>("float", i); getRejected<long double>("long double", i); break; }
   case 8: { Item i; getRejected<Odd>("struct", i); getRejected<float>("float", i); break; }
   case 9: { Item i(BigNum(3)); getRejected<Odd>("struct", i); getRejected<unsigned short>("unsigned short", i); break; }
   }
   mc::note("rejection %d\n", k); mc::transition(); mc::state(k + 1000);
   bal.done("C24");
}

// ============================ C25 =============================================
const char* TXT = "a string long enough to need memory of its own";
Val v25(int k) {
   Val v; v.kind = Val::NIL;
   switch (k) {
   case 0: break;
   case 1: v.kind = Val::BOOL; v.i = 1; break;
   case 2: v.kind = Val::I64; v.i = -(1LL << 40); break;
   case 3: v.kind = Val::NUM; v.d = 2.5; break;
   case 4: v.kind = Val::STR; v.s = TXT; break;
   case 5: v.kind = Val::BIG; v.s = "12345678901234567890.5"; break;
   case 6: v.kind = Val::CSTR; v.s = "short"; break;
   }
   return v;
}
void c25(int depth, int slots, int kinds) {
   Bal bal;
   {
      std::unique_ptr<Item> it[4]; Val val[4];
      auto live = [&](int i) { return (bool)it[i]; };
      for (int d = 0; d < depth; ++d) {
         struct Act { int k, a, b; }; std::vector<Act> acts;
         for (int i = 0; i < slots; ++i) {
            if (!live(i)) {
               if (i == 0 || live(i - 1)) for (int k = 0; k < kinds; ++k) acts.push_back({0, i, k});
               for (int j = 0; j < slots; ++j) if (live(j)) acts.push_back({1, i, j});
            } else {
               acts.push_back({2, i, 0});
               for (int j = 0; j < slots; ++j) if (live(j)) acts.push_back({3, i, j});
               for (int k = 0; k < kinds; ++k) acts.push_back({4, i, k});
               for (int j = i + 1; j < slots; ++j) if (live(j)) acts.push_back({5, i, j});
               acts.push_back({6, i, 0});
            }
         }
         Act a = acts[choose((int)acts.size())];
         switch (a.k) {
         case 0: val[a.a] = v25(a.b); it[a.a].reset(fresh(val[a.a])); mc::note("item%d = new %s; ", a.a, val[a.a].text().c_str()); break;
         case 1: it[a.a].reset(new Item(*it[a.b])); val[a.a] = val[a.b]; mc::note("item%d = copy of item%d; ", a.a, a.b); break;
         case 2: it[a.a].reset(); mc::note("delete item%d; ", a.a); break;
         case 3: { const Item& src = *it[a.b]; *it[a.a] = src; val[a.a] = val[a.b]; mc::note("item%d = item%d; ", a.a, a.b); break; }
         case 4: { val[a.a] = v25(a.b); std::unique_ptr<Item> t(fresh(val[a.a])); *it[a.a] = std::move(*t); mc::note("item%d = temporary %s; ", a.a, val[a.a].text().c_str()); break; }
         case 5: std::swap(*it[a.a], *it[a.b]); std::swap(val[a.a], val[a.b]); mc::note("swap item%d item%d; ", a.a, a.b); break;
         case 6: {      // through a growing container
            std::vector<Item> vec; for (int i = 0; i < 3; ++i) vec.push_back(*it[a.a]);
            vec.insert(vec.begin() + 1, Item(7)); vec.erase(vec.begin());
            Val seven; seven.kind = Val::I32; seven.i = 7;
            checkAll(vec[0], seven, "in a vector"); checkAll(vec[2], val[a.a], "in a vector");
            *it[a.a] = vec.back(); mc::note("item%d through a vector; ", a.a); break; }
         }
         mc::transition();
         uint64_t h = 0;
         for (int i = 0; i < slots; ++i) { if (live(i)) checkAll(*it[i], val[i], "after the step"); h = mc::hash2(h, live(i) ? mc::hashStr(val[i].text()) : 0); }
         mc::state(h);
      }
      int order = choose(2);
      for (int i = 0; i < slots; ++i) {
         it[order ? slots - 1 - i : i].reset();
         for (int j = 0; j < slots; ++j) if (live(j)) checkAll(*it[j], val[j], "while others are destroyed");
      }
      mc::note("\n");
   }
   bal.done("C25");
}

// Many items at a time, in containers that move them about.
const int MANY[] = {1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025};
Val nth(int i, int mode) {
   Val v = v25(mode < 7 ? mode : i % 7);
   switch (v.kind) {
   case Val::BOOL: v.i = i / 7 % 2; break;
   case Val::I64: v.i += i; break;
   case Val::NUM: v.d += i; break;
   case Val::STR: v.s = i % 3 ? v.s + std::to_string(i) : std::to_string(i); break;
   case Val::BIG: v.s = std::to_string(i) + v.s; break;
   default: break;
   }
   return v;
}
void c25many() {
   Bal bal;
   {
      int n = MANY[choose(sizeof MANY / sizeof *MANY)], mode = choose(8), how = choose(5), order = choose(3);
      mc::note("%d items, kind %d, stored %d, removed %d\n", n, mode, how, order);
      std::vector<Val> val; std::vector<std::unique_ptr<Item>> it; std::vector<Item> vec; std::deque<Item> deq; std::map<std::string, Item> map;
      auto at = [&](int i) -> Item& { return how == 0 ? *it[i] : how <= 2 ? vec[i] : how == 3 ? deq[i] : map[std::to_string(i)]; };
      if (how == 2) { val.assign(n, nth(1, mode)); std::unique_ptr<Item> x(fresh(val[0])); vec.assign(n, *x); }        // copies of one
      else for (int i = 0; i < n; ++i) {
         val.push_back(nth(i, mode));
         std::unique_ptr<Item> x(fresh(val[i]));
         if (how == 0) it.push_back(std::move(x)); else if (how == 1) vec.push_back(*x); else if (how == 3) deq.push_back(*x); else map[std::to_string(i)] = *x;
      }
      for (int i = 0; i < n; ++i) checkAll(at(i), val[i], "in a crowd");
      for (int i = 0; i < n; i += 3) { int j = (i * 7 + 1) % n; at(i) = at(j); val[i] = val[j]; }
      for (int i = 1; i < n; i += 5) { Val v = nth(i, 7 - i % 7); std::unique_ptr<Item> x(fresh(v)); at(i) = *x; val[i] = v; }
      for (int i = 0; i < n; ++i) checkAll(at(i), val[i], "in a crowd, after assignments");
      mc::transition(n);
      for (int r = 0; r < n; ++r) {      // removed one by one: the others stay
         int m = n - r, i = order == 0 ? m - 1 : order == 1 ? 0 : m / 2;
         if (how == 0) it.erase(it.begin() + i); else if (how <= 2) vec.erase(vec.begin() + i); else if (how == 3) deq.erase(deq.begin() + i); else break;
         val.erase(val.begin() + i);
         if (r % 64 == 0 || m < 20) for (int k = 0; k < m - 1; ++k) checkAll(at(k), val[k], "after the removal of others");
      }
      mc::state(mc::hash2(n, mode * 100 + how * 10 + order));
   }
   bal.done("C25");
}
// Copies and assignments that run out of memory: nothing leaks, the items keep their values.
void c25faults() {
   Bal bal;
   {
      Val a = v25(choose(7)), b = v25(choose(7)); int op = choose(4), at = choose(4);
      std::unique_ptr<Item> x(fresh(a)), y(fresh(b)); 
      mc::note("%s, %s, operation %d, allocation %d fails\n", a.text().c_str(), b.text().c_str(), op, at);
      bool threw = false; Item* made = nullptr;
      seq::failAlloc(at);
      try {
         switch (op) {
         case 0: made = new Item(*x); break;
         case 1: *y = *x; break;
         case 2: made = fresh(a); break;
         case 3: *y = *y; break;
         }
      } catch (const std::bad_alloc&) { threw = true; }
      bool fired = seq::allocFaultFired();
      seq::failAlloc(-1);
      MC_CHECK(threw == fired, "%s", fired ? "a failure of allocation is not reported" : "out of nothing, an allocation failure is reported");
      checkAll(*x, a, "source"); checkAll(*y, op == 1 && !threw ? a : b, "destination");
      if (made) { checkAll(*made, a, "built"); delete made; }
      mc::transition(); mc::state(mc::hashStr(a.text() + b.text(), op * 10 + at));
   }
   bal.done("C25");
}

// ============================ C26 =============================================
// Many values of one handler.
void c26many() {
   Bal bal;
   {
      const Handler* hs[] = {&HandlerFactory::nilHandler, &HandlerFactory::boolHandler, &HandlerFactory::intHandler, &HandlerFactory::floatHandler, &HandlerFactory::stringHandler, &HandlerFactory::bigNumHandler};
      static const int N[] = {10, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 1025};
      int k = choose(6), n = N[choose(sizeof N / sizeof *N)], how = choose(3), order = choose(2);
      const Handler& h = *hs[k];
      mc::note("%d values of %s\n", n, h.typeName().c_str());
      long base = seq::live();
      std::vector<ItemData> d; d.reserve(n); long own = seq::live() - base;
      for (int i = 0; i < n; ++i) {
         d.push_back(how == 0 || i == 0 ? h.allocate() : how == 1 ? h.copy(d[0]) : h.copy(d[i - 1]));
         if (k == 1) d[i].boolValue = i % 2; else if (k == 2) d[i].int64Value = i; else if (k == 3) d[i].numericValue = i; else if (k == 4) *static_cast<String*>(d[i].ptrValue) = std::to_string(i) + TXT; else if (k == 5) *static_cast<BigNum*>(d[i].ptrValue) = BigNum(i);
      }
      if (k < 4) MC_CHECK(seq::live() == base + own, "flat values own memory");
      for (int r = 0; r < n; ++r) {
         int i = order ? r : n - 1 - r;
         std::string s = h.toString(d[i]), want = k == 0 ? "nil" : k == 1 ? (i % 2 ? "true" : "false") : k == 4 ? std::to_string(i) + TXT : std::to_string(i);
         if (k != 3 && k != 5) MC_CHECK(s == want, "value %d of %d is %s", i, n, show(s).c_str());
         if (k != 4) MC_CHECK(h.toInt(d[i]) == (k == 0 ? 0 : k == 1 ? i % 2 : i), "value %d of %d is %lld", i, n, (long long)h.toInt(d[i]));
         h.destroy(d[i]);
      }
      mc::transition(n); mc::state(mc::hash2(n, k * 100 + how * 10 + order));
   }
   bal.done("C26");
}
void c26(int depth) {
   Bal bal;
   int k = choose(6);
   const Handler* hs[] = {&HandlerFactory::nilHandler, &HandlerFactory::boolHandler, &HandlerFactory::intHandler, &HandlerFactory::floatHandler, &HandlerFactory::stringHandler, &HandlerFactory::bigNumHandler};
   static const char* names[] = {"Nil", "Bool", "Int", "Float", "String", "BigNum"};
   static const char* neutral[] = {"nil", "false", "0", "0", "", "0"};
   const Handler& h = *hs[k]; bool flat = k < 4;
   MC_CHECK(h.typeName() == names[k], "%s handler reports the name %s", names[k], h.typeName().c_str());
   MC_CHECK(h.isFlat() == flat, "%s handler: isFlat() is %d", names[k], h.isFlat());
   MC_CHECK(h.isCopyFlat(), "%s handler is not flat on copy", names[k]);
   // any sequence of allocate / copy / convert / destroy over three values
   mc::note("%s: ", names[k]);
   bool has[3] = {}; ItemData data[3] = {nullptr, nullptr, nullptr};
   auto verify = [&](ItemData d, const char* how) {
      MC_CHECK(h.toString(d) == neutral[k], "%s %s: toString() is %s", names[k], how, show(h.toString(d)).c_str());
      MC_CHECK(h.toInt(d) == 0, "%s %s: toInt() is %lld", names[k], how, h.toInt(d));
      MC_CHECK(!h.toBool(d), "%s %s: toBool() is true", names[k], how);
      switch (k) {
      case 1: MC_CHECK(!d.boolValue, "neutral bool"); break;
      case 2: MC_CHECK(d.int64Value == 0, "neutral int"); break;
      case 3: MC_CHECK(d.numericValue == 0, "neutral float"); break;
      case 4: MC_CHECK(d.ptrValue && static_cast<String*>(d.ptrValue)->empty(), "neutral string"); break;
      case 5: MC_CHECK(d.ptrValue && static_cast<BigNum*>(d.ptrValue)->is_zero(), "neutral big number"); break;
      }
   };
   long base = seq::live();
   for (int d = 0; d < depth; ++d) {
      struct Act { int k, a, b; }; Act acts[16]; int n = 0;
      for (int i = 0; i < 3; ++i) {
         if (!has[i]) { acts[n++] = {0, i, 0}; for (int j = 0; j < 3; ++j) if (has[j]) acts[n++] = {1, i, j}; }
         else { acts[n++] = {2, i, 0}; }
      }
      Act a = acts[choose(n)];
      long before = seq::live();
      switch (a.k) {
      case 0: data[a.a] = h.allocate(); has[a.a] = true; mc::note("allocate %d; ", a.a); if (flat) MC_CHECK(seq::live() == before, "%s owns memory", names[k]); break;
      case 1: data[a.a] = h.copy(data[a.b]); has[a.a] = true; mc::note("copy %d; ", a.a);
         if (flat) MC_CHECK(seq::live() == before, "%s owns memory", names[k]); else MC_CHECK(data[a.a].ptrValue != data[a.b].ptrValue, "%s copies share storage", names[k]);
         break;
      case 2: h.destroy(data[a.a]); has[a.a] = false; mc::note("destroy %d; ", a.a); break;
      }
      int cnt = 0;
      for (int i = 0; i < 3; ++i) if (has[i]) { verify(data[i], "value"); ++cnt; }
      for (int i = 0; i < 3; ++i) for (int j = 0; j < i; ++j) if (!flat && has[i] && has[j]) MC_CHECK(data[i].ptrValue != data[j].ptrValue, "%s: two values share storage", names[k]);
      if (flat) MC_CHECK(seq::live() == base, "%s owns memory", names[k]); 
      mc::transition(); mc::state(k * 1000 + has[0] + has[1] * 2 + has[2] * 4);
   }
   for (int i = 0; i < 3; ++i) if (has[i]) {
      // a changed string or number is released, too, and does not affect the others
      if (k == 4) *static_cast<String*>(data[i].ptrValue) = TXT;
      if (k == 5) *static_cast<BigNum*>(data[i].ptrValue) = BigNum("1.5");
      for (int j = i + 1; j < 3; ++j) if (has[j]) verify(data[j], "other value");
      h.destroy(data[i]); has[i] = false;
   }
   mc::note("\n");
   bal.done("C26");
}
// the handler attached to each item is the type's own
void c26items() {
   Bal bal;
   {
      Val v = pickValue(1);
      std::unique_ptr<Item> it(fresh(v));
      const Handler* h = it->handler;
      MC_CHECK(h->typeName() == v.type(), "%s has a %s handler", v.text().c_str(), h->typeName().c_str());
      bool flat = v.kind != Val::CSTR && v.kind != Val::STR && v.kind != Val::BIG;
      MC_CHECK(h->isFlat() == flat && h->isCopyFlat(), "%s: isFlat() %d isCopyFlat() %d", v.text().c_str(), h->isFlat(), h->isCopyFlat());
      ItemData d = h->copy(it->data);
      MC_CHECK(h->toString(d) == it->toString() && h->toBool(d) == it->toBool(), "%s: handler copy differs", v.text().c_str());
      h->destroy(d);
      checkAll(*it, v, "after the release of a handler copy");
      mc::note("%s\n", v.text().c_str()); mc::transition(3); mc::state(mc::hashStr(v.text()));
   }
   bal.done("C26");
}

// ============================ C27 =============================================
std::string source(int k) {
   static const size_t len[] = {0, 1, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 65537, 1000003};
   static const int N = sizeof len / sizeof *len;
   if (k < N) { std::string s(len[k], 'x'); for (size_t i = 0; i < s.size(); ++i) s[i] = (char)('a' + i % 26); return s; }
   std::string s(len[k - N], 'x'); for (size_t i = 0; i < s.size(); ++i) s[i] = (char)(i * 37 + (i >> 8)); return s;   // any bytes
}
const int NSRC = 64;
void c27sizes() {
   Bal bal;
   {
      std::string s = source(choose(NSRC)); int line = choose(2) ? 7 : 0;
      Code c(s, line);
      MC_CHECK(c.toString() == s, "code of %zu bytes gives back another text", s.size());
      Code d(c); MC_CHECK(d.toString() == s && c.toString() == s, "copy of a code of %zu bytes", s.size());
      Code e; MC_CHECK(e.toString().empty(), "an empty code is not empty"); e = c; MC_CHECK(e.toString() == s && c.toString() == s, "assignment of a code of %zu bytes", s.size());
      Code f(std::move(d)); MC_CHECK(f.toString() == s, "move of a code of %zu bytes", s.size());
      d = f; MC_CHECK(d.toString() == s, "assignment to a moved code");
      f = Code("x"); MC_CHECK(f.toString() == "x" && d.toString() == s && e.toString() == s, "codes are not independent");
      std::istringstream in(s); Code g = Compiler().compile(in);
      size_t b = s.find_first_not_of(" \t\n\v\f\r"), q = b == std::string::npos ? b : s.find_first_of(" \t\n\v\f\r", b);
      std::string w = b == std::string::npos ? "" : s.substr(b, q == std::string::npos ? q : q - b);
      MC_CHECK(g.toString() == w, "compiling %zu bytes: %s instead of %s", s.size(), show(g.toString()).c_str(), show(w).c_str());
      mc::note("%zu bytes %s\n", s.size(), show(s.substr(0, 10)).c_str()); mc::transition(6); mc::state(mc::hashStr(s, line));
   }
   bal.done("C27");
}
void c27bytes(int maxLen) {
   Bal bal;
   {
      static const char A[] = {'a', 'b', ' ', '\n', '\t', '\0', (char)0xff};
      std::string s; int n = choose(maxLen + 1);
      for (int i = 0; i < n; ++i) s += A[choose(7)];
      Code c(s); MC_CHECK(c.toString() == s, "code of %s gives back %s", show(s).c_str(), show(c.toString()).c_str());
      std::istringstream in(s);
      size_t p = 0; Compiler comp;
      mc::note("%s:", show(s).c_str());
      for (int round = 0; round <= maxLen; ++round) {      // word by word
         size_t b = s.find_first_not_of(" \t\n\v\f\r", p);
         size_t e = b == std::string::npos ? b : s.find_first_of(" \t\n\v\f\r", b);
         std::string w = b == std::string::npos ? "" : s.substr(b, e == std::string::npos ? e : e - b);
         Code k = comp.compile(in);
         mc::note(" %s", show(k.toString()).c_str());
         MC_CHECK(k.toString() == w, "compiling %s: word %d is %s instead of %s", show(s).c_str(), round, show(k.toString()).c_str(), show(w).c_str());
         mc::transition();
         if (e == std::string::npos) { MC_CHECK(in.rdbuf()->sgetc() == EOF, "compiling %s leaves something unread", show(s).c_str()); break; }
         MC_CHECK(in.good() && in.peek() == (unsigned char)s[e], "compiling %s: the stream is not right after the word %s", show(s).c_str(), show(w).c_str());
         p = e;
      }
      mc::note("\n"); mc::state(mc::hashStr(s));
   }
   bal.done("C27");
}
// Streams which report their states by exceptions, and ones that break.
struct Breaking: public std::streambuf {
   std::string text; size_t cut;
   Breaking(const std::string& s, size_t n): text(s), cut(n) { setg(&text[0], &text[0], &text[0] + n); }
   int_type underflow() override { if (cut < text.size()) throw std::runtime_error("the source broke"); return traits_type::eof(); }
};
void c27streams() {
   Bal bal;
   {
      static const char* texts[] = {"", " ", "\n\t ", "w", "word", "w ", " w", "two words", " two words here ", "a much longer word than any small buffer can hold, with more behind"};
      std::string s = texts[choose(10)];
      std::ios_base::iostate mask = std::ios_base::goodbit;
      if (choose(2)) mask |= std::ios_base::eofbit;
      if (choose(2)) mask |= std::ios_base::failbit;
      if (choose(2)) mask |= std::ios_base::badbit;
      size_t cut = choose((int)s.size() + 1);
      Breaking buf(s, cut); std::istream in(&buf); in.exceptions(mask);
      mc::note("%s, breaks after %zu, exceptions for %d:", show(s).c_str(), cut, (int)mask);
      size_t p = 0; Compiler comp;
      for (int round = 0; round < 4; ++round) {
         size_t b = s.find_first_not_of(" \t\n\v\f\r", p), e = b == std::string::npos ? b : s.find_first_of(" \t\n\v\f\r", b);
         bool broken = cut < s.size() && (e == std::string::npos || e >= cut);
         std::string w = b == std::string::npos ? "" : s.substr(b, e == std::string::npos ? e : e - b);
         bool thrown = false; std::string got;
         try { Code k = comp.compile(in); got = k.toString(); }
         catch (const std::exception& x) { thrown = true; }
         mc::note(" %s", thrown ? "exception" : show(got).c_str());
         mc::transition();
         MC_CHECK(thrown == ((in.rdstate() & mask) != 0), "compiling %s: state %d, exceptions for %d, %s", show(s).c_str(), (int)in.rdstate(), (int)mask, thrown ? "thrown" : "not thrown");
         if (broken) { MC_CHECK(in.bad(), "compiling %s from a source that broke after %zu bytes: state %d", show(s).c_str(), cut, (int)in.rdstate()); break; }
         if (!thrown) MC_CHECK(got == w, "compiling %s: word %d is %s instead of %s", show(s).c_str(), round, show(got).c_str(), show(w).c_str());
         if (e == std::string::npos) { MC_CHECK(in.eof(), "compiling %s: state %d at the end", show(s).c_str(), (int)in.rdstate()); break; }
         p = e;
      }
      mc::note("\n"); mc::state(mc::hashStr(s, (int)mask * 100 + cut));
   }
   bal.done("C27");
}
void c27ops(int depth, int slots) {
   Bal bal;
   {
      static const int srcs[] = {0, 1, 4, 13, 26, 60};
      std::unique_ptr<Code> c[3]; std::string m[3]; bool moved[3] = {};
      auto live = [&](int i) { return (bool)c[i]; };
      for (int d = 0; d < depth; ++d) {
         struct Act { int k, a, b; }; std::vector<Act> acts;
         for (int i = 0; i < slots; ++i) {
            if (!live(i)) {
               if (i == 0 || live(i - 1)) for (int k = 0; k < 6; ++k) acts.push_back({0, i, k});
               for (int j = 0; j < slots; ++j) if (live(j)) { acts.push_back({1, i, j}); acts.push_back({2, i, j}); }
            } else {
               acts.push_back({3, i, 0});
               for (int j = 0; j < slots; ++j) if (live(j)) { acts.push_back({4, i, j}); if (j != i) acts.push_back({5, i, j}); }
               acts.push_back({6, i, 0});
            }
         }
         Act a = acts[choose((int)acts.size())];
         switch (a.k) {
         case 0: m[a.a] = source(srcs[a.b]); c[a.a].reset(new Code(m[a.a])); moved[a.a] = false; mc::note("code%d = Code(%zu bytes); ", a.a, m[a.a].size()); break;
         case 1: c[a.a].reset(new Code(*c[a.b])); m[a.a] = m[a.b]; moved[a.a] = moved[a.b]; mc::note("code%d = copy of %d; ", a.a, a.b); break;
         case 2: c[a.a].reset(new Code(std::move(*c[a.b]))); m[a.a] = m[a.b]; moved[a.a] = moved[a.b]; moved[a.b] = true; mc::note("code%d = moved from %d; ", a.a, a.b); break;
         case 3: c[a.a].reset(); mc::note("delete code%d; ", a.a); break;
         case 4: { const Code& src = *c[a.b]; *c[a.a] = src; m[a.a] = m[a.b]; moved[a.a] = moved[a.b]; mc::note("code%d = code%d; ", a.a, a.b); break; }
         case 5: *c[a.a] = std::move(*c[a.b]); m[a.a] = m[a.b]; moved[a.a] = moved[a.b]; moved[a.b] = true; mc::note("code%d = move(code%d); ", a.a, a.b); break;
         case 6: { std::istringstream in("  word and more"); *c[a.a] = Compiler().compile(in); m[a.a] = "word"; moved[a.a] = false; mc::note("code%d = compiled; ", a.a); break; }
         }
         mc::transition();
         uint64_t h = 0;
         for (int i = 0; i < slots; ++i) {
            if (live(i) && !moved[i]) MC_CHECK(c[i]->toString() == m[i], "code%d holds %s instead of %s", i, show(c[i]->toString()).c_str(), show(m[i]).c_str());
            else if (live(i)) (void)c[i]->toString();
            h = mc::hash2(h, live(i) ? moved[i] ? 3 : 4 + m[i].size() : 1);
         }
         mc::state(h);
      }
      mc::note("\n");
   }
   bal.done("C27");
}
}

static std::vector<mc::Scenario> build_all(bool T) {
   std::vector<mc::Scenario> v;
   double cap = T ? 1200 : 60;
   auto add = [&](const char* n, const std::string& bounds, std::function<void()> f) { mc::Scenario s; s.name = n; s.body = f; s.bounds = bounds; s.cap_s = cap; v.push_back(s); };
#if PROP == 24
   int len = T ? 6 : 5;
   add("values", "every supported type; all chars and bytes, all +-2^k+-1 integers, listed floats and big numbers, all strings over 10 characters up to length " + std::to_string(len) + "; built, copied, assigned; all conversion orders", [=] { c24(len); });
   add("locale", "the same, strings up to length 3, in an application whose global locale groups digits and has a decimal comma", [=] { c24(3, true); });
   add("rejected", "listed unsupported types", [=] { c24rejects(); });
   add("long", "texts of spaces, sign, zeros, digits and more, of 29 lengths up to 70000 each; big numbers of up to 50 digits", [=] { c24long(); });
#elif PROP == 25
   int d = T ? 5 : 4;
   add("two", "all sequences of " + std::to_string(d) + " constructions, copies, assignments, swaps, container moves, deletions over 2 items and 7 values", [=] { c25(d, 2, 7); });
   add("three", "the same, " + std::to_string(d) + " steps over 3 items and 3 values", [=] { c25(d, 3, 6); });
   add("many", "27 numbers of items up to 1025 x kinds x 5 ways of storing them x 3 orders of removal", [=] { c25many(); });
   add("faults", "copies, assignments and constructions of all kinds of values with any allocation failing", [=] { c25faults(); });
#elif PROP == 26
   int d = T ? 10 : 8;
   add("handlers", "all sequences of " + std::to_string(d) + " allocate, copy, destroy over 3 values, for every handler", [=] { c26(d); });
   add("many", "15 numbers of values up to 1025 x handlers x ways of making them", [=] { c26many(); });
   add("items", "the handler of items of every type", [=] { c26items(); });
#elif PROP == 27
   int len = T ? 8 : 7;
   add("sizes", "32 lengths around powers of two up to 1000003, letters and arbitrary bytes", [=] { c27sizes(); });
   add("words", "all byte strings over 7 characters up to length " + std::to_string(len) + ", compiled word by word", [=] { c27bytes(len); });
   add("streams", "10 texts x all masks of stream states reported by exceptions x all points where the source can break", [=] { c27streams(); });
   int d = T ? 6 : 5;
   add("objects2", "all sequences of " + std::to_string(d) + " operations on 2 codes", [=] { c27ops(d, 2); });
   add("objects3", "all sequences of " + std::to_string(d - 1) + " operations on 3 codes", [=] { c27ops(d - 1, 3); });
#endif
   return v;
}

int main(int argc, char** argv) { return mc::main(argc, argv, build_all); }
