// Linearizability: is there a sequential order of the recorded calls, compatible with their
// real-time order, in which the reference gives the results that were observed?
#ifndef LIN_H
#define LIN_H
#include "tsrt.h"
#include <functional>
#include <string>
#include <unordered_set>
#include <vector>

template<class State> class Lin {
public:
   // Applies the call to the reference; false if the reference's result differs from the observed one.
   using Apply = std::function<bool(State&)>;
   using Hash = std::function<uint64_t(const State&)>;
   struct Op { int thread; uint64_t call, ret; Apply apply; std::string text; };

   // To be used in quiet sections only.
   size_t call(const std::string& text) {
      ops.push_back(Op{ts::self(), ++clock, UINT64_MAX, {}, text});
      ts::observe(0x1000 + ts::self());
      return ops.size() - 1;
   }
   void ret(size_t i, const std::string& res, Apply a) {
      ops[i].ret = ++clock; ops[i].apply = std::move(a); ops[i].text += res;
      ts::observe(0x2000 + ts::self());
   }
   bool check(const State& init, const Hash& hash) {
      order.clear(); seen.clear();
      return search(init, 0, hash);
   }
   std::string text() const {
      std::string r;
      for (auto& o : ops) r += "  [" + std::to_string(o.call) + "," + std::to_string(o.ret) + "] T" + std::to_string(o.thread) + " " + o.text + "\n";
      return r;
   }
   uint64_t outcome() const {
      uint64_t h = 0;
      for (auto& o : ops) h += mc::hashStr(o.text, 31 * o.thread + 1);
      return h;
   }
   std::vector<Op> ops;
private:
   uint64_t clock = 0;
   std::vector<int> order;
   std::unordered_set<uint64_t> seen;
   bool search(const State& st, uint64_t done, const Hash& hash) {
      if (done == (1ULL << ops.size()) - 1) return true;
      if (!seen.insert(mc::hash2(done, hash(st))).second) return false;
      uint64_t firstRet = UINT64_MAX;
      for (size_t i = 0; i < ops.size(); ++i) if (!(done >> i & 1) && ops[i].ret < firstRet) firstRet = ops[i].ret;
      for (size_t i = 0; i < ops.size(); ++i) {
         if ((done >> i & 1) || ops[i].call > firstRet) continue;
         State s2 = st;
         if (ops[i].apply && !ops[i].apply(s2)) continue;
         if (search(s2, done | 1ULL << i, hash)) return true;
      }
      return false;
   }
};
#endif
