#include "mc.h"
#include <atomic>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <cerrno>
#include <fcntl.h>
#include <sched.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

namespace mc {

namespace {
constexpr unsigned MAXC = 6000;        // choices per execution
constexpr unsigned MAXQ = 256;         // queued work items
constexpr unsigned MAXW = 16;
constexpr unsigned SETBITS_DEFAULT = 24;

enum SlotStatus : uint32_t { RUNNING = 0, VIOLATION = 1, BROKEN = 2, DONE = 3 };

struct Slot {
   std::atomic<uint64_t> execs;
   std::atomic<uint64_t> transitions;
   std::atomic<uint64_t> prunedExecs;
   std::atomic<uint64_t> maxlen;
   std::atomic<uint32_t> status;
   std::atomic<uint32_t> busy;         // an execution is going on
   std::atomic<uint32_t> startEmpty;
   uint32_t len;
   uint16_t n[MAXC];
   uint16_t c[MAXC];
   uint8_t isPruned;
   char msg[8192];
   char note[65536];
   uint32_t noteLen;
};

struct Item {
   uint32_t len;       // fixed prefix
   int32_t lo, hi;     // range explored at position len (hi<0: no range)
   uint16_t c[MAXC];
};

struct Shared {
   std::atomic<uint32_t> lock;
   uint32_t qn;
   std::atomic<uint32_t> idle;
   std::atomic<uint32_t> workers;
   std::atomic<uint32_t> stop;         // stop now
   std::atomic<uint32_t> timeup;       // cap reached
   std::atomic<uint64_t> nstates, noutcomes;
   std::atomic<uint32_t> setFull;
   std::atomic<uint32_t> nsamples;
   char samples[6][16384];
   Slot slots[MAXW];
   Item q[MAXQ];
};

Shared* S = nullptr;
std::atomic<uint64_t>* setStates = nullptr;
std::atomic<uint64_t>* setOut = nullptr;
uint64_t setMask = 0, outMask = 0;
Slot* me = nullptr;
unsigned pos = 0;              // next choice
unsigned fixedLen = 0;         // length of the part to be replayed
bool g_pruned = false;
bool g_noting = false;
bool g_muted = false;
bool g_replay = false;
bool g_thorough = false;
std::vector<uint16_t> replayChoices;

double now() { timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); return ts.tv_sec + ts.tv_nsec * 1e-9; }

void lockShared() { uint32_t e = 0; while (!S->lock.compare_exchange_weak(e, 1)) { e = 0; sched_yield(); } }
void unlockShared() { S->lock.store(0); }

bool insertSet(std::atomic<uint64_t>* t, uint64_t mask, uint64_t h, std::atomic<uint64_t>& count) {
   if (h == 0) h = 1;
   uint64_t i = mix(h) & mask;
   for (uint64_t probes = 0; probes < 4096; ++probes, i = (i + 1) & mask) {
      uint64_t v = t[i].load(std::memory_order_relaxed);
      if (v == h) return false;
      if (v == 0) {
         if (t[i].compare_exchange_strong(v, h)) { count++; return true; }
         if (v == h) return false;
      }
   }
   S->setFull = 1;
   return true;
}
}

const Scenario* current = nullptr;
void (*on_begin)() = nullptr;
void (*on_end)() = nullptr;
void (*on_worker)() = nullptr;
void (*run_body)(const std::function<void()>&) = nullptr;

uint64_t hashBytes(const void* p, size_t n, uint64_t seed) {
   const unsigned char* b = static_cast<const unsigned char*>(p);
   uint64_t h = seed ^ 0xcbf29ce484222325ULL;
   for (size_t i = 0; i < n; ++i) { h ^= b[i]; h *= 0x100000001b3ULL; }
   return mix(h ^ n);
}

bool thorough() { return g_thorough; }
bool noting() { return g_noting && !g_muted; }
bool pruned() { return g_pruned; }
void prune() { g_pruned = true; me->isPruned = 1; }
void setPruned(bool on) { g_pruned = g_muted = on; }
bool fresh() { return pos >= fixedLen; }

int choose(int n) {
   if (n <= 0) broken("choose(%d)", n);
   if (n == 1 || g_pruned) return 0;
   if (g_replay) {
      unsigned c = pos < replayChoices.size() ? replayChoices[pos] : 0;
      if ((int)c >= n) { fprintf(stderr, "replay: choice %u out of range at %u\n", c, pos); c = 0; }
      ++pos;
      return c;
   }
   if (pos >= MAXC) broken("too many choices in an execution");
   if (pos < me->len) {
      if (me->n[pos] == 0) me->n[pos] = n;       // prefix of a work item
      else if (me->n[pos] != n) broken("nondeterministic execution: %d alternatives instead of %d at choice %u", n, me->n[pos], pos);
      if (me->c[pos] >= n) broken("nondeterministic execution: choice %d of %d at %u", me->c[pos], n, pos);
      return me->c[pos++];
   }
   me->n[pos] = n;
   me->c[pos] = 0;
   me->len = ++pos;
   return 0;
}

void fail(const char* fmt, ...) {
   va_list ap; va_start(ap, fmt);
   vsnprintf(me->msg, sizeof me->msg, fmt, ap); for (char* c = me->msg; *c; ++c) if ((unsigned char)*c > 126 || ((unsigned char)*c < 32 && *c != '\n' && *c != '\t')) *c = '?';
   va_end(ap);
   me->len = g_replay ? me->len : pos;
   uint32_t exp = RUNNING;
   me->status.compare_exchange_strong(exp, VIOLATION);
   _exit(71);
}

void broken(const char* fmt, ...) {
   va_list ap; va_start(ap, fmt);
   vsnprintf(me->msg, sizeof me->msg, fmt, ap); for (char* c = me->msg; *c; ++c) if ((unsigned char)*c > 126 || ((unsigned char)*c < 32 && *c != '\n' && *c != '\t')) *c = '?';
   va_end(ap);
   me->status = BROKEN;
   _exit(72);
}

bool state(uint64_t h) { return insertSet(setStates, setMask, h, S->nstates); }
void outcome(uint64_t h) { insertSet(setOut, outMask, h, S->noutcomes); }
void transition(uint64_t n) { me->transitions.fetch_add(n, std::memory_order_relaxed); }

void note(const char* fmt, ...) {
   if (!g_noting || g_muted) return;
   va_list ap; va_start(ap, fmt);
   unsigned left = sizeof me->note - me->noteLen;
   if (left > 2) {
      int k = vsnprintf(me->note + me->noteLen, left, fmt, ap);
      if (k > 0) me->noteLen += (unsigned)k < left ? k : left - 1;
   }
   va_end(ap);
}

namespace {

void execute(const Scenario& sc) {
   current = &sc;
   pos = 0; g_pruned = g_muted = false; me->isPruned = 0; me->noteLen = 0; me->note[0] = 0;
   if (on_begin) on_begin();
   if (run_body) run_body(sc.body); else sc.body();
   if (on_end) on_end();
}

// Runs an execution, maybe in its own process.
void executeAny(const Scenario& sc) {
   me->busy = 1;
   if (!sc.forked) execute(sc);
   else {
      pid_t p = fork();
      if (p < 0) broken("fork: %s", strerror(errno));
      if (p == 0) {
         prctl(PR_SET_PDEATHSIG, SIGKILL);
         execute(sc);
         _exit(0);
      }
      int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
      if (WIFSIGNALED(st)) { signal(WTERMSIG(st), SIG_DFL); raise(WTERMSIG(st)); _exit(90); }
      if (WEXITSTATUS(st)) _exit(WEXITSTATUS(st));
   }
   me->busy = 0;
}

void takeSample() {
   lockShared();
   unsigned k = S->nsamples;
   if (k < 6) {
      S->nsamples = k + 1;
      snprintf(S->samples[k], sizeof S->samples[k], "%s", me->note);
   }
   unlockShared();
}

int itemHi;

bool popItem() {
   bool idle = false;
   for (;;) {
      if (S->stop || S->timeup) return false;
      lockShared();
      if (S->qn) {
         Item& it = S->q[--S->qn];
         if (idle) S->idle--;
         memcpy(me->c, it.c, it.len * sizeof(uint16_t));
         memset(me->n, 0, it.len * sizeof(uint16_t));
         me->len = it.len;
         if (it.hi >= 0) { me->c[it.len] = it.lo; me->n[it.len] = 0; me->len++; }
         fixedLen = it.len;
         itemHi = it.hi;
         unlockShared();
         return true;
      }
      if (!idle) { idle = true; S->idle++; }
      bool over = S->idle == S->workers;
      unlockShared();
      if (over) return false;
      usleep(200);
   }
}
void worker(const Scenario& sc, unsigned id) {
   me = &S->slots[id];
   fixedLen = 0;
   if (on_worker) on_worker();
   std::vector<uint16_t> limit(MAXC, 0);
   uint64_t count = 0;
   while (popItem()) {
      unsigned base = fixedLen;
      int hi = itemHi;
      bool haveRange = hi >= 0;
      if (haveRange) limit[base] = hi;
      unsigned known = me->len;      // entries whose limit is set
      for (;;) {
         fixedLen = me->len;
         ++count;
         g_noting = (id == 0 && (count == 1 || count == 40 || count == 700)) || (id == 1 && count == 2) || (id == 2 && count == 5);
         executeAny(sc);
         me->execs.fetch_add(1, std::memory_order_relaxed);
         if (me->isPruned) me->prunedExecs.fetch_add(1, std::memory_order_relaxed);
         if (g_noting && me->noteLen) takeSample();
         if (!sc.forked && !me->isPruned && pos != me->len && pos < fixedLen)
{
            std::string cs; for (unsigned i = 0; i < fixedLen; ++i) cs += std::to_string(me->c[i]) + "/" + std::to_string(me->n[i]) + ",";
            broken("nondeterministic execution: ended after %u of %u choices: %s", pos, fixedLen, cs.c_str()); }
         for (unsigned i = known; i < me->len; ++i) limit[i] = me->n[i];
         if (me->len > me->maxlen) me->maxlen = me->len;
         if (S->stop || S->timeup) return;
         // backtrack
         unsigned len = me->len;
         while (len > base && me->c[len - 1] + 1 >= limit[len - 1]) --len;
         if (len <= base) { break; }
         // give work away
         if (S->idle && S->qn < S->idle) {
            unsigned i = base;
            while (i < len && me->c[i] + 1 >= limit[i]) ++i;
            if (i < len) {
               lockShared();
               if (S->qn < MAXQ) {
                  Item& it = S->q[S->qn++];
                  it.len = i; it.lo = me->c[i] + 1; it.hi = limit[i];
                  memcpy(it.c, me->c, i * sizeof(uint16_t));
                  limit[i] = me->c[i] + 1;
               }
               unlockShared();
            }
            while (len > base && me->c[len - 1] + 1 >= limit[len - 1]) --len;
            if (len <= base) break;
         }
         me->c[len - 1]++;
         me->len = len;
         known = len;
      }
   }
   me->status = DONE;
}

std::string jsonEsc(const std::string& s) {
   std::string r;
   for (unsigned char ch : s) {
      switch (ch) {
      case '"': r += "\\\""; break;
      case '\\': r += "\\\\"; break;
      case '\n': r += "\\n"; break;
      case '\t': r += "\\t"; break;
      default:
         if (ch < 0x20 || ch >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", ch); r += b; }
         else r += ch;
      }
   }
   return r;
}

std::string slurp(const std::string& f, size_t max = 6000) {
   std::string r; FILE* fp = fopen(f.c_str(), "r"); if (!fp) return r;
   char b[4096]; size_t k;
   while ((k = fread(b, 1, sizeof b, fp)) > 0 && r.size() < max) r.append(b, k);
   fclose(fp); return r.substr(0, max);
}

struct Args {
   std::string tier = "quick", out, dir = ".", replay, only;
   unsigned workers = 0;
   bool trace = false;
   double scale = 1.0;
};

struct Result { bool violation = false, broken = false, capped = false; std::string msg, scen; std::vector<uint16_t> choices; };

std::string crashText(const std::string& errfile, int st) {
   std::string e = slurp(errfile);
   char b[128];
   if (WIFSIGNALED(st)) snprintf(b, sizeof b, "process killed by signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st)));
   else snprintf(b, sizeof b, "process ended with status %d", WEXITSTATUS(st));
   return std::string(b) + "\n" + e;
}

// Seconds of processor time that a process has used: how long something takes depends on what else the machine is doing.
double cpuTime(pid_t p) {
   clockid_t c; timespec t;
   if (clock_getcpuclockid(p, &c) || clock_gettime(c, &t)) return 0;
   return t.tv_sec + t.tv_nsec * 1e-9;
}
// Is a process that has not got on for a while hung?
bool isHung(double wall, double cpu) { return cpu > 25 || wall > 120; }

// A single replayed execution in a process of its own; true if it violates.
bool replayOnce(const Scenario& sc, const std::vector<uint16_t>& ch, const std::string& dir, std::string& msg, std::string& trace, bool notes) {
   std::string errf = dir + "/replay.err";
   Slot& sl = S->slots[MAXW - 1];
   memset((void*)&sl, 0, sizeof sl);
   pid_t p = fork();
   if (p == 0) {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      int fd = open(errf.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644); if (fd >= 0) { dup2(fd, 2); close(fd); }
      me = &sl; g_replay = true; replayChoices = ch; g_noting = notes; fixedLen = 0xffffffff;
      if (on_worker) on_worker();
      execute(sc);
      _exit(0);
   }
   double t0 = now(); int st = 0; bool hung = false;
   for (;;) {
      pid_t r = waitpid(p, &st, WNOHANG);
      if (r == p) break;
      if (now() - t0 > 25 && isHung(now() - t0, cpuTime(p))) { kill(p, SIGKILL); waitpid(p, &st, 0); hung = true; break; }
      usleep(500);
   }
   trace.assign(sl.note, sl.noteLen);
   if (hung) { msg = "execution does not terminate"; return true; }
   if (sl.status == VIOLATION) { msg = sl.msg; return true; }
   if (sl.status == BROKEN) { msg = std::string("harness: ") + sl.msg; return false; }
   if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { msg = ""; return false; }
   msg = crashText(errf, st);
   return true;
}

Result explore(const Scenario& sc, const Args& a, double& wall) {
   Result r; r.scen = sc.name;
   memset((void*)S, 0, sizeof *S);
   if (madvise((void*)setStates, (setMask + 1) * 8, MADV_REMOVE)) memset((void*)setStates, 0, (setMask + 1) * 8);
   if (madvise((void*)setOut, (outMask + 1) * 8, MADV_REMOVE)) memset((void*)setOut, 0, (outMask + 1) * 8);
   S->q[0].len = 0; S->q[0].lo = 0; S->q[0].hi = -1; S->qn = 1;
   unsigned W = a.workers;
   S->workers = W;
   double t0 = now();
   std::vector<pid_t> pids(W);
   std::vector<double> lastChange(W, t0); std::vector<uint64_t> lastExecs(W, 0); std::vector<double> lastCpu(W, -1);
   fflush(stdout); fflush(stderr);
   for (unsigned i = 0; i < W; ++i) {
      std::string ef = a.dir + "/worker" + std::to_string(i) + ".err";
      pids[i] = fork();
      if (pids[i] == 0) {
         prctl(PR_SET_PDEATHSIG, SIGKILL);
         int fd = open(ef.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644); if (fd >= 0) { dup2(fd, 2); close(fd); }
         cpu_set_t cs; cpu_set_t all; CPU_ZERO(&cs);
         if (sched_getaffinity(0, sizeof all, &all) == 0) {
            int k = i % CPU_COUNT(&all);
            for (int c = 0, s = 0; c < CPU_SETSIZE; ++c) if (CPU_ISSET(c, &all) && s++ == k) { CPU_SET(c, &cs); break; }
            sched_setaffinity(0, sizeof cs, &cs);
         }
         worker(sc, i);
         _exit(0);
      }
   }
   unsigned alive = W; int bad = -1, badst = 0; bool hung = false;
   while (alive) {
      bool any = false;
      for (unsigned i = 0; i < W; ++i) {
         if (!pids[i]) continue;
         int st; pid_t p = waitpid(pids[i], &st, WNOHANG);
         if (p == pids[i]) {
            any = true; pids[i] = 0; --alive;
            if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0) && bad < 0 && !S->stop) { bad = i; badst = st; S->stop = 1; }
            continue;
         }
         uint64_t e = S->slots[i].execs;
         if (e != lastExecs[i] || !S->slots[i].busy) { lastExecs[i] = e; lastChange[i] = now(); lastCpu[i] = -1; }
         else if (now() - lastChange[i] > 1 && lastCpu[i] < 0) lastCpu[i] = cpuTime(pids[i]);
         else if (now() - lastChange[i] > 25 && bad < 0 && isHung(now() - lastChange[i], cpuTime(pids[i]) - lastCpu[i])) { bad = i; hung = true; S->stop = 1; }
      }
      if (now() - t0 > sc.cap_s * a.scale) S->timeup = 1;
      if (S->stop) {
         for (unsigned i = 0; i < W; ++i) if (pids[i]) { kill(pids[i], SIGKILL); waitpid(pids[i], nullptr, 0); pids[i] = 0; --alive; }
         break;
      }
      if (!any) usleep(1000);
   }
   wall = now() - t0;
   if (bad >= 0) {
      Slot& sl = S->slots[bad];
      r.choices.assign(sl.c, sl.c + sl.len);
      if (sl.status == BROKEN) { r.broken = true; r.msg = sl.msg; return r; }
      r.violation = true;
      if (hung) r.msg = "execution does not terminate";
      else if (sl.status == VIOLATION) r.msg = sl.msg;
      else r.msg = crashText(a.dir + "/worker" + std::to_string(bad) + ".err", badst);
   }
   r.capped = S->timeup && !r.violation;
   return r;
}

}

int main(int argc, char** argv, std::function<std::vector<Scenario>(bool)> build) {
   Args a; bool list = false;
   for (int i = 1; i < argc; ++i) {
      std::string o = argv[i];
      auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
      if (o == "--tier") a.tier = val();
      else if (o == "--out") a.out = val();
      else if (o == "--dir") a.dir = val();
      else if (o == "--workers") a.workers = atoi(val().c_str());
      else if (o == "--replay") a.replay = val();
      else if (o == "--only") a.only = val();
      else if (o == "--scale") a.scale = atof(val().c_str());
      else if (o == "--list") list = true;
   }
   if (!a.workers) { cpu_set_t cs; a.workers = sched_getaffinity(0, sizeof cs, &cs) == 0 ? CPU_COUNT(&cs) : 4; }
   if (a.workers > MAXW - 1) a.workers = MAXW - 1;
   g_thorough = a.tier == "thorough";
   unsigned bits = g_thorough ? 27 : SETBITS_DEFAULT;
   S = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
   setMask = (1ULL << bits) - 1; outMask = (1ULL << 20) - 1;
   setStates = (std::atomic<uint64_t>*)mmap(nullptr, (setMask + 1) * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
   setOut = (std::atomic<uint64_t>*)mmap(nullptr, (outMask + 1) * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
   if (S == MAP_FAILED || (void*)setStates == MAP_FAILED || (void*)setOut == MAP_FAILED) { perror("mmap"); return 3; }
   mkdir(a.dir.c_str(), 0755);
   me = &S->slots[MAXW - 1];
   std::vector<Scenario> scs = build(g_thorough);
   if (list) { for (auto& s : scs) printf("%s: %s\n", s.name.c_str(), s.bounds.c_str()); return 0; }

   if (!a.replay.empty()) {
      // file: first line scenario name, second line choices
      std::string t = slurp(a.replay, 1 << 20);
      size_t e = t.find('\n'); std::string scen = t.substr(0, e);
      std::vector<uint16_t> ch; const char* p = t.c_str() + (e == std::string::npos ? t.size() : e + 1);
      while (*p && *p != '\n') { char* q; long v = strtol(p, &q, 10); if (q == p) break; ch.push_back((uint16_t)v); p = q; while (*p == ' ') ++p; }
      for (auto& s : scs) if (s.name == scen) {
         std::string msg, trace;
         bool v = replayOnce(s, ch, a.dir, msg, trace, true);
         printf("%s\n--- %s: %s\n%s\n", trace.c_str(), scen.c_str(), v ? "VIOLATION" : "no violation", msg.c_str());
         return v ? 1 : 0;
      }
      fprintf(stderr, "no scenario %s\n", scen.c_str());
      return 3;
   }

   std::string js = "{\n \"scenarios\": [\n";
   int rc = 0; bool first = true;
   for (auto& sc : scs) {
      if (!a.only.empty() && sc.name.find(a.only) == std::string::npos) continue;
      double wall = 0;
      Result r = explore(sc, a, wall);
      uint64_t ex = 0, tr = 0, pr = 0, ml = 0;
      for (unsigned i = 0; i < MAXW; ++i) { ex += S->slots[i].execs; tr += S->slots[i].transitions; pr += S->slots[i].prunedExecs; if (S->slots[i].maxlen > ml) ml = S->slots[i].maxlen; }
      uint64_t ns = S->nstates, no = S->noutcomes; bool full = S->setFull;
      std::string samples;
      for (unsigned i = 0; i < S->nsamples && i < 3; ++i) samples += std::string(i ? "," : "") + "\"" + jsonEsc(std::string(S->samples[i]).substr(0, 1500)) + "\"";
      std::string trace; bool confirmed = false;
      if (r.violation) {
         std::string m1, m2, t2;
         bool v1 = replayOnce(sc, r.choices, a.dir, m1, trace, true);
         bool v2 = replayOnce(sc, r.choices, a.dir, m2, t2, true);
         confirmed = v1 && v2;
         if (v1 && !m1.empty() && r.msg.compare(0, 7, "process") == 0) r.msg = m1;
      }
      if (!first) js += ",\n";
      first = false;
      char b[1024];
      snprintf(b, sizeof b, "\"executions\": %llu, \"pruned\": %llu, \"states\": %llu, \"transitions\": %llu, \"outcomes\": %llu, \"max_choices\": %llu, \"capped\": %s, \"set_full\": %s, \"wall_s\": %.2f, \"violation\": %s, \"confirmed\": %s, \"broken\": %s",
               (unsigned long long)ex, (unsigned long long)pr, (unsigned long long)ns, (unsigned long long)tr, (unsigned long long)no, (unsigned long long)ml,
               r.capped ? "true" : "false", full ? "true" : "false", wall, r.violation ? "true" : "false", confirmed ? "true" : "false", r.broken ? "true" : "false");
      js += "  {\"name\": \"" + jsonEsc(sc.name) + "\", \"bounds\": \"" + jsonEsc(sc.bounds) + "\", " + b + ", \"samples\": [" + samples + "]";
      if (r.violation || r.broken) {
         js += ", \"message\": \"" + jsonEsc(r.msg) + "\", \"trace\": \"" + jsonEsc(trace) + "\", \"choices\": [";
         for (size_t i = 0; i < r.choices.size(); ++i) js += (i ? "," : "") + std::to_string(r.choices[i]);
         js += "]";
      }
      js += "}";
      fprintf(stderr, "[%s] execs=%llu pruned=%llu states=%llu trans=%llu outcomes=%llu maxlen=%llu wall=%.2fs%s%s\n", sc.name.c_str(),
              (unsigned long long)ex, (unsigned long long)pr, (unsigned long long)ns, (unsigned long long)tr, (unsigned long long)no, (unsigned long long)ml, wall,
              r.capped ? " CAPPED" : "", full ? " SETFULL" : "");
      if (r.broken) { fprintf(stderr, "BROKEN %s: %s\n", sc.name.c_str(), r.msg.c_str()); rc = 2; break; }
      if (r.violation) { fprintf(stderr, "VIOLATION %s (%s): %s\n%s\n", sc.name.c_str(), confirmed ? "confirmed" : "NOT confirmed", r.msg.c_str(), trace.c_str()); rc = 1; break; }
   }
   js += "\n ]\n}\n";
   if (!a.out.empty()) { FILE* f = fopen(a.out.c_str(), "w"); if (f) { fputs(js.c_str(), f); fclose(f); } }
   return rc;
}

}
