// Independent scenarios of one check in parallel processes; obligations and counters are merged.
#include "driver.hpp"
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <unistd.h>
#include <atomic>
#include <thread>
using namespace lin;

static void ws(FILE* f, const std::string& s) { fprintf(f, "%zu\n", s.size()); fwrite(s.data(), 1, s.size(), f); fputc('\n', f); }
static std::string rs(FILE* f) {
  size_t n;
  if (fscanf(f, "%zu", &n) != 1) throw Broken{"worker result truncated"};
  fgetc(f);
  std::string s(n, 0);
  if (n && fread(&s[0], 1, n, f) != n) throw Broken{"worker result truncated"};
  fgetc(f);
  return s;
}
static long rl(FILE* f) { long v; if (fscanf(f, "%ld", &v) != 1) throw Broken{"worker result truncated"}; return v; }

void parallel(Ctx& c, size_t n, const std::function<void(size_t)>& fn) {
  Interp& in = c.in;
  unsigned w = std::thread::hardware_concurrency();
  if (w < 1) w = 1;
  if (w > 8) w = 8;
  if (const char* e = getenv("ENGINE_JOBS")) w = atoi(e);
  if (w > n) w = n;
  auto failing = [&] { long k = 0; for (auto& o : in.obs[in.only]) k += o.second.fail; return k; };
  auto* next = (std::atomic<size_t>*)mmap(nullptr, 2 * sizeof(std::atomic<size_t>), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (next == MAP_FAILED) throw Broken{"mmap"};
  new (next) std::atomic<size_t>(0);
  auto* stop = (int*)(next + 1);
  *stop = 0;
  fflush(nullptr);
  std::vector<std::pair<pid_t, FILE*>> kids;
  for (unsigned k = 0; k < w; ++k) {
    FILE* f = tmpfile();
    if (!f) throw Broken{"tmpfile"};
    pid_t p = fork();
    if (p < 0) throw Broken{"fork"};
    if (p == 0) {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      std::string broken;
      in.obs.clear(); c.counts.clear(); c.notes.clear(); in.steps = in.calls = in.joins = in.widens = 0; g_lp_calls = g_ent_calls = 0;
      try {
        if (!c.noStop) in.stop = stop;
        for (size_t i; (i = next->fetch_add(1)) < n;) {
          if (!c.items.empty() && !c.items.count(i)) continue;
          long k = failing();
          bool full = false;
          try { fn(i); full = true; } catch (Stopped&) {}
          if (failing() > k) { c.failedItems.insert(i); if (!c.noStop) *stop = 1; }
          if (!full || (!c.noStop && *stop)) break;
        }
      } catch (Broken& b) { broken = b.why + (in.stack.empty() ? "" : " (at " + in.chain() + ")"); if (broken.empty()) broken = "?"; }
      catch (NeedSplit& sp) { broken = std::string("unhandled split: ") + sp.why; }
      catch (PathEnd&) { broken = "unhandled path end"; }
      catch (Overflow&) { broken = "coefficient overflow"; }
      if (!broken.empty()) next->store(n);
      ws(f, broken);
      fprintf(f, "%zu\n", c.failedItems.size()); for (auto x : c.failedItems) fprintf(f, "%zu\n", x);
      fprintf(f, "%ld %ld %ld %ld %ld %ld\n", in.steps, in.calls, in.joins, in.widens, g_lp_calls, g_ent_calls);
      for (auto* st : {&in.usedFns, &in.unmodelled, &in.extModels}) { fprintf(f, "%zu\n", st->size()); for (auto& x : *st) ws(f, x); }
      fprintf(f, "%zu\n", c.notes.size()); for (auto& x : c.notes) ws(f, x);
      fprintf(f, "%zu\n", c.counts.size()); for (auto& x : c.counts) { ws(f, x.first); fprintf(f, "%ld\n", x.second); }
      size_t m = 0;
      for (auto& p1 : in.obs) m += p1.second.size();
      fprintf(f, "%zu\n", m);
      for (auto& p1 : in.obs) for (auto& o : p1.second) { ws(f, p1.first); ws(f, o.first); fprintf(f, "%ld %ld %ld\n", o.second.ok, o.second.fail, o.second.und); ws(f, o.second.detail); ws(f, o.second.chain); ws(f, o.second.loc); }
      fflush(f);
      _exit(0);
    }
    kids.push_back({p, f});
  }
  std::string broken;
  for (auto& k : kids) {
    int st = 0;
    waitpid(k.first, &st, 0);
    if (!WIFEXITED(st) || WEXITSTATUS(st)) { if (broken.empty()) broken = "worker ended abnormally"; continue; }
    FILE* f = k.second;
    rewind(f);
    std::string b = rs(f);
    if (!b.empty() && broken.empty()) broken = b;
    for (long i = rl(f); i > 0; --i) c.failedItems.insert((size_t)rl(f));
    in.steps += rl(f); in.calls += rl(f); in.joins += rl(f); in.widens += rl(f); g_lp_calls += rl(f); g_ent_calls += rl(f);
    for (auto* s : {&in.usedFns, &in.unmodelled, &in.extModels}) for (long i = rl(f); i > 0; --i) s->insert(rs(f));
    for (long i = rl(f); i > 0; --i) c.notes.push_back(rs(f));
    for (long i = rl(f); i > 0; --i) { std::string a = rs(f); c.counts[a] += rl(f); }
    for (long i = rl(f); i > 0; --i) {
      std::string p = rs(f), key = rs(f);
      ObRec& r = in.obs[p][key];
      bool had = r.fail || r.und;
      r.ok += rl(f); r.fail += rl(f); r.und += rl(f);
      std::string d = rs(f), ch = rs(f), lo = rs(f);
      if (!had) { r.detail = d; r.chain = ch; r.loc = lo; }
    }
    fclose(f);
  }
  c.stopped = *stop;
  munmap(next, 2 * sizeof(std::atomic<size_t>));
  if (!broken.empty()) throw Broken{broken};
}
