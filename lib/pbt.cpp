#include "pbt.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <dirent.h>
#include <sys/resource.h>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <sched.h>
#include <time.h>
#include <errno.h>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <set>
#include <unordered_set>
#include <mutex>
#include <thread>
#include <chrono>
#include <fstream>

namespace pbt {

static std::vector<Sub>& subs() { static std::vector<Sub> s; return s; }
void register_sub(const Sub& s) { subs().push_back(s); }

// ------------------------------------------------------------- shared slot
constexpr size_t MAXL = 48, MAXH = 1 << 15, NSAMP = 3;
struct Slot {
  std::atomic<u64> case_idx, start_ns, done_cases, discards, nontrivial;
  std::atomic<int> state;   // 0 running generator, 1 in case, 2 finished all, 3 failed, 4 exiting
  std::atomic<uint32_t> nchoices;
  std::atomic<uint32_t> nhash;
  u64 choices[MAX_CHOICES];
  u64 hashes[MAXH];
  char msg[8192];
  char desc[8192];
  char lab_name[MAXL][40]; u64 lab_n[MAXL];
  char samples[NSAMP][1200]; std::atomic<uint32_t> nsamp;
};
static Slot* new_slot() {
  void* p = mmap(nullptr, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); _exit(2); }
  return (Slot*)p;
}
static void reset(Slot* s) { memset((void*)s, 0, offsetof(Slot, choices)); s->msg[0] = s->desc[0] = 0; memset(s->lab_name, 0, sizeof s->lab_name); memset(s->lab_n, 0, sizeof s->lab_n); s->nsamp = 0; }
static u64 now_ns() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return u64(t.tv_sec) * 1000000000ull + t.tv_nsec; }

// ------------------------------------------------------------- soft failures
static std::atomic<bool> g_soft{false};
static std::mutex g_soft_m; static std::string g_soft_msg;
void soft_fail(const std::string& m) { std::lock_guard<std::mutex> l(g_soft_m); if (!g_soft) { g_soft_msg = m; g_soft = true; } }
bool soft_failed() { return g_soft.load(); }

// ------------------------------------------------------------- jitter
static std::atomic<u64> j_seed{0}; static std::atomic<unsigned> j_pct{0};
void set_jitter(u64 seed, unsigned pct) { j_seed = seed; j_pct = pct; }
extern "C" void pbt_yield(unsigned long) __attribute__((weak));   // lib/fj.cpp
void jitter(u64 key) {
  if (pbt_yield) { pbt_yield(key); return; }
  unsigned p = j_pct.load(std::memory_order_relaxed);
  if (!p) return;
  u64 h = mix(key ^ j_seed.load(std::memory_order_relaxed));
  if (h % 1000 >= p) return;
  switch ((h >> 20) % 8) {
    case 0: std::this_thread::sleep_for(std::chrono::microseconds(20 + (h >> 30) % 150)); break;
    case 1: case 2: sched_yield(); break;
    default: { volatile unsigned k = 0; unsigned n = 50 + (h >> 30) % 3000; while (k < n) k = k + 1; }
  }
}

// ------------------------------------------------------------- child
struct Job { int sub; u64 first, count; int workers; int cpus; };   // cpus: 0 = no affinity restriction

static u64 g_seed = 1; static bool g_thorough = false;

static void copy_str(char* d, size_t n, const std::string& s) { size_t k = std::min(n - 1, s.size()); memcpy(d, s.data(), k); d[k] = 0; }

extern "C" void pbt_set_workers(int) __attribute__((weak));   // lib/workers.cpp
static void setup_child(const Job& j, unsigned slotno) {
  if (pbt_set_workers) pbt_set_workers(j.workers);
  setenv("PARLAY_NUM_THREADS", std::to_string(j.workers).c_str(), 1);
  if (j.cpus > 0) {
    cpu_set_t cur; CPU_ZERO(&cur);
    if (sched_getaffinity(0, sizeof cur, &cur) == 0) {
      std::vector<int> av; for (int i = 0; i < CPU_SETSIZE; i++) if (CPU_ISSET(i, &cur)) av.push_back(i);
      if (!av.empty()) { cpu_set_t s; CPU_ZERO(&s); for (int k = 0; k < j.cpus; k++) CPU_SET(av[(slotno + k) % av.size()], &s); sched_setaffinity(0, sizeof s, &s); }
    }
  }
}

// returns true when the case passed
static bool run_case(const Sub& sub, Gen& g, Slot* slot) {
  slot->start_ns = now_ns(); slot->state = 1;
  std::string msg; bool failed = false, disc = false;
  try { sub.fn(g); }
  catch (const Fail& f) { failed = true; msg = f.msg; }
  catch (const Discard&) { disc = true; }
  catch (const std::exception& e) { failed = true; msg = std::string("exception: ") + e.what(); }
  if (g_soft.load()) { failed = true; std::lock_guard<std::mutex> l(g_soft_m); msg = g_soft_msg + (msg.empty() ? "" : " | " + msg); }
  if (failed) {
    copy_str(slot->desc, sizeof slot->desc, g.desc.str());
    copy_str(slot->msg, sizeof slot->msg, msg);
    slot->state = 3; return false;
  }
  slot->state = 0;
  if (disc) slot->discards++;
  else {
    slot->done_cases++;
    if (g.nontrivial) {
      slot->nontrivial++;
      u64 h = 0x1234; for (size_t i = 0; i < g.pos; i++) h = mix(h ^ slot->choices[i]);
      uint32_t k = slot->nhash.load(); if (k < MAXH) { slot->hashes[k] = h; slot->nhash = k + 1; }
      uint32_t q = slot->nsamp.load(); if (q < NSAMP) { copy_str(slot->samples[q], sizeof slot->samples[q], g.desc.str()); slot->nsamp = q + 1; }
    }
    for (auto& l : g.labels) for (size_t i = 0; i < MAXL; i++) {
      if (!slot->lab_name[i][0]) copy_str(slot->lab_name[i], 40, l);
      if (!strncmp(slot->lab_name[i], l.c_str(), 39)) { slot->lab_n[i]++; break; }
    }
  }
  return true;
}

static void child_main(const Job& j, Slot* slot, unsigned slotno, const std::vector<u64>* replay_choices) {
  setup_child(j, slotno);
  const Sub& sub = subs()[j.sub];
  for (u64 i = 0; i < j.count; i++) {
    slot->case_idx = j.first + i; slot->nchoices = 0;
    if (sub.flags & F_FRESH) {
      slot->start_ns = now_ns(); slot->state = 1;
      pid_t p = fork(); if (p < 0) _exit(0);
      if (p > 0) { int st = 0; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {} if (WIFSIGNALED(st)) { signal(WTERMSIG(st), SIG_DFL); kill(getpid(), WTERMSIG(st)); _exit(99); } if (WEXITSTATUS(st)) _exit(WEXITSTATUS(st)); continue; }
    }
    u64 h = 0; for (const char* c = sub.name; *c; c++) h = mix(h ^ (unsigned char)*c);
    Gen g(replay_choices != nullptr, replay_choices ? replay_choices->data() : nullptr, replay_choices ? replay_choices->size() : 0,
          mix(mix(g_seed) ^ mix(h) ^ mix(j.first + i + 0x517c)), slot->choices, &slot->nchoices);
    g.workers = j.workers; g.thorough = g_thorough; g.desc_out = slot->desc; slot->desc[0] = 0;
    if (!run_case(sub, g, slot)) _exit(77);
    if (sub.flags & F_FRESH) { slot->start_ns = now_ns(); slot->state = 4; exit(0); }
  }
  if (sub.flags & F_FRESH) _exit(0);
  slot->start_ns = now_ns();
  slot->state = 4;
  exit(0);   // runs static destructors: scheduler shutdown is part of what is tested
}

// ------------------------------------------------------------- running one case in a fresh child
enum Outcome { PASS, FAILED, CRASH, HANG, KILLED };
struct Result { Outcome o; std::string msg, desc; std::vector<u64> choices; int status = 0; u64 case_idx = 0; };

static std::string errfile_for(unsigned slotno);
static std::string g_tmp;
const std::string& tmp_dir() { return g_tmp; }
static std::string errfile_for(unsigned slotno) { return g_tmp + "/stderr." + std::to_string(slotno); }

static std::string read_tail(const std::string& f, size_t n) {
  std::ifstream in(f); std::stringstream ss; ss << in.rdbuf(); std::string s = ss.str();
  // prefer the sanitizer / assertion headline
  for (const char* key : {"ERROR: AddressSanitizer", "WARNING: ThreadSanitizer", "runtime error:", "Assertion", "terminate called"}) {
    auto p = s.find(key); if (p != std::string::npos) { size_t b = s.rfind('\n', p); b = b == std::string::npos ? 0 : b + 1; return s.substr(b, n); }
  }
  return s.size() > n ? s.substr(s.size() - n) : s;
}

static pid_t spawn(const Job& j, Slot* slot, unsigned slotno, const std::vector<u64>* rc) {
  fflush(stdout); fflush(stderr);
  pid_t p = fork();
  if (p < 0) { perror("fork"); return -1; }
  if (p == 0) {
    setpgid(0, 0);
    int fd = open(errfile_for(slotno).c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
    if (fd >= 0) { dup2(fd, 2); int nfd = open("/dev/null", O_WRONLY); dup2(nfd, 1); }
    struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
    child_main(j, slot, slotno, rc);
    _exit(0);
  }
  setpgid(p, p);
  return p;
}

// Seconds that the threads of a process have run and have waited for a processor.
static std::pair<double, double> cpu_times(pid_t p) {
  std::pair<double, double> t{0, 0}; std::string dir = "/proc/" + std::to_string(p) + "/task";
  if (DIR* d = opendir(dir.c_str())) {
    while (dirent* e = readdir(d)) { if (e->d_name[0] == '.') continue; std::ifstream in(dir + "/" + e->d_name + "/schedstat"); double a = 0, b = 0; if (in >> a >> b) { t.first += a * 1e-9; t.second += b * 1e-9; } }
    closedir(d);
  }
  return t;
}

static Result classify(Slot* slot, int status, bool timed_out, unsigned slotno) {
  Result r; r.status = status; r.case_idx = slot->case_idx;
  r.choices.assign(slot->choices, slot->choices + std::min<size_t>(slot->nchoices.load(), MAX_CHOICES));
  slot->desc[sizeof(slot->desc) - 1] = 0; r.desc = slot->desc;
  if (timed_out) { r.o = HANG; r.msg = slot->state == 4 ? "process does not terminate at exit" : "case does not terminate"; return r; }
  if (WIFEXITED(status) && WEXITSTATUS(status) == 0) { r.o = PASS; return r; }
  if (WIFEXITED(status) && WEXITSTATUS(status) == 77) { r.o = FAILED; r.msg = slot->msg; r.desc = slot->desc; return r; }
  if (WIFSIGNALED(status) && WTERMSIG(status) == SIGKILL) { r.o = KILLED; r.msg = "killed"; return r; }
  r.o = CRASH;
  std::ostringstream o;
  if (WIFSIGNALED(status)) o << "crash: signal " << WTERMSIG(status) << " (" << strsignal(WTERMSIG(status)) << ")";
  else o << "abnormal exit status " << WEXITSTATUS(status);
  if (slot->state == 4) o << " at process exit";
  o << "\n" << read_tail(errfile_for(slotno), 3000);
  r.msg = o.str();
  return r;
}

static Result run_one(const Job& j, Slot* slot, unsigned slotno, const std::vector<u64>& choices, double timeout) {
  reset(slot);
  Job k = j; k.count = 1;
  pid_t p = spawn(k, slot, slotno, &choices);
  u64 t0 = now_ns(); int st = 0; bool to = false;
  while (true) {
    pid_t q = waitpid(p, &st, WNOHANG);
    if (q == p) break;
    if ((now_ns() - t0) * 1e-9 > timeout) { kill(-p, SIGKILL); kill(p, SIGKILL); waitpid(p, &st, 0); to = true; break; }
    usleep((now_ns() - t0) < 5000000 ? 200 : 2000);
  }
  return classify(slot, st, to, slotno);
}

// ------------------------------------------------------------- shrinking
static bool lower(const std::vector<u64>& a, const std::vector<u64>& b) {  // a simpler than b
  if (a.size() != b.size()) return a.size() < b.size();
  return a < b;
}
static std::vector<u64> shrink(const Job& j, std::vector<u64> best, Slot* slot, unsigned slotno, double timeout, double budget_s, Result& last, size_t& runs) {
  u64 t0 = now_ns();
  Outcome want = last.o;
  auto out_of_time = [&] { return (now_ns() - t0) * 1e-9 > budget_s; };
  auto fails = [&](const std::vector<u64>& c) {
    if (out_of_time()) return false;
    runs++;
    Result r = run_one(j, slot, slotno, c, timeout);
    if (r.o == want || (want != HANG && (r.o == FAILED || r.o == CRASH))) {
      std::vector<u64> used = r.choices; if (used.size() > c.size()) used = c;
      if (lower(used, best) || lower(c, best)) { best = lower(used, c) ? used : c; last = r; last.choices = best; return true; }
    }
    return false;
  };
  bool progress = true;
  while (progress && !out_of_time()) {
    progress = false;
    for (size_t blk = std::max<size_t>(1, best.size() / 2); blk >= 1; blk /= 2) {   // delete blocks
      for (size_t i = 0; i + blk <= best.size() && !out_of_time();) {
        std::vector<u64> c(best.begin(), best.begin() + i); c.insert(c.end(), best.begin() + i + blk, best.end());
        if (fails(c)) progress = true; else i += blk;
      }
      if (blk == 1) break;
    }
    for (size_t blk = std::max<size_t>(1, best.size() / 2); blk >= 1; blk /= 2) {   // zero blocks
      for (size_t i = 0; i + blk <= best.size() && !out_of_time(); i += blk) {
        std::vector<u64> c = best; bool nz = false; for (size_t k = i; k < i + blk; k++) { nz |= c[k] != 0; c[k] = 0; }
        if (nz && fails(c)) progress = true;
      }
      if (blk == 1) break;
    }
    for (size_t i = 0; i < best.size() && !out_of_time(); i++) {                    // lower single values
      if (best[i] == 0) continue;
      u64 lo = 0, hi = best[i];   // hi fails; binary search downwards
      while (hi - lo > 1 && i < best.size() && !out_of_time()) {
        u64 mid = lo + (hi - lo) / 2;
        std::vector<u64> c = best; c[i] = mid;
        if (fails(c)) { progress = true; if (i >= best.size()) break; hi = std::min(mid, best[i]); } else lo = mid;
      }
      if (i < best.size() && best[i] > 0) { std::vector<u64> c = best; c[i]--; if (fails(c)) progress = true; }
    }
  }
  return best;
}

// ------------------------------------------------------------- supervisor
static std::string esc(const std::string& s) {
  std::string o; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } return o;
}

int main_(int argc, char** argv) {
  std::string replay_file, out_file, rep_out, only; double cap = 400, scale = 1; std::string variant = "default"; bool list = false; bool noshrink = false;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i]; auto nx = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--seed") g_seed = strtoull(nx().c_str(), 0, 10);
    else if (a == "--thorough") g_thorough = true;
    else if (a == "--replay") replay_file = nx();
    else if (a == "--out") out_file = nx();
    else if (a == "--replay-out") rep_out = nx();
    else if (a == "--only") only = nx();
    else if (a == "--cap") cap = atof(nx().c_str());
    else if (a == "--scale") scale = atof(nx().c_str());
    else if (a == "--variant") variant = nx();
    else if (a == "--tmp") g_tmp = nx();
    else if (a == "--list") list = true;
    else if (a == "--noshrink") noshrink = true;
  }
  if (list) { for (auto& s : subs()) printf("%s %zu %zu\n", s.name, s.quick, s.thorough); return 0; }
  if (g_tmp.empty()) { char b[] = "/tmp/pbtXXXXXX"; if (!mkdtemp(b)) { perror("mkdtemp"); return 2; } g_tmp = b; }
  bool asan = false, tsan = false;
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
  asan = true;
#endif
#if __has_feature(thread_sanitizer)
  tsan = true;
#endif
#endif
#if defined(__SANITIZE_ADDRESS__)
  asan = true;
#endif
#if defined(__SANITIZE_THREAD__)
  tsan = true;
#endif
  double tmul = (asan || tsan) ? 3 : 1;

  if (!replay_file.empty()) {
    std::ifstream in(replay_file); std::string w; Job j{-1, 0, 1, 1, 0}; std::vector<u64> ch; 
    std::string line;
    while (std::getline(in, line)) {
      std::istringstream ls(line); ls >> w;
      if (w == "sub") { std::string n; ls >> n; for (size_t i = 0; i < subs().size(); i++) if (n == subs()[i].name) j.sub = (int)i; }
      else if (w == "workers") ls >> j.workers;
      else if (w == "cpus") ls >> j.cpus;
      else if (w == "choices") { u64 v; while (ls >> v) ch.push_back(v); }
    }
    if (j.sub < 0) { printf("replay: unknown sub\n"); return 2; }
    Slot* slot = new_slot(); Result r{PASS, "", "", {}, 0, 0};
    for (int k = 0; k < 5; k++) { r = run_one(j, slot, 0, ch, subs()[j.sub].case_timeout * tmul * 2); if (r.o != PASS) break; }
    if (r.o == PASS) { printf("replay: passes\n"); return 0; }
    printf("replay: fails (%s)\n%s\n%s\n", subs()[j.sub].name, r.desc.c_str(), r.msg.c_str());
    return 1;
  }

  // job list: chunks of every sub, interleaved, each with a worker count
  static const int wl[] = {4, 1, 8, 2, 3, 8, 5, 4}, wl_many[] = {8, 2, 4, 16, 3, 1, 12, 8};
  std::vector<std::vector<Job>> per; size_t total_chunks = 0;
  for (size_t s = 0; s < subs().size(); s++) {
    if (!only.empty() && only != subs()[s].name) continue;
    u64 n = (u64)(scale * (g_thorough ? subs()[s].thorough : subs()[s].quick)); if (n == 0) continue;
    u64 nch = std::min<u64>(n, g_thorough ? 64 : 8); if (nch > 1 && nch % 2) nch++;
    std::vector<Job> js; u64 first = 0;
    for (u64 c = 0; c < nch; c++) {
      u64 cnt = n / nch + (c < n % nch); if (!cnt) continue;
      Job j{(int)s, first, cnt, 1, 0};
      if (!(subs()[s].flags & F_SINGLE)) {
        j.workers = (subs()[s].flags & F_MANY) ? wl_many[c % 8] : wl[c % 8];
        j.cpus = (c % 8 == 3) ? 1 : (c % 8 == 6) ? 2 : 0;
      }
      js.push_back(j); first += cnt;
    }
    total_chunks += js.size();
    per.push_back(js);
  }
  std::vector<Job> queue;
  for (size_t k = 0; queue.size() < total_chunks; k++) for (auto& js : per) if (k < js.size()) queue.push_back(js[k]);

  struct Run { pid_t pid = 0; Slot* slot; Job job; u64 snap_base = 0; std::pair<double, double> snap{0, 0}; };
  const int NP = 6; std::vector<Run> runs_(NP);
  for (auto& r : runs_) r.slot = new_slot();
  std::map<std::string, u64> ev_eval, ev_disc, ev_nt, labels; std::unordered_set<u64> distinct; std::vector<std::pair<std::string, std::string>> samples; std::map<std::string, int> samp_per;
  std::map<std::string, double> sub_time;
  auto harvest = [&](Run& r) {
    std::string n = subs()[r.job.sub].name;
    ev_eval[n] += r.slot->done_cases; ev_disc[n] += r.slot->discards; ev_nt[n] += r.slot->nontrivial;
    for (uint32_t i = 0; i < r.slot->nhash; i++) distinct.insert(mix(r.slot->hashes[i] ^ mix(r.job.sub)));
    for (size_t i = 0; i < MAXL && r.slot->lab_name[i][0]; i++) labels[n + ":" + r.slot->lab_name[i]] += r.slot->lab_n[i];
    for (uint32_t i = 0; i < r.slot->nsamp && samp_per[n] < 2; i++) { samples.push_back({n, r.slot->samples[i]}); samp_per[n]++; }
  };
  size_t qi = 0; u64 t0 = now_ns(); bool failed = false; Result fr; Job fj{}; size_t skipped = 0, killed = 0; std::map<pid_t, u64> started;
  std::vector<std::pair<Job, Result>> hangs; size_t starved_hangs = 0;
  while (true) {
    bool any = false;
    for (int i = 0; i < NP && !failed; i++) {
      Run& r = runs_[i];
      if (!r.pid) {
        bool serial_running = false; int live = 0; for (auto& q : runs_) if (q.pid) { live++; if (subs()[q.job.sub].flags & F_SERIAL) serial_running = true; }
        if (qi < queue.size() && !serial_running && !((subs()[queue[qi].sub].flags & F_SERIAL) && live > 0)) {
          if ((now_ns() - t0) * 1e-9 > cap) { skipped += queue.size() - qi; qi = queue.size(); continue; }
          r.job = queue[qi++]; reset(r.slot); r.pid = spawn(r.job, r.slot, i, nullptr);
          if (r.pid < 0) { r.pid = 0; return 2; }
          started[r.pid] = now_ns();
          any = true;
        }
        continue;
      }
      any = true;
      int st = 0; pid_t q = waitpid(r.pid, &st, WNOHANG);
      if (q == r.pid) {
        sub_time[subs()[r.job.sub].name] += (now_ns() - started[r.pid]) * 1e-9;
        harvest(r);
        Result res = classify(r.slot, st, false, i);
        r.pid = 0;
        if (res.o == KILLED) { killed++; }
        else if (res.o != PASS) { failed = true; fr = res; fj = r.job; break; }
      } else {
        u64 s = r.slot->start_ns.load(); int state = r.slot->state.load();
        double lim = subs()[r.job.sub].case_timeout * tmul;
        u64 base = (state == 1 || state == 4) && s ? s : started[r.pid];
        double age = (now_ns() - base) * 1e-9;
        if (age > lim * 0.3 && r.snap_base != base) { r.snap_base = base; r.snap = cpu_times(r.pid); }
        if (age > lim) {
          auto now = cpu_times(r.pid); double ran = now.first - r.snap.first, waited = now.second - r.snap.second;
          bool starved = r.snap_base == base && waited > 0.95 * (ran + waited) && waited > 0.5 * lim;   // it was kept from the processors by others
          kill(-r.pid, SIGKILL); kill(r.pid, SIGKILL); waitpid(r.pid, &st, 0);
          harvest(r);
          Result res = classify(r.slot, st, true, i); r.pid = 0;
          if (starved) { starved_hangs++; killed++; continue; }
          hangs.push_back({r.job, res});
          if (hangs.size() >= 3) { failed = true; fr = res; fj = r.job; break; }
        }
      }
    }
    if (failed || !any) break;
    usleep(1000);
  }
  for (auto& r : runs_) if (r.pid) { kill(-r.pid, SIGKILL); kill(r.pid, SIGKILL); int st; waitpid(r.pid, &st, 0); harvest(r); r.pid = 0; }
  Slot* slot = runs_[0].slot;
  // hangs must be reproduced with a longer limit before they count
  size_t unconfirmed_hangs = 0;
  if (failed && fr.o == HANG) failed = false;
  for (auto& h : hangs) {
    if (failed) break;
    Job j = h.first; double lim = subs()[j.sub].case_timeout * tmul * 1.5;
    int rep = 0; Result rr;
    for (int k = 0; k < 2; k++) { rr = run_one(j, slot, 0, h.second.choices, lim); if (rr.o != PASS && rr.o != KILLED) { rep++; if (rr.o != HANG) break; } }
    if (rr.o == FAILED || rr.o == CRASH || rep == 2) { failed = true; fr = rr; fr.choices = h.second.choices; fj = j; }
    else if (rep == 1) { for (int k = 0; k < 3 && !failed; k++) { rr = run_one(j, slot, 0, h.second.choices, lim); if (rr.o == HANG) { failed = true; fr = rr; fr.choices = h.second.choices; fj = j; } } if (!failed) unconfirmed_hangs++; }
    else unconfirmed_hangs++;
  }
  if (!failed && unconfirmed_hangs >= 3) { failed = true; fr = hangs[0].second; fj = hangs[0].first; fr.msg += " (several cases of this run, none reproduced in isolation)"; }

  std::string replay_path; int reproduced = 0, tries = 0; size_t shr = 0; size_t orig_len = 0;
  if (failed) {
    const Sub& sub = subs()[fj.sub];
    double lim = sub.case_timeout * tmul * 1.5;
    orig_len = fr.choices.size();
    Result first = fr;
    int maxtries = 12;
    for (; tries < maxtries; ) {
      Result r = run_one(fj, slot, 0, fr.choices, lim); tries++;
      if (r.o != PASS && r.o != KILLED) { reproduced++; if (reproduced == 1) { r.choices = fr.choices; first = r; } }
      if (reproduced >= 3) break;
      if (tries >= 4 && fr.o == HANG) break;
    }
    fr = first;
    std::vector<u64> best = fr.choices;
    if (reproduced >= 3 && !noshrink && fr.o != HANG) best = shrink(fj, fr.choices, slot, 0, lim, g_thorough ? 120 : 45, fr, shr);
    // description of the final case
    Result fin = run_one(fj, slot, 0, best, lim);
    if (fin.o != PASS) { fr.msg = fin.msg; if (!fin.desc.empty()) fr.desc = fin.desc; }
    if (!rep_out.empty()) {
      std::ofstream f(rep_out);
      f << "variant " << variant << "\nsub " << sub.name << "\nworkers " << fj.workers << "\ncpus " << fj.cpus << "\nseed " << g_seed << "\ncase " << fr.case_idx
        << "\nreproduced " << reproduced << "/" << tries << "\nchoices";
      for (u64 v : best) f << " " << v;
      f << "\n---\n" << fr.desc << "\n" << fr.msg << "\n";
    }
    printf("FAIL sub=%s variant=%s workers=%d case=%llu reproduced=%d/%d choices %zu -> %zu (%zu shrink runs)\n  case: %s\n  %s\n", sub.name, variant.c_str(), fj.workers,
           (unsigned long long)fr.case_idx, reproduced, tries, orig_len, best.size(), shr, fr.desc.c_str(), fr.msg.c_str());
  }
  u64 E = 0; for (auto& k : ev_eval) E += k.second;
  if (!out_file.empty()) {
    std::ofstream f(out_file);
    f << "{\"variant\":\"" << variant << "\",\"evaluations\":" << E << ",\"distinct_nontrivial\":" << distinct.size() << ",\"failed\":" << (failed ? "true" : "false")
      << ",\"skipped_chunks\":" << skipped << ",\"killed_chunks\":" << killed << ",\"starved_cases\":" << starved_hangs << ",\"unconfirmed_hangs\":" << unconfirmed_hangs << ",\"wall_s\":" << (now_ns() - t0) * 1e-9 << ",\"subs\":{";
    bool c = false;
    for (auto& k : ev_eval) { f << (c ? "," : "") << "\"" << k.first << "\":{\"cases\":" << k.second << ",\"discarded\":" << ev_disc[k.first] << ",\"nontrivial\":" << ev_nt[k.first] << ",\"child_s\":" << sub_time[k.first] << "}"; c = true; }
    f << "},\"labels\":{"; c = false;
    for (auto& k : labels) { f << (c ? "," : "") << "\"" << esc(k.first) << "\":" << k.second; c = true; }
    f << "},\"samples\":["; c = false;
    for (auto& s : samples) { f << (c ? "," : "") << "{\"sub\":\"" << s.first << "\",\"case\":\"" << esc(s.second) << "\"}"; c = true; }
    f << "]}\n";
  }
  if (skipped) printf("note: %zu chunks not run (time cap)\n", skipped);
  return failed ? 1 : 0;
}
}  // namespace pbt

int main(int argc, char** argv) { return pbt::main_(argc, argv); }
