#include <vector>
// Reporting: arguments, statistics, violations, crash handler. Linked into every harness.
#include "mc.h"
#include "rt_int.h"

#include <execinfo.h>
#include <signal.h>
#include <sched.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <time.h>
#include <unistd.h>
#include <link.h>

#include <algorithm>
#include <fstream>
#include <set>

namespace mc {

__thread int rt_in = 0;
__attribute__((weak)) void RtQuiesce() {}
__attribute__((weak)) std::string RtScenario() { return ""; }
__attribute__((weak)) std::string RtSchedule() { return ""; }

static Args* g_args = nullptr;
static std::map<std::string, double>* g_sum = nullptr;
static std::map<std::string, double>* g_max = nullptr;
static std::vector<std::string>* g_samples = nullptr;
static std::vector<std::string>* g_notes = nullptr;
static std::map<std::string, long>* g_known_hits = nullptr;
static std::string* g_context = nullptr;
static bool g_dying = false;

Args& args() { if (!g_args) g_args = new Args(); return *g_args; }
long Args::opt(const std::string& k, long d) const {
  auto it = kv.find(k);
  return it == kv.end() ? d : atol(it->second.c_str());
}

struct Quiet { Quiet() { rt_in++; } ~Quiet() { rt_in--; } };

void SetContext(const std::string& s) { Quiet q; if (!g_context) g_context = new std::string; *g_context = s; }

double RtWall() {
  struct timespec ts;
  Quiet q;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + ts.tv_nsec * 1e-9;
}

uintptr_t RtExeBase() {
  static uintptr_t base = 0;
  if (!base) {
    dl_iterate_phdr([](struct dl_phdr_info* i, size_t, void*) -> int { base = i->dlpi_addr; return 1; }, nullptr);
  }
  return base;
}

static std::string Esc(const std::string& s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c == '\n') r += "\\n";
    else if (c < 32 || c >= 127) { char b[8]; snprintf(b, sizeof(b), "\\u%04x", c); r += b; }
    else r += c;
  }
  return r + "\"";
}

std::string Symbolize(const void* pc) {
  char cmd[256];
  snprintf(cmd, sizeof(cmd), "addr2line -Cfsie /proc/%d/exe %p 2>/dev/null", (int)getpid(),
           (void*)((uintptr_t)pc - 1 - RtExeBase()));
  FILE* f = popen(cmd, "r");
  std::string r;
  if (f) {
    char line[2048];
    std::vector<std::string> ls;
    while (fgets(line, sizeof(line), f)) {
      std::string s(line);
      while (!s.empty() && (s.back() == '\n')) s.pop_back();
      ls.push_back(s);
    }
    pclose(f);
    for (size_t i = 0; i + 1 < ls.size(); i += 2) {
      std::string fn = ls[i];
      if ((fn.rfind("std::", 0) == 0 || fn.find("__gnu") != std::string::npos) && i + 3 < ls.size()) continue;
      if (!r.empty()) r += " < ";
      r += fn.substr(0, 160) + " (" + ls[i + 1] + ")";
    }
  }
  return r;
}

bool RtIsKnown(const std::string& id) {
  for (auto& k : args().known) {
    if (!k.empty() && id.find(k) != std::string::npos) {
      if (!g_known_hits) g_known_hits = new std::map<std::string, long>();
      (*g_known_hits)[k]++;
      return true;
    }
  }
  return false;
}

static void WriteStats(FILE* f) {
  fprintf(f, "\"sum\": {");
  bool first = true;
  if (g_sum) for (auto& p : *g_sum) { fprintf(f, "%s%s: %.17g", first ? "" : ", ", Esc(p.first).c_str(), p.second); first = false; }
  fprintf(f, "}, \"max\": {");
  first = true;
  if (g_max) for (auto& p : *g_max) { fprintf(f, "%s%s: %.17g", first ? "" : ", ", Esc(p.first).c_str(), p.second); first = false; }
  fprintf(f, "}, \"samples\": [");
  first = true;
  if (g_samples) for (auto& s : *g_samples) { fprintf(f, "%s%s", first ? "" : ", ", Esc(s).c_str()); first = false; }
  fprintf(f, "], \"notes\": [");
  first = true;
  if (g_notes) for (auto& s : *g_notes) { fprintf(f, "%s%s", first ? "" : ", ", Esc(s).c_str()); first = false; }
  fprintf(f, "], \"known\": {");
  first = true;
  if (g_known_hits) for (auto& p : *g_known_hits) { fprintf(f, "%s%s: %ld", first ? "" : ", ", Esc(p.first).c_str(), p.second); first = false; }
  fprintf(f, "}");
}

[[noreturn]] void RtDie(const std::string& id, const std::string& full, const std::string& scenario,
                        const std::string& schedule) {
  rt_in++;
  RtQuiesce();
  if (g_dying) _exit(4);
  g_dying = true;
  std::string path = args().out + "/w" + std::to_string(args().worker) + ".json";
  FILE* f = fopen(path.c_str(), "w");
  if (f) {
    fprintf(f, "{\"violation\": {\"id\": %s, \"what\": %s, \"scenario\": %s, \"schedule\": %s, \"context\": %s},\n",
            Esc(id).c_str(), Esc(full).c_str(), Esc(scenario).c_str(), Esc(schedule).c_str(),
            Esc(g_context ? *g_context : "").c_str());
    WriteStats(f);
    fprintf(f, "}\n");
    fclose(f);
  }
  fprintf(stderr, "FAILED: %s\n", full.c_str());
  _exit(3);
}

void Violation(const std::string& id, const std::string& what) {
  Quiet q;
  if (RtIsKnown(id)) return;
  RtDie(id, id + "\n" + what + "\ncontext: " + (g_context ? *g_context : ""), RtScenario(), RtSchedule());
}

void Stat(const std::string& k, double v) { Quiet q; if (!g_sum) g_sum = new std::map<std::string, double>; (*g_sum)[k] += v; }
void StatMax(const std::string& k, double v) {
  Quiet q;
  if (!g_max) g_max = new std::map<std::string, double>;
  auto& r = (*g_max)[k];
  r = std::max(r, v);
}
void Sample(const std::string& s) {
  Quiet q;
  if (!g_samples) g_samples = new std::vector<std::string>;
  if (g_samples->size() < 12) g_samples->push_back(s);
}
void Note(const std::string& s) {
  Quiet q;
  if (!g_notes) g_notes = new std::vector<std::string>;
  if (g_notes->size() < 200 && std::find(g_notes->begin(), g_notes->end(), s) == g_notes->end()) g_notes->push_back(s);
}

void FinishReport() {
  rt_in++;
  std::string path = args().out + "/w" + std::to_string(args().worker) + ".json";
  FILE* f = fopen(path.c_str(), "w");
  if (f) {
    fprintf(f, "{");
    WriteStats(f);
    fprintf(f, "}\n");
    fclose(f);
  }
  fflush(stdout);
  _exit(0);
}

static const char* sig_name(int s) {
  switch (s) {
    case SIGSEGV: return "SIGSEGV";
    case SIGABRT: return "SIGABRT";
    case SIGBUS: return "SIGBUS";
    case SIGFPE: return "SIGFPE";
    case SIGILL: return "SIGILL";
    case SIGALRM: return "SIGALRM (hang)";
  }
  return "signal";
}
static volatile sig_atomic_t in_handler = 0;
static void Handler(int sig, siginfo_t* si, void*) {
  if (in_handler) _exit(5);
  in_handler = 1;
  rt_in++;
  RtQuiesce();
  signal(SIGALRM, SIG_DFL);
  alarm(20);
  void* bt[40];
  int n = backtrace(bt, 40);
  std::string s;
  int shown = 0;
  for (int i = 0; i < n && shown < 12; i++) {
    std::string t = Symbolize(bt[i]);
    if (t.empty() || t.find("??") == 0 || t.find("mc::") == 0) continue;
    if (t.find("Handler") == 0) continue;
    s += "\n  " + t;
    shown++;
  }
  char b[64];
  snprintf(b, sizeof(b), " at address %p", si ? si->si_addr : nullptr);
  std::string id = std::string(sig == SIGALRM ? "hang" : "crash") + " " + sig_name(sig);
  RtDie(id, id + b + s + "\ncontext: " + (g_context ? *g_context : "") + "\nscenario: " + RtScenario() +
        "\nschedule: " + RtSchedule(), RtScenario(), RtSchedule());
}

void InitReport(int argc, char** argv) {
  Args& a = args();
  for (int i = 1; i < argc; i++) {
    std::string s = argv[i];
    auto eq = s.find('=');
    if (s.rfind("--", 0) != 0 || eq == std::string::npos) continue;
    std::string k = s.substr(2, eq - 2), v = s.substr(eq + 1);
    if (k == "tier") a.tier = v;
    else if (k == "out") a.out = v;
    else if (k == "replay") a.replay = v;
    else if (k == "only") a.only = v;
    else if (k == "worker") a.worker = atoi(v.c_str());
    else if (k == "num_workers") a.num_workers = atoi(v.c_str());
    else if (k == "time") a.time = atof(v.c_str());
    else if (k == "known") a.known.push_back(v);
    else a.kv[k] = v;
  }
  // One core per worker: the threads of an execution never run at the same time.
  cpu_set_t all, one;
  if (a.num_workers > 1 && sched_getaffinity(0, sizeof(all), &all) == 0) {
    std::vector<int> cpus;
    for (int c = 0; c < CPU_SETSIZE; c++) if (CPU_ISSET(c, &all)) cpus.push_back(c);
    if ((int)cpus.size() >= a.num_workers) {
      CPU_ZERO(&one);
      CPU_SET(cpus[a.worker % cpus.size()], &one);
      sched_setaffinity(0, sizeof(one), &one);
    }
  }
  static char alt[262144];
  stack_t ss = {};
  ss.ss_sp = alt;
  ss.ss_size = sizeof(alt);
  sigaltstack(&ss, nullptr);
  struct sigaction sa = {};
  sa.sa_sigaction = Handler;
  sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
  for (int s : {SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL, SIGALRM}) sigaction(s, &sa, nullptr);
  void* bt[4];
  backtrace(bt, 4);
  RtExeBase();
}

}  // namespace mc

#if defined(__SANITIZE_ADDRESS__) || defined(MC_ASAN)
extern "C" const char* __asan_default_options() {
  return "abort_on_error=1:handle_segv=0:handle_abort=0:handle_sigbus=0:handle_sigfpe=0:"
         "detect_leaks=0:allocator_may_return_null=1:detect_odr_violation=0:quarantine_size_mb=8:"
         "detect_stack_use_after_return=0";
}
#endif
