// Public interface of the exploration runtime (engine/rt_sched.cc, engine/rt_fs.cc).
//
// rt_sched.cc is a stateless model checker: it *is* the ThreadSanitizer runtime the code under test
// is linked with, so every std::atomic operation, every pthread primitive, every yield, every sleep
// and every file system call of the real code is a scheduling point it owns, and every plain memory
// access feeds a happens-before race detector.
// rt_fs.cc owns the file system calls: it records every effect (including individual stores into
// shared file mappings), and can make a chosen call fail.
#pragma once
#include <cstdint>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <vector>

namespace mc {

// ---------------------------------------------------------------- controlled schedules
struct ExploreOptions {
  int bound = 2;             // preemption bound
  long max_steps = 200000;   // scheduling points per execution before it is cut (reported)
  double time_limit = 60;    // seconds
  int worker = 0, num_workers = 1;
  bool races = true;         // report data races
  bool io_points = true;     // file system calls are scheduling points
  bool spurious = false;     // condition variables may wake without a signal
};
struct ExploreResult {
  long executions = 0;       // schedules executed
  long points = 0;           // scheduling points with more than one enabled thread (choices taken)
  long steps = 0;            // visible operations executed
  long cut = 0;              // executions that ran into max_steps
  int bound_done = -1;       // largest preemption bound whose whole space was explored by this worker
  bool complete = false;
  std::map<std::string, long> outcomes;
  long max_steps_seen = 0;
};
// Runs `body` as thread 0 under every schedule of the threads it creates, up to the bound.
ExploreResult Explore(const std::string& scenario, const ExploreOptions& opt,
                      const std::function<void()>& body);
// Runs exactly one schedule (a replay).
void Replay(const std::string& scenario, const std::vector<int>& choices,
            const std::function<void()>& body, const ExploreOptions& opt);

// What the harnesses use: explores (or replays, as the arguments say) and adds to the statistics.
void RunScenario(const std::string& name, int bound, const std::function<void()>& body,
                 double share = 0, ExploreOptions o = ExploreOptions());

// Called from scenario bodies (any controlled thread).
[[noreturn]] void Fail(const std::string& what);       // a violation on the current schedule
void Outcome(const std::string& text);                 // the observable result of this execution
bool InExec();
void Point();                                          // a scheduling point: between two operations of a driver
int CurrentThread();
long Now();                                            // logical time: strictly increasing event stamp
// A history log kept outside the instrumented world.
struct Event { int thread; long inv, res; int op; std::string a, b, r; };
int BeginOp(int op, const std::string& a, const std::string& b);
void EndOp(int id, const std::string& r);
const std::vector<Event>& History();
int Choose(int n);                                     // a free data choice explored exhaustively
void NoSched(bool on);                                 // switch off scheduling points in set-up code
void SetContext(const std::string& s);                 // context shown when the process dies

// ---------------------------------------------------------------- reporting
// Every harness ends through these. A violation is written to <out>/violation.json and the process
// exits with 3.
void InitReport(int argc, char** argv);
struct Args {
  std::string tier = "quick", out = ".", replay, only;
  int worker = 0, num_workers = 1;
  double time = 60;
  std::vector<std::string> known;   // known findings: substrings that identify a listed failure
  long opt(const std::string& k, long d) const;
  std::map<std::string, std::string> kv;
};
Args& args();
void Stat(const std::string& key, double v);           // summed over workers by run.py
void StatMax(const std::string& key, double v);
void Sample(const std::string& s);
void Note(const std::string& s);
// Reports a violation found outside of a controlled execution. `id` identifies the failing input or
// history; if it matches a listed known finding it is counted and the run goes on.
void Violation(const std::string& id, const std::string& what);
void FinishReport();

// ---------------------------------------------------------------- file system effects
struct FsEvent {
  enum Kind { CREATE, WRITE, TRUNC, RENAME, UNLINK, FSYNC, FSYNCDIR, MARK, SYNCRANGE } kind;
  int inode = -1;
  int64_t off = 0, len = 0;
  std::string data;       // WRITE
  std::string path, path2;
  bool mapped = false;    // a store through a mapping
  std::string ToString() const;
};
void FsScope(const std::string& dir);    // the directory whose files matter (scheduling points, faults)
void FsStart(const std::string& dir);    // start recording effects on files below dir
std::vector<FsEvent> FsStop();
void FsMark(const std::string& label);   // put a label into the event log
bool FsRecording();

// Fault plan: the calls that match are counted, and call number `nth` (0-based) fails.
struct FaultPlan {
  long nth = -1;
  int err = 5;
  int count = 1;              // how many consecutive matching calls fail
  std::string kinds;          // comma separated list of call names, empty for all
  bool short_io = false;      // a short transfer instead of an error
};
void FaultArm(const FaultPlan& plan);
bool FaultFired();
long FaultDisarm(bool* fired = nullptr, std::string* what = nullptr);   // returns the number of matching calls seen

}  // namespace mc
