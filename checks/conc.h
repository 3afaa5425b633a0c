// Helpers of the concurrency harnesses.
#pragma once
#include <unistd.h>
#include <dirent.h>
#include <sys/stat.h>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <set>
#include <string>
#include <thread>
#include <vector>
#include "mc.h"

#define NOSAN __attribute__((no_sanitize("thread")))

inline bool Thorough() { return mc::args().tier == "thorough"; }

// Runs the functions in threads of their own and waits for them.
inline void Par(const std::vector<std::function<void()>>& fs) {
  std::vector<std::thread> ts;
  ts.reserve(fs.size());
  for (auto& f : fs) ts.emplace_back(f);
  for (auto& t : ts) t.join();
}

inline std::string Scratch() {
  const char* s = getenv("VP_SCRATCH");
  return s ? s : "/tmp";
}
// Removes the plain files of a scratch directory (never recurses, never follows names outside).
inline void CleanDir(const std::string& dir) {
  if (dir.rfind("/dev/shm/vpmc.", 0) != 0 && dir.rfind("/tmp/", 0) != 0) return;
  DIR* d = opendir(dir.c_str());
  if (!d) return;
  std::vector<std::string> names;
  while (auto* e = readdir(d)) if (e->d_name[0] != '.') names.push_back(e->d_name);
  closedir(d);
  for (auto& n : names) ::unlink((dir + "/" + n).c_str());
}
