// What the sequential harnesses that use lin.h need instead of the scheduler.
#pragma once
#include <cstdio>
#include <unistd.h>
#include "mc.h"
namespace mc {
[[noreturn]] void Fail(const std::string& what) { Violation("setup", what); FinishReport(); _exit(3); }
int CurrentThread() { return 0; }
void NoSched(bool) {}
}  // namespace mc
