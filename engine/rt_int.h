// Internal interface between the parts of the runtime.
#pragma once
#include <cstddef>
#include <cstdint>
#include <string>

namespace mc {
[[noreturn]] void RtDie(const std::string& id, const std::string& full, const std::string& scenario,
                        const std::string& schedule);
bool RtIsKnown(const std::string& id);
uintptr_t RtExeBase();
double RtWall();
std::string Symbolize(const void* pc);
// rt_sched.cc
void RtPoint();
void RtIoPoint();
void RtBufferAccess(const void* p, size_t n, bool w);
void RtClearRange(const void* p, size_t n);
void RtQuiesce();                        // switch the scheduler off before dying
std::string RtScenario();
std::string RtSchedule();
extern __thread int rt_in;               // >0: inside the runtime
// rt_fs.cc
extern bool rt_fs_maps;                  // there are recorded mappings
// Shared file mappings: accesses are file I/O, not memory accesses; only their life time is checked.
extern uintptr_t rt_map_lo, rt_map_hi;   // bounds of the live mappings
uintptr_t RtMapBase(uintptr_t p);        // base of the mapping p is in, or 0
bool RtRaceOn();
static inline bool RtMaybeMap(const void* p) { return (uintptr_t)p - rt_map_lo < rt_map_hi - rt_map_lo; }
void RtStoreSlow(void* p, size_t n);
void RtStoreDoneSlow(void* p, size_t n);
static inline void RtStoreHook(void* p, size_t n) { if (__builtin_expect(rt_fs_maps, 0)) RtStoreSlow(p, n); }
static inline void RtStoreDone(void* p, size_t n) { if (__builtin_expect(rt_fs_maps, 0)) RtStoreDoneSlow(p, n); }
}  // namespace mc
