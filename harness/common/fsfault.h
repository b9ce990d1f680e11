// Crash points and I/O faults: interposes the libc calls that change the file
// system and counts those that concern paths below one root directory.
#ifndef VERIF_FSFAULT_H_
#define VERIF_FSFAULT_H_
#include <functional>
#include <string>
#include <vector>
namespace mcfs {
enum class Mode { kOff, kRecord, kFault, kCrash };
// Variants of what happens at call number `at` (from 0):
//  kFault: 0 the call fails and has no effect; 1 writes: half is written, then fails
//          2: this and all later calls fail
//          3: writes and reads: only half is done, which the call reports; others as 0
//  kCrash: 0 dies before the call; 1 dies after it; 2 writes: dies half-way
void Start(const std::string& root, Mode mode, int at = -1, int variant = 0);
void Stop();
int Count();                             // calls seen since Start
const std::vector<std::string>& Log();   // what they were
bool Fired();
extern bool g_reads;  // opening for reading and reading count as well
constexpr int kCrashExit = 77;
// Runs f in a child that is crashed at call `at`; returns true when the crash
// point was reached.  f's own completion exits the child normally.
bool RunAndCrash(const std::string& root, int at, int variant, const std::function<void()>& f);
}  // namespace mcfs
#endif
