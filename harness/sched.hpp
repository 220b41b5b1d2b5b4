// A controlled scheduler for real threads, with happens-before race detection.
//
// The code under test is compiled with the compiler's thread instrumentation but linked with
// the runtime in sched.cpp in place of the sanitizer's: exactly one thread runs at a time, and
// the explorer decides at every synchronisation operation which one goes on.  An execution
// without a data race behaves like one that switches only at synchronisation operations, and
// every data race is reported, so choosing there is enough.
#ifndef VERIF_SCHED_HPP
#define VERIF_SCHED_HPP

#include <cstddef>
#include <cstdint>
#include <functional>
#include <vector>

namespace sched {

constexpr unsigned max_threads = 3;
constexpr unsigned max_choices = 4096;

struct Choice {
  std::uint8_t chosen = 0;    // position among the threads that may go on
  std::uint8_t options = 0;   // how many may go on
  std::uint8_t costs = 0;     // whether another position than 0 is a preemption
};

// The synchronisation objects met so far.  Only an operation on an object that several
// threads use and one of them changes can depend on an operation of another thread, so only
// those are places to switch.  Kept over the executions of one exploration, which starts
// again whenever this has grown.
struct Objects {
  static constexpr unsigned max = 1024;
  struct Object {
    std::uintptr_t address;
    std::uint8_t users, writers;  // one bit for each thread
    bool visible () const { return writers != 0 && (users & (users - 1)) != 0; }
  };
  Object object[max];
  unsigned count;
  bool grown, overflow;  // overflow: every further object is a place to switch
};

// What one execution tells the explorer; lives in memory shared with it.
struct Report {
  std::uint64_t accesses, sync_operations, shared_locations;
  unsigned choices;           // recorded choices
  unsigned preemptions;
  bool deadlock, race, overflow;
  char message[1500];
  Choice trace[max_choices];
};

// Runs the bodies as threads, following the given choices and then always the first option.
// Called once in a process.
void run (std::vector<std::function<void ()>> const& bodies, std::vector<std::uint8_t> const& prefix, Report& report,
          Objects& objects);

}  // namespace sched

#endif
