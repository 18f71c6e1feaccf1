// Deterministic baton scheduler: exactly one simulated thread runs at a time and
// every switch is decided here from the seed (or from a recorded trace).
#pragma once
#include <cstdint>
#include <pthread.h>
#include <semaphore.h>
#include <string>
#include <unordered_map>
#include <vector>

namespace sim {

enum class Yield { Mem, Atomic, Lock, Op, Io };

struct Fault {
  std::string fn, kind;
  long arg{0};
  int op{-1}; // the operation it is armed for
  bool fired{false};
};

struct Thread {
  int id{0};
  enum State { Runnable, Blocked, Done } state{Runnable};
  void const *wait_on{nullptr};
  uint64_t local{0};      // this thread's own yield count
  uint64_t streak{0};     // yields since it last got the baton
  int prio{0};
  sem_t go;
  uintptr_t stack_lo{0}, stack_hi{0};
  pthread_t pt;
  bool quiet{false};      // in the executor's own bookkeeping: no scheduling
  std::vector<Fault> faults; // armed for the current op
  size_t replay_pos{0};
};

struct Switch {
  int tid;
  uint64_t local;
  int to;
};

struct Config {
  std::string mode{"random"}; // random | pct | op | replay
  uint64_t seed{1};
  uint32_t mean{50};
  uint32_t depth{2};
  uint32_t horizon{3000};
  uint64_t crash_at{0};      // global step, or
  int crash_tid{-1};         // (thread, its own step)
  uint64_t crash_local{0};
  uint64_t max_steps{20000000};
  uint32_t fair{20000}; // forced switch after so many yields without one
  std::vector<Switch> replay;
};

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) {}
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
};

extern Config cfg;
extern bool active;
extern uint64_t step;
extern std::vector<Thread *> threads;

// Lives in memory shared with the server, so it survives any death of the run.
struct Shared {
  uint64_t steps, hash, counts[5], nsw, crash_tid, crash_local;
  struct {
    uint32_t tid, to;
    uint64_t local;
  } sw[1 << 17];
};
extern Shared *shared;

Thread *self();
void set_self(Thread *);
void init_main();
Thread *spawn(void (*fn)(int), int id);
void thread_exit();
void wait_for(int id);
void yield_point(Yield kind);
void block_on(void const *what);
void wake(void const *what);
void note_stack(Thread *t);

// history (lives in shared memory: survives SIGKILL of the simulated process)
void hist(char const *fmt, ...) __attribute__((format(printf, 1, 2)));
void hist_init(char *base, size_t cap);
[[noreturn]] void die(int code);

// faults
Fault *take_fault(char const *fn);
} // namespace sim
