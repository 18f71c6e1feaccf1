#include "sched.h"
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <sys/syscall.h>
#include <unistd.h>

namespace sim {
Config cfg;
bool active = false;
uint64_t step = 0;
std::vector<Thread *> threads;
Shared *shared;

static thread_local Thread *tl_self = nullptr;
static Rng rng{1};
static uint64_t next_switch = 0;
static std::vector<uint64_t> change_points;
static int low_prio = -1;
static std::vector<std::vector<Switch>> replay_by_tid;

static char *h_base;
static size_t h_cap;

Thread *self() { return tl_self; }
void set_self(Thread *t) { tl_self = t; }

void hist_init(char *base, size_t cap) {
  h_base = base;
  h_cap = cap;
  *reinterpret_cast<uint64_t *>(h_base) = 8;
}

void hist(char const *fmt, ...) {
  auto &pos = *reinterpret_cast<volatile uint64_t *>(h_base);
  if (pos + 65536 > h_cap)
    return;
  va_list ap;
  va_start(ap, fmt);
  int n = vsnprintf(h_base + pos, h_cap - pos - 2, fmt, ap);
  va_end(ap);
  if (n < 0 || pos + n + 2 > h_cap)
    return;
  h_base[pos + n] = '\n';
  pos = pos + n + 1;
}

void die(int code) { syscall(SYS_exit_group, code); __builtin_unreachable(); }

static uint64_t gap() { return 1 + rng.below(2ull * cfg.mean); }

void note_stack(Thread *t) {
  pthread_attr_t a;
  void *addr;
  size_t size;
  pthread_getattr_np(pthread_self(), &a);
  pthread_attr_getstack(&a, &addr, &size);
  pthread_attr_destroy(&a);
  t->stack_lo = reinterpret_cast<uintptr_t>(addr);
  t->stack_hi = t->stack_lo + size;
}

void init_main() {
  rng = Rng{cfg.seed};
  auto t = new Thread;
  t->id = 0;
  sem_init(&t->go, 0, 0);
  t->prio = 1000 + static_cast<int>(rng.below(1000));
  t->pt = pthread_self();
  note_stack(t);
  threads.push_back(t);
  set_self(t);
  next_switch = gap();
  if (cfg.mode == "pct")
    for (uint32_t i = 0; i < cfg.depth; ++i)
      change_points.push_back(1 + rng.below(cfg.horizon));
  replay_by_tid.resize(64);
  for (auto &s : cfg.replay)
    if (s.tid >= 0 && s.tid < 64)
      replay_by_tid[s.tid].push_back(s);
  active = true;
}

struct Start {
  void (*fn)(int);
  Thread *t;
};

static void *tramp(void *p) {
  auto s = static_cast<Start *>(p);
  set_self(s->t);
  note_stack(s->t);
  while (sem_wait(&s->t->go) != 0)
    ;
  s->fn(s->t->id);
  delete s;
  thread_exit();
  return nullptr;
}

Thread *spawn(void (*fn)(int), int id) {
  auto t = new Thread;
  t->id = id;
  sem_init(&t->go, 0, 0);
  t->prio = 1000 + static_cast<int>(rng.below(1000));
  threads.push_back(t);
  pthread_create(&t->pt, nullptr, tramp, new Start{fn, t});
  return t;
}

static Thread *by_id(int id) {
  for (auto t : threads)
    if (t->id == id)
      return t;
  return nullptr;
}

static Thread *pick_forced(Thread *me) {
  // me cannot run (or must give way)
  std::vector<Thread *> r;
  for (auto t : threads)
    if (t->state == Thread::Runnable && t != me)
      r.push_back(t);
  if (r.empty())
    return me->state == Thread::Runnable ? me : nullptr;
  if (cfg.mode == "replay") {
    auto &v = replay_by_tid[me->id];
    while (me->replay_pos < v.size() && v[me->replay_pos].local < me->local)
      ++me->replay_pos;
    if (me->replay_pos < v.size() && v[me->replay_pos].local == me->local) {
      auto t = by_id(v[me->replay_pos].to);
      ++me->replay_pos;
      if (t && t->state == Thread::Runnable)
        return t;
    }
    return r[0];
  }
  if (cfg.mode == "pct") {
    Thread *b = r[0];
    for (auto t : r)
      if (t->prio > b->prio)
        b = t;
    return b;
  }
  return r[rng.below(r.size())];
}

static void hand_to(Thread *me, Thread *to, bool wait) {
  if (to == me)
    return;
  if (shared->nsw < sizeof(shared->sw) / sizeof(shared->sw[0])) {
    auto &e = shared->sw[shared->nsw++];
    e.tid = me->id;
    e.local = me->local;
    e.to = to->id;
  }
  to->streak = 0;
  sem_post(&to->go);
  if (wait)
    while (sem_wait(&me->go) != 0)
      ;
}

[[noreturn]] static void deadlock() {
  active = false;
  hist("DEADLOCK step=%llu", (unsigned long long)step);
  die(97);
}

void yield_point(Yield kind) {
  Thread *me = tl_self;
  if (!active || !me || me->quiet)
    return;
  ++step;
  ++me->local;
  ++me->streak;
  shared->steps = step;
  ++shared->counts[static_cast<int>(kind)];
  shared->hash = (shared->hash ^ (uint64_t(me->id) * 8 + uint64_t(kind))) * 1099511628211ull;
  if ((cfg.crash_at && step == cfg.crash_at) ||
      (me->id == cfg.crash_tid && me->local == cfg.crash_local)) {
    shared->crash_tid = me->id;
    shared->crash_local = me->local;
    hist("CRASH step=%llu", (unsigned long long)step);
    kill(getpid(), SIGKILL);
    for (;;)
      pause();
  }
  if (step > cfg.max_steps) {
    active = false;
    hist("LIVELOCK step=%llu", (unsigned long long)step);
    die(96);
  }
  if (threads.size() < 2)
    return;
  Thread *to = me;
  if (cfg.mode == "replay") {
    auto &v = replay_by_tid[me->id];
    while (me->replay_pos < v.size() && v[me->replay_pos].local < me->local)
      ++me->replay_pos;
    if (me->replay_pos < v.size() && v[me->replay_pos].local == me->local) {
      auto t = by_id(v[me->replay_pos].to);
      if (t && t->state == Thread::Runnable) {
        ++me->replay_pos;
        to = t;
      }
    }
    if (to == me && me->streak > cfg.fair)
      to = pick_forced(me);
  } else if (cfg.mode == "pct") {
    for (auto cp : change_points)
      if (cp == step)
        me->prio = low_prio--;
    if (me->streak > cfg.fair)
      me->prio = low_prio--;
    for (auto t : threads)
      if (t->state == Thread::Runnable && t->prio > to->prio)
        to = t;
  } else if (cfg.mode == "op") {
    if (kind == Yield::Op) {
      std::vector<Thread *> r;
      for (auto t : threads)
        if (t->state == Thread::Runnable)
          r.push_back(t);
      to = r[rng.below(r.size())];
    } else if (me->streak > cfg.fair)
      to = pick_forced(me);
  } else if (cfg.mode == "sync") {
    // switch only around locks, atomics and I/O
    if (kind != Yield::Mem || me->streak > cfg.fair) {
      if (rng.below(cfg.mean) == 0 || me->streak > cfg.fair)
        to = pick_forced(me);
    }
  } else {
    if (step >= next_switch || me->streak > cfg.fair) {
      next_switch = step + gap();
      to = pick_forced(me);
    }
  }
  if (to && to != me)
    hand_to(me, to, true);
}

void block_on(void const *what) {
  Thread *me = tl_self;
  ++me->local;
  me->state = Thread::Blocked;
  me->wait_on = what;
  Thread *to = pick_forced(me);
  if (!to)
    deadlock();
  hand_to(me, to, true);
}

void wake(void const *what) {
  for (auto t : threads)
    if (t->state == Thread::Blocked && t->wait_on == what) {
      t->state = Thread::Runnable;
      t->wait_on = nullptr;
    }
}

static char join_token;

void thread_exit() {
  Thread *me = tl_self;
  me->state = Thread::Done;
  wake(&join_token);
  ++me->local;
  Thread *to = pick_forced(me);
  if (!to)
    deadlock();
  hand_to(me, to, false);
}

void wait_for(int id) { // 0: all threads
  for (;;) {
    bool others = false;
    for (auto t : threads)
      if (t->id != 0 && (id == 0 || t->id == id) && t->state != Thread::Done)
        others = true;
    if (!others)
      return;
    block_on(&join_token);
  }
}

Fault *take_fault(char const *fn) {
  Thread *me = tl_self;
  if (!me)
    return nullptr;
  for (auto &f : me->faults)
    if (!f.fired && f.fn == fn) {
      f.fired = true;
      hist("FAULT t=%d fn=%s kind=%s arg=%ld op=%d", me->id, fn, f.kind.c_str(), f.arg, f.op);
      return &f;
    }
  return nullptr;
}
} // namespace sim
