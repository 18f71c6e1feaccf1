#include <algorithm>
#include <sys/resource.h>
// sim_*: what the tracker's libc references are renamed to. Each calls the real
// function on real kernel objects of the run's scratch directory and applies the
// fault armed for the current operation, if any.
#include "seams.h"
#include "sched.h"
#include <arpa/inet.h>
#include <cerrno>
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <malloc.h>
#include <map>
#include <netinet/in.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <unistd.h>
#include <unordered_map>

using sim::block_on;
using sim::Fault;
using sim::take_fault;
using sim::wake;
using sim::Yield;
using sim::yield_point;

namespace sim {
static std::map<int, Sock> socks;
static thread_local int nextfam = AF_INET;
static int sock_ids = 0;
Sock *sock_of(int fd) {
  auto it = socks.find(fd);
  return it == socks.end() ? nullptr : &it->second;
}
void sock_add(int fd, Sock s) {
  s.id = ++sock_ids;
  socks[fd] = s;
}
void sock_del(int fd) { socks.erase(fd); }
int next_family() { return nextfam; }
void set_next_family(int f) { nextfam = f; }
} // namespace sim

static inline void io() { yield_point(Yield::Io); }
// Limits a count ("short") or reports an error ("err"): returns true on error.
static bool apply(char const *fn, size_t *n) {
  io();
  if (auto f = take_fault(fn)) {
    if (f->kind == "err") {
      errno = static_cast<int>(f->arg);
      return true;
    }
    if (f->kind == "short" && n && *n > static_cast<size_t>(f->arg))
      *n = static_cast<size_t>(f->arg);
  }
  return false;
}

int sim::high_fd(int fd) {
  struct rlimit old, rl;
  getrlimit(RLIMIT_NOFILE, &old);
  rl = {std::max<rlim_t>(old.rlim_cur, std::min<rlim_t>(old.rlim_max, 4096)), old.rlim_max};
  setrlimit(RLIMIT_NOFILE, &rl);
  int hi = fcntl(fd, F_DUPFD, 700);
  setrlimit(RLIMIT_NOFILE, &old);
  close(fd);
  return hi;
}
bool sim::starting = false;
// Until the tracker opens its file, an earlier trace is still in place.
static int note_open(int fd, bool writable) {
  if (sim::starting && writable && fd >= 0)
    sim::hist("TRACEOPEN");
  return fd;
}
extern "C" {
static int do_open(char const *p, int fl, mode_t m) {
  if (apply("open", nullptr))
    return -1;
  return note_open(open(p, fl, m), (fl & O_ACCMODE) != O_RDONLY);
}
#define MODE                                                                   \
  mode_t m = 0;                                                                \
  {                                                                            \
    va_list ap;                                                                \
    va_start(ap, fl);                                                          \
    m = static_cast<mode_t>(va_arg(ap, unsigned));                             \
    va_end(ap);                                                                \
  }
int sim_open(char const *p, int fl, ...) { MODE return do_open(p, fl, m); }
int sim_open64(char const *p, int fl, ...) { MODE return do_open(p, fl, m); }
int sim_openat(int d, char const *p, int fl, ...) {
  MODE if (apply("open", nullptr)) return -1;
  return note_open(openat(d, p, fl, m), (fl & O_ACCMODE) != O_RDONLY);
}
int sim_openat64(int d, char const *p, int fl, ...) {
  MODE if (apply("open", nullptr)) return -1;
  return note_open(openat(d, p, fl, m), (fl & O_ACCMODE) != O_RDONLY);
}
FILE *sim_fopen(char const *p, char const *m) {
  if (apply("fopen", nullptr))
    return nullptr;
  FILE *f = fopen(p, m);
  if (f)
    note_open(fileno(f), m[0] != 'r' || strchr(m, '+'));
  return f;
}
FILE *sim_fopen64(char const *p, char const *m) { return sim_fopen(p, m); }
ssize_t sim_read(int fd, void *b, size_t n) {
  if (apply("read", &n))
    return -1;
  return read(fd, b, n);
}
ssize_t sim_pread(int fd, void *b, size_t n, off_t o) {
  if (apply("pread", &n))
    return -1;
  return pread(fd, b, n, o);
}
ssize_t sim_pread64(int fd, void *b, size_t n, off_t o) { return sim_pread(fd, b, n, o); }
ssize_t sim_recv(int fd, void *b, size_t n, int fl) {
  if (apply("recv", &n))
    return -1;
  return recv(fd, b, n, fl);
}
ssize_t sim_recvfrom(int fd, void *b, size_t n, int fl, sockaddr *a, socklen_t *l) {
  if (apply("recvfrom", &n))
    return -1;
  return recvfrom(fd, b, n, fl, a, l);
}
ssize_t sim_write(int fd, void const *b, size_t n) {
  if (apply("write", &n))
    return -1;
  return write(fd, b, n);
}
ssize_t sim_writev(int fd, iovec const *v, int c) {
  io();
  return writev(fd, v, c);
}
ssize_t sim_send(int fd, void const *b, size_t n, int fl) {
  if (apply("send", &n))
    return -1;
  return send(fd, b, n, fl | MSG_NOSIGNAL);
}
void *sim_mmap(void *a, size_t l, int p, int f, int fd, off_t o) {
  if (apply("mmap", nullptr))
    return MAP_FAILED;
  return mmap(a, l, p, f, fd, o);
}
void *sim_mmap64(void *a, size_t l, int p, int f, int fd, off_t o) { return sim_mmap(a, l, p, f, fd, o); }
int sim_munmap(void *a, size_t l) {
  if (apply("munmap", nullptr))
    return -1;
  return munmap(a, l);
}
int sim_ftruncate(int fd, off_t n) {
  if (apply("ftruncate", nullptr))
    return -1;
  return ftruncate(fd, n);
}
int sim_ftruncate64(int fd, off_t n) { return sim_ftruncate(fd, n); }
int sim_msync(void *a, size_t n, int f) { io(); return msync(a, n, f); }
int sim_fsync(int fd) { io(); return fsync(fd); }
int sim_fdatasync(int fd) { io(); return fdatasync(fd); }
int sim_fallocate(int fd, int m, off_t o, off_t l) { io(); return fallocate(fd, m, o, l); }
int sim_posix_fallocate(int fd, off_t o, off_t l) { io(); return posix_fallocate(fd, o, l); }
int sim_fallocate64(int fd, int m, off_t o, off_t l) { io(); return fallocate(fd, m, o, l); }
int sim_posix_fallocate64(int fd, off_t o, off_t l) { io(); return posix_fallocate(fd, o, l); }
int sim_rename(char const *a, char const *b) { io(); return rename(a, b); }
int sim_unlink(char const *a) { io(); return unlink(a); }
int sim_close(int fd) {
  io();
  // Linux releases the descriptor even when close reports an error
  if (auto f = take_fault("close")) {
    close(fd);
    sim::sock_del(fd);
    errno = static_cast<int>(f->arg);
    return -1;
  }
  sim::sock_del(fd);
  return close(fd);
}
off_t sim_lseek(int fd, off_t o, int w) { io(); return lseek(fd, o, w); }
off_t sim_lseek64(int fd, off_t o, int w) { io(); return lseek(fd, o, w); }
off_t sim_ftello(FILE *f) { io(); return ftello(f); }
off_t sim_ftello64(FILE *f) { io(); return ftello(f); }
#define S1(R, N, P, A) R sim_##N P { io(); return N A; }
S1(size_t, fread, (void *b, size_t s, size_t c, FILE *f), (b, s, c, f))
S1(size_t, fread_unlocked, (void *b, size_t s, size_t c, FILE *f), (b, s, c, f))
S1(int, fgetc, (FILE * f), (f))
S1(int, fgetc_unlocked, (FILE * f), (f))
S1(int, getc, (FILE * f), (f))
S1(int, getc_unlocked, (FILE * f), (f))
S1(int, getchar, (), ())
S1(int, getchar_unlocked, (), ())
S1(char *, fgets, (char *b, int n, FILE *f), (b, n, f))
S1(ssize_t, getdelim, (char **b, size_t *n, int d, FILE *f), (b, n, d, f))
S1(ssize_t, __getdelim, (char **b, size_t *n, int d, FILE *f), (b, n, d, f))
S1(size_t, fwrite, (void const *b, size_t s, size_t c, FILE *f), (b, s, c, f))
S1(int, fputc, (int c, FILE *f), (c, f))
S1(int, putc, (int c, FILE *f), (c, f))
S1(int, fputc_unlocked, (int c, FILE *f), (c, f))
S1(int, putc_unlocked, (int c, FILE *f), (c, f))

// --- simulated network: socket pairs that present themselves as AF_INET -------
static void fill(sockaddr *a, socklen_t *l, int fam, uint32_t ip, int port) {
  if (!a || !l)
    return;
  if (fam == AF_INET) {
    sockaddr_in s{};
    s.sin_family = AF_INET;
    s.sin_addr.s_addr = htonl(ip);
    s.sin_port = htons(port);
    memcpy(a, &s, std::min<size_t>(*l, sizeof s));
    *l = sizeof s;
  } else if (fam == AF_INET6) {
    sockaddr_in6 s{};
    s.sin6_family = AF_INET6;
    s.sin6_port = htons(port);
    memcpy(a, &s, std::min<size_t>(*l, sizeof s));
    *l = sizeof s;
  } else {
    sa_family_t f = AF_UNIX;
    memcpy(a, &f, std::min<size_t>(*l, sizeof f));
    *l = sizeof f;
  }
}
static int do_accept(sockaddr *a, socklen_t *l) {
  if (apply("accept", nullptr))
    return -1;
  int sv[2];
  if (socketpair(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0, sv))
    return -1;
  int hi = sim::high_fd(sv[1]);
  sim::sock_add(sv[0], {hi, 0, sim::next_family()});
  auto s = sim::sock_of(sv[0]);
  fill(a, l, s->family, 0x7f000002, 20000 + s->id);
  return sv[0];
}
int sim_accept(int, sockaddr *a, socklen_t *l) { return do_accept(a, l); }
int sim_accept4(int, sockaddr *a, socklen_t *l, int) { return do_accept(a, l); }
int sim_connect(int fd, sockaddr const *, socklen_t) {
  if (apply("connect", nullptr))
    return -1;
  if (!sim::sock_of(fd)) {
    errno = ENOTSOCK;
    return -1;
  }
  return 0;
}
int sim_getsockname(int fd, sockaddr *a, socklen_t *l) {
  if (apply("getsockname", nullptr))
    return -1;
  auto s = sim::sock_of(fd);
  if (!s)
    return getsockname(fd, a, l);
  fill(a, l, s->family, 0x7f000001, 8000);
  return 0;
}
int sim_getpeername(int fd, sockaddr *a, socklen_t *l) {
  if (apply("getpeername", nullptr))
    return -1;
  auto s = sim::sock_of(fd);
  if (!s)
    return getpeername(fd, a, l);
  fill(a, l, s->family, 0x7f000002, 20000 + s->id);
  return 0;
}

// --- allocation -----------------------------------------------------------------
void *sim_malloc(size_t n) {
  if (auto f = take_fault("malloc")) {
    errno = ENOMEM;
    return nullptr;
  }
  return malloc(n);
}
void *sim_realloc(void *p, size_t n) {
  if (auto f = take_fault("realloc")) {
    if (f->kind == "err") {
      errno = ENOMEM;
      return nullptr;
    }
    if (f->kind == "move" && p && n) { // an allocator is free to move any block
      void *q = malloc(n);
      memcpy(q, p, std::min(n, malloc_usable_size(p)));
      free(p);
      return q;
    }
  }
  return realloc(p, n);
}

// --- synchronisation --------------------------------------------------------------
struct Mx {
  sim::Thread *owner{nullptr};
  int readers{0};
};
static std::unordered_map<void *, Mx> &mxs() {
  static auto m = new std::unordered_map<void *, Mx>;
  return *m;
}
static bool on() { return sim::active && sim::self(); }
int sim_pthread_mutex_lock(pthread_mutex_t *m) {
  if (!on())
    return 0;
  yield_point(Yield::Lock);
  while (mxs()[m].owner)
    block_on(m);
  mxs()[m].owner = sim::self();
  return 0;
}
int sim_pthread_mutex_trylock(pthread_mutex_t *m) {
  if (!on())
    return 0;
  yield_point(Yield::Lock);
  if (mxs()[m].owner)
    return EBUSY;
  mxs()[m].owner = sim::self();
  return 0;
}
int sim_pthread_mutex_unlock(pthread_mutex_t *m) {
  if (!on())
    return 0;
  mxs()[m].owner = nullptr;
  wake(m);
  yield_point(Yield::Lock);
  return 0;
}
int sim_pthread_rwlock_rdlock(pthread_rwlock_t *m) {
  if (!on())
    return 0;
  yield_point(Yield::Lock);
  while (mxs()[m].owner)
    block_on(m);
  ++mxs()[m].readers;
  return 0;
}
int sim_pthread_rwlock_wrlock(pthread_rwlock_t *m) {
  if (!on())
    return 0;
  yield_point(Yield::Lock);
  while (mxs()[m].owner || mxs()[m].readers)
    block_on(m);
  mxs()[m].owner = sim::self();
  return 0;
}
int sim_pthread_rwlock_unlock(pthread_rwlock_t *m) {
  if (!on())
    return 0;
  auto &x = mxs()[m];
  if (x.owner)
    x.owner = nullptr;
  else if (x.readers)
    --x.readers;
  wake(m);
  yield_point(Yield::Lock);
  return 0;
}
int sim_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
  if (!on())
    return 0;
  mxs()[m].owner = nullptr;
  wake(m);
  block_on(c);
  return sim_pthread_mutex_lock(m);
}
int sim_pthread_cond_signal(pthread_cond_t *c) {
  if (on()) {
    wake(c);
    yield_point(Yield::Lock);
  }
  return 0;
}
int sim_pthread_cond_broadcast(pthread_cond_t *c) { return sim_pthread_cond_signal(c); }
static std::unordered_map<void *, int> &guards() {
  static auto g = new std::unordered_map<void *, int>;
  return *g;
}
int sim___cxa_guard_acquire(long *g) {
  if (on())
    yield_point(Yield::Lock);
  for (;;) {
    if (*reinterpret_cast<volatile char *>(g))
      return 0;
    if (!guards()[g]) {
      guards()[g] = 1;
      return 1;
    }
    if (!on())
      return 0;
    block_on(g);
  }
}
void sim___cxa_guard_release(long *g) {
  *reinterpret_cast<volatile char *>(g) = 1;
  guards()[g] = 0;
  wake(g);
  if (on())
    yield_point(Yield::Lock);
}
void sim___cxa_guard_abort(long *g) {
  guards()[g] = 0;
  wake(g);
}
int sim_pthread_once(pthread_once_t *o, void (*f)()) {
  static auto done = new std::unordered_map<void *, bool>;
  if (on())
    yield_point(Yield::Lock);
  for (;;) {
    if ((*done)[o])
      return 0;
    if (!guards()[o]) {
      guards()[o] = 1;
      f();
      (*done)[o] = true;
      guards()[o] = 0;
      wake(o);
      return 0;
    }
    if (!on())
      return 0;
    block_on(o);
  }
}
int sim_sched_yield() {
  yield_point(Yield::Lock);
  return 0;
}
int sim_usleep(unsigned) {
  yield_point(Yield::Lock);
  return 0;
}
int sim_nanosleep(void const *, void *) {
  yield_point(Yield::Lock);
  return 0;
}
int sim_atexit(void (*f)()) { return atexit(f); }
void sim_exit(int rc) {
  io();
  exit(rc);
}
}
