// The simulated program: an interpreter that calls the tracker's C ABI the way
// instrumented code does, and the server that runs one forked process per scenario.
#include "sched.h"
#include "seams.h"
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <map>
#include <netinet/in.h>
#include <poll.h>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

typedef uint32_t L;
extern "C" {
void __taint_start();
void __polytracker_taint_argv(int, char **);
L dfsan_union(L, L);
void dfsan_set_label(L, void *, size_t);
L dfsan_read_label(void const *, size_t);
uint16_t __polytracker_log_func_entry(char *, uint16_t);
void __polytracker_log_func_exit(uint16_t);
void __dfsw___polytracker_log_conditional_branch(uint64_t, L);
void __polytracker_log_conditional_branch(L);
uint64_t __dfsw___polytracker_log_tainted_control_flow(uint64_t, uint32_t, L, L, L *);
void __polytracker_enter_function(uint32_t);
void __polytracker_leave_function(uint32_t);
int __dfsw_open(char const *, int, L, L, L *, L *, ...);
int __dfsw_open64(char const *, int, L, L, L *, L *, ...);
int __dfsw_openat(int, char const *, int, L, L, L *, L *, ...);
FILE *__dfsw_fopen(char const *, char const *, L, L, L *);
FILE *__dfsw_fopen64(char const *, char const *, L, L, L *);
int __dfsw_close(int, L, L *);
int __dfsw_fclose(FILE *, L, L *);
ssize_t __dfsw_read(int, void *, size_t, L, L, L, L *);
ssize_t __dfsw_pread(int, void *, size_t, off_t, L, L, L, L, L *);
ssize_t __dfsw_pread64(int, void *, size_t, off_t, L, L, L, L, L *);
size_t __dfsw_fread(void *, size_t, size_t, FILE *, L, L, L, L, L *);
size_t __dfsw_fread_unlocked(void *, size_t, size_t, FILE *, L, L, L, L, L *);
int __dfsw_fgetc(FILE *, L, L *);
int __dfsw_fgetc_unlocked(FILE *, L, L *);
int __dfsw__IO_getc(FILE *, L, L *);
int __dfsw_getc(FILE *, L, L *);
int __dfsw_getc_unlocked(FILE *, L, L *);
int __dfsw_getchar(L *);
int __dfsw_getchar_unlocked(L *);
char *__dfsw_gets(char *, L, L *);
char *gets(char *);
char *__dfsw_fgets(char *, int, FILE *, L, L, L, L *);
ssize_t __dfsw_getdelim(char **, size_t *, int, FILE *, L, L, L, L, L *);
ssize_t __dfsw___getdelim(char **, size_t *, int, FILE *, L, L, L, L, L *);
void *__dfsw_mmap(void *, size_t, int, int, int, off_t, L, L, L, L, L, L, L *);
int __dfsw_munmap(void *, size_t, L, L, L *);
void __dfsw_exit(int, L);
void __dfsw___assert_fail(char const *, char const *, unsigned, char const *, L, L, L, L);
int __dfsw_accept(int, sockaddr *, socklen_t *, L, L, L, L *);
int __dfsw_accept4(int, sockaddr *, socklen_t *, int, L, L, L, L, L *);
int __dfsw_connect(int, sockaddr const *, socklen_t, L, L, L, L *);
ssize_t __dfsw_recv(int, void *, size_t, int, L, L, L, L, L *);
ssize_t __dfsw_recvfrom(int, void *, size_t, int, sockaddr *, socklen_t *, L, L, L, L, L, L, L *);
ssize_t __dfsw_write(int, void *, size_t, L, L, L, L *);
size_t __dfsw_fwrite(void *, size_t, size_t, FILE *, L, L, L, L, L *);
int __dfsw_putc(int, FILE *, L, L, L *);
int __dfsw_fputc(int, FILE *, L, L, L *);
ssize_t __dfsw_send(int, void *, size_t, int, L, L, L, L, L *);
void *__dfsw_malloc(size_t, L, L *);
void *__dfsw_calloc(size_t, size_t, L, L, L *);
void *__dfsw_realloc(void *, size_t, L, L, L *);
void __dfsw_free(void *, L);
char *__dfsw_strcat(char *, char *, L, L, L *);
void *__dfsw_memcpy(void *, void const *, size_t, L, L, L, L *);
void *__dfsw_memmove(void *, void const *, size_t, L, L, L, L *);
void *__dfsw_memset(void *, int, size_t, L, L, L, L *);
char *__dfsw_strcpy(char *, char const *, L, L, L *);
char *__dfsw_strncpy(char *, char const *, size_t, L, L, L, L *);
char *__dfsw_strdup(char const *, L, L *);
ssize_t __getdelim(char **, size_t *, int, FILE *);
}

namespace {
using sim::hist;
constexpr size_t GUARD = 32;
bool plain = false; // twin mode: call libc directly instead of the wrappers

struct Op {
  int idx;
  std::vector<std::string> a;
  std::vector<sim::Fault> faults;
};
std::map<int, std::vector<Op>> lists;

struct Handle {
  int fd{-1};
  FILE *f{nullptr};
  bool open{false};
};
std::map<int, Handle> handles;
bool std_closed[3];

struct Region {
  char *p{nullptr};
  size_t n{0}, guard{0}, datalen{0};
  int owner{0};
  bool live{false};
  std::vector<L> lab;
  std::string dat;
};
std::map<int, Region> regions;
std::map<std::pair<int, int>, L> regs;
std::map<int, L> slots;
std::map<int, int> fnidx;
std::map<int, bool> sigs;
std::map<int, int> peers; // feeding/draining ends
std::map<int, std::string> peer_path;
std::vector<std::string> args;
// Opening such a FIFO would block for real.
bool lone_fifo(std::string const &path) {
  struct stat st;
  if (stat(path.c_str(), &st) || !S_ISFIFO(st.st_mode))
    return false;
  for (auto &p : peer_path)
    if (p.second == path)
      return false;
  return true;
}
std::string stdspec[3];
std::string banner;
std::map<int, void *> lineptr;
std::map<int, size_t> linecap;

std::string unhex(std::string const &h) {
  std::string r;
  if (h == "-")
    return r;
  for (size_t i = 0; i + 1 < h.size(); i += 2)
    r.push_back(static_cast<char>(std::stoi(h.substr(i, 2), nullptr, 16)));
  return r;
}
std::string hex(char const *p, size_t n) {
  static char const *d = "0123456789abcdef";
  std::string r;
  r.reserve(2 * n + 1);
  for (size_t i = 0; i < n; ++i) {
    r.push_back(d[(p[i] >> 4) & 15]);
    r.push_back(d[p[i] & 15]);
  }
  return n ? r : "-";
}

long num(std::string const &s) { return std::stol(s, nullptr, 0); }

L label_of(int list, std::string const &s) {
  switch (s[0]) {
  case '#':
    return regs[{list, std::stoi(s.substr(1))}];
  case '$':
    return slots[std::stoi(s.substr(1))];
  case '@': {
    auto c = s.find(':');
    auto &r = regions[std::stoi(s.substr(1, c - 1))];
    size_t o = std::stoul(s.substr(c + 1));
    if (!r.live || o >= r.n)
      return 0;
    return plain ? 0 : dfsan_read_label(r.p + o, 1);
  }
  default:
    return static_cast<L>(std::stoul(s));
  }
}

void snap(Region &r) {
  size_t total = r.n + 2 * r.guard;
  char *b = r.p - r.guard;
  r.lab.assign(total, 0);
  if (!plain)
    for (size_t i = 0; i < total; ++i)
      r.lab[i] = dfsan_read_label(b + i, 1);
  r.dat.assign(b, std::min(total, r.datalen + 2 * r.guard));
}

void new_region(int id, int owner, char *p, size_t n, size_t guard, size_t datalen, bool take) {
  auto &r = regions[id];
  r = Region{};
  r.p = p;
  r.n = n;
  r.guard = guard;
  r.datalen = datalen;
  r.owner = owner;
  r.live = true;
  if (take)
    snap(r);
  else {
    r.lab.assign(n + 2 * guard, 0);
    r.dat.assign(std::min(n, datalen) + 2 * guard, 0);
  }
}

void emit_diffs(int owner) {
  for (auto &[id, r] : regions) {
    if (!r.live || r.owner != owner)
      continue;
    size_t total = r.n + 2 * r.guard;
    char *b = r.p - r.guard;
    if (!plain) {
      long run = -1;
      L first = 0;
      int inc = 0;
      size_t len = 0;
      auto flush = [&] {
        if (len)
          hist("L %d %ld %zu %u %d", id, run - (long)r.guard, len, first, inc);
        len = 0;
      };
      for (size_t i = 0; i < total; ++i) {
        L l = dfsan_read_label(b + i, 1);
        if (l == r.lab[i]) {
          flush();
          continue;
        }
        r.lab[i] = l;
        if (len == 1 && l == first + 1)
          inc = 1, len = 2;
        else if (len == 1 && l == first)
          inc = 0, len = 2;
        else if (len > 1 && l == first + (L)(inc ? len : 0))
          ++len;
        else {
          flush();
          run = (long)i;
          first = l;
          inc = 1;
          len = 1;
        }
      }
      flush();
    }
    size_t dl = r.dat.size();
    for (size_t i = 0; i < dl;) {
      if (b[i] == r.dat[i]) {
        ++i;
        continue;
      }
      size_t j = i;
      while (j < dl && b[j] != r.dat[j] && j - i < 4000)
        ++j;
      hist("D %d %ld %s", id, (long)i - (long)r.guard, hex(b + i, j - i).c_str());
      r.dat.replace(i, j - i, b + i, j - i);
      i = j;
    }
  }
}

void run_list(int list);

struct Done {
  long ret;
  int err;
  std::string extra;
};

long pos_of(Handle const &h) {
  if (!h.open)
    return -2;
  int e = errno;
  long r = h.f ? (long)ftello(h.f) : (long)lseek(h.fd, 0, SEEK_CUR);
  errno = e;
  return r;
}

std::string kv(char const *k, long v) { return std::string(" ") + k + "=" + std::to_string(v); }

[[noreturn]] void do_exit(int rc) { exit(rc); }

int run_op(int list, Op const &op) {
  auto &a = op.a;
  auto const &o = a[0];
  L rl = 0xdeadbeef;
  long ret = 0;
  int err = 0;
  std::string ex;
  auto S = [&](size_t i) -> std::string const & { return a[i]; };
  auto N = [&](size_t i) { return num(a[i]); };
  auto B = [&] { hist("B %d", op.idx); };
  auto skip = [&] {
    hist("S %d", op.idx);
    return 1;
  };
  auto H = [&](size_t i) -> Handle & { return handles[(int)N(i)]; };
  auto handle_ok = [&](size_t i, bool stream) {
    auto &h = H(i);
    return h.open && (stream ? h.f != nullptr : h.fd >= 0);
  };
  errno = 0;
#define T(tracked, untracked) (plain ? (untracked) : (tracked))
  L va[2] = {0, 0};

  if (o == "start") {
    B();
    if (plain) {
      ret = open("/dev/null", O_RDONLY);
      if (ret >= 0 && ret <= 2) { // the trace keeps off the standard descriptors
        int fd = fcntl(ret, F_DUPFD, 3);
        close(ret);
        ret = fd;
      }
      fwrite(banner.data(), 1, banner.size(), stdout);
    } else {
      size_t before = stdout->_IO_write_ptr - stdout->_IO_write_base;
      sim::starting = true;
      __taint_start();
      sim::starting = false;
      size_t after = stdout->_IO_write_ptr - stdout->_IO_write_base;
      if (after > before) // what the tracker itself has to say
        ex += " banner=" + hex(stdout->_IO_write_base + before, after - before);
      std::vector<char *> av;
      for (auto &s : args)
        av.push_back(const_cast<char *>(s.c_str()));
      __polytracker_taint_argv((int)av.size(), av.data());
    }
  } else if (o == "spawn") {
    B();
    for (auto &kvp : lists)
      if (kvp.first > 0 && kvp.first < 50 && (a.size() < 2 || kvp.first == N(1)))
        sim::spawn(run_list, kvp.first);
  } else if (o == "join") {
    B();
    sim::wait_for(a.size() > 1 ? (int)N(1) : 0);
  } else if (o == "argbuf") { // region over argv[i]
    auto &s = args[N(2)];
    new_region((int)N(1), list, const_cast<char *>(s.c_str()), s.size() + 1, 0, s.size() + 1, false);
    B();
  } else if (o == "buf") {
    size_t n = N(2);
    char *b = static_cast<char *>(malloc(n + 2 * GUARD));
    memset(b, 0, n + 2 * GUARD);
    if (!plain)
      dfsan_set_label(0, b, n + 2 * GUARD);
    new_region((int)N(1), list, b + GUARD, n, GUARD, n, true);
    B();
  } else if (o == "poke") { // poke r off hex : program stores constants
    auto &r = regions[(int)N(1)];
    auto d = unhex(S(3));
    size_t off = N(2);
    if (!r.live || off + d.size() > r.datalen)
      return skip();
    B();
    memcpy(r.p + off, d.data(), d.size());
    if (!plain)
      dfsan_set_label(0, r.p + off, d.size());
  } else if (o == "open" || o == "open64" || o == "openat") {
    int flags = (int)N(3);
    mode_t mode = (mode_t)N(4);
    std::string path = S(2);
    if (!(flags & O_NONBLOCK) && lone_fifo(path))
      return skip();
    int dirfd = AT_FDCWD;
    if (o == "openat" && a.size() > 5) {
      int d = open(S(5).c_str(), O_PATH | O_DIRECTORY);
      if (d < 0)
        return skip();
      dirfd = sim::high_fd(d);
    }
    B();
    int fd;
    if (o == "open")
      fd = T(__dfsw_open(path.c_str(), flags, 0, 0, va, &rl, mode), sim_open(path.c_str(), flags, mode));
    else if (o == "open64")
      fd = T(__dfsw_open64(path.c_str(), flags, 0, 0, va, &rl, mode), sim_open(path.c_str(), flags, mode));
    else
      fd = T(__dfsw_openat(dirfd, path.c_str(), flags, 0, 0, va, &rl, mode),
             sim_openat(dirfd, path.c_str(), flags, mode));
    ret = fd;
    err = errno;
    if (dirfd >= 0)
      close(dirfd);
    std::fill(path.begin(), path.end(), '#'); // callers may reuse the name buffer
    handles[(int)N(1)] = {fd, nullptr, fd >= 0};
    if (fd >= 0) {
      struct stat st;
      fstat(fd, &st);
      ex += kv("size", S_ISREG(st.st_mode) ? (long)st.st_size : -1) + kv("fmode", st.st_mode & 07777) +
            kv("fl", fcntl(fd, F_GETFL));
    }
  } else if (o == "fopen" || o == "fopen64") {
    std::string path = S(2), mode = S(3);
    if (lone_fifo(path))
      return skip();
    B();
    FILE *f = o == "fopen" ? T(__dfsw_fopen(path.c_str(), mode.c_str(), 0, 0, &rl), sim_fopen(path.c_str(), mode.c_str()))
                           : T(__dfsw_fopen64(path.c_str(), mode.c_str(), 0, 0, &rl), sim_fopen(path.c_str(), mode.c_str()));
    err = errno;
    std::fill(path.begin(), path.end(), '#');
    ret = f ? fileno(f) : -1;
    handles[(int)N(1)] = {(int)ret, f, f != nullptr};
    if (f) {
      if (a.size() > 4 && S(4) == "nb")
        fcntl(fileno(f), F_SETFL, fcntl(fileno(f), F_GETFL) | O_NONBLOCK);
      if (a.size() > 5)
        setvbuf(f, nullptr, N(5) ? _IOFBF : _IONBF, N(5));
      struct stat st;
      fstat(fileno(f), &st);
      ex += kv("size", S_ISREG(st.st_mode) ? (long)st.st_size : -1) + kv("fmode", st.st_mode & 07777);
    }
  } else if (o == "stdh") { // bind handle to a standard stream/descriptor
    int k = (int)N(2);
    FILE *fs[3] = {stdin, stdout, stderr};
    bool stream = S(3) == "f";
    long as = -1; // the handle through which the descriptor got its current meaning
    if (std_closed[k]) {
      for (auto &h : handles)
        if (h.second.open && h.second.fd == k && !h.second.f && h.first / 1000 == list)
          as = h.first;
      if (as < 0 || stream)
        return skip();
    }
    B();
    ex += kv("as", as);
    handles[(int)N(1)] = {k, stream ? fs[k] : nullptr, true};
  } else if (o == "dupfd") { // untracked descriptor: dup2-free raw open/pipe
    B();
    int sv[2];
    if (pipe2(sv, O_NONBLOCK))
      ret = -1;
    else {
      peers[(int)N(2)] = sim::high_fd(sv[1]);
      ret = sv[0];
      handles[(int)N(1)] = {sv[0], nullptr, true};
    }
  } else if (o == "socket") { // socket h peer family
    B();
    int sv[2];
    if (socketpair(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0, sv))
      return skip();
    int hi = sim::high_fd(sv[1]);
    sim::sock_add(sv[0], {hi, 0, (int)N(3)});
    peers[(int)N(2)] = hi;
    handles[(int)N(1)] = {sv[0], nullptr, true};
    ret = sv[0];
  } else if (o == "connect") {
    if (!handle_ok(1, false))
      return skip();
    B();
    sockaddr_in sa{};
    sa.sin_family = AF_INET;
    ret = T(__dfsw_connect(H(1).fd, (sockaddr *)&sa, sizeof sa, 0, 0, 0, &rl), sim_connect(H(1).fd, (sockaddr *)&sa, sizeof sa));
    err = errno;
    if (auto s = sim::sock_of(H(1).fd))
      ex += kv("sid", s->id);
  } else if (o == "accept" || o == "accept4") { // accept h peer family
    B();
    sim::set_next_family((int)N(3));
    sockaddr_storage ss;
    memset(&ss, 0, sizeof ss);
    socklen_t sl = sizeof ss;
    int fd = o == "accept" ? T(__dfsw_accept(99, (sockaddr *)&ss, &sl, 0, 0, 0, &rl), sim_accept(99, (sockaddr *)&ss, &sl))
                           : T(__dfsw_accept4(99, (sockaddr *)&ss, &sl, 0, 0, 0, 0, 0, &rl), sim_accept4(99, (sockaddr *)&ss, &sl, 0));
    err = errno;
    ret = fd;
    if (fd >= 0) {
      auto s = sim::sock_of(fd);
      peers[(int)N(2)] = s->peer;
      handles[(int)N(1)] = {fd, nullptr, true};
      ex += kv("sid", s->id) + " addr=" + hex((char *)&ss, std::min<size_t>(sl, 16));
    } else
      handles[(int)N(1)] = {};
  } else if (o == "peer") { // peer p path r|w : executor's own end of a FIFO
    B();
    struct rlimit old, rl;
    getrlimit(RLIMIT_NOFILE, &old);
    rl = {old.rlim_max, old.rlim_max};
    setrlimit(RLIMIT_NOFILE, &rl);
    int fd = open(S(2).c_str(), (S(3) == "w" ? O_RDWR : O_RDONLY) | O_NONBLOCK);
    setrlimit(RLIMIT_NOFILE, &old);
    if (fd >= 0) {
      if (a.size() > 4)
        fcntl(fd, F_SETPIPE_SZ, (int)N(4));
      peers[(int)N(1)] = sim::high_fd(fd);
      peer_path[(int)N(1)] = S(2);
      ret = 0;
    } else
      ret = -1, err = errno;
  } else if (o == "feed") {
    B();
    auto d = unhex(S(2));
    ret = peers.count((int)N(1)) ? write(peers[(int)N(1)], d.data(), d.size()) : -1;
    err = errno;
  } else if (o == "drain") {
    B();
    std::string d(N(2), 0);
    ret = peers.count((int)N(1)) ? read(peers[(int)N(1)], d.data(), d.size()) : -1;
    err = errno;
    if (ret > 0)
      ex += " data=" + hex(d.data(), ret);
  } else if (o == "hangup") {
    B();
    if (peers.count((int)N(1))) {
      close(peers[(int)N(1)]);
      peers.erase((int)N(1));
      peer_path.erase((int)N(1));
    }
  } else if (o == "close" || o == "fclose") {
    bool st = o == "fclose";
    if (!handle_ok(1, st))
      return skip();
    B();
    auto h = H(1);
    for (auto &o : handles) // a descriptor is not used again once it was closed
      if (o.second.open && o.second.fd == h.fd)
        o.second.open = false;
    if (h.fd >= 0 && h.fd < 3)
      std_closed[h.fd] = true;
    ret = st ? T(__dfsw_fclose(h.f, 0, &rl), fclose(h.f)) : T(__dfsw_close(h.fd, 0, &rl), sim_close(h.fd));
    err = errno;
  } else if (o == "badclose") { // close of a descriptor that is not open
    B();
    ret = T(__dfsw_close((int)N(1), 0, &rl), sim_close((int)N(1)));
    err = errno;
  } else if (o == "seek") {
    auto &h = H(1);
    if (!h.open)
      return skip();
    B();
    ret = h.f ? fseeko(h.f, N(2), (int)N(3)) : (long)lseek(h.fd, N(2), (int)N(3));
    err = errno;
  } else if (o == "clearerr") {
    if (!handle_ok(1, true))
      return skip();
    B();
    clearerr(H(1).f);
  } else if (o == "fflush") {
    if (!handle_ok(1, true))
      return skip();
    B();
    ret = fflush(H(1).f);
    err = errno;
  } else if (o == "read" || o == "recv" || o == "recvfrom" || o == "pread" || o == "pread64") {
    // read h r off n [flags|pos]
    auto &r = regions[(int)N(2)];
    size_t off = N(3), n = N(4);
    if (!handle_ok(1, false) || !r.live || off + n > r.datalen)
      return skip();
    int fd = H(1).fd;
    ex += kv("p0", pos_of(H(1)));
    B();
    char *b = r.p + off;
    if (o == "read")
      ret = T(__dfsw_read(fd, b, n, 0, 0, 0, &rl), sim_read(fd, b, n));
    else if (o == "recv")
      ret = T(__dfsw_recv(fd, b, n, (int)N(5), 0, 0, 0, 0, &rl), sim_recv(fd, b, n, (int)N(5)));
    else if (o == "recvfrom") {
      sockaddr_storage ss;
      socklen_t sl = sizeof ss;
      ret = T(__dfsw_recvfrom(fd, b, n, (int)N(5), (sockaddr *)&ss, &sl, 0, 0, 0, 0, 0, 0, &rl),
              sim_recvfrom(fd, b, n, (int)N(5), (sockaddr *)&ss, &sl));
    } else if (o == "pread")
      ret = T(__dfsw_pread(fd, b, n, N(5), 0, 0, 0, 0, &rl), sim_pread(fd, b, n, N(5)));
    else
      ret = T(__dfsw_pread64(fd, b, n, N(5), 0, 0, 0, 0, &rl), sim_pread(fd, b, n, N(5)));
    err = errno;
    ex += kv("p1", pos_of(H(1)));
  } else if (o == "fread" || o == "fread_unlocked") { // fread h r off size cnt
    auto &r = regions[(int)N(2)];
    size_t off = N(3), sz = N(4), cnt = N(5);
    if (!handle_ok(1, true) || !r.live || off + sz * cnt > r.datalen)
      return skip();
    FILE *f = H(1).f;
    ex += kv("p0", pos_of(H(1)));
    B();
    char *b = r.p + off;
    ret = o == "fread" ? T(__dfsw_fread(b, sz, cnt, f, 0, 0, 0, 0, &rl), fread(b, sz, cnt, f))
                       : T(__dfsw_fread_unlocked(b, sz, cnt, f, 0, 0, 0, 0, &rl), fread_unlocked(b, sz, cnt, f));
    err = errno;
    ex += kv("p1", pos_of(H(1))) + kv("eof", feof(f)) + kv("ferr", ferror(f));
  } else if (o == "fgets") { // fgets h r off n
    auto &r = regions[(int)N(2)];
    size_t off = N(3), n = N(4);
    if (!handle_ok(1, true) || !r.live || off + n > r.datalen)
      return skip();
    FILE *f = H(1).f;
    ex += kv("p0", pos_of(H(1)));
    B();
    char *b = r.p + off;
    memset(b, 0xaa, n); // makes the terminator the last null byte
    char *g = T(__dfsw_fgets(b, (int)n, f, 0, 0, 0, &rl), fgets(b, (int)n, f));
    err = errno;
    ret = g ? (g == b ? 1 : 2) : 0;
    if (g)
      for (long i = (long)n - 1; i >= 0; --i)
        if (b[i] == 0) {
          ex += kv("len", i);
          break;
        }
    ex += kv("p1", pos_of(H(1))) + kv("eof", feof(f)) + kv("ferr", ferror(f));
  } else if (o == "gets") { // gets h reg : h is standard input
    if (!handle_ok(1, true) || H(1).f != stdin)
      return skip();
    ex += kv("p0", pos_of(H(1)));
    B();
    static thread_local char line[1 << 16];
    memset(line, 0xaa, sizeof line);
    if (!plain)
      dfsan_set_label(0, line, sizeof line);
    char *g = T(__dfsw_gets(line, 0, &rl), gets(line));
    err = errno;
    ret = g ? (g == line ? 0 : -2) : -1;
    ex += kv("p1", pos_of(H(1))) + kv("eof", feof(stdin)) + kv("ferr", ferror(stdin));
    if (g == line) {
      long n = 4095;
      while (n > 0 && line[n] != 0)
        --n;
      ret = n;
      if (n > 0) {
        ex += " data=" + hex(line, n) + " labs=";
        for (long i = 0; i < n; ++i)
          ex += (i ? "," : "") + std::to_string(plain ? 0 : dfsan_read_label(line + i, 1));
      }
      size_t extra = 0;
      for (long i = n; !plain && i < 4096; ++i)
        extra += dfsan_read_label(line + i, 1) != 0;
      ex += kv("extra", (long)extra);
      auto &r = regions[(int)N(2)];
      if (r.live)
        for (size_t i = 0; i < std::min<size_t>(n, r.n); ++i) {
          r.p[i] = line[i];
          if (!plain)
            dfsan_set_label(dfsan_read_label(line + i, 1), r.p + i, 1);
        }
    }
  } else if (o == "getdelim" || o == "__getdelim") { // getdelim h line delim reg
    if (!handle_ok(1, true))
      return skip();
    FILE *f = H(1).f;
    int ln = (int)N(2);
    ex += kv("p0", pos_of(H(1)));
    B();
    char *lp = (char *)lineptr[ln];
    size_t cap = linecap[ln];
    if (o == "getdelim")
      ret = T(__dfsw_getdelim(&lp, &cap, (int)N(3), f, 0, 0, 0, 0, &rl), getdelim(&lp, &cap, (int)N(3), f));
    else
      ret = T(__dfsw___getdelim(&lp, &cap, (int)N(3), f, 0, 0, 0, 0, &rl), __getdelim(&lp, &cap, (int)N(3), f));
    err = errno;
    lineptr[ln] = lp;
    linecap[ln] = cap;
    ex += kv("p1", pos_of(H(1))) + kv("eof", feof(f)) + kv("ferr", ferror(f));
    if (ret > 0) {
      ex += " data=" + hex(lp, ret) + " labs=";
      for (long i = 0; i < ret; ++i)
        ex += (i ? "," : "") + std::to_string(plain ? 0 : dfsan_read_label(lp + i, 1));
      auto &r = regions[(int)N(4)]; // program copies the line into a region
      if (r.live) {
        size_t n = std::min<size_t>(ret, r.n);
        for (size_t i = 0; i < n; ++i) {
          r.p[i] = lp[i];
          if (!plain)
            dfsan_set_label(dfsan_read_label(lp + i, 1), r.p + i, 1);
        }
      }
    }
  } else if (o == "getc") { // getc variant h reg
    auto const &v = S(1);
    if (!handle_ok(2, true))
      return skip();
    FILE *f = H(2).f;
    ex += kv("p0", pos_of(H(2)));
    B();
    if (v == "fgetc")
      ret = T(__dfsw_fgetc(f, 0, &rl), fgetc(f));
    else if (v == "fgetc_unlocked")
      ret = T(__dfsw_fgetc_unlocked(f, 0, &rl), fgetc(f));
    else if (v == "_IO_getc")
      ret = T(__dfsw__IO_getc(f, 0, &rl), getc(f));
    else if (v == "getc")
      ret = T(__dfsw_getc(f, 0, &rl), getc(f));
    else if (v == "getc_unlocked")
      ret = T(__dfsw_getc_unlocked(f, 0, &rl), getc(f));
    else if (v == "getchar")
      ret = T(__dfsw_getchar(&rl), getchar());
    else
      ret = T(__dfsw_getchar_unlocked(&rl), getchar());
    err = errno;
    ex += kv("p1", pos_of(H(2))) + kv("eof", feof(f)) + kv("ferr", ferror(f));
    regs[{list, (int)N(3)}] = rl == 0xdeadbeef ? 0 : rl;
  } else if (o == "mmap") { // mmap h r len prot flags off
    int fd = S(1) == "anon" ? -1 : (H(1).open ? H(1).fd : -2);
    if (fd == -2)
      return skip();
    size_t len = N(3);
    off_t off = N(6);
    struct stat st;
    st.st_size = 0;
    bool an = S(1) == "anon" || ((int)N(5) & MAP_ANONYMOUS);
    if (fd >= 0)
      fstat(fd, &st);
    B();
    char *p = (char *)T(__dfsw_mmap(nullptr, len, (int)N(4), (int)N(5), fd, off, 0, 0, 0, 0, 0, 0, &rl),
                        sim_mmap(nullptr, len, (int)N(4), (int)N(5), fd, off));
    err = errno;
    ret = p == MAP_FAILED ? -1 : 0;
    if (p != MAP_FAILED) {
      long valid = an ? (long)len : (long)st.st_size - off;
      valid = valid <= 0 ? 0 : std::min<long>(len, (valid + 4095) / 4096 * 4096);
      if (len <= (1u << 20))
        new_region((int)N(2), list, p, len, 0, valid, false);
      else { // too large to scan: remember the mapping only
        new_region((int)N(2), list, p, 64, 0, std::min<long>(64, valid), false);
        regions[(int)N(2)].guard = 0;
      }
      ex += kv("size", (long)st.st_size);
    }
  } else if (o == "munmap") { // munmap r len delta
    auto &r = regions[(int)N(1)];
    if (!r.live)
      return skip();
    B();
    long delta = N(3);
    ret = T(__dfsw_munmap(r.p + delta, N(2), 0, 0, &rl), sim_munmap(r.p + delta, N(2)));
    err = errno;
    if (ret == 0) {
      // the address range is no longer the program's, but its labels must be gone
      bool clean = true;
      if (!plain)
        for (size_t i = 0; i < r.n && i < (size_t)N(2); ++i)
          clean = clean && dfsan_read_label(r.p + i, 1) == 0;
      ex += kv("clean", clean);
      r.live = false;
    }
  } else if (o == "write" || o == "send") { // write h r off n [flags]
    auto &r = regions[(int)N(2)];
    size_t off = N(3), n = N(4);
    if (!handle_ok(1, false) || !r.live || off + n > r.datalen)
      return skip();
    int fd = H(1).fd;
    ex += kv("p0", pos_of(H(1)));
    B();
    char *b = r.p + off;
    ret = o == "write" ? T(__dfsw_write(fd, b, n, 0, 0, 0, &rl), sim_write(fd, b, n))
                       : T(__dfsw_send(fd, b, n, 0, 0, 0, 0, 0, &rl), sim_send(fd, b, n, 0));
    err = errno;
    ex += kv("p1", pos_of(H(1)));
  } else if (o == "fwrite") { // fwrite h r off size cnt
    auto &r = regions[(int)N(2)];
    size_t off = N(3), sz = N(4), cnt = N(5);
    if (!handle_ok(1, true) || !r.live || off + sz * cnt > r.datalen)
      return skip();
    FILE *f = H(1).f;
    ex += kv("p0", pos_of(H(1)));
    B();
    char *b = r.p + off;
    ret = T(__dfsw_fwrite(b, sz, cnt, f, 0, 0, 0, 0, &rl), fwrite(b, sz, cnt, f));
    err = errno;
    ex += kv("p1", pos_of(H(1))) + kv("ferr", ferror(f));
  } else if (o == "putc" || o == "fputc") { // putc h ch lab
    if (!handle_ok(1, true))
      return skip();
    FILE *f = H(1).f;
    L l = label_of(list, S(3));
    ex += kv("p0", pos_of(H(1))) + kv("l", l);
    B();
    int ch = (int)N(2);
    ret = o == "putc" ? T(__dfsw_putc(ch, f, l, 0, &rl), putc(ch, f)) : T(__dfsw_fputc(ch, f, l, 0, &rl), fputc(ch, f));
    err = errno;
    ex += kv("p1", pos_of(H(1))) + kv("ferr", ferror(f));
  } else if (o == "union") { // union reg a b
    L x = label_of(list, S(2)), y = label_of(list, S(3));
    hist("I %d %u %u", op.idx, x, y);
    B();
    L z = plain ? 0 : dfsan_union(x, y);
    regs[{list, (int)N(1)}] = z;
    ret = z;
  } else if (o == "ld") { // ld reg r off n : multi-byte load
    auto &r = regions[(int)N(2)];
    size_t off = N(3), n = N(4);
    if (!r.live || off + n > r.datalen || n == 0)
      return skip();
    std::string ls;
    if (!plain)
      for (size_t i = 0; i < n; ++i)
        ls += (i ? "," : "") + std::to_string(dfsan_read_label(r.p + off + i, 1));
    hist("I %d %s", op.idx, ls.c_str());
    B();
    L z = plain ? 0 : dfsan_read_label(r.p + off, n);
    regs[{list, (int)N(1)}] = z;
    ret = z;
  } else if (o == "st") { // st r off n lab : store of a value
    auto &r = regions[(int)N(1)];
    size_t off = N(2), n = N(3);
    if (!r.live || off + n > r.datalen)
      return skip();
    L l = label_of(list, S(4));
    B();
    if (!plain)
      dfsan_set_label(l, r.p + off, n);
    ret = l;
  } else if (o == "branch" || o == "rawbranch") {
    L l = label_of(list, S(1));
    hist("I %d %u", op.idx, l);
    B();
    if (!plain) {
      if (o == "branch")
        __dfsw___polytracker_log_conditional_branch(N(2), l);
      else
        __polytracker_log_conditional_branch(l);
    }
  } else if (o == "tcf") { // tcf reg lab cond fid
    L l = label_of(list, S(2));
    uint64_t c = std::stoull(S(3));
    hist("I %d %u", op.idx, l);
    B();
    uint64_t got = plain ? c : __dfsw___polytracker_log_tainted_control_flow(c, (uint32_t)N(4), l, 0, &rl);
    ex += " cond=" + std::to_string(got);
    regs[{list, (int)N(1)}] = rl == 0xdeadbeef ? 0 : rl;
  } else if (o == "enter") {
    B();
    if (!plain)
      __polytracker_enter_function((uint32_t)N(1));
  } else if (o == "leave") {
    B();
    if (!plain)
      __polytracker_leave_function((uint32_t)N(1));
  } else if (o == "fentry") { // fentry reg hexname mode(lit|tmp)
    auto nm = unhex(S(2));
    char *p;
    if (S(3) == "tmp") {
      static thread_local char scratch[70000];
      p = scratch;
    } else
      p = static_cast<char *>(malloc(nm.size() + 1));
    memcpy(p, nm.data(), nm.size());
    p[nm.size()] = 'Z'; // names are counted, not terminated
    B();
    ret = plain ? 0 : __polytracker_log_func_entry(p, (uint16_t)nm.size());
    if (S(3) == "tmp")
      memset(p, 'Q', nm.size());
    fnidx[list * 1000 + (int)N(1)] = (int)ret;
  } else if (o == "fexit") {
    int k = list * 1000 + (int)N(1);
    if (!fnidx.count(k))
      return skip();
    B();
    if (!plain)
      __polytracker_log_func_exit((uint16_t)fnidx[k]);
    ret = fnidx[k];
  } else if (o == "put") { // put slot lab
    L l = label_of(list, S(2));
    B();
    slots[(int)N(1)] = l;
    ret = l;
  } else if (o == "take") { // take reg slot
    B();
    ret = regs[{list, (int)N(1)}] = slots[(int)N(2)];
  } else if (o == "sig") {
    B();
    sigs[(int)N(1)] = true;
    sim::wake(&sigs[(int)N(1)]);
  } else if (o == "await") {
    B();
    while (!sigs[(int)N(1)])
      sim::block_on(&sigs[(int)N(1)]);
  } else if (o == "malloc" || o == "calloc") { // malloc r n
    size_t n = N(2);
    B();
    char *p = (char *)(o == "malloc" ? T(__dfsw_malloc(n, 0, &rl), sim_malloc(n))
                                     : T(__dfsw_calloc(1, n, 0, 0, &rl), calloc(1, n)));
    err = errno;
    ret = p ? 0 : -1;
    if (p) {
      bool clean = true;
      if (o == "malloc") {
        memset(p, 0, n);
        if (!plain)
          dfsan_set_label(0, p, n);
      } else if (!plain)
        for (size_t i = 0; i < n; ++i)
          clean = clean && dfsan_read_label(p + i, 1) == 0;
      ex += kv("clean", clean);
      new_region((int)N(1), list, p, n, 0, n, true);
    }
  } else if (o == "realloc") { // realloc r n
    auto &r = regions[(int)N(1)];
    size_t n = N(2);
    if (r.live && r.guard)
      return skip();
    B();
    char *old = r.live ? r.p : nullptr;
    size_t oldn = r.live ? r.n : 0;
    char *p = (char *)T(__dfsw_realloc(old, n, 0, 0, &rl), sim_realloc(old, n));
    err = errno;
    ret = p ? 0 : -1;
    ex += kv("moved", p != old);
    if (p || n == 0) {
      size_t keep = std::min(n, oldn);
      if (p) {
        ex += " data=" + hex(p, keep) + " labs=";
        for (size_t i = 0; i < keep; ++i)
          ex += (i ? "," : "") + std::to_string(plain ? 0 : dfsan_read_label(p + i, 1));
        if (n > keep) {
          memset(p + keep, 0, n - keep);
          if (!plain)
            dfsan_set_label(0, p + keep, n - keep);
        }
        new_region((int)N(1), list, p, n, 0, n, true);
      } else
        r.live = false;
    }
  } else if (o == "free") {
    auto &r = regions[(int)N(1)];
    if (!r.live || r.guard)
      return skip();
    B();
    r.live = false;
    if (plain)
      free(r.p);
    else
      __dfsw_free(r.p, 0);
  } else if (o == "strcat" || o == "strcpy" || o == "strncpy" || o == "memcpy" || o == "memmove") {
    // rd od rs os n
    auto &d = regions[(int)N(1)];
    auto &s = regions[(int)N(3)];
    size_t od = N(2), os = N(4), n = N(5);
    if (!d.live || !s.live || od > d.datalen || os > s.datalen)
      return skip();
    char *dp = d.p + od, *sp = s.p + os;
    if (o[0] == 's') {
      size_t sl = strnlen(sp, s.datalen - os), dl = strnlen(dp, d.datalen - od);
      if (sl >= s.datalen - os && o != "strncpy")
        return skip();
      if (o == "strcat" && dl + sl + 1 > d.datalen - od)
        return skip();
      if (o == "strcpy" && sl + 1 > d.datalen - od)
        return skip();
      if (o == "strncpy" && (n > d.datalen - od || sl >= s.datalen - os))
        return skip();
    } else if (n > d.datalen - od || n > s.datalen - os)
      return skip();
    B();
    L pl = 0;
    void *q = nullptr;
    if (o == "strcat")
      q = T(__dfsw_strcat(dp, sp, pl, pl, &rl), strcat(dp, sp));
    else if (o == "strcpy")
      q = T(__dfsw_strcpy(dp, sp, pl, pl, &rl), strcpy(dp, sp));
    else if (o == "strncpy")
      q = T(__dfsw_strncpy(dp, sp, n, pl, pl, 0, &rl), strncpy(dp, sp, n));
    else if (o == "memcpy")
      q = T(__dfsw_memcpy(dp, sp, n, pl, pl, 0, &rl), memcpy(dp, sp, n));
    else
      q = T(__dfsw_memmove(dp, sp, n, pl, pl, 0, &rl), memmove(dp, sp, n));
    ret = q == dp;
  } else if (o == "strdup") { // strdup rnew rs os
    auto &s = regions[(int)N(2)];
    size_t os = N(3);
    if (!s.live || os > s.datalen || strnlen(s.p + os, s.datalen - os) >= s.datalen - os)
      return skip();
    B();
    char *p = T(__dfsw_strdup(s.p + os, 0, &rl), strdup(s.p + os));
    size_t n = strlen(p) + 1;
    new_region((int)N(1), list, p, n, 0, n, false);
    ret = 0;
  } else if (o == "memset") { // memset r off n val lab
    auto &r = regions[(int)N(1)];
    size_t off = N(2), n = N(3);
    if (!r.live || off + n > r.datalen)
      return skip();
    L l = label_of(list, S(5));
    ex += kv("l", l);
    B();
    ret = T(__dfsw_memset(r.p + off, (int)N(4), n, 0, l, 0, &rl), memset(r.p + off, (int)N(4), n)) == r.p + off;
  } else if (o == "exit") {
    B();
    if (plain)
      exit((int)N(1));
    __dfsw_exit((int)N(1), 0);
  } else if (o == "assertfail") {
    B();
    if (plain)
      abort();
    __dfsw___assert_fail("simulated", "sim.c", 1, "f", 0, 0, 0, 0);
  } else if (o == "abort") {
    B();
    abort();
  } else if (o == "kill") {
    B();
    kill(getpid(), SIGKILL);
    for (;;)
      pause();
  } else if (o == "_exit") {
    B();
    _exit((int)N(1));
  } else if (o == "nop") {
    B();
  } else {
    hist("UNKNOWN %s", o.c_str());
    sim::die(95);
  }
  if (rl != 0xdeadbeef)
    ex += kv("rl", rl);
  auto me = sim::self();
  if (me)
    me->quiet = true;
  hist("E %d %ld %d%s", op.idx, ret, err, ex.c_str());
  emit_diffs(list);
  if (me)
    me->quiet = false;
  return 0;
}

void run_list(int list) {
  auto it = lists.find(list);
  if (it == lists.end())
    return;
  for (auto &op : it->second) {
    sim::yield_point(sim::Yield::Op);
    if (auto t = sim::self())
      t->faults = op.faults;
    run_op(list, op);
    if (auto t = sim::self())
      t->faults.clear();
  }
}

void late_exit() { // registered before __taint_start: runs after its handler
  hist("LATE");
  run_list(90);
}
void early_exit() { // registered last: runs before the tracker's handler
  hist("EARLY");
  run_list(91);
}

std::vector<std::string> split(std::string const &s) {
  std::vector<std::string> r;
  std::istringstream is(s);
  std::string t;
  while (is >> t)
    r.push_back(t);
  return r;
}

int child(std::string const &text) {
  std::istringstream in(text);
  std::string line;
  int rc = 0;
  long fsize = -1, nofile = -1;
  bool early = false;
  std::vector<std::pair<std::string, std::string>> env;
  while (std::getline(in, line)) {
    auto t = split(line);
    if (t.empty())
      continue;
    if (t[0] == "cfg") {
      for (size_t i = 1; i < t.size(); ++i) {
        auto e = t[i].find('=');
        auto k = t[i].substr(0, e), v = t[i].substr(e + 1);
        if (k == "mode") sim::cfg.mode = v;
        else if (k == "seed") sim::cfg.seed = std::stoull(v);
        else if (k == "mean") sim::cfg.mean = std::stoul(v);
        else if (k == "depth") sim::cfg.depth = std::stoul(v);
        else if (k == "horizon") sim::cfg.horizon = std::stoul(v);
        else if (k == "crash_at") sim::cfg.crash_at = std::stoull(v);
        else if (k == "crash_tid") sim::cfg.crash_tid = std::stoi(v);
        else if (k == "crash_local") sim::cfg.crash_local = std::stoull(v);
        else if (k == "max_steps") sim::cfg.max_steps = std::stoull(v);
        else if (k == "fair") sim::cfg.fair = std::stoul(v);
        else if (k == "banner") banner = unhex(v);
        else if (k == "plain") plain = v == "1";
        else if (k == "fsize") fsize = std::stol(v);
        else if (k == "nofile") nofile = std::stol(v);
        else if (k == "rc") rc = std::stoi(v);
      }
    } else if (t[0] == "sw")
      sim::cfg.replay.push_back({std::stoi(t[1]), std::stoull(t[2]), std::stoi(t[3])});
    else if (t[0] == "dir") {
      if (chdir(t[1].c_str()))
        return 94;
    } else if (t[0] == "env")
      env.push_back({t[1], t.size() > 2 ? t[2] : ""});
    else if (t[0] == "std")
      stdspec[std::stoi(t[1])] = t[2] + (t.size() > 3 ? " " + t[3] : "");
    else if (t[0] == "arg")
      args.push_back(unhex(t[1]));
    else if (t[0] == "op") { // op idx list name args... [!fn:kind:arg]*
      Op op;
      op.idx = std::stoi(t[1]);
      int list = std::stoi(t[2]);
      for (size_t i = 3; i < t.size(); ++i) {
        if (t[i][0] == '!') {
          auto c1 = t[i].find(':'), c2 = t[i].find(':', c1 + 1);
          op.faults.push_back({t[i].substr(1, c1 - 1), t[i].substr(c1 + 1, c2 - c1 - 1), std::stol(t[i].substr(c2 + 1)), op.idx});
        } else
          op.a.push_back(t[i]);
      }
      if (list == 91)
        early = true;
      lists[list].push_back(op);
    }
  }
  for (auto n : {"POLYDB", "POLYTRACKER_STDOUT_SINK", "POLYTRACKER_STDERR_SINK", "POLYTRACKER_STDIN_SOURCE", "POLYTRACKER_TAINT_ARGV"})
    unsetenv(n);
  for (auto &e : env)
    setenv(e.first.c_str(), e.second.c_str(), 1);
  umask(022);
  // standard descriptors as the scenario wants them
  for (int i = 0; i < 3; ++i) {
    auto t = split(stdspec[i].empty() ? "null" : stdspec[i]);
    close(i);
    if (t[0] == "closed")
      continue;
    int fl = i == 0 ? O_RDONLY : O_WRONLY;
    int fd = -1;
    if (t[0] == "null")
      fd = open("/dev/null", O_RDWR);
    else if (t[0] == "full")
      fd = open("/dev/full", O_RDWR);
    else if (t[0] == "file")
      fd = open(t[1].c_str(), fl | (i ? O_CREAT | O_TRUNC : 0), 0644);
    else if (t[0] == "append")
      fd = open(t[1].c_str(), O_WRONLY | O_CREAT | O_APPEND, 0644);
    else if (t[0] == "fifo") {
      fd = open(t[1].c_str(), O_RDWR | O_NONBLOCK);
      int hi = fcntl(fd, F_DUPFD, 700);
      peers[100 + i] = hi;
      int fd2 = open(t[1].c_str(), fl | O_NONBLOCK);
      close(fd);
      fd = fd2;
    }
    if (fd >= 0 && fd != i) {
      dup2(fd, i);
      close(fd);
    }
  }
  struct rlimit rl {0, 0};
  setrlimit(RLIMIT_CORE, &rl);
  if (fsize >= 0) {
    rl = {(rlim_t)fsize, (rlim_t)fsize};
    setrlimit(RLIMIT_FSIZE, &rl);
  }
  if (nofile >= 0) {
    getrlimit(RLIMIT_NOFILE, &rl);
    rl.rlim_cur = nofile;
    setrlimit(RLIMIT_NOFILE, &rl);
  }
  signal(SIGPIPE, SIG_IGN);
  signal(SIGXFSZ, SIG_IGN);
  if (lists.count(90))
    atexit(late_exit);
  sim::init_main();
  for (auto &op : lists[0]) {
    sim::yield_point(sim::Yield::Op);
    sim::self()->faults = op.faults;
    run_op(0, op);
    sim::self()->faults.clear();
    if (op.a[0] == "start" && early)
      atexit(early_exit);
  }
  hist("RETURN");
  exit(rc);
}

constexpr size_t HCAP = 64u << 20;

bool readn(int fd, void *p, size_t n) {
  auto c = static_cast<char *>(p);
  while (n) {
    ssize_t k = read(fd, c, n);
    if (k <= 0)
      return false;
    c += k;
    n -= k;
  }
  return true;
}
void writen(int fd, void const *p, size_t n) {
  auto c = static_cast<char const *>(p);
  while (n) {
    ssize_t k = write(fd, c, n);
    if (k <= 0)
      _exit(1);
    c += k;
    n -= k;
  }
}
} // namespace

int main(int argc, char **argv) {
  // private copies of our own channel; 0..2 belong to the simulated program
  int in = fcntl(0, F_DUPFD, 500), out = fcntl(1, F_DUPFD, 501);
  int nul = open("/dev/null", O_RDWR);
  dup2(nul, 0);
  dup2(nul, 1);
  if (!getenv("SIM_STDERR"))
    dup2(nul, 2);
  if (nul > 2)
    close(nul);
  for (int i = 3; i < 64; ++i)
    close(i);
  auto h = static_cast<char *>(mmap(nullptr, HCAP, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  auto sh = static_cast<sim::Shared *>(
      mmap(nullptr, sizeof(sim::Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  sim::shared = sh;
  long wall_ms = getenv("SIM_WALL_MS") ? atol(getenv("SIM_WALL_MS")) : 20000;
  for (;;) {
    uint32_t n;
    if (!readn(in, &n, 4))
      return 0;
    std::string text(n, 0);
    if (!readn(in, text.data(), n))
      return 0;
    sim::hist_init(h, HCAP);
    memset(sh, 0, offsetof(sim::Shared, sw));
    sh->hash = 1469598103934665603ull;
    pid_t p = fork();
    if (p == 0) {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      close(in);
      close(out);
      _exit(child(text));
    }
    int pfd = (int)syscall(SYS_pidfd_open, p, 0);
    pollfd pf{pfd, POLLIN, 0};
    int timeout = 0;
    if (poll(&pf, 1, (int)wall_ms) == 0) {
      timeout = 1;
      kill(p, SIGKILL);
    }
    int st = 0;
    waitpid(p, &st, 0);
    close(pfd);
    std::ostringstream os;
    os << "X " << (WIFSIGNALED(st) ? "sig" : "rc") << " " << (WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st)) << " " << timeout
       << " " << sh->steps << " " << sh->hash;
    for (auto c : sh->counts)
      os << " " << c;
    os << " " << sh->crash_tid << " " << sh->crash_local << "\nW";
    size_t nsw = sh->nsw;
    for (size_t i = 0; i < nsw; ++i)
      os << " " << sh->sw[i].tid << ":" << sh->sw[i].local << ":" << sh->sw[i].to;
    os << "\n";
    auto head = os.str();
    uint64_t hl = *reinterpret_cast<uint64_t *>(h) - 8;
    uint32_t total = (uint32_t)(head.size() + hl);
    writen(out, &total, 4);
    writen(out, head.data(), head.size());
    writen(out, h + 8, hl);
  }
}
