#pragma once
#include <cstddef>
#include <cstdio>
#include <sys/socket.h>
#include <sys/types.h>
extern "C" {
int sim_open(char const *, int, ...);
int sim_openat(int, char const *, int, ...);
ssize_t sim_read(int, void *, size_t);
ssize_t sim_pread(int, void *, size_t, off_t);
ssize_t sim_write(int, void const *, size_t);
ssize_t sim_send(int, void const *, size_t, int);
ssize_t sim_recv(int, void *, size_t, int);
ssize_t sim_recvfrom(int, void *, size_t, int, sockaddr *, socklen_t *);
void *sim_mmap(void *, size_t, int, int, int, off_t);
int sim_munmap(void *, size_t);
int sim_close(int);
FILE *sim_fopen(char const *, char const *);
int sim_accept(int, sockaddr *, socklen_t *);
int sim_accept4(int, sockaddr *, socklen_t *, int);
int sim_connect(int, sockaddr const *, socklen_t);
void *sim_malloc(size_t);
void *sim_realloc(void *, size_t);
}
namespace sim {
// simulated network: program-side descriptor -> peer descriptor and identity
struct Sock {
  int peer{-1};
  int id{0};
  int family{2};
};
Sock *sock_of(int fd);
void sock_add(int fd, Sock);
void sock_del(int fd);
int next_family();          // family of the next accepted connection
void set_next_family(int);
extern bool starting;        // the tracker is being set up
int high_fd(int fd); // moves a descriptor of the simulator out of the program's range
} // namespace sim
