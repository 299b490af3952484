// Faults of the operating system, put between the C++ library and the C library: opening, reading, writing or closing one file
// fails, is cut short or interrupted. Defines read, write, writev, fopen, fopen64 and fclose, so include it in one file only.
#ifndef VERIF_IOFAULT_H_
#define VERIF_IOFAULT_H_
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

#include <atomic>
#include <string>

namespace iofault {

enum Kind { kNone, kReadError, kReadOnce, kReadShort, kReadInterrupted, kWriteError, kWriteOnce, kWriteShort, kWriteInterrupted, kClose, kOpen, kOpenOnce };
struct Plan {
  Kind kind = kNone;
  std::string path;  // of the file, absolute
  long at = 0;       // the offset that cannot be read or written, the size of short transfers, or the number of the open that fails
  int err = EIO;
};
static Plan plan;
static std::string hit_file;  // created when the fault happens
static std::atomic<bool> armed(false);
static std::atomic<long> hits(0), calls(0), opens(0);

inline void arm(const Plan& p) {
  plan = p;
  hits = calls = opens = 0;
  armed = p.kind != kNone;
}
inline void disarm() { armed = false; }
inline bool harmless(Kind k) { return k == kReadShort || k == kReadInterrupted || k == kWriteShort || k == kWriteInterrupted; }
inline void hit() {
  ++hits;
  if (!hit_file.empty()) {
    int fd = syscall(SYS_openat, AT_FDCWD, hit_file.c_str(), O_CREAT | O_WRONLY, 0644);
    if (fd >= 0) syscall(SYS_close, fd);
  }
}
inline bool mine(int fd) {
  if (!armed) return false;
  char link[64], to[4096];
  snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
  ssize_t n = syscall(SYS_readlinkat, AT_FDCWD, link, to, sizeof to - 1);
  return n > 0 && plan.path == std::string(to, n);
}
inline bool mine(const char* path) {
  if (!armed || !path) return false;
  char to[4096];
  char* r = realpath(path, to);
  return plan.path == (r ? r : path);
}
template <typename F>
F* real(F* self, const char* name) {
  (void)self;
  return reinterpret_cast<F*>(dlsym(RTLD_NEXT, name));
}

// What becomes of a transfer of n bytes: the bytes to transfer, or -1 with errno set.
inline ssize_t transfer(int fd, size_t n, Kind error, Kind once, Kind cut, Kind interrupted) {
  if (n == 0) return n;
  if (plan.kind == cut) {
    hit();
    return n < size_t(plan.at) ? n : plan.at;
  }
  if (plan.kind == interrupted) {
    if (++calls % 2 == 0) return n;
    hit();
    errno = EINTR;
    return -1;
  }
  if (plan.kind == error || (plan.kind == once && hits == 0)) {
    long at = lseek(fd, 0, SEEK_CUR);
    if (at < 0 || at + long(n) <= plan.at) return n;
    if (at < plan.at) return plan.at - at;
    hit();
    errno = plan.err;
    return -1;
  }
  return n;
}
}  // namespace iofault

extern "C" ssize_t read(int fd, void* buf, size_t n) {
  static auto* next = iofault::real(&read, "read");
  if (iofault::mine(fd)) {
    using namespace iofault;
    ssize_t k = transfer(fd, n, kReadError, kReadOnce, kReadShort, kReadInterrupted);
    if (k < 0) return k;
    n = k;
  }
  return next(fd, buf, n);
}
extern "C" ssize_t write(int fd, const void* buf, size_t n) {
  static auto* next = iofault::real(&write, "write");
  if (iofault::mine(fd)) {
    using namespace iofault;
    ssize_t k = transfer(fd, n, kWriteError, kWriteOnce, kWriteShort, kWriteInterrupted);
    if (k < 0) return k;
    n = k;
  }
  return next(fd, buf, n);
}
extern "C" ssize_t writev(int fd, const struct iovec* v, int count) {
  static auto* next = iofault::real(&writev, "writev");
  if (!iofault::mine(fd)) return next(fd, v, count);
  ssize_t total = 0;
  for (int i = 0; i < count; ++i) {
    if (v[i].iov_len == 0) continue;
    ssize_t k = write(fd, v[i].iov_base, v[i].iov_len);
    if (k < 0) return total ? total : k;
    total += k;
    if (size_t(k) < v[i].iov_len) break;
  }
  return total;
}
static bool iofault_open(const char* path) {
  using namespace iofault;
  if (!mine(path) || (plan.kind != kOpen && plan.kind != kOpenOnce)) return false;
  long k = ++opens;
  if (plan.kind == kOpenOnce ? k != plan.at : k < plan.at) return false;
  hit();
  errno = plan.err;
  return true;
}
extern "C" FILE* fopen(const char* path, const char* mode) {
  static auto* next = iofault::real(&fopen, "fopen");
  return iofault_open(path) ? nullptr : next(path, mode);
}
extern "C" FILE* fopen64(const char* path, const char* mode) {
  static auto* next = iofault::real(&fopen64, "fopen64");
  return iofault_open(path) ? nullptr : next(path, mode);
}
extern "C" int fclose(FILE* f) {
  static auto* next = iofault::real(&fclose, "fclose");
  using namespace iofault;
  bool fail = armed && plan.kind == kClose && mine(fileno(f));
  int r = next(f);
  if (fail) {
    hit();
    errno = plan.err;
    return EOF;
  }
  return r;
}
#endif
