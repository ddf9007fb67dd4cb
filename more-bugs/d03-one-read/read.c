
/* read() on the file named by TARGET: half of it per call (SHORT set), or EIO after the first FAIL_AFTER bytes. */
#define _GNU_SOURCE
#include <errno.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>
static int target(int fd) {
  char link[64], name[4096]; const char *t = getenv("TARGET"); ssize_t n;
  snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
  n = syscall(SYS_readlink, link, name, sizeof name - 1);
  if (n <= 0 || !t) return 0;
  name[n] = 0;
  return (size_t)n >= strlen(t) && !strcmp(name + n - strlen(t), t);
}
ssize_t read(int fd, void *buf, size_t n) {
  static size_t done;
  if (target(fd)) {
    if (getenv("SHORT")) { size_t m = (size_t)atoi(getenv("SHORT")); if (n > m) n = m; }
    if (getenv("FAIL_AFTER")) {
      size_t left = (size_t)atoi(getenv("FAIL_AFTER"));
      if (done >= left) { errno = EIO; return -1; }
      if (n > left - done) n = left - done;
    }
  }
  ssize_t r = syscall(SYS_read, fd, buf, n);
  if (r > 0 && target(fd)) done += (size_t)r;
  return r;
}
