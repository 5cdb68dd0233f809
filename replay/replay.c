/* Runs one harness entry natively on a concrete input.
   usage: replay LIB ENTRY INPUT-FILE REPORT-FILE
   Exit: 0 completed, 3 an assertion failed, 4 the input does not satisfy an
   assumption, 5 the input ran out; a crash or a panic ends with a signal. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <sched.h>
#include <stdarg.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <unistd.h>

static uint8_t *in;
static size_t n, pos;
static FILE *rep;
static uint64_t cover;
static int outfd;
static size_t taken;

static void finish(int code) {
  fprintf(rep, "cover %llu\nend %d\n", (unsigned long long)cover, code);
  fflush(rep);
  _exit(code);
}
void sym_bytes(uint8_t *p, size_t k) {
  if (pos + k > n) finish(5);
  memcpy(p, in + pos, k);
  pos += k;
}
uint32_t sym_u32(void) { uint32_t v; sym_bytes((uint8_t *)&v, 4); return v; }
uint64_t sym_u64(void) { uint64_t v; sym_bytes((uint8_t *)&v, 8); return v; }
uint64_t sym_range(uint64_t lo, uint64_t hi) {
  uint64_t v = sym_u64();
  if (v < lo || v > hi) finish(4);
  return v;
}
void sym_assume(bool c) { if (!c) finish(4); }
void sym_assert(bool c, uint32_t id) {
  if (!c) { fprintf(rep, "assert %u\n", id); finish(3); }
}
void sym_fail(uint32_t id) { fprintf(rep, "assert %u\n", id); finish(3); }
void sym_cover(uint32_t id) { cover |= 1ull << (id & 63); }
void sym_observe(uint64_t v) { fprintf(rep, "obs %llu\n", (unsigned long long)v); }
uint64_t sym_concrete(uint64_t v) { return v; }
uint64_t sym_ite(bool c, uint64_t a, uint64_t b) { return c ? a : b; }
size_t sym_out_len(void) {
  fflush(stdout);
  fflush(stderr);
  return (size_t)lseek(outfd, 0, SEEK_END) - taken;
}
size_t sym_out_take(uint8_t *p, size_t cap) {
  size_t k = sym_out_len();
  if (k > cap) k = cap;
  ssize_t r = pread(outfd, p, k, taken);
  taken += r;
  return r;
}
/* threads; a check of how they interleave repeats what each one does */
struct thr { void (*f)(void *, size_t); void *data; size_t i; pthread_barrier_t *b; };
static void *thr_run(void *p) {
  struct thr *t = p;
  pthread_barrier_wait(t->b);
  t->f(t->data, t->i);
  return NULL;
}
void sym_threads(size_t k, void (*f)(void *, size_t), void *data, size_t preempt) {
  (void)preempt;
  pthread_t th[16];
  struct thr t[16];
  pthread_barrier_t b;
  pthread_barrier_init(&b, NULL, k);
  for (size_t i = 0; i < k; i++) {
    t[i] = (struct thr){f, data, i, &b};
    if (pthread_create(&th[i], NULL, thr_run, &t[i])) finish(5);
  }
  for (size_t i = 0; i < k; i++) pthread_join(th[i], NULL);
}
size_t sym_reps(void) {
  const char *s = getenv("SYM_REPS");
  return s ? (size_t)atol(s) : 1;
}
/* the hash seeds of std's HashMap: the value the symbolic executor uses */
ssize_t getrandom(void *buf, size_t len, unsigned int flags) {
  (void)flags;
  const char *s = getenv("SYM_SEED");
  uint8_t seed = s ? (uint8_t)atoi(s) : 0;
  for (size_t i = 0; i < len; i++) ((uint8_t *)buf)[i] = (uint8_t)(i * 37 + 11 + seed * 101);
  return len;
}

/* a number of processors */
static size_t cpus;
void sym_cpus(size_t k) { cpus = k; }
int sched_getaffinity(pid_t pid, size_t size, cpu_set_t *set) {
  if (cpus) {
    memset(set, 0, size);
    for (size_t i = 0; i < cpus; i++) CPU_SET(i, set);
    return 0;
  }
  return syscall(SYS_sched_getaffinity, pid, size, set) < 0 ? -1 : 0;
}
/* a file with contents of the harness's own, under one fixed name */
static int filefd = -1;
void sym_file(const uint8_t *p, size_t k) {
  if (filefd >= 0) close(filefd);
  filefd = memfd_create("sym-file", 0);
  if (filefd < 0 || write(filefd, p, k) != (ssize_t)k) finish(5);
}
int open64(const char *path, int flags, ...) {
  mode_t mode = 0;
  if (flags & (O_CREAT | O_TMPFILE)) {
    va_list ap;
    va_start(ap, flags);
    mode = va_arg(ap, mode_t);
    va_end(ap);
  }
  char self[64];
  if (cpus && (!strncmp(path, "/proc/", 6) || !strncmp(path, "/sys/", 5))) {
    errno = ENOENT;
    return -1;
  }
  if (filefd >= 0 && !strcmp(path, "sym-file")) {
    snprintf(self, sizeof self, "/proc/self/fd/%d", filefd);
    path = self;
  }
  return (int)syscall(SYS_openat, AT_FDCWD, path, flags | O_LARGEFILE, mode);
}

int main(int argc, char **argv) {
  if (argc < 5) return 64;
  FILE *f = fopen(argv[3], "rb");
  if (!f) return 65;
  in = malloc(1 << 20);
  n = fread(in, 1, 1 << 20, f);
  fclose(f);
  rep = fopen(argv[4], "w");
  if (!rep) return 66;
  void *h = dlopen(argv[1], RTLD_NOW | RTLD_GLOBAL);
  if (!h) { fprintf(rep, "dlopen %s\n", dlerror()); fclose(rep); return 67; }
  void (*e)(void) = (void (*)(void))dlsym(h, argv[2]);
  if (!e) { fprintf(rep, "no entry\n"); fclose(rep); return 68; }
  struct rlimit core = {0, 0};
  setrlimit(RLIMIT_CORE, &core);
  /* the program's output goes to an unnamed temporary file */
  FILE *t = tmpfile();
  outfd = fileno(t);
  unsetenv("RUST_BACKTRACE");
  fflush(stdout);
  dup2(outfd, 1);
  dup2(outfd, 2);
  e();
  finish(0);
}
