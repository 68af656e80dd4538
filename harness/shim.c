/* Native side of the harness interface: runs the harness functions on concrete
 * bytes (a solver model), one forked child per case, and reports what happened.
 * usage: exe CASES SCRATCH > results.jsonl
 * CASES: one case per line: <harness> <model-hex or -> [param...]            */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <ftw.h>
#include <signal.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>

struct entry { const char *name; void (*f)(void); };
#define NOTEBUF (8 << 20)
static struct shared {
  uint64_t reach;
  int panic_ok, assume_failed, short_model, nfail, finished;
  size_t used_model;
  uint64_t fail[64];
  size_t notes, notelen[4096], notepos;
  unsigned char buf[NOTEBUF];
} *sh;
static unsigned char *model;
static size_t model_len;
static uint64_t params[64];
static int nparams;
static size_t io_chunk;

void sym_bytes(unsigned char *p, size_t n) {
  for (size_t i = 0; i < n; i++) {
    if (sh->used_model < model_len) p[i] = model[sh->used_model++];
    else { p[i] = 0; sh->short_model = 1; }
  }
}
void sym_assume(_Bool c) { if (!c) { sh->assume_failed = 1; _exit(0); } }
void sym_assert(_Bool c, uint64_t code) {
  if (!c && sh->nfail < 64) sh->fail[sh->nfail++] = code;
}
uint64_t sym_conc(uint64_t x) { return x; }
void sym_note(const unsigned char *p, size_t n) {
  if (sh->notes >= 4096 || sh->notepos + n > NOTEBUF) return;
  memcpy(sh->buf + sh->notepos, p, n);
  sh->notepos += n;
  sh->notelen[sh->notes++] = n;
}
void sym_reach(uint64_t k) { sh->reach |= 1ull << (k & 63); }
uint64_t sym_param(uint64_t i) { return (int)i < nparams ? params[i] : 0; }
void sym_panic_ok(_Bool b) { sh->panic_ok = b; }
void sym_io_chunk(size_t n) { io_chunk = n; }

static uint64_t fmask, fleft, ffailed;
static unsigned char broken[4096];
uint64_t sym_io_fault(uint64_t m, uint64_t n) {
  uint64_t k = ffailed;
  fmask = m; fleft = n; ffailed = 0;
  memset(broken, 0, sizeof broken);
  return k;
}
static int fault(int fd) {
  unsigned char b;
  if (!fmask || fd == 2 || fd < 0 || fd >= 4096) return 0;
  if (broken[fd]) return 3;
  if (!fleft) return 0;
  sym_bytes(&b, 1);
  if (b) fleft--;
  if (b == 3) { ffailed++; broken[fd] = 1; }
  return b;
}
static void fname(char *out, const unsigned char *n, size_t nl) {
  if (nl > 200) nl = 200;
  memcpy(out, n, nl);
  out[nl] = 0;
}
void sym_file_put(const unsigned char *n, size_t nl, const unsigned char *p, size_t len) {
  char nm[256];
  fname(nm, n, nl);
  int fd = open(nm, O_CREAT | O_TRUNC | O_WRONLY, 0644);
  if (fd < 0) { perror(nm); _exit(99); }
  size_t k = 0;
  while (k < len) {
    ssize_t r = syscall(SYS_write, fd, p + k, len - k);
    if (r <= 0) _exit(99);
    k += r;
  }
  close(fd);
}
int64_t sym_file_get(const unsigned char *n, size_t nl, unsigned char *buf, size_t cap) {
  char nm[256];
  struct stat st;
  fname(nm, n, nl);
  int fd = open(nm, O_RDONLY);
  if (fd < 0) return -1;
  if (fstat(fd, &st)) _exit(99);
  size_t k = 0, len = st.st_size < (off_t)cap ? (size_t)st.st_size : cap;
  while (k < len) {
    ssize_t r = syscall(SYS_read, fd, buf + k, len - k);
    if (r <= 0) break;
    k += r;
  }
  close(fd);
  return (int64_t)st.st_size;
}
void sym_stdin(const unsigned char *p, size_t n) {
  sym_file_put((const unsigned char *)"<stdin>", 7, p, n);
  int fd = open("<stdin>", O_RDONLY);
  dup2(fd, 0);
  close(fd);
}
ssize_t read(int fd, void *b, size_t n) {
  int e = fault(fd);
  if (e == 1 || e == 3) { errno = e == 1 ? EINTR : EIO; return -1; }
  if (e == 2 && n > 1) n = 1;
  if (io_chunk && n > io_chunk) n = io_chunk;
  return syscall(SYS_read, fd, b, n);
}
ssize_t write(int fd, const void *b, size_t n) {
  int e = fault(fd);
  if (e == 1 || e == 3) { errno = e == 1 ? EINTR : ENOSPC; return -1; }
  if (e == 2 && n > 1) n = 1;
  return syscall(SYS_write, fd, b, n);
}
int close(int fd) {
  if (fd >= 0 && fd < 4096) broken[fd] = 0;
  return syscall(SYS_close, fd);
}

static int rmone(const char *p, const struct stat *s, int t, struct FTW *f) {
  (void)s; (void)t; (void)f;
  return remove(p);
}
static void hexout(const unsigned char *p, size_t n) {
  for (size_t i = 0; i < n; i++) printf("%02x", p[i]);
}
static int hexval(int c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }

int shim_main(int argc, char **argv, const struct entry *tab, size_t n) {
  if (argc < 3) { fprintf(stderr, "usage: %s CASES SCRATCH\n", argv[0]); return 2; }
  FILE *f = fopen(argv[1], "r");
  if (!f) { perror(argv[1]); return 2; }
  clearenv();
  struct rlimit rl = {0, 0};
  setrlimit(RLIMIT_CORE, &rl);
  sh = mmap(0, sizeof *sh, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  char *line = 0;
  size_t cap = 0;
  int idx = 0;
  while (getline(&line, &cap, f) > 0) {
    char *name = strtok(line, " \n"), *hex = strtok(0, " \n"), *w;
    if (!name || !hex) continue;
    void (*h)(void) = 0;
    for (size_t i = 0; i < n; i++) if (!strcmp(tab[i].name, name)) h = tab[i].f;
    if (!h) { fprintf(stderr, "no harness %s\n", name); return 2; }
    nparams = 0;
    size_t l = strcmp(hex, "-") ? strlen(hex) / 2 : 0;
    model = malloc(l + 1);
    model_len = l;
    for (size_t i = 0; i < l; i++) model[i] = hexval(hex[2 * i]) * 16 + hexval(hex[2 * i + 1]);
    while ((w = strtok(0, " \n")) && nparams < 64) params[nparams++] = strtoull(w, 0, 10);
    memset(sh, 0, offsetof(struct shared, buf));
    char dir[4096];
    snprintf(dir, sizeof dir, "%s/case%d", argv[2], idx++);
    mkdir(argv[2], 0700);
    if (mkdir(dir, 0700) && errno != EEXIST) { perror(dir); return 2; }
    fflush(stdout);
    pid_t p = fork();
    if (p == 0) {
      if (chdir(dir)) _exit(98);
      int o = open("<stdout>", O_CREAT | O_TRUNC | O_WRONLY, 0644);
      int e = open("<stderr>", O_CREAT | O_TRUNC | O_WRONLY, 0644);
      int i = open("<stdin>", O_CREAT | O_TRUNC | O_RDONLY, 0644);
      dup2(i, 0); dup2(o, 1); dup2(e, 2);
      close(i); close(o); close(e);
      alarm(60);
      h();
      sh->finished = 1;
      _exit(0);
    }
    int st = 0;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    const char *end = "?";
    int code = 0;
    if (WIFSIGNALED(st)) { code = WTERMSIG(st); end = code == SIGABRT ? "panic" : code == SIGALRM ? "timeout" : "signal"; }
    else if (sh->assume_failed) end = "assume";
    else if (sh->finished) end = "done";
    else { end = "exit"; code = WEXITSTATUS(st); }
    printf("{\"end\":\"%s\",\"code\":%d,\"short\":%d,\"used\":%zu,\"panic_ok\":%d,\"reach\":%llu,\"fail\":[", end, code,
           sh->short_model, sh->used_model, sh->panic_ok, (unsigned long long)sh->reach);
    for (int i = 0; i < sh->nfail; i++) printf("%s%llu", i ? "," : "", (unsigned long long)sh->fail[i]);
    printf("],\"notes\":[");
    size_t pos = 0;
    for (size_t i = 0; i < sh->notes; i++) {
      printf("%s\"", i ? "," : "");
      hexout(sh->buf + pos, sh->notelen[i]);
      printf("\"");
      pos += sh->notelen[i];
    }
    printf("],\"stderr\":\"");
    char ef[4200];
    snprintf(ef, sizeof ef, "%s/<stderr>", dir);
    int e = open(ef, O_RDONLY);
    unsigned char eb[400];
    ssize_t k = e >= 0 ? syscall(SYS_read, e, eb, sizeof eb) : 0;
    if (e >= 0) close(e);
    if (k > 0) hexout(eb, k);
    printf("\"}\n");
    nftw(dir, rmone, 16, FTW_DEPTH | FTW_PHYS);
    free(model);
  }
  rmdir(argv[2]);
  return 0;
}
