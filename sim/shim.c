// LD_PRELOAD seam below install.sh and the tools it runs: counts the file
// system and process calls of every process and injects the one fault the
// simulator chose.  Nothing outside the scratch directory can be changed.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <unistd.h>

struct ent { char prog[16]; int inst, code; };
struct shared {
  int leader;                       // pid of the shell
  char scratch[256];
  // plan: the fop-th call of kind class in instance finst of fprog
  char fprog[16]; int finst, fop; int fkind; int ferr;
  int ninst[32]; char names[32][16]; int nnames;
  int injected, escaped; char esc[256];
  int nlog; struct ent log[256];
  int nops; unsigned char ops[256]; // operations seen by the target instance
  int nestrc;                       // exit status of the second installer, run to completion at the chosen call
};
enum { F_NONE, F_ERR, F_SHORT, F_TORN, F_KILL, F_KILLALL, F_TORNKILLALL, F_EINTR, F_NEST };
static struct shared* sh; static char prog[16]; static int inst, op, torn;
static pid_t mypid;
#define REAL(r, n, ...) static r (*real)(__VA_ARGS__); if (!real) real = (r (*)(__VA_ARGS__))dlsym(RTLD_NEXT, n)

static void logexit(int code, void* a) { (void)a; if (sh && getpid() == mypid) { int i = __sync_fetch_and_add(&sh->nlog, 1); if (i < 256) { memcpy(sh->log[i].prog, prog, 16); sh->log[i].inst = inst; sh->log[i].code = code; } } }
static void startup(void);
__attribute__((constructor)) static void start(void) {
  const char* f = getenv("SIM_SHARED"); if (!f) return;
  REAL(int, "open", const char*, int, ...);
  int fd = real(f, O_RDWR | O_CLOEXEC); if (fd < 0) return;
  sh = mmap(0, sizeof *sh, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); close(fd);
  if (sh == MAP_FAILED) { sh = 0; return; }
  snprintf(prog, sizeof prog, "%s", program_invocation_short_name);
  mypid = getpid();
  int k = -1, n = sh->nnames;
  for (int i = 0; i < n && i < 32; ++i) if (!strcmp(sh->names[i], prog)) k = i;
  if (k < 0) { k = __sync_fetch_and_add(&sh->nnames, 1); if (k < 32) snprintf(sh->names[k], 16, "%s", prog); else k = 31; }
  inst = __sync_fetch_and_add(&sh->ninst[k], 1);
  on_exit(logexit, 0);
  startup();
}
static void die(int all) { if (all) kill(0, SIGKILL); kill(getpid(), SIGKILL); for (;;) pause(); }
// another installer runs from start to end at this point
static void nest(void) {
  REAL(pid_t, "fork", void);
  sigset_t all, old; sigfillset(&all); sigprocmask(SIG_BLOCK, &all, &old);
  pid_t p = real();
  if (!p) {
    mypid = -1; signal(SIGINT, SIG_DFL); sigprocmask(SIG_SETMASK, &old, 0);
    setenv("SIM_SHARED", getenv("SIM_SHARED2"), 1);
    int n = open("/dev/null", O_RDWR); dup2(n, 0); dup2(n, 1); dup2(n, 2); for (int i = 3; i < 64; ++i) close(i);
    if (chdir(getenv("SIM_NESTCWD"))) _exit(120);
    char* const a[] = {"sh", "-c", getenv("SIM_NEST"), 0}; int (*ex)(const char*, char* const*, char* const*) = (int (*)(const char*, char* const*, char* const*))dlsym(RTLD_NEXT, "execve");
    extern char** environ; ex("/bin/sh", a, environ); _exit(121);
  }
  int w = -1; while (waitpid(p, &w, 0) < 0 && errno == EINTR) ;
  sh->nestrc = WIFEXITED(w) ? WEXITSTATUS(w) : 255;
  sigprocmask(SIG_SETMASK, &old, 0);
}
// returns the fault to apply to this call
static int hit(int cls) {
  if (!sh || getpid() != mypid) return 0;      // only the process that was exec'ed, not forked helpers of the shell
  if (inst != sh->finst || strcmp(prog, sh->fprog)) return 0;
  int o = op++; if (o < 256) { sh->ops[o] = cls; sh->nops = o + 1; }
  if (torn) { errno = sh->ferr; return F_ERR; }
  if (o != sh->fop || sh->fkind == F_NONE) return 0;
  sh->injected++;
  if (sh->fkind == F_NEST) { int e = errno; nest(); errno = e; return 0; }
  if (sh->fkind == F_KILL) die(0);
  if (sh->fkind == F_KILLALL) die(1);
  if ((sh->fkind == F_SHORT || sh->fkind == F_TORN || sh->fkind == F_TORNKILLALL) && cls != 1) { errno = sh->ferr; return F_ERR; }
  if (sh->fkind == F_EINTR) { if (cls == 1) { errno = EINTR; return F_ERR; } errno = sh->ferr; return F_ERR; }
  if (sh->fkind == F_ERR) errno = sh->ferr;
  return sh->fkind;
}
static void startup(void) { if (strcmp(prog, "sh") && hit(9)) _exit(126); }   // exec fails
// containment: refuse to change anything outside the scratch directory
static int outside(int dfd, const char* p) {
  if (!sh) return 0;
  char buf[PATH_MAX * 2], dir[PATH_MAX], res[PATH_MAX];
  if (p[0] == '/') snprintf(buf, sizeof buf, "%s", p);
  else {
    if (dfd == AT_FDCWD) { if (!getcwd(dir, sizeof dir)) return 1; }
    else { char l[64]; snprintf(l, 64, "/proc/self/fd/%d", dfd); ssize_t n = readlink(l, dir, sizeof dir - 1); if (n < 0) return 1; dir[n] = 0; }
    snprintf(buf, sizeof buf, "%s/%s", dir, p);
  }
  if (!strcmp(buf, "/dev/null") || !strcmp(buf, "/dev/tty")) return 0;
  char* s = strrchr(buf, '/'); char last[PATH_MAX]; snprintf(last, sizeof last, "%s", s + 1); if (s != buf) *s = 0; else s[1] = 0;
  if (!realpath(buf, res)) snprintf(res, sizeof res, "%s", buf);
  size_t n = strlen(sh->scratch);
  if (!strncmp(res, sh->scratch, n) && (res[n] == '/' || !res[n]) && strcmp(last, "..")) return 0;
  sh->escaped++; snprintf(sh->esc, sizeof sh->esc, "%s: %s/%s", prog, res, last);
  errno = EPERM; return 1;
}
#define OPENBODY(nm, pre, dfd, ...) \
  mode_t m = 0; if (fl & (O_CREAT | __O_TMPFILE)) { va_list a; va_start(a, fl); m = va_arg(a, int); va_end(a); } \
  REAL(int, nm, pre const char*, int, ...); \
  if ((fl & O_CREAT) || (fl & O_ACCMODE) != O_RDONLY) { if (outside(dfd, p)) return -1; if (hit(2)) return -1; } \
  return real(__VA_ARGS__, fl, m)
int open(const char* p, int fl, ...) { OPENBODY("open", , AT_FDCWD, p); }
int open64(const char* p, int fl, ...) { OPENBODY("open64", , AT_FDCWD, p); }
#define COMMA ,
int openat(int d, const char* p, int fl, ...) { OPENBODY("openat", int COMMA, d, d, p); }
int openat64(int d, const char* p, int fl, ...) { OPENBODY("openat64", int COMMA, d, d, p); }
int creat(const char* p, mode_t m) { return open(p, O_CREAT | O_WRONLY | O_TRUNC, m); }
static int regular(int fd) { struct stat st; return !fstat(fd, &st) && S_ISREG(st.st_mode); }
ssize_t write(int fd, const void* b, size_t n) {
  REAL(ssize_t, "write", int, const void*, size_t);
  if (!sh || !regular(fd)) return real(fd, b, n);
  int f = hit(1);
  if (f == F_ERR) return -1;
  if (f == F_SHORT && n > 1) return real(fd, b, n / 2);
  if (f == F_TORN) { torn = 1; if (n > 1) return real(fd, b, n / 2); errno = sh->ferr; return -1; }
  if (f == F_TORNKILLALL) { real(fd, b, n / 2); die(1); }
  return real(fd, b, n);
}
ssize_t copy_file_range(int a, off64_t* ao, int b, off64_t* bo, size_t n, unsigned fl) {
  REAL(ssize_t, "copy_file_range", int, off64_t*, int, off64_t*, size_t, unsigned);
  int f = hit(1);
  if (f == F_ERR) return -1;
  if (f == F_SHORT || f == F_TORN || f == F_TORNKILLALL) {
    ssize_t r = real(a, ao, b, bo, n > 3000 ? 1000 : n, fl);
    if (f == F_TORNKILLALL) die(1);
    if (f == F_TORN) torn = 1;
    return r;
  }
  return real(a, ao, b, bo, n, fl);
}
static int faccessat_(int d, const char* p) { struct stat st; return fstatat(d, p, &st, 0); }
#define SIMPLE(ret, nm, decl, types, chk, call) ret nm decl { REAL(ret, #nm, types); if (chk) return -1; if (hit(3)) return -1; return real call; }
#define TY(...) __VA_ARGS__
SIMPLE(int, unlink, (const char* p), TY(const char*), outside(AT_FDCWD, p), (p))
SIMPLE(int, unlinkat, (int d, const char* p, int f), TY(int, const char*, int), outside(d, p), (d, p, f))
SIMPLE(int, rmdir, (const char* p), TY(const char*), outside(AT_FDCWD, p), (p))
SIMPLE(int, mkdir, (const char* p, mode_t m), TY(const char*, mode_t), faccessat_(AT_FDCWD, p) && outside(AT_FDCWD, p), (p, m))
SIMPLE(int, mkdirat, (int d, const char* p, mode_t m), TY(int, const char*, mode_t), faccessat_(d, p) && outside(d, p), (d, p, m))
SIMPLE(int, rename, (const char* a, const char* b), TY(const char*, const char*), outside(AT_FDCWD, a) || outside(AT_FDCWD, b), (a, b))
SIMPLE(int, renameat, (int d, const char* a, int e, const char* b), TY(int, const char*, int, const char*), outside(d, a) || outside(e, b), (d, a, e, b))
SIMPLE(int, renameat2, (int d, const char* a, int e, const char* b, unsigned f), TY(int, const char*, int, const char*, unsigned), outside(d, a) || outside(e, b), (d, a, e, b, f))
SIMPLE(int, symlink, (const char* a, const char* b), TY(const char*, const char*), outside(AT_FDCWD, b), (a, b))
SIMPLE(int, link, (const char* a, const char* b), TY(const char*, const char*), outside(AT_FDCWD, b), (a, b))
SIMPLE(int, linkat, (int d, const char* a, int e, const char* b, int f), TY(int, const char*, int, const char*, int), outside(e, b), (d, a, e, b, f))
SIMPLE(int, chmod, (const char* p, mode_t m), TY(const char*, mode_t), outside(AT_FDCWD, p), (p, m))
SIMPLE(int, fchmod, (int d, mode_t m), TY(int, mode_t), 0, (d, m))
SIMPLE(int, fchmodat, (int d, const char* p, mode_t m, int f), TY(int, const char*, mode_t, int), outside(d, p), (d, p, m, f))
SIMPLE(int, truncate, (const char* p, off_t n), TY(const char*, off_t), outside(AT_FDCWD, p), (p, n))
SIMPLE(int, chdir, (const char* p), TY(const char*), 0, (p))
SIMPLE(int, execve, (const char* p, char* const* a, char* const* e), TY(const char*, char* const*, char* const*), 0, (p, a, e))
int futimens(int d, const struct timespec t[2]) { REAL(int, "futimens", int, const struct timespec*); if (hit(4)) return -1; return real(d, t); }
int utimensat(int d, const char* p, const struct timespec t[2], int f) { REAL(int, "utimensat", int, const char*, const struct timespec*, int); const char* volatile q = p; if (q && outside(d, p)) return -1; if (hit(4)) return -1; return real(d, p, t, f); }
pid_t fork(void) { REAL(pid_t, "fork", void); if (hit(5)) return -1; return real(); }
pid_t vfork(void) { return fork(); }
int pipe(int p[2]) { REAL(int, "pipe", int*); if (hit(6)) return -1; return real(p); }
int faccessat(int d, const char* p, int m, int f) { REAL(int, "faccessat", int, const char*, int, int); if (hit(7)) return -1; return real(d, p, m, f); }
// reading programs can be killed before they produce anything
ssize_t read(int fd, void* b, size_t n) {
  REAL(ssize_t, "read", int, void*, size_t);
  if (sh && (sh->fkind == F_KILL || sh->fkind == F_KILLALL) && hit(8)) return -1;
  return real(fd, b, n);
}
