// Standard I/O for the code under test: the real glibc buffering code (through
// fopencookie) on top of simulated descriptors.
#include "internal.h"
#include <stdio.h>
#include <stdlib.h>
#include <stdio_ext.h>
#include <fcntl.h>
#include <errno.h>
#include <unistd.h>
#include <sys/stat.h>

extern "C" { ssize_t sim_read(int, void *, size_t); ssize_t sim_write(int, const void *, size_t); int sim_close(int); int sim_open(const char *, int, ...); void sim_exit(int); off_t sim_lseek(int, off_t, int); }
struct SimFileRec { FILE *real = nullptr; int fd = -1; Proc *p = nullptr; bool closed = false, std = false; int owner = -1, depth = 0; WaitQ lk; int last_close = 0; char *buf = nullptr; bool w = false; char **memp = nullptr; size_t *meml = nullptr; };
static vector<SimFileRec *> all_files;
static SimFileRec stdrec[3]; // handles only; resolved per process

static ssize_t ck_read(void *c, char *b, size_t n) { return sim_read(((SimFileRec *)c)->fd, b, n); }
static ssize_t ck_write(void *c, const char *b, size_t n) {
  size_t o = 0; SimFileRec *m = (SimFileRec *)c;
  if (m->memp) { *m->memp = (char *)sim_realloc(*m->memp, *m->meml + n + 1); memcpy(*m->memp + *m->meml, b, n); *m->meml += n; (*m->memp)[*m->meml] = 0; return n; }
  while (o < n) { ssize_t r = sim_write(((SimFileRec *)c)->fd, b + o, n - o); if (r < 0) break; o += r; }
  return o;
}
static int ck_seek(void *c, off64_t *o, int wh) { off_t r = sim_lseek(((SimFileRec *)c)->fd, *o, wh); if (r < 0) return -1; *o = r; return 0; }
static int ck_close(void *c) { SimFileRec *r = (SimFileRec *)c; if (r->memp) return 0; int fd = r->fd; r->fd = -1; return r->last_close = sim_close(fd); }
static SimFileRec *mk(Proc *p, int fd, const char *mode) {
  SimFileRec *r = new SimFileRec; r->fd = fd; r->p = p;
  string m(1, mode[0]); if (strchr(mode, '+')) m += '+';
  cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close};
  r->real = fopencookie(r, m.c_str(), io); if (!r->real) harness_bug("fopencookie");
  size_t bs = C.stdio_buf ? C.stdio_buf : 4096; r->buf = (char *)malloc(bs);
  if (fd == 2) setvbuf(r->real, nullptr, _IONBF, 0); else setvbuf(r->real, r->buf, _IOFBF, bs);
  r->w = m != "r";
  p->files.push_back(r); all_files.push_back(r); return r;
}
void stdio_init(Proc *p) {
  if (p->files.size()) return;
  for (int i = 0; i < 3; i++) { SimFileRec *r = mk(p, i, i ? "w" : "r"); r->std = true; }
}
static SimFileRec *R(FILE *f, const char *op) {
  if (!f) fatal_violation("*", "null-deref", "%s(NULL stream)", op);
  Proc *p = cur_proc(); if (!p) harness_bug("stdio outside a process");
  SimFileRec *r = (SimFileRec *)f;
  for (int i = 0; i < 3; i++) if (r == &stdrec[i]) { stdio_init(p); r = p->files[i]; if (r->closed) fatal_violation("*", "use-after-close", "%s on closed standard stream %d", op, i); return r; }
  bool known = false; for (auto x : all_files) if (x == r) known = true;
  if (!known) fatal_violation("*", "bad-stream", "%s on something that is not a stream", op);
  if (r->closed) fatal_violation("*", "use-after-close", "%s on a closed stream", op);
  return r;
}
struct L { SimFileRec *r; L(SimFileRec *r) : r(r) { if (!r->std) yield_point(); while (r->owner != -1 && r->owner != fiber_self()) fiber_block(r->lk, NEVER, false, "stream lock"); r->owner = fiber_self(); r->depth++; } ~L() { if (--r->depth == 0) { r->owner = -1; wake_one(r->lk); } } };
int proc_open_files(Proc *p) { int n = 0; for (auto r : p->files) if (!r->std && !r->closed) n++; return n; }
void stdio_proc_exit(Proc *p, bool flush) {
  if (flush) for (auto r : p->files) if (!r->closed && r->w) { r->owner = -1; r->depth = 0; fflush(r->real); }
  for (auto r : p->files) r->closed = true;
}
extern "C" {
FILE *sim_stdin = (FILE *)&stdrec[0], *sim_stdout = (FILE *)&stdrec[1], *sim_stderr = (FILE *)&stdrec[2];
static int oflags(const char *m) { int f = m[0] == 'r' ? O_RDONLY : m[0] == 'a' ? O_WRONLY | O_CREAT | O_APPEND : O_WRONLY | O_CREAT | O_TRUNC; if (strchr(m, '+')) f = (f & ~O_ACCMODE) | O_RDWR; if (strchr(m, 'x')) f |= O_EXCL; return f; }
FILE *sim_fopen(const char *path, const char *mode) {
  heap_check(path, 1, false, "fopen"); int fd = sim_open(path, oflags(mode), 0666); if (fd < 0) return nullptr;
  return (FILE *)mk(cur_proc(), fd, mode);
}
FILE *sim_fopen64(const char *path, const char *mode) { return sim_fopen(path, mode); }
FILE *sim_fdopen(int fd, const char *mode) {
  Proc *p = cur_proc(); yield_point();
  if (!p->fds.count(fd)) { errno = EBADF; return nullptr; }
  if (fd > 2 && fault(C.p_fopen_err, "fdopen error")) { p->fault_errs++; FileP f = p->fds[fd]; if (f->kind == FK_REG && K.on_open_err) K.on_open_err(f->ino->name.c_str()); errno = ENOMEM; return nullptr; }
  return (FILE *)mk(p, fd, mode);
}
FILE *sim_open_memstream(char **b, size_t *n) { *b = (char *)sim_malloc(1); **b = 0; *n = 0; SimFileRec *r = mk(cur_proc(), -1, "w"); r->memp = b; r->meml = n; return (FILE *)r; }
int sim_fclose(FILE *f) {
  SimFileRec *r = R(f, "fclose"); int rc;
  { L l(r); rc = fclose(r->real); }
  r->closed = true; r->real = nullptr; hash_event(50, rc); if (g_trace) ev("fclose = %d", rc); return rc;
}
int sim_fflush(FILE *f) {
  if (!f) { int rc = 0; for (auto r : cur_proc()->files) if (!r->closed && r->w) { L l(r); if (fflush(r->real)) rc = EOF; } return rc; }
  SimFileRec *r = R(f, "fflush"); L l(r); int rc = fflush(r->real); hash_event(51, rc); if (g_trace) ev("fflush = %d", rc); return rc;
}
int sim_fflush_unlocked(FILE *f) { return sim_fflush(f); }
size_t sim_fwrite(const void *b, size_t s, size_t n, FILE *f) { SimFileRec *r = R(f, "fwrite"); heap_check(b, s * n, false, "fwrite"); L l(r); size_t k = fwrite(b, s, n, r->real); hash_event(52, k); return k; }
size_t sim_fwrite_unlocked(const void *b, size_t s, size_t n, FILE *f) { return sim_fwrite(b, s, n, f); }
size_t sim_fread(void *b, size_t s, size_t n, FILE *f) { SimFileRec *r = R(f, "fread"); heap_check(b, s * n, true, "fread"); L l(r); size_t k = fread(b, s, n, r->real); hash_event(53, k); return k; }
size_t sim_fread_unlocked(void *b, size_t s, size_t n, FILE *f) { return sim_fread(b, s, n, f); }
int sim_ferror(FILE *f) { return ferror(R(f, "ferror")->real); }
int sim_feof(FILE *f) { return feof(R(f, "feof")->real); }
void sim_clearerr(FILE *f) { clearerr(R(f, "clearerr")->real); }
int sim_fileno(FILE *f) { return R(f, "fileno")->fd; }
int sim_fputc(int c, FILE *f) { SimFileRec *r = R(f, "fputc"); L l(r); return fputc(c, r->real); }
int sim_putc(int c, FILE *f) { return sim_fputc(c, f); }
int sim_putchar(int c) { return sim_fputc(c, sim_stdout); }
int sim_fputs(const char *s, FILE *f) { SimFileRec *r = R(f, "fputs"); heap_check(s, 1, false, "fputs"); L l(r); return fputs(s, r->real); }
int sim_puts(const char *s) { if (sim_fputs(s, sim_stdout) < 0) return EOF; return sim_fputc('\n', sim_stdout) < 0 ? EOF : 1; }
int sim_fgetc(FILE *f) { SimFileRec *r = R(f, "fgetc"); L l(r); return fgetc(r->real); }
int sim_getc(FILE *f) { return sim_fgetc(f); }
int sim_ungetc(int c, FILE *f) { return ungetc(c, R(f, "ungetc")->real); }
char *sim_fgets(char *b, int n, FILE *f) { SimFileRec *r = R(f, "fgets"); heap_check(b, n, true, "fgets"); L l(r); return fgets(b, n, r->real); }
int sim_vfprintf(FILE *f, const char *fmt, va_list ap) { SimFileRec *r = R(f, "vfprintf"); L l(r); return vfprintf(r->real, fmt, ap); }
int sim_fprintf(FILE *f, const char *fmt, ...) { va_list ap; va_start(ap, fmt); int n = sim_vfprintf(f, fmt, ap); va_end(ap); return n; }
int sim_printf(const char *fmt, ...) { va_list ap; va_start(ap, fmt); int n = sim_vfprintf(sim_stdout, fmt, ap); va_end(ap); return n; }
int sim_vprintf(const char *fmt, va_list ap) { return sim_vfprintf(sim_stdout, fmt, ap); }
int sim_fprintf_chk(FILE *f, int, const char *fmt, ...) { va_list ap; va_start(ap, fmt); int n = sim_vfprintf(f, fmt, ap); va_end(ap); return n; }
int sim_printf_chk(int, const char *fmt, ...) { va_list ap; va_start(ap, fmt); int n = sim_vfprintf(sim_stdout, fmt, ap); va_end(ap); return n; }
int sim_vdprintf(int fd, const char *fmt, va_list ap) { char *t = nullptr; int n = vasprintf(&t, fmt, ap); if (n > 0) n = sim_write(fd, t, n); free(t); return n; }
int sim_dprintf(int fd, const char *fmt, ...) { va_list ap; va_start(ap, fmt); int n = sim_vdprintf(fd, fmt, ap); va_end(ap); return n; }
ssize_t sim_getdelim(char **l, size_t *n, int d, FILE *f) { // the buffer belongs to the simulated heap
  SimFileRec *r = R(f, "getdelim"); L lk(r); char *t = nullptr; size_t m = 0; ssize_t k = getdelim(&t, &m, d, r->real);
  if (k >= 0) { if (!*l || *n < (size_t)k + 1) { *n = k + 1 < 120 ? 120 : k + 1; *l = (char *)sim_realloc(*l, *n); } memcpy(*l, t, k + 1); }
  free(t); return k;
}
ssize_t sim_getline(char **l, size_t *n, FILE *f) { return sim_getdelim(l, n, '\n', f); }
void sim_perror(const char *s) { sim_fprintf(sim_stderr, "%s: %s\n", s, strerror(errno)); }
void sim_vwarnx(const char *f, va_list ap) { sim_fprintf(sim_stderr, "%s: ", cur_proc()->name.c_str()); if (f) sim_vfprintf(sim_stderr, f, ap); sim_fprintf(sim_stderr, "\n"); }
void sim_vwarn(const char *f, va_list ap) { int e = errno; sim_fprintf(sim_stderr, "%s: ", cur_proc()->name.c_str()); if (f) { sim_vfprintf(sim_stderr, f, ap); sim_fprintf(sim_stderr, ": "); } sim_fprintf(sim_stderr, "%s\n", strerror(e)); }
void sim_warnx(const char *f, ...) { va_list ap; va_start(ap, f); sim_vwarnx(f, ap); va_end(ap); }
void sim_warn(const char *f, ...) { va_list ap; va_start(ap, f); sim_vwarn(f, ap); va_end(ap); }
void sim_errx(int c, const char *f, ...) { va_list ap; va_start(ap, f); sim_vwarnx(f, ap); va_end(ap); sim_exit(c); }
void sim_err(int c, const char *f, ...) { va_list ap; va_start(ap, f); sim_vwarn(f, ap); va_end(ap); sim_exit(c); }
int sim_setvbuf(FILE *f, char *b, int m, size_t n) { SimFileRec *r = R(f, "setvbuf"); L l(r); return setvbuf(r->real, b, m, n); }
void sim_setbuf(FILE *f, char *b) { sim_setvbuf(f, b, b ? _IOFBF : _IONBF, BUFSIZ); }
void sim_setlinebuf(FILE *f) { sim_setvbuf(f, nullptr, _IOLBF, 0); }
int sim_fseek(FILE *f, long o, int w) { SimFileRec *r = R(f, "fseek"); L l(r); return fseek(r->real, o, w); }
long sim_ftell(FILE *f) { SimFileRec *r = R(f, "ftell"); L l(r); return ftell(r->real); }
void sim_rewind(FILE *f) { SimFileRec *r = R(f, "rewind"); L l(r); rewind(r->real); }
void sim_flockfile(FILE *) {}
void sim_funlockfile(FILE *) {}
int sim_fpurge(FILE *f) { __fpurge(R(f, "fpurge")->real); return 0; }
}
