// The operating-system seam: libc entry points used by QDng and by the libraries it calls (libstdc++ file streams,
// FFTW wisdom I/O).  Strong definitions in the executable; -rdynamic makes the shared libraries bind to them.
#include "seam.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <stdarg.h>
#include <unistd.h>
#include <fcntl.h>
#include <dlfcn.h>
#include <time.h>
#include <limits.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <sys/times.h>
#include <sys/time.h>
#include <sys/sysinfo.h>
#include <sys/syscall.h>
#include <link.h>
#include <map>
#include <unordered_map>
#include <algorithm>

using namespace sim;

#define REAL(ret, name, ...) \
   typedef ret (*name##_fn)(__VA_ARGS__); \
   static name##_fn real_##name() { static name##_fn f = (name##_fn) dlsym(RTLD_NEXT, #name); return f; }

REAL(FILE*, fopen, const char*, const char*)
REAL(int, fclose, FILE*)
REAL(int, mkstemp, char*)
REAL(void*, mmap, void*, size_t, int, int, int, off_t)
REAL(void*, mremap, void*, size_t, size_t, int, void*)
REAL(int, munmap, void*, size_t)
REAL(int, remove, const char*)
REAL(int, rename, const char*, const char*)
REAL(int, mkfifo, const char*, mode_t)
REAL(char*, mkdtemp, char*)
REAL(int, posix_memalign, void**, size_t, size_t)

namespace sim {
int real_open(const char* p, int fl, int mode) { return syscall(SYS_openat, AT_FDCWD, p, fl, mode); }
ssize_t real_read(int fd, void* b, size_t n) { return syscall(SYS_read, fd, b, n); }
ssize_t real_write(int fd, const void* b, size_t n) { return syscall(SYS_write, fd, b, n); }
int real_close(int fd) { return syscall(SYS_close, fd); }
int real_unlink(const char* p) { return syscall(SYS_unlink, p); }
int real_mkdir(const char* p, int mode) { return syscall(SYS_mkdir, p, mode); }
char* mkdtemp_real(char* t) { return real_mkdtemp()(t); }
time_t real_time_now()
{
   struct timespec ts;
   syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts);
   return ts.tv_sec;
}

struct OpenFile { str path; bool write; bool eof; bool used; bool torn; };
enum { MAX_FD = 1024 };
static OpenFile* const files = new OpenFile[MAX_FD]();   // never destroyed, like all state used during exit()
enum { FD_ENTROPY = 1000000 };

int open_fds()
{
   int n = 0;
   for (int i = 0; i < MAX_FD; i++)
      if (files[i].used) n++;
   return n;
}

// path as it appears in the log; empty if the path is outside the simulated system
static str sim_path(const char* p)
{
   if (!p || !active()) return "";
   str s(p);
   if (s.empty()) return "";
   if (s[0] != '/') {
      while (s.compare(0, 2, "./") == 0) s = s.substr(2);
      return s;
   }
   if (s.compare(0, st.dir.size(), st.dir) == 0 && s.size() > st.dir.size()) return s.substr(st.dir.size() + 1);
   return "";
}
static bool is_bad(const str& p) { return st.bad_op.count(p) || st.bad_run.count(p); }
static bool is_full() { return st.full_op || st.full_run; }
static void make_bad(const Fault* f, const str& p) { (f->op >= 0 ? st.bad_op : st.bad_run).insert(p); }
static void make_full(const Fault* f)
{
   (f->op >= 0 ? st.full_op : st.full_run) = true;
   st.full_left = f->arg;
}
static int err_of(const Fault* f) { return f->arg > 0 ? (int) f->arg : EIO; }

// common treatment of calls that either fail or proceed; true: fail with errno set
static bool simple_fail(Ev cls, const char* what, const str& p)
{
   const Fault* f = event(cls);
   if (f) {
      count_fault(f);
      errno = f->kind == "full" ? ENOSPC : (f->kind == "fail" ? err_of(f) : EIO);
      if (f->kind == "full") make_full(f);
      if (f->kind == "eio") make_bad(f, p);
      note("%s %s -> injected errno %d", what, p.c_str(), errno);
      return true;
   }
   return false;
}

static ssize_t sim_write(int fd, const struct iovec* iov, int cnt)
{
   OpenFile& of = files[fd];
   size_t len = 0;
   for (int i = 0; i < cnt; i++) len += iov[i].iov_len;
   const Fault* f = event(E_WRITE);
   size_t allow = len;
   int err = 0;
   bool crash = false;
   if (f) {
      count_fault(f);
      if (f->kind == "short") allow = std::min(len, (size_t) std::max(1l, f->arg));
      else if (f->kind == "eintr") { allow = 0; err = EINTR; }
      else if (f->kind == "full") { make_full(f); }
      else if (f->kind == "eio") { make_bad(f, of.path); }
      else if (f->kind == "crashmid") { allow = std::min(len, (size_t) std::max(0l, f->arg)); crash = true; }
      else { allow = 0; err = err_of(f); }
   }
   if (!err && is_bad(of.path)) { allow = 0; err = EIO; }
   if (!err && is_full()) {
      if (st.full_left <= 0) { allow = 0; err = ENOSPC; }
      else {
         allow = std::min(allow, (size_t) st.full_left);
         st.full_left -= allow;
      }
   }
   ssize_t done = 0;
   size_t left = allow;
   for (int i = 0; i < cnt && left; i++) {
      size_t n = std::min(left, iov[i].iov_len);
      const char* b = (const char*) iov[i].iov_base;
      size_t d = 0;
      while (d < n) {
         ssize_t w = syscall(SYS_write, fd, b + d, n - d);
         if (w <= 0) { err = errno; break; }
         d += w;
      }
      done += d;
      left -= d;
      if (d < n) break;
   }
   note("write %s %zu -> %zd%s", of.path.c_str(), len, err ? (ssize_t) -err : done, f ? " injected" : "");
   if (crash) crash_now("write");
   if (err) { errno = err; return -1; }
   return done;
}

// ------------------------------------------------------------------ FILE* users other than libstdc++ (FFTW wisdom)
struct Cookie { int fd; };
static ssize_t ck_read(void* c, char* b, size_t n) { return ::read(((Cookie*) c)->fd, b, n); }
static ssize_t ck_write(void* c, const char* b, size_t n)
{
   ssize_t r = ::write(((Cookie*) c)->fd, b, n);
   return r < 0 ? 0 : r;
}
static int ck_close(void* c)
{
   int r = ::close(((Cookie*) c)->fd);
   delete (Cookie*) c;
   return r;
}
static uintptr_t stdcxx_lo, stdcxx_hi;
static int find_stdcxx(struct dl_phdr_info* i, size_t, void*)
{
   if (i->dlpi_name && strstr(i->dlpi_name, "libstdc++"))
      for (int k = 0; k < i->dlpi_phnum; k++)
         if (i->dlpi_phdr[k].p_type == PT_LOAD) {
            uintptr_t a = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr, b = a + i->dlpi_phdr[k].p_memsz;
            if (!stdcxx_lo || a < stdcxx_lo) stdcxx_lo = a;
            if (b > stdcxx_hi) stdcxx_hi = b;
         }
   return 0;
}
static bool from_stdcxx(void* ra)
{
   if (!stdcxx_hi) dl_iterate_phdr(find_stdcxx, NULL);
   return (uintptr_t) ra >= stdcxx_lo && (uintptr_t) ra < stdcxx_hi;
}

static int sim_open_fd(const char* path, const str& p, int flags, int mode)
{
   if (is_bad(p)) { errno = EIO; note("open %s -> EIO (bad)", p.c_str()); return -1; }
   struct stat sb;
   bool exists = ::syscall(SYS_stat, path, &sb) == 0;
   if (is_full() && (flags & O_CREAT) && !exists && st.full_left <= 0) { errno = ENOSPC; note("open %s -> ENOSPC", p.c_str()); return -1; }
   if (exists && S_ISFIFO(sb.st_mode)) flags |= O_NONBLOCK;
   int fd = real_open(path, flags, mode);
   if (fd >= 0 && fd < MAX_FD) {
      files[fd].path = p;
      files[fd].write = (flags & O_ACCMODE) != O_RDONLY;
      files[fd].eof = false;
      files[fd].torn = false;
      files[fd].used = true;
   }
   note("open %s %s%s%s -> %s", p.c_str(), (flags & O_ACCMODE) == O_RDONLY ? "r" : "w", flags & O_TRUNC ? "t" : "",
        flags & O_APPEND ? "a" : "", fd >= 0 ? "ok" : strerror(errno));
   return fd;
}
static int parse_mode(const char* m)
{
   bool plus = strchr(m, '+') != NULL;
   int excl = strchr(m, 'x') ? O_EXCL : 0;
   if (m[0] == 'r') return plus ? O_RDWR : O_RDONLY;
   if (m[0] == 'w') return (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC | excl;
   return (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND | excl;
}
static int close_event(int fd)   // returns errno to report, 0 if fine
{
   OpenFile of = files[fd];
   files[fd].used = false;
   const Fault* f = event(E_CLOSE);
   if (!f) return 0;
   count_fault(f);
   if (f->kind == "closelose" && of.write) {
      off_t end = lseek(fd, 0, SEEK_END);
      off_t to = std::max((off_t) 0, end - (off_t) std::max(1l, f->arg));
      if (syscall(SYS_ftruncate, fd, to)) {}
      note("close %s -> EIO, last %ld bytes lost", of.path.c_str(), (long) (end - to));
      return EIO;
   }
   int e = f->kind == "fail" ? err_of(f) : EIO;
   note("close %s -> injected errno %d", of.path.c_str(), e);
   return e;
}
}

extern "C" {

FILE* fopen(const char* path, const char* mode)
{
   str p = sim_path(path);
   if (p.empty()) return real_fopen()(path, mode);
   if (simple_fail(E_OPEN, "open", p)) return NULL;
   if (!from_stdcxx(__builtin_return_address(0))) {
      int fd = sim_open_fd(path, p, parse_mode(mode), 0666);
      if (fd < 0) return NULL;
      cookie_io_functions_t io = {ck_read, ck_write, NULL, ck_close};
      Cookie* c = new Cookie;
      c->fd = fd;
      return fopencookie(c, mode, io);
   }
   int fd = sim_open_fd(path, p, parse_mode(mode), 0666);
   if (fd < 0) return NULL;
   return fdopen(fd, mode);
}
FILE* fopen64(const char* path, const char* mode) { return fopen(path, mode); }

int fclose(FILE* f)
{
   int fd = fileno(f);
   if (fd >= 0 && fd < MAX_FD && files[fd].used && in_child()) {
      int e = 0;
      if (active()) e = close_event(fd);
      else files[fd].used = false;
      int r = real_fclose()(f);
      if (e) {
         errno = e;
         return EOF;
      }
      return r;
   }
   return real_fclose()(f);
}

static int do_open(const char* path, int flags, int mode)
{
   if (in_child() && !strcmp(path, "/dev/urandom")) {   // (never the real one, not even in quiet sections)
      if (active() && simple_fail(E_OPEN, "open", path)) return -1;
      int fd = real_open("/dev/null", O_RDONLY, 0);
      if (fd >= 0 && fd < MAX_FD) {
         files[fd].path = "/dev/urandom";
         files[fd].write = files[fd].eof = files[fd].torn = false;
         files[fd].used = true;
      }
      if (active()) note("open /dev/urandom");
      return fd;
   }
   str p = sim_path(path);
   if (p.empty()) return real_open(path, flags, mode);
   if (simple_fail(E_OPEN, "open", p)) return -1;
   return sim_open_fd(path, p, flags, mode);
}
int open(const char* path, int flags, ...)
{
   int mode = 0;
   if (flags & O_CREAT) {
      va_list a;
      va_start(a, flags);
      mode = va_arg(a, int);
      va_end(a);
   }
   return do_open(path, flags, mode);
}
int open64(const char* path, int flags, ...)
{
   int mode = 0;
   if (flags & O_CREAT) {
      va_list a;
      va_start(a, flags);
      mode = va_arg(a, int);
      va_end(a);
   }
   return do_open(path, flags, mode);
}
int creat(const char* path, mode_t mode) { return do_open(path, O_CREAT | O_WRONLY | O_TRUNC, mode); }

ssize_t write(int fd, const void* b, size_t n)
{
   if (active() && fd >= 0 && fd < MAX_FD && files[fd].used) {
      struct iovec v = {(void*) b, n};
      return sim_write(fd, &v, 1);
   }
   return syscall(SYS_write, fd, b, n);
}
ssize_t writev(int fd, const struct iovec* v, int c)
{
   if (active() && fd >= 0 && fd < MAX_FD && files[fd].used) return sim_write(fd, v, c);
   return syscall(SYS_writev, fd, v, c);
}
ssize_t read(int fd, void* b, size_t n)
{
   if (!active() && in_child() && fd >= 0 && fd < MAX_FD && files[fd].used && files[fd].path == "/dev/urandom") {
      for (size_t i = 0; i < n; i++) ((unsigned char*) b)[i] = st.entropy_same ? 0x5a : st.entropy.next() >> 24;
      return n;
   }
   if (!(active() && fd >= 0 && fd < MAX_FD && files[fd].used)) return syscall(SYS_read, fd, b, n);
   OpenFile& of = files[fd];
   bool ent = of.path == "/dev/urandom";
   const Fault* f = event(ent ? E_ENTROPY : E_READ);
   size_t allow = n;
   if (f) {
      count_fault(f);
      if (f->kind == "short") allow = std::min(n, (size_t) std::max(1l, f->arg));
      else if (f->kind == "tear") {   // the medium is unreadable from some point within this block on
         allow = std::min(n, (size_t) std::max(0l, f->arg));
         of.torn = true;
         if (!allow) { errno = EIO; note("read %s -> injected errno %d", of.path.c_str(), errno); return -1; }
      }
      else if (f->kind == "eof") of.eof = true;
      else if (f->kind == "same" && ent) st.entropy_same = true;
      else {
         if (f->kind == "eio") make_bad(f, of.path);
         errno = f->kind == "eintr" ? EINTR : (f->kind == "fail" ? err_of(f) : EIO);
         note("read %s -> injected errno %d", of.path.c_str(), errno);
         return -1;
      }
   }
   if (of.torn && !(f && f->kind == "tear")) {
      S->fault_any++;
      errno = EIO;
      note("read %s -> EIO (unreadable from here)", of.path.c_str());
      return -1;
   }
   if (is_bad(of.path)) { errno = EIO; note("read %s -> EIO (bad)", of.path.c_str()); return -1; }
   ssize_t r = 0;
   if (of.eof) r = 0;
   else if (ent) {
      if (st.entropy_same) memset(b, 0x5a, allow);
      else
         for (size_t i = 0; i < allow; i++) ((unsigned char*) b)[i] = st.entropy.next() >> 24;
      r = allow;
   } else {
      r = syscall(SYS_read, fd, b, allow);
      if (r < 0 && errno == EAGAIN) r = 0;
   }
   note("read %s %zu -> %zd%s", of.path.c_str(), n, r, f ? " injected" : "");
   return r;
}
int close(int fd)
{
   if (fd >= 0 && fd < MAX_FD && files[fd].used && in_child()) {
      int e = 0;
      if (active()) e = close_event(fd);
      else files[fd].used = false;
      int r = real_close(fd);
      if (e) {
         errno = e;
         return -1;
      }
      return r;
   }
   if (active() && fd > 2) note("close of foreign fd");
   return real_close(fd);
}
off_t lseek(int fd, off_t o, int w)
{
   if (active() && fd >= 0 && fd < MAX_FD && files[fd].used) {
      if (simple_fail(E_SEEK, "seek", files[fd].path)) return -1;
   }
   off_t r = syscall(SYS_lseek, fd, o, w);
   if (active() && fd >= 0 && fd < MAX_FD && files[fd].used)
      note("seek %s %ld %d -> %ld", files[fd].path.c_str(), (long) o, w, (long) r);
   return r;
}
off64_t lseek64(int fd, off64_t o, int w) { return lseek(fd, o, w); }
int ftruncate(int fd, off_t len)
{
   if (active() && fd >= 0 && fd < MAX_FD && files[fd].used) {
      if (simple_fail(E_TRUNC, "ftruncate", files[fd].path)) return -1;
      note("ftruncate %s %ld", files[fd].path.c_str(), (long) len);
   }
   return syscall(SYS_ftruncate, fd, len);
}
int ftruncate64(int fd, off64_t len) { return ftruncate(fd, len); }
void* mmap(void* a, size_t l, int pr, int fl, int fd, off_t o)
{
   if (active() && fd >= 0 && fd < MAX_FD && files[fd].used) {
      if (simple_fail(E_MMAP, "mmap", files[fd].path)) return MAP_FAILED;
      note("mmap %s %zu", files[fd].path.c_str(), l);
   }
   return (void*) syscall(SYS_mmap, a, l, pr, fl, fd, o);
}
void* mmap64(void* a, size_t l, int pr, int fl, int fd, off64_t o) { return mmap(a, l, pr, fl, fd, o); }
void* mremap(void* a, size_t ol, size_t nl, int fl, ...)
{
   void* na = NULL;
   if (fl & MREMAP_FIXED) {
      va_list v;
      va_start(v, fl);
      na = va_arg(v, void*);
      va_end(v);
   }
   if (active()) {
      if (simple_fail(E_MMAP, "mremap", "-")) return MAP_FAILED;
      note("mremap %zu %zu", ol, nl);
   }
   return (void*) syscall(SYS_mremap, a, ol, nl, fl, na);
}
int stat(const char* p, struct stat* sb)
{
   str s = sim_path(p);
   if (!s.empty()) {
      if (simple_fail(E_STAT, "stat", s)) return -1;
   }
   int r = syscall(SYS_newfstatat, AT_FDCWD, p, sb, 0);
   if (!s.empty()) note("stat %s -> %d", s.c_str(), r);
   return r;
}
int unlink(const char* p)
{
   str s = sim_path(p);
   if (!s.empty()) {
      if (simple_fail(E_UNLINK, "unlink", s)) return -1;
   }
   int r = syscall(SYS_unlink, p);
   if (!s.empty()) note("unlink %s -> %d", s.c_str(), r ? errno : 0);
   return r;
}
int remove(const char* p)
{
   str s = sim_path(p);
   if (s.empty()) return real_remove()(p);
   if (simple_fail(E_UNLINK, "remove", s)) return -1;
   int r = syscall(SYS_unlink, p);
   if (r && errno == EISDIR) r = syscall(SYS_rmdir, p);
   note("remove %s -> %d", s.c_str(), r ? errno : 0);
   return r;
}
int rename(const char* a, const char* b)
{
   str s = sim_path(a), t = sim_path(b);
   if (!s.empty() || !t.empty()) {
      if (simple_fail(E_RENAME, "rename", s + " " + t)) return -1;
   }
   int r = syscall(SYS_rename, a, b);
   if (!s.empty()) note("rename %s %s -> %d", s.c_str(), t.c_str(), r ? errno : 0);
   return r;
}
int mkdir(const char* p, mode_t m)
{
   str s = sim_path(p);
   if (!s.empty()) {
      if (simple_fail(E_MKDIR, "mkdir", s)) return -1;
      note("mkdir %s", s.c_str());
   }
   return syscall(SYS_mkdir, p, m);
}
int mkfifo(const char* p, mode_t m)
{
   str s = sim_path(p);
   if (!s.empty()) {
      if (simple_fail(E_MKFIFO, "mkfifo", s)) return -1;
   }
   int r = syscall(SYS_mknodat, AT_FDCWD, p, S_IFIFO | m, 0);
   if (!s.empty()) note("mkfifo %s -> %d", s.c_str(), r ? errno : 0);
   return r;
}
int mkstemp(char* t)
{
   str s = sim_path(t);
   if (s.empty()) return real_mkstemp()(t);
   if (simple_fail(E_MKSTEMP, "mkstemp", s)) return -1;
   size_t n = strlen(t);
   if (n < 6 || strcmp(t + n - 6, "XXXXXX")) { errno = EINVAL; return -1; }
   for (int i = 0; i < 100; i++) {
      for (int k = 0; k < 6; k++) t[n - 6 + k] = "abcdefghijklmnopqrstuvwxyzABCDEF"[(st.entropy_same ? 7 : st.entropy.next() >> 20) & 31];
      if (st.entropy_same) t[n - 1] = 'a' + i % 26, t[n - 2] = 'a' + i / 26;
      int fd = sim_open_fd(t, sim_path(t), O_RDWR | O_CREAT | O_EXCL, 0600);
      if (fd >= 0 || errno != EEXIST) return fd;
   }
   errno = EEXIST;
   return -1;
}
int mkstemp64(char* t) { return mkstemp(t); }

// ------------------------------------------------------------------ clocks
static uint64_t clock_event()
{
   const Fault* f = event(E_CLOCK);
   if (f) {
      count_fault(f);
      st.clock_jump_us += f->arg * 1000000l;
      note("clock jump %ld s", f->arg);
   }
   return S->sim_time_us + st.clock_jump_us;
}
time_t time(time_t* t)
{
   time_t r = active() ? (time_t) (clock_event() / 1000000) : real_time_now();
   if (t) *t = r;
   return r;
}
clock_t times(struct tms* b)
{
   if (!active()) return syscall(SYS_times, b);
   uint64_t u = clock_event();
   if (b) {
      b->tms_utime = u / 10000;
      b->tms_stime = u / 70000;
      b->tms_cutime = b->tms_cstime = 0;
   }
   return u / 10000;
}
clock_t clock(void)
{
   if (!active()) {
      struct timespec ts;
      syscall(SYS_clock_gettime, CLOCK_PROCESS_CPUTIME_ID, &ts);
      return ts.tv_sec * 1000000 + ts.tv_nsec / 1000;
   }
   return clock_event();
}
int clock_gettime(clockid_t c, struct timespec* ts)
{
   if (!active()) return syscall(SYS_clock_gettime, c, ts);
   uint64_t u = clock_event();
   ts->tv_sec = u / 1000000;
   ts->tv_nsec = u % 1000000 * 1000;
   return 0;
}
int gettimeofday(struct timeval* tv, void* tz)
{
   if (!active()) return syscall(SYS_gettimeofday, tv, tz);
   uint64_t u = clock_event();
   tv->tv_sec = u / 1000000;
   tv->tv_usec = u % 1000000;
   return 0;
}
int sysinfo(struct sysinfo* i)
{
   if (!active()) return syscall(SYS_sysinfo, i);
   memset(i, 0, sizeof *i);
   const Fault* f = event(E_SYSINFO);
   i->mem_unit = 1;
   i->totalram = st.ram;
   i->freeram = st.ram / 2;
   if (f) {
      count_fault(f);
      if (f->kind == "lie") i->totalram = (uint64_t) f->arg << 10;
   }
   note("sysinfo");
   return 0;
}
int usleep(useconds_t u)
{
   if (active()) { S->sim_time_us += u; return 0; }
   struct timespec ts = {(time_t) (u / 1000000), (long) (u % 1000000) * 1000};
   return syscall(SYS_nanosleep, &ts, NULL);
}
unsigned sleep(unsigned s)
{
   if (active()) { S->sim_time_us += s * 1000000ull; return 0; }
   struct timespec ts = {(time_t) s, 0};
   syscall(SYS_nanosleep, &ts, NULL);
   return 0;
}
pid_t getpid()   // part of generated names
{
   return in_child() ? (pid_t) st.pid : (pid_t) syscall(SYS_getpid);
}

// ------------------------------------------------------------------ managed memory
void __libc_free(void*);
}
namespace sim {
struct Live { void* p; size_t n; };
enum { LIVE = 1 << 15 };
static Live live[LIVE], live_old[LIVE];
static size_t live_n, live_bytes, live_used;   // used: slots that are not empty (live or deleted)
static size_t slot(void* p) { return ((uintptr_t) p >> 5) * 0x9E3779B97F4A7C15ull >> 49; }
static void live_add(void* p, size_t n)
{
   if (live_n > LIVE / 2) return;
   if (live_used > LIVE / 4 * 3) {   // rebuild without the deleted slots
      memcpy(live_old, live, sizeof live);
      memset(live, 0, sizeof live);
      live_used = 0;
      for (size_t k = 0; k < LIVE; k++)
         if (live_old[k].p && live_old[k].p != (void*) -1) {
            size_t i = slot(live_old[k].p) & (LIVE - 1);
            while (live[i].p) i = (i + 1) & (LIVE - 1);
            live[i] = live_old[k];
            live_used++;
         }
   }
   size_t i = slot(p) & (LIVE - 1);
   while (live[i].p && live[i].p != (void*) -1) i = (i + 1) & (LIVE - 1);
   if (!live[i].p) live_used++;
   live[i].p = p;
   live[i].n = n;
   live_n++;
   live_bytes += n;
   if (live_bytes > S->aligned_peak) S->aligned_peak = live_bytes;
}
static void live_del(void* p)
{
   size_t i = slot(p) & (LIVE - 1);
   while (live[i].p) {
      if (live[i].p == p) {
         live[i].p = (void*) -1;
         live_n--;
         live_bytes -= live[i].n;
         return;
      }
      i = (i + 1) & (LIVE - 1);
   }
}
size_t aligned_live_bytes() { return live_bytes; }
size_t aligned_live_blocks() { return live_n; }
}
extern "C" {
int posix_memalign(void** p, size_t al, size_t n)
{
   if (active()) {
      const Fault* f = event(E_ALLOC);
      if (f) {
         count_fault(f);
         note("posix_memalign %zu -> refused", n);
         return ENOMEM;
      }
   }
   int r = real_posix_memalign()(p, al, n);
   if (r == 0 && in_child()) {
      memset(*p, st.fill, n);
      live_add(*p, n);
   }
   return r;
}
void free(void* p)
{
   if (live_n && p) live_del(p);
   __libc_free(p);
}
}
