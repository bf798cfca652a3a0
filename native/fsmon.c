/* A preloaded monitor of the file system calls of one program: it records them, and on demand makes one fail, kills the
 * process at one, shortens reads and writes, interrupts them, or returns directory entries in another order.
 *
 * FSMON_PROG    name of the program to act in (any other is left alone); default "stuart"
 * FSMON_LOG     file to append a line per call to: "<n>\t<op>\t<result>\t<path>[\t<path2>]"; n is 0 for calls that are not counted
 * FSMON_ROOT    calls on paths below it are counted from 1
 * FSMON_AT      the number of the counted call to act at
 * FSMON_MODE    what to do there: "errno:N", "kill" (before the call), "partial" (write half, then kill), "stick:N" (fail this
 *               and all later calls of the same kind)
 * FSMON_SHORT   reads and writes of counted files transfer at most so many bytes at once
 * FSMON_EINTR   every so-many-th read, write or open of a counted file is interrupted first
 * FSMON_SHUFFLE seed of the order of directory entries
 * FSMON_BIND    port to bind instead of 6904
 * FSMON_CONNECT port to connect to instead of port 80 of 127.*
 * FSMON_DELAY   microseconds to wait before every counted mutating call
 */
#define _GNU_SOURCE
#include <arpa/inet.h>
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <netinet/in.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdatomic.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

static int active, logfd = -1, shuffle, bindport, connport;
static long at = -1, err_no, shortn, eintr_every, delay_us;
static enum { M_NONE, M_ERRNO, M_KILL, M_PARTIAL, M_STICK } mode;
static char root[PATH_MAX], stuck[16];
static size_t rootlen;
static atomic_long counter, ticks;
static uint64_t seed;
static pthread_mutex_t lock = PTHREAD_MUTEX_INITIALIZER;

#define MAXFD 4096
static char *fdpath[MAXFD];

#define REAL(ret, name, ...) static ret (*real_##name)(__VA_ARGS__); if (!real_##name) real_##name = dlsym(RTLD_NEXT, #name)

__attribute__((constructor)) static void init(void) {
	char exe[PATH_MAX];
	ssize_t n = readlink("/proc/self/exe", exe, sizeof exe - 1);
	if (n < 0) return;
	exe[n] = 0;
	const char *prog = getenv("FSMON_PROG"), *s, *base = strrchr(exe, '/');
	if (strcmp(base ? base + 1 : exe, prog ? prog : "stuart") != 0) return;
	if ((s = getenv("FSMON_LOG"))) {
		int fd = syscall(SYS_openat, AT_FDCWD, s, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0644);
		if (fd >= 0) { logfd = fcntl(fd, F_DUPFD_CLOEXEC, 900); syscall(SYS_close, fd); }
	}
	if ((s = getenv("FSMON_ROOT"))) { strncpy(root, s, sizeof root - 1); rootlen = strlen(root); }
	if ((s = getenv("FSMON_AT"))) at = atol(s);
	if ((s = getenv("FSMON_MODE"))) {
		if (!strncmp(s, "errno:", 6)) { mode = M_ERRNO; err_no = atol(s + 6); }
		else if (!strncmp(s, "stick:", 6)) { mode = M_STICK; err_no = atol(s + 6); }
		else if (!strcmp(s, "kill")) mode = M_KILL;
		else if (!strcmp(s, "partial")) mode = M_PARTIAL;
	}
	if ((s = getenv("FSMON_SHORT"))) shortn = atol(s);
	if ((s = getenv("FSMON_EINTR"))) eintr_every = atol(s);
	if ((s = getenv("FSMON_SHUFFLE"))) { shuffle = 1; seed = strtoull(s, 0, 10) * 0x9E3779B97F4A7C15ull + 1; }
	if ((s = getenv("FSMON_BIND"))) bindport = atoi(s);
	if ((s = getenv("FSMON_CONNECT"))) connport = atoi(s);
	if ((s = getenv("FSMON_DELAY"))) delay_us = atol(s);
	active = 1;
}

static void full(char *out, int dirfd, const char *path) {
	out[0] = 0;
	if (path[0] != '/') {
		if (dirfd == AT_FDCWD) { if (!getcwd(out, PATH_MAX)) out[0] = 0; }
		else {
			char link[64];
			snprintf(link, sizeof link, "/proc/self/fd/%d", dirfd);
			ssize_t n = readlink(link, out, PATH_MAX - 1);
			out[n < 0 ? 0 : n] = 0;
		}
	}
	size_t l = strlen(out);
	snprintf(out + l, PATH_MAX - l, "%s%s", path[0] == '/' || !path[0] ? "" : "/", path);
}

static int below(const char *p) {
	return rootlen && !strncmp(p, root, rootlen) && (p[rootlen] == 0 || p[rootlen] == '/');
}

static void record(long n, const char *op, long res, const char *p, const char *q) {
	if (logfd < 0) return;
	char buf[2 * PATH_MAX + 128];
	int l = snprintf(buf, 64, "%ld\t%s\t%ld\t", n, op, res);
	for (const char *s = p; ; s++) {
		if (!*s) { if (!q) break; buf[l++] = '\t'; s = q; q = 0; if (!*s) break; }
		if (l > (int)sizeof buf - 8) break;
		unsigned char c = *s;
		if (c < 33 || c == '%' || c > 126) l += sprintf(buf + l, "%%%02X", c); else buf[l++] = c;
	}
	buf[l++] = '\n';
	if (syscall(SYS_write, logfd, buf, l) < 0) {}
}

/* Counts the call and decides its fate: 0 to go on, -1 to fail with errno, 2 to do half of it and be killed. */
static int enter(const char *op, const char *p, const char *q, long *n, int mutates) {
	*n = 0;
	if (!below(p)) return 0;
	*n = atomic_fetch_add(&counter, 1) + 1;
	if (mutates && delay_us) usleep(delay_us);
	if (mode == M_STICK && at > 0 && *n >= at) {
		if (*n == at) strncpy(stuck, op, sizeof stuck - 1);
		if (!strcmp(stuck, op)) { record(*n, op, -err_no, p, q); errno = err_no; return -1; }
	}
	if (*n != at) return 0;
	if (mode == M_ERRNO) { record(*n, op, -err_no, p, q); errno = err_no; return -1; }
	if (mode == M_PARTIAL && !strcmp(op, "write")) return 2;
	if (mode == M_KILL || mode == M_PARTIAL) { record(*n, op, -9999, p, q); syscall(SYS_kill, getpid(), SIGKILL); pause(); }
	return 0;
}

static int interrupted(void) {
	if (!eintr_every) return 0;
	if ((atomic_fetch_add(&ticks, 1) + 1) % eintr_every) return 0;
	errno = EINTR;
	return 1;
}

#define RES(r) ((r) < 0 ? -errno : (long)(r))
#define SIMPLE(op, fd, path, call) \
	char p[PATH_MAX]; long n; \
	full(p, fd, path); \
	if (enter(op, p, 0, &n, 1)) return -1; \
	int r = call, e = errno; record(n, op, RES(r), p, 0); errno = e; return r;

static int do_open(int dirfd, const char *path, int flags, mode_t m, int (*call)(int, const char *, int, mode_t)) {
	if (!active) return call(dirfd, path, flags, m);
	char p[PATH_MAX]; long n;
	full(p, dirfd, path);
	int w = (flags & O_ACCMODE) != O_RDONLY || flags & (O_CREAT | O_TRUNC);
	const char *op = flags & O_DIRECTORY ? "opend" : w ? "openw" : "openr";
	if (below(p) && interrupted()) return -1;
	if (enter(op, p, 0, &n, w)) return -1;
	int r = call(dirfd, path, flags, m), e = errno;
	record(n, op, RES(r), p, 0);
	if (r >= 0 && r < MAXFD && !(flags & O_DIRECTORY)) {
		free(fdpath[r]);
		fdpath[r] = below(p) || w ? strdup(p) : 0;
	}
	errno = e;
	return r;
}
static int call_openat(int d, const char *p, int f, mode_t m) { return syscall(SYS_openat, d, p, f, m); }

#define MODE mode_t m = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); m = va_arg(a, mode_t); va_end(a); }
int open(const char *path, int flags, ...) { MODE return do_open(AT_FDCWD, path, flags, m, call_openat); }
int open64(const char *path, int flags, ...) { MODE return do_open(AT_FDCWD, path, flags, m, call_openat); }
int openat(int d, const char *path, int flags, ...) { MODE return do_open(d, path, flags, m, call_openat); }
int openat64(int d, const char *path, int flags, ...) { MODE return do_open(d, path, flags, m, call_openat); }
int creat(const char *path, mode_t m) { return do_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, m, call_openat); }

int close(int fd) {
	if (active && fd >= 0 && fd < MAXFD && fdpath[fd]) {
		char *s = fdpath[fd];
		fdpath[fd] = 0;
		free(s);
	}
	if (active && fd == logfd) return 0;
	return syscall(SYS_close, fd);
}

ssize_t write(int fd, const void *b, size_t len) {
	if (!active || fd < 0 || fd >= MAXFD || !fdpath[fd]) return syscall(SYS_write, fd, b, len);
	long n;
	const char *p = fdpath[fd];
	if (below(p) && interrupted()) return -1;
	int f = enter("write", p, 0, &n, 1);
	if (f == -1) return -1;
	if (f == 2) {
		if (syscall(SYS_write, fd, b, len / 2) < 0) {}
		record(n, "write", -9999, p, 0);
		syscall(SYS_kill, getpid(), SIGKILL);
		pause();
	}
	if (shortn && below(p) && len > (size_t)shortn) len = shortn;
	ssize_t r = syscall(SYS_write, fd, b, len);
	int e = errno;
	record(n, "write", RES(r), p, 0);
	errno = e;
	return r;
}

ssize_t writev(int fd, const struct iovec *v, int c) {
	if (active && fd >= 0 && fd < MAXFD && fdpath[fd] && c > 0) return write(fd, v[0].iov_base, v[0].iov_len);
	return syscall(SYS_writev, fd, v, c);
}

ssize_t read(int fd, void *b, size_t len) {
	if (!active || fd < 0 || fd >= MAXFD || !fdpath[fd]) return syscall(SYS_read, fd, b, len);
	long n;
	const char *p = fdpath[fd];
	if (below(p) && interrupted()) return -1;
	if (enter("read", p, 0, &n, 0)) return -1;
	if (shortn && below(p) && len > (size_t)shortn) len = shortn;
	ssize_t r = syscall(SYS_read, fd, b, len);
	int e = errno;
	record(n, "read", RES(r), p, 0);
	errno = e;
	return r;
}

ssize_t copy_file_range(int a, off64_t *ao, int b, off64_t *bo, size_t len, unsigned flags) {
	if (active) { errno = ENOSYS; return -1; }
	return syscall(SYS_copy_file_range, a, ao, b, bo, len, flags);
}
ssize_t sendfile64(int o, int i, off64_t *off, size_t len) {
	if (active && o >= 0 && o < MAXFD && fdpath[o]) { errno = EINVAL; return -1; }
	return syscall(SYS_sendfile, o, i, off, len);
}

int mkdir(const char *path, mode_t m) { REAL(int, mkdir, const char *, mode_t); if (!active) return real_mkdir(path, m); SIMPLE("mkdir", AT_FDCWD, path, real_mkdir(path, m)) }
int mkdirat(int d, const char *path, mode_t m) { REAL(int, mkdirat, int, const char *, mode_t); if (!active) return real_mkdirat(d, path, m); SIMPLE("mkdir", d, path, real_mkdirat(d, path, m)) }
int rmdir(const char *path) { REAL(int, rmdir, const char *); if (!active) return real_rmdir(path); SIMPLE("rmdir", AT_FDCWD, path, real_rmdir(path)) }
int unlink(const char *path) { REAL(int, unlink, const char *); if (!active) return real_unlink(path); SIMPLE("unlink", AT_FDCWD, path, real_unlink(path)) }
int remove(const char *path) { REAL(int, remove, const char *); if (!active) return real_remove(path); SIMPLE("unlink", AT_FDCWD, path, real_remove(path)) }
int unlinkat(int d, const char *path, int f) { REAL(int, unlinkat, int, const char *, int); if (!active) return real_unlinkat(d, path, f); SIMPLE(f & AT_REMOVEDIR ? "rmdir" : "unlink", d, path, real_unlinkat(d, path, f)) }
int truncate64(const char *path, off64_t l) { REAL(int, truncate64, const char *, off64_t); if (!active) return real_truncate64(path, l); SIMPLE("truncate", AT_FDCWD, path, real_truncate64(path, l)) }
int ftruncate64(int fd, off64_t l) { REAL(int, ftruncate64, int, off64_t); if (!active || fd < 0 || fd >= MAXFD || !fdpath[fd]) return real_ftruncate64(fd, l); SIMPLE("truncate", AT_FDCWD, fdpath[fd], real_ftruncate64(fd, l)) }
int chmod(const char *path, mode_t m) { REAL(int, chmod, const char *, mode_t); if (!active) return real_chmod(path, m); SIMPLE("chmod", AT_FDCWD, path, real_chmod(path, m)) }
int fchmod(int fd, mode_t m) { REAL(int, fchmod, int, mode_t); if (!active || fd < 0 || fd >= MAXFD || !fdpath[fd]) return real_fchmod(fd, m); SIMPLE("chmod", AT_FDCWD, fdpath[fd], real_fchmod(fd, m)) }

#define TWO(op, d1, a, d2, b, call) \
	char p[PATH_MAX], q[PATH_MAX]; long n; \
	full(p, d1, a); full(q, d2, b); \
	if (enter(op, below(p) ? p : q, q, &n, 1)) return -1; \
	int r = call, e = errno; record(n, op, RES(r), p, q); errno = e; return r;
int rename(const char *a, const char *b) { REAL(int, rename, const char *, const char *); if (!active) return real_rename(a, b); TWO("rename", AT_FDCWD, a, AT_FDCWD, b, real_rename(a, b)) }
int renameat(int d, const char *a, int f, const char *b) { REAL(int, renameat, int, const char *, int, const char *); if (!active) return real_renameat(d, a, f, b); TWO("rename", d, a, f, b, real_renameat(d, a, f, b)) }
int renameat2(int d, const char *a, int f, const char *b, unsigned g) { REAL(int, renameat2, int, const char *, int, const char *, unsigned); if (!active) return real_renameat2(d, a, f, b, g); TWO("rename", d, a, f, b, real_renameat2(d, a, f, b, g)) }
int link(const char *a, const char *b) { REAL(int, link, const char *, const char *); if (!active) return real_link(a, b); TWO("link", AT_FDCWD, a, AT_FDCWD, b, real_link(a, b)) }
int linkat(int d, const char *a, int f, const char *b, int g) { REAL(int, linkat, int, const char *, int, const char *, int); if (!active) return real_linkat(d, a, f, b, g); TWO("link", d, a, f, b, real_linkat(d, a, f, b, g)) }
int symlink(const char *a, const char *b) { REAL(int, symlink, const char *, const char *); if (!active) return real_symlink(a, b); SIMPLE("symlink", AT_FDCWD, b, real_symlink(a, b)) }

int statx(int d, const char *restrict path, int f, unsigned mask, struct statx *restrict b) {
	__asm__("" : "+r"(path));  // (Rust calls it with null in order to find out whether it exists, against its declaration.)
	if (!active || !path || !path[0]) return syscall(SYS_statx, d, path, f, mask, b);
	char p[PATH_MAX]; long n;
	full(p, d, path);
	if (enter("stat", p, 0, &n, 0)) return -1;
	int r = syscall(SYS_statx, d, path, f, mask, b), e = errno;
	if (n) record(n, "stat", RES(r), p, 0);
	errno = e;
	return r;
}

char *realpath(const char *restrict path, char *restrict out) {
	REAL(char *, realpath, const char *, char *);
	if (!active) return real_realpath(path, out);
	char p[PATH_MAX]; long n;
	full(p, AT_FDCWD, path);
	if (enter("realpath", p, 0, &n, 0)) return 0;
	char *r = real_realpath(path, out);
	int e = errno;
	if (n) record(n, "realpath", r ? 0 : -e, p, 0);
	errno = e;
	return r;
}

/* Directories: the entries of a directory are read at once, perhaps reordered, and handed out one by one. */
struct dir { DIR *d; char *path; struct dirent64 **e; long n, i; struct dir *next; };
static struct dir *dirs;

static struct dir *find(DIR *d) {
	struct dir *x;
	pthread_mutex_lock(&lock);
	for (x = dirs; x && x->d != d; x = x->next);
	pthread_mutex_unlock(&lock);
	return x;
}
static void add(DIR *d, const char *p) {
	struct dir *x = calloc(1, sizeof *x);
	x->d = d;
	x->path = strdup(p);
	x->i = -1;
	pthread_mutex_lock(&lock);
	x->next = dirs;
	dirs = x;
	pthread_mutex_unlock(&lock);
}

DIR *opendir(const char *path) {
	REAL(DIR *, opendir, const char *);
	if (!active) return real_opendir(path);
	char p[PATH_MAX]; long n;
	full(p, AT_FDCWD, path);
	if (enter("opend", p, 0, &n, 0)) return 0;
	DIR *d = real_opendir(path);
	int e = errno;
	record(n, "opend", d ? 0 : -e, p, 0);
	if (d && below(p)) add(d, p);
	errno = e;
	return d;
}

DIR *fdopendir(int fd) {
	REAL(DIR *, fdopendir, int);
	DIR *d = real_fdopendir(fd);
	if (active && d) {
		char p[PATH_MAX];
		full(p, fd, "");
		if (below(p)) add(d, p);
	}
	return d;
}

struct dirent64 *readdir64(DIR *d) {
	REAL(struct dirent64 *, readdir64, DIR *);
	struct dir *x = active ? find(d) : 0;
	if (!x) return real_readdir64(d);
	long n;
	if (enter("readdir", x->path, 0, &n, 0)) return 0;
	if (x->i < 0) {
		struct dirent64 *e;
		x->i = 0;
		while ((e = real_readdir64(d))) {
			x->e = realloc(x->e, (x->n + 1) * sizeof *x->e);
			x->e[x->n] = malloc(e->d_reclen > sizeof *e ? e->d_reclen : sizeof *e);
			memcpy(x->e[x->n++], e, e->d_reclen);
		}
		if (shuffle) for (long i = x->n - 1; i > 0; i--) {
			seed ^= seed << 13; seed ^= seed >> 7; seed ^= seed << 17;
			long j = seed % (i + 1);
			struct dirent64 *t = x->e[i]; x->e[i] = x->e[j]; x->e[j] = t;
		}
	}
	record(n, "readdir", x->i, x->path, x->i < x->n ? x->e[x->i]->d_name : "");
	if (x->i >= x->n) { errno = 0; return 0; }
	return x->e[x->i++];
}
struct dirent *readdir(DIR *d) { return (struct dirent *)readdir64(d); }

int closedir(DIR *d) {
	REAL(int, closedir, DIR *);
	if (active) {
		pthread_mutex_lock(&lock);
		for (struct dir **x = &dirs; *x; x = &(*x)->next) if ((*x)->d == d) {
			struct dir *y = *x;
			*x = y->next;
			for (long i = 0; i < y->n; i++) free(y->e[i]);
			free(y->e); free(y->path); free(y);
			break;
		}
		pthread_mutex_unlock(&lock);
	}
	return real_closedir(d);
}

int bind(int fd, const struct sockaddr *a, socklen_t l) {
	if (active && bindport && a->sa_family == AF_INET && ((struct sockaddr_in *)a)->sin_port == htons(6904)) {
		struct sockaddr_in b = *(struct sockaddr_in *)a;
		b.sin_port = htons(bindport);
		return syscall(SYS_bind, fd, &b, sizeof b);
	}
	return syscall(SYS_bind, fd, a, l);
}

int connect(int fd, const struct sockaddr *a, socklen_t l) {
	if (active && connport && a->sa_family == AF_INET && ((struct sockaddr_in *)a)->sin_port == htons(80) && (ntohl(((struct sockaddr_in *)a)->sin_addr.s_addr) >> 24) == 127) {
		struct sockaddr_in b = *(struct sockaddr_in *)a;
		b.sin_port = htons(connport);
		return syscall(SYS_connect, fd, &b, sizeof b);
	}
	return syscall(SYS_connect, fd, a, l);
}
