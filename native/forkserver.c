/* Fork server around the real CLI entry point (cli.c built with -Dmain=skull_main).
 *
 * stdin protocol, one request per line, fields separated by 0x1f:
 *   cwd, output-file, timeout-seconds, arg0, arg1, ...
 * Each request forks; the child redirects stdout into output-file and stderr
 * into output-file.err, chdirs, and calls the real main.  The answer is one line with the raw wait
 * status.  A fresh child per request means no state leaks between requests.
 */
#define _GNU_SOURCE
#include <fcntl.h>
#include <locale.h>
#include <sched.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

int skull_main(int, char **);

/* SKV_SKEW=seconds moves the clock the compiler sees */
static long skew(void) {
	const char *s = getenv("SKV_SKEW");
	return s ? atol(s) : 0;
}
time_t time(time_t *t) {
	struct timespec ts;
	syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts);
	ts.tv_sec += skew();
	if (t) *t = ts.tv_sec;
	return ts.tv_sec;
}
int clock_gettime(clockid_t c, struct timespec *ts) {
	int r = (int)syscall(SYS_clock_gettime, c, ts);
	if (!r && c == CLOCK_REALTIME) ts->tv_sec += skew();
	return r;
}
int gettimeofday(struct timeval *restrict tv, void *restrict tz) {
	struct timespec ts;
	(void)tz;
	clock_gettime(CLOCK_REALTIME, &ts);
	tv->tv_sec = ts.tv_sec;
	tv->tv_usec = ts.tv_nsec / 1000;
	return 0;
}

#ifdef __SANITIZE_ADDRESS__
/* Memory that library code without instrumentation reads or writes on the
 * compiler's behalf is touched here first, where AddressSanitizer sees it. */
#include <dlfcn.h>
#include <limits.h>
#include <uchar.h>
#include <llvm-c/Core.h>
#include <llvm-c/DebugInfo.h>

#define NEXT(f) static __typeof__(&f) next; if (!next) next = (__typeof__(&f))dlsym(RTLD_NEXT, #f)

static void touch(const void *p, size_t n) {
	const volatile char *c = p;
	for (size_t i = 0; i < n; i++) (void)c[i];
}
static void text(const char *s) {
	if (s) { const volatile char *c = s; while (*c) c++; }
}

size_t c32rtomb(char *s, char32_t c, mbstate_t *m) {
	NEXT(c32rtomb);
	if (!s) return next(s, c, m);
	char b[MB_LEN_MAX];
	size_t n = next(b, c, m);
	if (n != (size_t)-1) for (size_t i = 0; i < n; i++) ((volatile char *)s)[i] = b[i];
	return n;
}
size_t mbrtoc32(char32_t *o, const char *s, size_t n, mbstate_t *m) {
	NEXT(mbrtoc32);
	char32_t c = 0;
	size_t r = next(&c, s, n, m);
	if (s && r && r <= n) touch(s, r);
	if (o && r != (size_t)-1 && r != (size_t)-2) *(volatile char32_t *)o = c;
	return r;
}
LLVMTypeRef LLVMFunctionType(LLVMTypeRef r, LLVMTypeRef *p, unsigned n, LLVMBool v) {
	NEXT(LLVMFunctionType);
	touch(p, n * sizeof *p);
	return next(r, p, n, v);
}
LLVMValueRef LLVMBuildCall2(LLVMBuilderRef b, LLVMTypeRef t, LLVMValueRef f, LLVMValueRef *a, unsigned n, const char *name) {
	NEXT(LLVMBuildCall2);
	touch(a, n * sizeof *a);
	text(name);
	return next(b, t, f, a, n, name);
}
LLVMValueRef LLVMAddFunction(LLVMModuleRef m, const char *name, LLVMTypeRef t) {
	NEXT(LLVMAddFunction);
	text(name);
	return next(m, name, t);
}
LLVMValueRef LLVMAddGlobal(LLVMModuleRef m, LLVMTypeRef t, const char *name) {
	NEXT(LLVMAddGlobal);
	text(name);
	return next(m, t, name);
}
LLVMValueRef LLVMBuildGlobalString(LLVMBuilderRef b, const char *s, const char *name) {
	NEXT(LLVMBuildGlobalString);
	text(s);
	text(name);
	return next(b, s, name);
}
LLVMValueRef LLVMBuildAlloca(LLVMBuilderRef b, LLVMTypeRef t, const char *name) {
	NEXT(LLVMBuildAlloca);
	text(name);
	return next(b, t, name);
}
LLVMValueRef LLVMBuildLoad2(LLVMBuilderRef b, LLVMTypeRef t, LLVMValueRef p, const char *name) {
	NEXT(LLVMBuildLoad2);
	text(name);
	return next(b, t, p, name);
}
void LLVMSetValueName2(LLVMValueRef v, const char *s, size_t n) {
	NEXT(LLVMSetValueName2);
	touch(s, n);
	next(v, s, n);
}
LLVMMetadataRef LLVMDIBuilderCreateFile(LLVMDIBuilderRef b, const char *f, size_t fl, const char *d, size_t dl) {
	NEXT(LLVMDIBuilderCreateFile);
	touch(f, fl);
	touch(d, dl);
	return next(b, f, fl, d, dl);
}
LLVMMetadataRef LLVMDIBuilderCreateFunction(LLVMDIBuilderRef b, LLVMMetadataRef s, const char *n, size_t nl, const char *l, size_t ll, LLVMMetadataRef f, unsigned ln, LLVMMetadataRef ty, LLVMBool loc, LLVMBool def, unsigned sl, LLVMDIFlags fl, LLVMBool o) {
	NEXT(LLVMDIBuilderCreateFunction);
	touch(n, nl);
	touch(l, ll);
	return next(b, s, n, nl, l, ll, f, ln, ty, loc, def, sl, fl, o);
}
LLVMMetadataRef LLVMDIBuilderCreateSubroutineType(LLVMDIBuilderRef b, LLVMMetadataRef f, LLVMMetadataRef *p, unsigned n, LLVMDIFlags fl) {
	NEXT(LLVMDIBuilderCreateSubroutineType);
	touch(p, n * sizeof *p);
	return next(b, f, p, n, fl);
}
LLVMMetadataRef LLVMDIBuilderCreateBasicType(LLVMDIBuilderRef b, const char *n, size_t nl, uint64_t bits, LLVMDWARFTypeEncoding e, LLVMDIFlags fl) {
	NEXT(LLVMDIBuilderCreateBasicType);
	touch(n, nl);
	return next(b, n, nl, bits, e, fl);
}
LLVMMetadataRef LLVMDIBuilderCreatePointerType(LLVMDIBuilderRef b, LLVMMetadataRef t, uint64_t bits, uint32_t al, unsigned as, const char *n, size_t nl) {
	NEXT(LLVMDIBuilderCreatePointerType);
	touch(n, nl);
	return next(b, t, bits, al, as, n, nl);
}
LLVMMetadataRef LLVMDIBuilderCreateAutoVariable(LLVMDIBuilderRef b, LLVMMetadataRef s, const char *n, size_t nl, LLVMMetadataRef f, unsigned ln, LLVMMetadataRef ty, LLVMBool p, LLVMDIFlags fl, uint32_t al) {
	NEXT(LLVMDIBuilderCreateAutoVariable);
	touch(n, nl);
	return next(b, s, n, nl, f, ln, ty, p, fl, al);
}
LLVMMetadataRef LLVMDIBuilderCreateParameterVariable(LLVMDIBuilderRef b, LLVMMetadataRef s, const char *n, size_t nl, unsigned no, LLVMMetadataRef f, unsigned ln, LLVMMetadataRef ty, LLVMBool p, LLVMDIFlags fl) {
	NEXT(LLVMDIBuilderCreateParameterVariable);
	touch(n, nl);
	return next(b, s, n, nl, no, f, ln, ty, p, fl);
}
LLVMMetadataRef LLVMDIBuilderCreateGlobalVariableExpression(LLVMDIBuilderRef b, LLVMMetadataRef s, const char *n, size_t nl, const char *l, size_t ll, LLVMMetadataRef f, unsigned ln, LLVMMetadataRef ty, LLVMBool loc, LLVMMetadataRef e, LLVMMetadataRef d, uint32_t al) {
	NEXT(LLVMDIBuilderCreateGlobalVariableExpression);
	touch(n, nl);
	touch(l, ll);
	return next(b, s, n, nl, l, ll, f, ln, ty, loc, e, d, al);
}
#endif

#ifdef SKV_FAULTS
/* Fault injection: arguments "\2fault=NAME:N" (the N-th call fails), "\2faults=NAME:N" (and all later
 * ones), "\2errno=E", "\2fsize=BYTES", "\2close=FD", "\2nofile=N", "\2full" (standard output is /dev/full), "\2sigchld", "\2child=MS:STATUS", "\2gone=DIR"
 * come before the compiler's own.  The calls of the compiler's code are wrapped by the linker (--wrap), those of
 * LLVM are interposed.  How often each was called ends up in <output-file>.cnt. */
#include <dlfcn.h>
#include <errno.h>
#include <stdarg.h>
#include <sys/mman.h>
#include <sys/stat.h>

enum { F_malloc, F_calloc, F_realloc, F_strdup, F_fopen, F_fread, F_fseek, F_ftell, F_fclose, F_fflush, F_getcwd, F_fork, F_execvp,
	F_wait, F_remove, F_setlocale, F_open, F_write, F_wshort, F_close, F_N };
static const char *const fnames[] = { "malloc", "calloc", "realloc", "strdup", "fopen", "fread", "fseek", "ftell", "fclose", "fflush", "getcwd",
	"fork", "execvp", "wait", "remove", "setlocale", "open", "write", "wshort", "close" };
static struct { long count[F_N]; long hit; } *fc;
static int f_armed, f_which = -1, f_all, f_errno;
static long f_at;

static int fails(int w) {
	if (!f_armed) return 0;
	long c = ++fc->count[w];
	if (w != f_which || (f_all ? c < f_at : c != f_at)) return 0;
	fc->hit++;
	return 1;
}
#define WRAP(ret, name, params, args, e, bad) \
	ret __real_##name params; \
	ret __wrap_##name params { if (fails(F_##name)) { errno = f_errno ? f_errno : e; return bad; } return __real_##name args; }
WRAP(void *, malloc, (size_t n), (n), ENOMEM, NULL)
WRAP(void *, calloc, (size_t n, size_t m), (n, m), ENOMEM, NULL)
WRAP(void *, realloc, (void *p, size_t n), (p, n), ENOMEM, NULL)
WRAP(char *, strdup, (const char *s), (s), ENOMEM, NULL)
WRAP(FILE *, fopen, (const char *n, const char *m), (n, m), EIO, NULL)
WRAP(int, fseek, (FILE *f, long o, int w), (f, o, w), EIO, -1)
WRAP(long, ftell, (FILE *f), (f), EIO, -1)
WRAP(char *, getcwd, (char *b, size_t n), (b, n), ENOENT, NULL)
WRAP(pid_t, fork, (void), (), EAGAIN, -1)
WRAP(int, execvp, (const char *n, char *const *a), (n, a), ENOENT, -1)
WRAP(int, remove, (const char *n), (n), EACCES, -1)
WRAP(char *, setlocale, (int c, const char *n), (c, n), EINVAL, NULL)
size_t __real_fread(void *, size_t, size_t, FILE *);
size_t __wrap_fread(void *p, size_t s, size_t n, FILE *f) {
	if (!fails(F_fread)) return __real_fread(p, s, n, f);
	f->_flags |= 0x20;                     /* the error indicator of glibc */
	errno = EIO;
	return f_errno == 1 ? __real_fread(p, s, n / 2, f) : 0;
}
int __real_fclose(FILE *);
int __wrap_fclose(FILE *f) {
	if (!fails(F_fclose)) return __real_fclose(f);
	__real_fclose(f);
	errno = EIO;
	return EOF;
}
int __real_fflush(FILE *);
int __wrap_fflush(FILE *f) {
	if (!fails(F_fflush)) return __real_fflush(f);
	errno = ENOSPC;
	return EOF;
}
pid_t __real_wait(int *);
pid_t __wrap_wait(int *st) {               /* the C compiler is killed */
	pid_t p = __real_wait(st);
	if (fails(F_wait) && st) *st = SIGKILL;
	return p;
}
pid_t __real_waitpid(pid_t, int *, int);
pid_t __wrap_waitpid(pid_t w, int *st, int o) {
	pid_t p = __real_waitpid(w, st, o);
	if (p > 0 && fails(F_wait) && st) *st = SIGKILL;
	return p;
}
int open(const char *n, int fl, ...) {
	va_list a;
	va_start(a, fl);
	mode_t m = va_arg(a, mode_t);
	va_end(a);
	static int (*next)(const char *, int, ...);
	if (!next) next = (int (*)(const char *, int, ...))dlsym(RTLD_NEXT, "open");
	if ((fl & (O_WRONLY | O_RDWR)) && fails(F_open)) { errno = f_errno ? f_errno : EMFILE; return -1; }
	return next(n, fl, m);
}
int open64(const char *n, int fl, ...) __attribute__((alias("open")));
ssize_t write(int fd, const void *b, size_t n) {
	static ssize_t (*next)(int, const void *, size_t);
	if (!next) next = (ssize_t (*)(int, const void *, size_t))dlsym(RTLD_NEXT, "write");
	if (fd != 2 && fails(F_write)) { errno = f_errno ? f_errno : ENOSPC; return -1; }
	if (fd != 2 && n > 1 && fails(F_wshort)) n /= 2;
	return next(fd, b, n);
}
int close(int fd) {
	static int (*next)(int);
	if (!next) next = (int (*)(int))dlsym(RTLD_NEXT, "close");
	int r = next(fd);
	if (fd != 2 && fails(F_close)) { errno = EIO; return -1; }
	return r;
}
static void arm(const char *d) {
	char *c = strchr(d, ':');
	if (!strncmp(d, "fault", 5)) {
		f_all = d[5] == 's';
		const char *n = strchr(d, '=') + 1;
		for (int i = 0; i < F_N; i++) if (!strncmp(n, fnames[i], (size_t)(c - n)) && !fnames[i][c - n]) f_which = i;
		f_at = atol(c + 1);
	}
	else if (!strncmp(d, "errno=", 6)) f_errno = atoi(d + 6);
	else if (!strncmp(d, "close=", 6)) close(atoi(d + 6));
	else if (!strncmp(d, "fsize=", 6)) {
		struct rlimit l = { (rlim_t)atol(d + 6), (rlim_t)atol(d + 6) };
		setrlimit(RLIMIT_FSIZE, &l);
		signal(SIGXFSZ, SIG_IGN);
	}
	else if (!strncmp(d, "nofile=", 7)) {
		struct rlimit l = { (rlim_t)atol(d + 7), (rlim_t)atol(d + 7) };
		setrlimit(RLIMIT_NOFILE, &l);
	}
	else if (!strcmp(d, "sigchld")) signal(SIGCHLD, SIG_IGN);
	else if (!strncmp(d, "child=", 6)) {   /* a child that the compiler knows nothing of */
		if (fork() == 0) {
			for (int i = 0; i < 64; i++) close(i);
			usleep((useconds_t)atoi(d + 6) * 1000);
			_exit(c ? atoi(c + 1) : 0);
		}
	}
	else if (!strncmp(d, "gone=", 5)) {    /* the current directory does not exist any more */
		if (mkdir(d + 5, 0755) || chdir(d + 5) || rmdir(d + 5)) _exit(119);
	}
	else if (!strcmp(d, "full")) {
		int fd = open("/dev/full", O_WRONLY, 0);
		dup2(fd, 1);
		close(fd);
	}
}
#endif

#ifdef SKV_SEQ
/* Several compilations in one process, as a program that embeds the compiler makes them: the steps' arguments are
 * separated by "\3".  The settings are put back before each; step N's streams are <output-file>.N and .N.err, its result is
 * in <output-file>.N.rc (missing if the process did not survive it). */
#include "skull/build_data.h"

static void sequence(const char *base, char **a, int n) {
	static const BuildData fresh;
	int guard = open("/dev/null", O_WRONLY);
	for (int step = 0, i = 0; i < n; step++) {
		char *v[300] = { (char *)"skull" }, name[4096];
		int k = 1;
		while (i < n && strcmp(a[i], "\3")) v[k++] = a[i++];
		i++;
		snprintf(name, sizeof name, "%s.%d", base, step);
		for (int x = 0; x < 3; x++) if (fcntl(x, F_GETFD) == -1) dup2(guard, x);
		int fd = open(name, O_WRONLY | O_CREAT | O_TRUNC, 0644);
		snprintf(name, sizeof name, "%s.%d.err", base, step);
		int ed = open(name, O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
		if (fd < 3 || ed < 3) _exit(119);
		dup2(fd, 1); dup2(ed, 2);
		close(fd); close(ed);
		BUILD_DATA = fresh;
		int rc = skull_main(k, v);
		fflush(stdout);
		fflush(stderr);
		int d = 0, lost = fcntl(1, F_GETFD) == -1 || fcntl(2, F_GETFD) == -1;
		for (int x = 3; x < 256; x++) d += fcntl(x, F_GETFD) != -1;
		snprintf(name, sizeof name, "%s.%d.rc", base, step);
		FILE *f = fopen(name, "w");
		if (!f) _exit(118);
		fprintf(f, "%d %d %d\n", rc, d, lost);
		fclose(f);
	}
}
#endif

int main(void) {
	char *line = NULL;
	size_t cap = 0;
	ssize_t n;
	signal(SIGPIPE, SIG_IGN);
	while ((n = getline(&line, &cap, stdin)) > 0) {
		if (line[n - 1] == '\n') line[n - 1] = 0;
		static char *f[5000];
		int k = 0;
		for (char *p = line; p && k < 4999;) {
			f[k++] = p;
			p = strchr(p, 0x1f);
			if (p) *p++ = 0;
		}
		f[k] = NULL;
		if (k < 4) { puts("bad"); fflush(stdout); continue; }
#ifdef SKV_FAULTS
		int errpipe[2];
		if (!fc) fc = mmap(NULL, sizeof *fc, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
		memset(fc, 0, sizeof *fc);
		if (pipe(errpipe)) _exit(121);
		fcntl(errpipe[0], F_SETPIPE_SZ, 1 << 20);
#endif
		pid_t pid = fork();
		if (pid == 0) {
			char en[4096];
			snprintf(en, sizeof en, "%s.err", f[1]);
			int fd = open(f[1], O_WRONLY | O_CREAT | O_TRUNC, 0644);
			int ed = open(en, O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
			int nul = open("/dev/null", O_RDONLY);
			if (fd < 0 || ed < 0 || chdir(f[0])) _exit(120);
			dup2(nul, 0); dup2(fd, 1); dup2(ed, 2);
			close(ed); close(fd); close(nul);
			struct rlimit cpu = { (rlim_t)atoi(f[2]), (rlim_t)atoi(f[2]) };
			setrlimit(RLIMIT_CPU, &cpu);
			struct rlimit core = { 0, 0 };
			setrlimit(RLIMIT_CORE, &core);
			struct rlimit fs = { 64 << 20, 64 << 20 };
			setrlimit(RLIMIT_FSIZE, &fs);
			alarm((unsigned)atoi(f[2]) * 4);
			/* arguments of exactly their size, so that reading past one is seen */
			for (int x = 4; x < k; x++) f[x] = strcpy(malloc(strlen(f[x]) + 1), f[x]);
#ifdef SKV_FAULTS
			/* messages go through a pipe, which no file size limit affects */
			dup2(errpipe[1], 2);
			close(errpipe[0]);
			close(errpipe[1]);
			int a = 4;
			while (a < k && f[a][0] == 2) arm(f[a++] + 1);
			memmove(f + 4, f + a, (size_t)(k - a + 1) * sizeof *f);
			k -= a - 4;
			f_armed = 1;
#endif
			if (k > 4 && !strncmp(f[4], "\2chroot=", 8)) {
				/* a root directory of its own, as a user who owns nothing in it but by the files' owner bits */
				setlocale(LC_ALL, "");                    /* glibc keeps what it has read */
				setlocale(LC_ALL, "C.UTF-8");
				if (unshare(CLONE_NEWUSER) || chroot(f[4] + 8) || chdir(f[5])) _exit(117);
				memmove(f + 4, f + 6, (size_t)(k - 5) * sizeof *f);
				k -= 2;
			}
#ifdef SKV_SEQ
			sequence(f[1], f + 4, k - 4);
			exit(0);
#else
			exit(skull_main(k - 3, f + 3));
#endif
		}
		int st = 0;
		while (waitpid(pid, &st, 0) < 0) {}
#ifdef SKV_FAULTS
		close(errpipe[1]);
		char en[4096];
		snprintf(en, sizeof en, "%s.err", f[1]);
		FILE *ef = fopen(en, "w"), *ep = fdopen(errpipe[0], "r");
		for (int c; (c = getc(ep)) != EOF;) putc(c, ef);
		fclose(ef);
		fclose(ep);
		snprintf(en, sizeof en, "%s.cnt", f[1]);
		ef = fopen(en, "w");
		for (int i = 0; i < F_N; i++) fprintf(ef, "%s %ld\n", fnames[i], fc->count[i]);
		fprintf(ef, "hit %ld\n", fc->hit);
		fclose(ef);
#endif
		printf("%d\n", st);
		fflush(stdout);
	}
	return 0;
}
