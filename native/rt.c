/* Runtime monitor linked into every generated program.
 *
 * Each external function a program may call logs one event (its name and the
 * exact values it received) into shared memory, so the log survives a crash of
 * the program.  The driver below runs a table of programs, each in its own
 * forked child, and prints the wait status, the returned value and the log.
 */
#define _GNU_SOURCE
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

#define LOGCAP (4u << 20)
struct shm { volatile uint32_t len, over, done; volatile int64_t ret; char buf[LOGCAP]; };
static struct shm *S;
static struct shm local_shm;

#ifdef SK_STANDALONE
static void dump(int st, void *x) {
	(void)st; (void)x;
	fwrite(S->buf, 1, S->len, stdout);
	fflush(stdout);
}
#endif

void sk_log(const char *s, size_t n) {
	/* C code relies on the ABI's 16-byte stack alignment: a misaligned caller is an event of its own */
	static int told;
	if (((uintptr_t)__builtin_frame_address(0) & 15) && !told) {
		told = 1;
		sk_log("stack misaligned\n", 17);
	}
#ifdef SK_STANDALONE
	/* programs linked by the compiler itself have no constructors: dump the log at exit */
	if (!S) { S = &local_shm; on_exit(dump, NULL); }
#endif
	struct shm *s_ = S;
	if (s_->len + n > LOGCAP) { s_->over = 1; return; }
	memcpy(s_->buf + s_->len, s, n);
	s_->len += (uint32_t)n;
}

void sk_v_i(char *o, int64_t x) { sprintf(o, " %lld", (long long)x); }
void sk_v_f(char *o, double x) {
	uint64_t u;
	memcpy(&u, &x, 8);
	if (x != x) strcpy(o, " nan"); else sprintf(o, " %016llx", (unsigned long long)u);
}
void sk_v_b(char *o, bool x) { unsigned char c; memcpy(&c, &x, 1); sprintf(o, " %u", c); }
void sk_v_r(char *o, int32_t x) { sprintf(o, " %x", (unsigned)x); }
void sk_v_s(char *o, const char *x) {
	size_t n = strlen(x);
	if (n < 256) {
		*o++ = ' ';
		for (size_t i = 0; i < n; i++) o += sprintf(o, "%02x", (unsigned char)x[i]);
		*o = 0;
		return;
	}
	uint64_t h = 0xcbf29ce484222325u;
	for (size_t i = 0; i < n; i++) h = (h ^ (unsigned char)x[i]) * 0x100000001b3u;
	sprintf(o, " #%zu:%016llx", n, (unsigned long long)h);
}

#define EV(name, k, x) do { char b_[1100]; int n_ = sprintf(b_, "%s", name); \
	sk_v_##k(b_ + n_, x); strcat(b_, "\n"); sk_log(b_, strlen(b_)); } while (0)
#define EVD(name, k, x) do { char b_[1100]; int n_ = sprintf(b_, "%s", name); \
	sk_v_##k(b_ + n_, x); memmove(b_ + n_ + 2, b_ + n_ + 1, strlen(b_ + n_ + 1) + 1); \
	b_[n_ + 1] = '*'; strcat(b_, "\n"); sk_log(b_, strlen(b_)); } while (0)
#define FAMILY(k, T) \
	void sk_p##k(T x) { EV("sk_p" #k, k, x); } \
	T sk_g##k(T x) { EV("sk_g" #k, k, x); return x; } \
	T sk_q##k(T x) { return x; } \
	void sk_d##k(T *x) { EVD("sk_d" #k, k, *x); }
FAMILY(i, int64_t)
FAMILY(f, double)
FAMILY(b, bool)
FAMILY(r, int32_t)
FAMILY(s, const char *)

#ifdef SK_BATCH
extern int64_t (*const sk_table[])(void);
extern const int sk_count;
int main(int argc, char **argv) {
	int lo = argc > 1 ? atoi(argv[1]) : 0, hi = argc > 2 ? atoi(argv[2]) : sk_count;
	S = mmap(NULL, sizeof *S, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	for (int i = lo; i < hi; i++) {
		S->len = S->over = S->done = 0;
		S->ret = 0;
		fflush(stdout);
		pid_t pid = fork();
		if (pid == 0) {
			struct rlimit cpu = { 5, 6 }, core = { 0, 0 };
			setrlimit(RLIMIT_CPU, &cpu);
			setrlimit(RLIMIT_CORE, &core);
			alarm(60);
			S->ret = sk_table[i]();
			S->done = 1;
			_exit(0);
		}
		int st = 0;
		while (waitpid(pid, &st, 0) < 0) {}
		printf("@ %d %d %u %u %lld %u\n", i, st, S->done, S->over, (long long)S->ret, S->len);
		fwrite(S->buf, 1, S->len, stdout);
	}
	return 0;
}
#endif
