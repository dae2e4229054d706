/* Runtime monitor for line tables: runs each program of sk_table under the processor's trap flag and records, for
 * every instruction executed between skv_lo and skv_hi (the programs' code), its address, and for every call that
 * leaves it, the address called.  The foreign code itself runs at full speed. */
#define SK_TRACE
#include "rt.c"
#include <signal.h>
#include <ucontext.h>

extern char skv_lo[], skv_hi[], skv_tramp[];
extern int64_t (*const sk_table[])(void);
extern const int sk_count;
#define CAP (1u << 20)
static struct { volatile uint32_t n; uint64_t v[CAP]; } *T;
uint64_t skv_ret;

__asm__(".text\n.globl skv_tramp\nskv_tramp:\n"
	"subq $8, %rsp\n pushq %rax\n movq skv_ret(%rip), %rax\n movq %rax, 8(%rsp)\n popq %rax\n"
	"pushfq\n orq $0x100, (%rsp)\n popfq\n ret\n");

static void add(uint64_t x) { if (T->n < CAP) T->v[T->n++] = x; }

static void trap(int sig, siginfo_t *si, void *u) {
	(void)sig; (void)si;
	greg_t *g = ((ucontext_t *)u)->uc_mcontext.gregs;
	uint64_t pc = (uint64_t)g[REG_RIP];
	static int in;
	static uint64_t lastpc, lastsp;
	uint64_t now = (uint64_t)g[REG_RSP];
	if (pc >= (uint64_t)skv_lo && pc < (uint64_t)skv_hi) {
		/* bit 62: reached by a call instruction */
		int call = in && now == lastsp - 8 && *(uint64_t *)now > lastpc && *(uint64_t *)now <= lastpc + 8;
		add(pc | (call ? 1ull << 62 : 0));
		in = 1;
		lastpc = pc;
		lastsp = now;
		return;
	}
	if (!in) return;
	/* just called: come back through the trampoline, which turns tracing on again */
	in = 0;
	add(pc | 1ull << 63);
	uint64_t *sp = (uint64_t *)g[REG_RSP];
	if (*sp < (uint64_t)skv_lo || *sp >= (uint64_t)skv_hi) { g[REG_EFL] &= ~0x100; return; }
	skv_ret = *sp;
	*sp = (uint64_t)skv_tramp;
	g[REG_EFL] &= ~0x100;
}

static int64_t traced(int64_t (*f)(void)) {
	__asm__ volatile("pushfq\n orq $0x100, (%%rsp)\n popfq" ::: "cc", "memory");
	int64_t r = f();
	__asm__ volatile("pushfq\n andq $~0x100, (%%rsp)\n popfq" ::: "cc", "memory");
	return r;
}

int main(void) {
	S = mmap(NULL, sizeof *S, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	T = mmap(NULL, sizeof *T, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	for (int i = 0; i < sk_count; i++) {
		S->len = S->over = S->done = 0;
		T->n = 0;
		fflush(stdout);
		pid_t pid = fork();
		if (pid == 0) {
			struct rlimit cpu = { 20, 21 }, core = { 0, 0 };
			setrlimit(RLIMIT_CPU, &cpu);
			setrlimit(RLIMIT_CORE, &core);
			alarm(120);
			struct sigaction sa = { .sa_sigaction = trap, .sa_flags = SA_SIGINFO };
			sigaction(SIGTRAP, &sa, NULL);
			S->ret = traced(sk_table[i]);
			S->done = 1;
			_exit(0);
		}
		int st = 0;
		while (waitpid(pid, &st, 0) < 0) {}
		printf("@ %d %d %u %u %u\n", i, st, S->done, T->n, S->len);
		for (uint32_t k = 0; k < T->n; k++) printf("%llx\n", (unsigned long long)T->v[k]);
		fwrite(S->buf, 1, S->len, stdout);
	}
	return 0;
}
