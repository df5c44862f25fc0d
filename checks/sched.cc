// Scheduler for two threads: compiled without instrumentation, it implements the entry points that
// -fsanitize=thread makes the compiler call before every memory access of the instrumented code.
#include "sched.hh"
#include <cstdlib>
#include <cstring>
#include <pthread.h>
#include <semaphore.h>

namespace sched {

Config config;
static sem_t token[2];
static volatile bool done[2];
static thread_local int me = -1;
static thread_local uintptr_t stack_lo, stack_hi;
static thread_local bool inside;
static int since; // scheduling points since the last switch

static unsigned hash(uint64_t g) { return (g * 0x9e3779b97f4a7c15ull) >> 40; }
static bool is_point(uint64_t g)
{
	if (!config.points) return false;
	for (unsigned i = hash(g);; ++i) {
		uint64_t p = config.point[i % POINTS];
		if (p == g) return true;
		if (!p) return false;
	}
}
bool add_point(uint64_t g)
{
	if (is_point(g)) return false;
	if (config.points >= POINTS / 2) return false;
	unsigned i = hash(g);
	while (config.point[i % POINTS]) ++i;
	config.point[i % POINTS] = g;
	++config.points;
	return true;
}
static void change()
{
	const int other = !me;
	since = 0;
	if (config.alone || done[other]) return;
	++config.report->switches;
	sem_post(&token[other]);
	while (sem_wait(&token[me]));
}
static void point()
{
	const int n = ++config.report->points;
	bool now = ++since > 20000; // somebody is spinning
	for (int i = 0; i < config.preemptions; ++i) now |= config.preempt[i] == n;
	if (now) change();
}
static inline void access(const volatile void *p, size_t n, int how)
{
	if (me < 0 || inside || !n) return;
	const uintptr_t a = (uintptr_t)p;
	if (a >= stack_lo && a < stack_hi) return;
	inside = true;
	Report &r = *config.report;
	bool stop = false;
	for (uint64_t g = a / 8; g <= (a + n - 1) / 8; ++g) {
		unsigned i = hash(g);
		for (;; ++i) {
			uint64_t &e = r.granule[me][i % TABLE];
			if (e == g) break;
			if (e) continue;
			if (r.used[me] >= TABLE / 2) { r.full = true; break; }
			e = g;
			++r.used[me];
			break;
		}
		if (r.granule[me][i % TABLE] == g) r.access[me][i % TABLE] |= how;
		stop = stop || is_point(g);
	}
	if (stop) point();
	inside = false;
}
// a thread that cannot go on lets the other one run
static void blocked()
{
	if (config.alone || done[!me]) { config.report->deadlock = true; _Exit(77); }
	change();
}
static void (*work)(int);
static void *thread(void *arg)
{
	const int role = (int)(intptr_t)arg;
	pthread_attr_t attr;
	void *lo;
	size_t size;
	pthread_getattr_np(pthread_self(), &attr);
	pthread_attr_getstack(&attr, &lo, &size);
	pthread_attr_destroy(&attr);
	stack_lo = (uintptr_t)lo;
	stack_hi = stack_lo + size;
	while (sem_wait(&token[role]));
	me = role;
	work(role);
	me = -1;
	done[role] = true;
	since = 0;
	sem_post(&token[!role]);
	return nullptr;
}
void run(void (*body)(int))
{
	work = body;
	pthread_t t[2];
	for (int i = 0; i < 2; ++i) sem_init(&token[i], 0, 0);
	for (int i = 0; i < 2; ++i) if (!config.alone || i == config.first) pthread_create(&t[i], nullptr, thread, (void *)(intptr_t)i);
	sem_post(&token[config.first]);
	for (int i = 0; i < 2; ++i) if (!config.alone || i == config.first) pthread_join(t[i], nullptr);
}

}

using sched::access;
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define RW(N) \
	void __tsan_read##N(void *p) { access(p, N, 1); } \
	void __tsan_write##N(void *p) { access(p, N, 2); } \
	void __tsan_unaligned_read##N(void *p) { access(p, N, 1); } \
	void __tsan_unaligned_write##N(void *p) { access(p, N, 2); } \
	void __tsan_volatile_read##N(void *p) { access(p, N, 1); } \
	void __tsan_volatile_write##N(void *p) { access(p, N, 2); } \
	void __tsan_unaligned_volatile_read##N(void *p) { access(p, N, 1); } \
	void __tsan_unaligned_volatile_write##N(void *p) { access(p, N, 2); } \
	void __tsan_read##N##_pc(void *p, void *) { access(p, N, 1); } \
	void __tsan_write##N##_pc(void *p, void *) { access(p, N, 2); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_read(void **p) { access(p, 8, 1); }
void __tsan_vptr_update(void **p, void *) { access(p, 8, 2); }
void __tsan_read_range(void *p, size_t n) { access(p, n, 1); }
void __tsan_write_range(void *p, size_t n) { access(p, n, 2); }

#define ATOMIC(BITS, TYPE) \
	TYPE __tsan_atomic##BITS##_load(const volatile TYPE *p, int) { access(p, sizeof(TYPE), 1); return __atomic_load_n(p, __ATOMIC_SEQ_CST); } \
	void __tsan_atomic##BITS##_store(volatile TYPE *p, TYPE v, int) { access(p, sizeof(TYPE), 2); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
	TYPE __tsan_atomic##BITS##_exchange(volatile TYPE *p, TYPE v, int) { access(p, sizeof(TYPE), 3); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
	TYPE __tsan_atomic##BITS##_fetch_add(volatile TYPE *p, TYPE v, int) { access(p, sizeof(TYPE), 3); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
	TYPE __tsan_atomic##BITS##_fetch_sub(volatile TYPE *p, TYPE v, int) { access(p, sizeof(TYPE), 3); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } \
	TYPE __tsan_atomic##BITS##_fetch_and(volatile TYPE *p, TYPE v, int) { access(p, sizeof(TYPE), 3); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
	TYPE __tsan_atomic##BITS##_fetch_or(volatile TYPE *p, TYPE v, int) { access(p, sizeof(TYPE), 3); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); } \
	TYPE __tsan_atomic##BITS##_fetch_xor(volatile TYPE *p, TYPE v, int) { access(p, sizeof(TYPE), 3); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); } \
	TYPE __tsan_atomic##BITS##_fetch_nand(volatile TYPE *p, TYPE v, int) { access(p, sizeof(TYPE), 3); return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); } \
	int __tsan_atomic##BITS##_compare_exchange_strong(volatile TYPE *p, TYPE *e, TYPE v, int, int) { access(p, sizeof(TYPE), 3); return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
	int __tsan_atomic##BITS##_compare_exchange_weak(volatile TYPE *p, TYPE *e, TYPE v, int, int) { access(p, sizeof(TYPE), 3); return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
	TYPE __tsan_atomic##BITS##_compare_exchange_val(volatile TYPE *p, TYPE e, TYPE v, int, int) { access(p, sizeof(TYPE), 3); __atomic_compare_exchange_n(p, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; }
ATOMIC(8, unsigned char) ATOMIC(16, unsigned short) ATOMIC(32, unsigned) ATOMIC(64, unsigned long)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

// initialization of local statics
int __cxa_guard_acquire(volatile char *g)
{
	for (;;) {
		access(g, 1, 3);
		if (g[0]) return 0;
		if (!g[1]) { g[1] = 1; return 1; }
		sched::blocked();
	}
}
void __cxa_guard_release(volatile char *g) { access(g, 1, 3); g[0] = 1; g[1] = 0; }
void __cxa_guard_abort(volatile char *g) { access(g, 1, 3); g[1] = 0; }

// library calls of the instrumented code (--wrap)
void *__real_memcpy(void *, const void *, size_t);
void *__real_memmove(void *, const void *, size_t);
void *__real_memset(void *, int, size_t);
int __real_memcmp(const void *, const void *, size_t);
void *__wrap_memcpy(void *d, const void *s, size_t n) { access(s, n, 1); access(d, n, 2); return __real_memcpy(d, s, n); }
void *__wrap_memmove(void *d, const void *s, size_t n) { access(s, n, 1); access(d, n, 2); return __real_memmove(d, s, n); }
void *__wrap_memset(void *d, int c, size_t n) { access(d, n, 2); return __real_memset(d, c, n); }
int __wrap_memcmp(const void *a, const void *b, size_t n) { access(a, n, 1); access(b, n, 1); return __real_memcmp(a, b, n); }
int __real_pthread_mutex_lock(pthread_mutex_t *);
int __real_pthread_mutex_unlock(pthread_mutex_t *);
int __wrap_pthread_mutex_lock(pthread_mutex_t *m)
{
	if (sched::me < 0) return __real_pthread_mutex_lock(m);
	for (;;) {
		access(m, 1, 3);
		if (!pthread_mutex_trylock(m)) return 0;
		sched::blocked();
	}
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { access(m, 1, 3); return __real_pthread_mutex_unlock(m); }
int __wrap_pthread_once(pthread_once_t *o, void (*f)())
{
	// zero is the initial state, 1 running, 2 done
	volatile int *s = (volatile int *)o;
	for (;;) {
		access(o, 4, 3);
		if (*s == 2) return 0;
		if (*s == 0) { *s = 1; f(); access(o, 4, 3); *s = 2; return 0; }
		sched::blocked();
	}
}
}
