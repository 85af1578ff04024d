// A stand-in for the part of libgomp that the code under test uses, loaded before it (LD_PRELOAD).
// The team of a parallel region is made of real threads, created and joined for every region, so that a race detector sees
// exactly the ordering the program may rely on, and the order in which the members run is controlled:
//   mode 0  all members run concurrently, each starting after a pseudo-random delay
//   mode 1  the members run one after the other: 0,1,2,...
//   mode 2  one after the other, from the last to the first
//   mode 3  one after the other in a pseudo-random order (another one for each region)
// Iterations of dynamic and guided loops are given to members by a fixed rule (a hash of seed, loop and chunk), independent of the mode,
// so that any difference between modes 1, 2 and 3 comes from one member seeing what another one did.
#define _GNU_SOURCE
#include <pthread.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sched.h>

static int g_threads = 4, g_mode = 0;
static uint64_t g_seed = 1;
static unsigned long g_regions, g_members, g_loops, g_order; // statistics

static uint64_t mix(uint64_t x) { x ^= x >> 33; x *= 0xff51afd7ed558ccdULL; x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ULL; x ^= x >> 33; return x; }

static __thread int t_id = 0, t_n = 1, t_level = 0, t_loop = 0;
static __thread long t_start, t_end, t_incr, t_chunk, t_k;
static __thread int t_loopno;

struct member { void (*fn)(void*); void* data; int id, n; unsigned delay; };

static void* run(void* a) {
	struct member* m = a;
	t_id = m->id; t_n = m->n; t_level = 1; t_loop = 0;
	for (unsigned i = 0; i < m->delay; i++) sched_yield();
	m->fn(m->data);
	return 0;
}

__attribute__((constructor)) static void init(void) {
	const char* e = getenv("MG_THREADS");
	if (!e) e = getenv("OMP_NUM_THREADS");
	if (e && atoi(e) > 0) g_threads = atoi(e);
	if ((e = getenv("MG_MODE"))) g_mode = atoi(e);
	if ((e = getenv("MG_SEED"))) g_seed = strtoull(e, 0, 10);
}

void mg_set(int threads, int mode, unsigned long seed) { g_threads = threads; g_mode = mode; g_seed = seed; g_order = 0; }
void mg_stats(unsigned long* s) { s[0] = g_regions; s[1] = g_members; s[2] = g_loops; }

void GOMP_parallel(void (*fn)(void*), void* data, unsigned num_threads, unsigned flags) {
	int n = num_threads ? (int)num_threads : g_threads;
	if (t_level > 0) n = 1; // no nesting
	int id0 = t_id, n0 = t_n, l0 = t_level, lp0 = t_loop;
	g_regions += l0 == 0; g_members += l0 == 0 ? n : 0;
	if (n <= 1) {
		t_id = 0; t_n = 1; t_level++; t_loop = 0;
		fn(data);
		t_id = id0; t_n = n0; t_level = l0; t_loop = lp0;
		return;
	}
	if (n > 64) n = 64;
	struct member m[64]; pthread_t th[64]; int ord[64];
	uint64_t r = mix(g_seed * 1000003 + ++g_order);
	for (int i = 0; i < n; i++) { m[i] = (struct member){ fn, data, i, n, 0 }; ord[i] = g_mode == 2 ? n - 1 - i : i; }
	if (g_mode == 3) for (int i = n - 1; i > 0; i--) { r = mix(r + i); int j = r % (i + 1), t = ord[i]; ord[i] = ord[j]; ord[j] = t; }
	if (g_mode == 0) {
		for (int i = 0; i < n; i++) { r = mix(r + i); m[i].delay = (r & 3) ? 0 : (r >> 8) % 50; }
		for (int i = 1; i < n; i++) pthread_create(&th[i], 0, run, &m[i]);
		run(&m[0]);
		for (int i = 1; i < n; i++) pthread_join(th[i], 0);
	} else {
		for (int k = 0; k < n; k++) {
			int i = ord[k];
			if (i == 0) run(&m[0]);
			else { pthread_create(&th[i], 0, run, &m[i]); pthread_join(th[i], 0); }
		}
	}
	t_id = id0; t_n = n0; t_level = l0; t_loop = lp0;
}

static bool next(long* istart, long* iend) {
	for (;;) {
		long s = t_start + t_k * t_chunk * t_incr;
		if (t_incr > 0 ? s >= t_end : s <= t_end) return false;
		long k = t_k++;
		if ((int)(mix(g_seed * 7919 + (uint64_t)t_loopno * 104729 + k) % t_n) != t_id) continue;
		long e = s + t_chunk * t_incr;
		if (t_incr > 0 ? e > t_end : e < t_end) e = t_end;
		*istart = s; *iend = e;
		return true;
	}
}
static bool start(long s, long e, long incr, long chunk, long* istart, long* iend) {
	t_start = s; t_end = e; t_incr = incr; t_k = 0; t_loopno = t_loop++;
	if (chunk < 1) chunk = 1;
	long total = incr ? (e - s) / incr : 0, c = total / (t_n * 4); // larger pieces for long loops
	t_chunk = c > chunk ? c : chunk;
	if (t_id == 0) g_loops++;
	return next(istart, iend);
}
#define LOOP(n) \
	bool GOMP_loop_##n##_start(long s, long e, long i, long c, long* a, long* b) { return start(s, e, i, c, a, b); } \
	bool GOMP_loop_##n##_next(long* a, long* b) { return next(a, b); }
LOOP(nonmonotonic_dynamic) LOOP(nonmonotonic_guided) LOOP(dynamic) LOOP(guided) LOOP(maybe_nonmonotonic_runtime) LOOP(static)
void GOMP_loop_end_nowait(void) {}
void GOMP_loop_end(void) {}

static pthread_mutex_t crit = PTHREAD_MUTEX_INITIALIZER;
void GOMP_critical_start(void) { pthread_mutex_lock(&crit); }
void GOMP_critical_end(void) { pthread_mutex_unlock(&crit); }
void GOMP_critical_name_start(void** p) {
	pthread_mutex_t* m = __atomic_load_n((pthread_mutex_t**)p, __ATOMIC_ACQUIRE);
	if (!m) {
		pthread_mutex_t* nm = malloc(sizeof *nm); pthread_mutex_init(nm, 0);
		pthread_mutex_t* expect = 0;
		if (__atomic_compare_exchange_n((pthread_mutex_t**)p, &expect, nm, 0, __ATOMIC_ACQ_REL, __ATOMIC_ACQUIRE)) m = nm; else { free(nm); m = expect; }
	}
	pthread_mutex_lock(m);
}
void GOMP_critical_name_end(void** p) { pthread_mutex_unlock(*(pthread_mutex_t**)p); }
void GOMP_atomic_start(void) { pthread_mutex_lock(&crit); }
void GOMP_atomic_end(void) { pthread_mutex_unlock(&crit); }

int omp_get_max_threads(void) { return t_level > 0 ? 1 : g_threads; }
int omp_get_num_threads(void) { return t_n; }
int omp_get_thread_num(void) { return t_id; }
int omp_in_parallel(void) { return t_level > 0; }
int omp_get_num_procs(void) { return (int)sysconf(_SC_NPROCESSORS_ONLN); }
void omp_set_num_threads(int n) { if (n > 0) g_threads = n; }
void omp_set_nested(int n) { (void)n; }
int omp_get_nested(void) { return 0; }
void omp_set_dynamic(int n) { (void)n; }
