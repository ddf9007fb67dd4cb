
/* A small OpenMP runtime on POSIX threads that ThreadSanitizer understands. */
#include <pthread.h>
static __thread int tid; static __thread int team = 1; static int max_threads = 4;
struct job { void (*fn)(void *); void *data; int tid, team; };
static void *start(void *p) { struct job *j = (struct job *)p; tid = j->tid; team = j->team; j->fn(j->data); return 0; }
void omp_set_num_threads(int n) { max_threads = n; }
int omp_get_max_threads(void) { return max_threads; }
int omp_get_thread_num(void) { return tid; }
int omp_get_num_threads(void) { return team; }
int omp_get_num_procs(void) { return 4; }
double omp_get_wtime(void) { return 0.0; }
static pthread_mutex_t lock = PTHREAD_MUTEX_INITIALIZER;
void GOMP_critical_start(void) { pthread_mutex_lock(&lock); }
void GOMP_critical_end(void) { pthread_mutex_unlock(&lock); }
void GOMP_critical_name_start(void **p) { (void)p; pthread_mutex_lock(&lock); }
void GOMP_critical_name_end(void **p) { (void)p; pthread_mutex_unlock(&lock); }
void GOMP_barrier(void) {}
void GOMP_parallel(void (*fn)(void *), void *data, unsigned n, unsigned flags) {
  pthread_t t[64]; struct job j[64]; int k = n ? (int)n : max_threads;
  (void)flags; if (k > 64) k = 64;
  for (int i = 1; i < k; i++) { j[i].fn = fn; j[i].data = data; j[i].tid = i; j[i].team = k; pthread_create(&t[i], 0, start, &j[i]); }
  int old_tid = tid, old_team = team; tid = 0; team = k; fn(data); tid = old_tid; team = old_team;
  for (int i = 1; i < k; i++) pthread_join(t[i], 0);
}
