/* Minimal omp.h for clang (none is installed); the engine models these calls. */
#ifndef JAXSYM_OMP_H
#define JAXSYM_OMP_H
#ifdef __cplusplus
extern "C" {
#endif
typedef struct { unsigned char _x[4] __attribute__((__aligned__(4))); } omp_lock_t;
typedef struct { unsigned char _x[16] __attribute__((__aligned__(8))); } omp_nest_lock_t;
extern void omp_set_num_threads(int);
extern int omp_get_num_threads(void);
extern int omp_get_max_threads(void);
extern int omp_get_thread_num(void);
extern int omp_get_num_procs(void);
extern int omp_in_parallel(void);
extern void omp_set_dynamic(int);
extern void omp_set_nested(int);
extern void omp_set_max_active_levels(int);
extern double omp_get_wtime(void);
extern double omp_get_wtick(void);
extern void omp_init_lock(omp_lock_t *);
extern void omp_destroy_lock(omp_lock_t *);
extern void omp_set_lock(omp_lock_t *);
extern void omp_unset_lock(omp_lock_t *);
#ifdef __cplusplus
}
#endif
#endif
