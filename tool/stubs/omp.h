/* declarations only: lets clang parse sources written for gcc's libgomp */
#ifndef QD_STUB_OMP_H
#define QD_STUB_OMP_H
#ifdef __cplusplus
extern "C" {
#endif
typedef struct { unsigned char x[4]; } omp_lock_t;
typedef struct { unsigned char x[16]; } omp_nest_lock_t;
void omp_set_num_threads(int); int omp_get_num_threads(void); int omp_get_max_threads(void);
int omp_get_thread_num(void); int omp_get_num_procs(void); int omp_in_parallel(void);
void omp_set_dynamic(int); void omp_set_nested(int); int omp_get_nested(void); int omp_get_level(void);
void omp_set_max_active_levels(int); int omp_get_max_active_levels(void);
void omp_init_lock(omp_lock_t*); void omp_destroy_lock(omp_lock_t*); void omp_set_lock(omp_lock_t*);
void omp_unset_lock(omp_lock_t*); int omp_test_lock(omp_lock_t*);
double omp_get_wtime(void);
#ifdef __cplusplus
}
#endif
#endif
