/* Declarations only: clang's omp.h is not installed and gcc's does not parse with clang. */
#ifndef VERIF_OMP_H
#define VERIF_OMP_H
int omp_get_num_threads(void);
int omp_get_max_threads(void);
int omp_get_thread_num(void);
int omp_get_num_procs(void);
int omp_in_parallel(void);
void omp_set_num_threads(int);
#endif
