/* declarations only: clang parses the sources, gcc compiles them */
#ifndef VERIF_OMP_H
#define VERIF_OMP_H
extern "C" {
int omp_get_num_threads(void); int omp_get_max_threads(void); int omp_get_thread_num(void);
void omp_set_num_threads(int); double omp_get_wtime(void); int omp_get_num_procs(void); int omp_in_parallel(void);
}
#endif
