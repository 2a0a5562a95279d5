/* stand-in for the OpenMP runtime header (clang here ships none); only declarations */
#ifndef VERIF_OMP_H
#define VERIF_OMP_H
void omp_set_num_threads(int);
int omp_get_max_threads(void);
int omp_get_num_threads(void);
int omp_get_thread_num(void);
double omp_get_wtime(void);
#endif
