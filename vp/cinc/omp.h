/* declarations only, so that clang can parse the kernels; the code is not run from here */
int omp_get_max_threads(void);
int omp_get_thread_num(void);
int omp_get_num_threads(void);
double omp_get_wtime(void);
