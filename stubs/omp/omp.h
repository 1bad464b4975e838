/* Declarations only, so that clang can parse translation units compiled with
   -fopenmp (the sandbox has gcc's libgomp but no clang OpenMP headers). */
#pragma once
extern "C" { int omp_get_max_threads(void); int omp_get_num_threads(void); int omp_get_thread_num(void); void omp_set_num_threads(int); int omp_in_parallel(void); double omp_get_wtime(void); }
