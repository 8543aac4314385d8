#pragma once
// Declaration-only stand-in for the OpenMP runtime header: the analysis never runs anything.
extern "C" {
int omp_get_thread_num();
int omp_get_max_threads();
int omp_get_num_threads();
}
