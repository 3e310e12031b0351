#pragma once
#include <cstdint>
extern "C" {
void omp_shim_set(int threads, uint64_t perturb);   // team size of the next regions; perturb 0 = plain
uint64_t omp_shim_regions();
uint64_t omp_shim_parallel_regions();
uint64_t omp_shim_threads();
uint64_t omp_shim_distinct();   // distinct (region, team size, iteration assignment) executed in parallel
}
