#pragma once
extern "C" {
// Fault injection on one file of this process: reading beyond byte `at` fails
// with EIO (at < 0: never), the open_n-th open fails with EMFILE and the
// mmap_n-th memory map with ENOMEM (1 based, 0: never).
void io_fault_set(const char* path, long at, int open_n, int mmap_n);
void io_fault_clear();
long io_fault_hits();    // injected errors since io_fault_set
long io_fault_reads();   // successful reads of the file since io_fault_set
}
