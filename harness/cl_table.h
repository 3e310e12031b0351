// Kernels compiled from kernels/*.cl; the table itself is generated by vlib/build.py.
#pragma once
struct ClKernel { const char* name; const char* args; void (*call)(void** args); };   // args: p buffer, i/f 4 bytes, l/d 8 bytes
struct ClProgram { const char* file; const char* src; const char* error; const ClKernel* kernels; };
extern const ClProgram cl_programs[];
