// Control and event log of the OpenCL stand-in (cl_shim.cpp).
#pragma once
#include <cstdint>
#include <map>
#include <string>
struct ClStats { uint64_t created = 0, released = 0, writes = 0, reads = 0, launches = 0, items = 0, deferred = 0, refused = 0, live = 0; std::map<std::string, uint64_t> kernels; };
ClStats& cl_stats();
void cl_reseed(uint64_t seed);             // order of work items, moments at which queued commands run
void cl_fail_in(int64_t n, int code, bool lost = false);   // the n-th API call from now on that can fail does so (0: none), and, if lost, all after it
void cl_devices(int platforms, int devices);  // what the machine has
void cl_chosen(int& platform, int& device);   // what the latest context was made for
uint64_t cl_calls();                       // API calls so far that can fail
bool cl_failed();                          // the injected failure has happened
extern void (*cl_report)(const std::string& sig, const std::string& msg);   // misuse of the API that an implementation need not notice
