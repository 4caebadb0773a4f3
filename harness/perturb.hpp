// Schedule perturbation: the pthread calls of the code under test go through these wrappers
// (linked with -Wl,--wrap), which sleep or yield at random when a job asks for it.
#ifndef PERTURB_HPP
#define PERTURB_HPP
#include <string>
void perturb_config(const std::string& spec);   // "" = off, else "SEED:LEVEL[:BIAS]"
unsigned long perturb_count();                  // delays injected so far
// threads that the code under test created, joined, and that ended (OpenMP's own not counted)
struct thread_counts_t { long created, joined, ended; };
thread_counts_t thread_counts();
struct live_counts_t { long objects, blocks, numa; };   // alloc.cpp
live_counts_t live_counts();
#endif
