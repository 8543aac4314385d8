// Parallel regions of the programs: no two threads meet.
#include "vf.hpp"

#define main kinetic_theory_main
#include "../src/hubbard/hubbard_real_1d_kinetic_theory.cpp"
#undef main

void ob_kinetic_theory() { kinetic_theory_main(); }
