// Integration of the free chain: coefficients of the operator.
#include "../stubs/programs.hpp"

#include "../src/hubbard/hubbard_real_1d_kinetic_rk4_coefficients.cpp"

void ob_run(int argc, char** argv)
{
    Run r(true);
    run     = &r;
    r.sites = option::count("N");
    r.size  = any::elements(r.sites) % 1000 + 1;
    vf::assume(option::real("dt") > 0.);
    vf::claim(program(argc, argv) == 0, "the program succeeds");
    r.finish();
}
