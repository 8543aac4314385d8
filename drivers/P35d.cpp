// Integration of the square lattice: jump at a momentum.
#include "../stubs/programs.hpp"

#include "../src/hubbard/hubbard_real_2d_rk4_jump.cpp"

void ob_run(int argc, char** argv)
{
    Run r(false);
    run     = &r;
    r.sites = option::count("Nx") * option::count("Ny");
    r.size  = any::elements(r.sites) % 1000 + 1;
    vf::assume(option::real("dt") > 0.);
    vf::claim(program(argc, argv) == 0, "the program succeeds");
    r.finish();
}
