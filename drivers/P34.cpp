// The programs that derive equations of motion print the terms of the
// Hamiltonian and the commutators with it.
#include "vf.hpp"

#include <cstdint>
#include <iostream>
#include <vector>

#include "ieompp/algebra/commutator.hpp"
#include "ieompp/algebra/operator.hpp"
#include "ieompp/algebra/term.hpp"
#include "ieompp/platform.hpp"
#include "ieompp/symbolic/prefactor.hpp"

using SymbolicOperator = ieompp::algebra::Operator<const char*, bool>;
using SymbolicTerm =
    ieompp::algebra::Term<ieompp::symbolic::Prefactor<double>, SymbolicOperator>;

// the terms that a program prints, in the order in which it does
static std::vector<SymbolicTerm>* printed_terms;
struct TermSink {
    void flush() {}
};
inline TermSink operator<<(TermSink s, const char*) { return s; }
inline TermSink operator<<(TermSink s, const std::string&) { return s; }
inline TermSink operator<<(TermSink s, char) { return s; }
inline TermSink operator<<(TermSink s, const SymbolicTerm& t)
{
    printed_terms->push_back(t);
    return s;
}
namespace std
{
    static TermSink term_out;
} // namespace std

#define cout term_out
#define endl '\n'
#define main real_space_main
#include "../src/hubbard/hubbard_commutators_real_space.cpp"
#undef main
#define main momentum_space_main
#include "../src/hubbard/hubbard_commutators_momentum_space.cpp"
#undef main
#undef endl
#undef cout

static SymbolicTerm symbolic_one(std::initializer_list<SymbolicOperator> operators)
{
    return make_term(symbolic::make_prefactor(1.), operators);
}
static void expect_commutators(const std::vector<SymbolicTerm>& h, const SymbolicTerm& t,
                               std::vector<SymbolicTerm>& expected)
{
    for(std::size_t i = 0; i < h.size(); ++i) {
        std::vector<SymbolicTerm> comm;
        commutate(h[i], t, comm);
        for(std::size_t j = 0; j < comm.size(); ++j) {
            comm[j].prefactor.order_kroneckers();
            expected.push_back(comm[j]);
        }
    }
}

void ob_real_space()
{
    std::vector<SymbolicTerm> printed, expected, kinetic, interaction;
    printed_terms = &printed;
    vf::claim(real_space_main() == 0, "the program succeeds");

    const char* r = "r_i";
    const char* s = u8"r_i+δ_j";
    kinetic.push_back(symbolic_one({make_creator(r, true), make_annihilator(s, true)}));
    kinetic.push_back(symbolic_one({make_creator(s, true), make_annihilator(r, true)}));
    kinetic.push_back(symbolic_one({make_creator(r, false), make_annihilator(s, false)}));
    kinetic.push_back(symbolic_one({make_creator(s, false), make_annihilator(r, false)}));
    interaction.push_back(symbolic_one({make_creator(r, true), make_annihilator(r, true),
                                        make_creator(r, false), make_annihilator(r, false)}));
    const auto one   = symbolic_one({make_creator(u8"ρ", true)});
    const auto three = symbolic_one({make_creator(u8"ρ_1", true), make_creator(u8"ρ_2", false),
                                     make_annihilator(u8"ρ_3", false)});
    for(std::size_t i = 0; i < kinetic.size(); ++i) {
        expected.push_back(kinetic[i]);
    }
    expected.push_back(interaction[0]);
    expect_commutators(kinetic, one, expected);
    expect_commutators(interaction, one, expected);
    expect_commutators(kinetic, three, expected);
    expect_commutators(interaction, three, expected);
    vf::same(printed.size(), expected.size(), "number of terms");
    vf::same(printed, expected, "terms of the Hamiltonian and commutators");
}

void ob_momentum_space()
{
    std::vector<SymbolicTerm> printed, expected, kinetic, interaction;
    printed_terms = &printed;
    vf::claim(momentum_space_main() == 0, "the program succeeds");

    kinetic.push_back(symbolic_one({make_creator("k", true), make_annihilator("k", true)}));
    kinetic.push_back(symbolic_one({make_creator("k", false), make_annihilator("k", false)}));
    interaction.push_back(symbolic_one({make_creator("k_1", true), make_annihilator("k_2", true),
                                        make_creator("k_3", false),
                                        make_annihilator("k_4", false)}));
    const auto one   = symbolic_one({make_creator("q", true)});
    const auto three = symbolic_one({make_creator("q_1", true), make_creator("q_2", false),
                                     make_annihilator("q_3", false)});
    expected.push_back(kinetic[0]);
    expected.push_back(kinetic[1]);
    expected.push_back(one);
    expect_commutators(kinetic, one, expected);
    expected.push_back(interaction[0]);
    expected.push_back(one);
    expect_commutators(interaction, one, expected);
    expected.push_back(kinetic[0]);
    expected.push_back(kinetic[1]);
    expected.push_back(three);
    expect_commutators(kinetic, three, expected);
    expected.push_back(interaction[0]);
    expected.push_back(three);
    expect_commutators(interaction, three, expected);
    vf::same(printed.size(), expected.size(), "number of terms");
    vf::same(printed, expected, "terms of the Hamiltonian and commutators");
}
