TESTS = "The tests compare a handful of hand-picked operators and sizes; "

prop("P04", "Operators, monomials, terms and deltas compare consistently",
     "Two operators or products of operators are equal exactly if all their parts (creator flag, "
     "every index, number and order of the operators) are equal, and inequality is the negation of "
     "equality. The smaller and greater relations of operators and terms are strict weak orders, "
     "converse to each other and compatible with equality (products are ranked by their length, "
     "then by their first differing operator), so that sorting and ordered lookup are well defined. "
     "Symbolic deltas compare independently of the order of their two indices.",
     ["inputs"], "all operators with one, two or three indices (numeric and symbolic), all monomials "
     "and terms of any length",
     TESTS + "equality, irreflexivity, asymmetry and transitivity quantify over all pairs and "
     "triples.",
     [A + "operator/operator.hpp", A + "operator/order.hpp", A + "monomial/monomial.hpp",
      A + "term/term.hpp", A + "term/order.hpp", A + "kronecker.hpp", A + "operator/make.hpp"],
     [("equality operators", A + "operator/operator.hpp"), ("ordering", A + "operator/order.hpp"),
      ("ordering of terms", A + "term/order.hpp")])

prop("P05", "Conjugation is an involution and reverses products",
     "Conjugating an operator flips creation and annihilation and keeps all indices; conjugating a "
     "product reverses the order of the conjugated factors and conjugates the prefactor. Conjugating "
     "twice gives back the original, in-place and copying conjugation agree, and products "
     "concatenate their factors.",
     ["inputs"], "all operators, monomials and terms of any length, real and complex prefactors",
     TESTS + "the laws are about monomials of any length and arbitrary complex prefactors.",
     [A + "operator/operator.hpp", A + "monomial/monomial.hpp", A + "term/term.hpp",
      A + "operator/make.hpp", A + "operator/get_index.hpp"],
     [("conjugate / get_conjugate", A + "operator/operator.hpp"),
      ("conjugate of monomials", A + "monomial/monomial.hpp"),
      ("conjugate of terms", A + "term/term.hpp")])

prop("P06", "Commutators of operator products are exact fermionic identities",
     "The list of terms computed for the commutator of two products of fermionic operators (at least "
     "one with an even number of factors) equals a b - b a as an identity of the fermion algebra: for every pair of factors which does not "
     "anticommute it contains exactly one term, whose operators are the remaining factors in the "
     "prescribed order and whose prefactor is the product of the prefactors with the sign of the "
     "permutation and, for symbolic indices, the right deltas. Factors that anticommute contribute "
     "nothing, and terms already in the output list are kept.",
     ["inputs"], "all terms of any length with numeric or symbolic indices and any prefactor",
     TESTS + "signs and the order of the factors depend on the positions in products of any length.",
     [A + "commutator.hpp", A + "anticommutator.hpp", "src/hubbard/hubbard_commutators_real_space.cpp"],
     [("commutate", A + "commutator.hpp"), ("anticommutation rules", A + "anticommutator.hpp")])

prop("P07", "Anticommutators vanish exactly when they must and give the right deltas",
     "Two fermionic operators are said to anticommute exactly if both create, both annihilate, or "
     "some pair of their non-symbolic indices differs. Otherwise the anticommutator multiplies the "
     "prefactor by one Kronecker delta for every pair of symbolic indices with different names, in "
     "the order of the indices, and by nothing for all other pairs.",
     ["inputs"], "all pairs of operators with one to three numeric or symbolic indices",
     TESTS + "the rule must hold for every combination of index types and values.",
     [A + "anticommutator.hpp", A + "kronecker.hpp",
      A + "operator/is_symbolic.hpp"],
     [("anticommutes", A + "anticommutator.hpp"), ("make_kronecker", A + "kronecker.hpp")])

prop("P08", "Neighbours and distances on periodic lattices are those of the torus",
     "On a periodic chain or square lattice of any size, the neighbours of a site are the sites one "
     "step away with periodic wrap-around, the neighbour relation is symmetric and agrees with the "
     "enumerated neighbours, and every bond is enumerated exactly once by the unique neighbours. "
     "Lattice distances are symmetric, vanish only for equal sites and never exceed half of the "
     "extent. Iterating over a lattice visits every site once, in ascending order.",
     ["inputs", "configurations"], "all lattice sizes (including 1, 2, odd and rectangular ones) and "
     "all sites",
     TESTS + "the smallest, odd and rectangular lattices are where periodic arithmetic goes wrong.",
     [L + "periodic_chain.hpp", L + "periodic_square_lattice.hpp"],
     [("neighbors, neighboring, lattice_distance", L + "periodic_chain.hpp"),
      ("neighbors, neighboring, lattice_distance", L + "periodic_square_lattice.hpp")])

prop("P19", "Number helpers and matrix predicates mean what they say",
     "A number is zero if its absolute value is smaller than machine epsilon plus the given "
     "tolerance, numbers are equal if their difference is zero in this sense, complex numbers "
     "component by component; conjugation leaves real numbers alone. A matrix given by a function returns the value of the function for "
     "every position, and the predicates for zero, symmetric and hermitian matrices hold exactly if "
     "they hold for every pair of elements.",
     ["inputs"], "all numbers, tolerances, matrix sizes and contents",
     TESTS + "the predicates quantify over all elements of matrices of any size.",
     [T + "number/is_zero.hpp", T + "number/is_equal.hpp", T + "number/complex.hpp",
      T + "function_matrix.hpp", T + "matrix_check.hpp"],
     [("IsZero / IsEqual", T + "number/is_zero.hpp"), ("is_hermitian", T + "matrix_check.hpp"),
      ("FunctionMatrix", T + "function_matrix.hpp")])

prop("P20", "Joining matrix elements of the same column keeps the sums",
     "Sorting a list of matrix elements orders it by columns and keeps its elements. Joining the "
     "columns of a sorted list yields one element per column with the sum of its values, drops "
     "columns whose sum vanishes, and works for empty lists and at the ends of the list; the test "
     "for unique columns holds exactly if no two adjacent elements share their column.",
     ["inputs"], "all lists of elements, any pattern of equal columns and of cancelling values",
     TESTS + "cancellation at the beginning or end of the list and empty lists are not sampled.",
     [T + "triplet.hpp"], [("make_columns_unique, has_unique_columns, sort", T + "triplet.hpp")])

prop("P25", "Printed operators, products, prefactors and tuples show every part once",
     "The text of an operator contains its kind and every index exactly once, in order; the text of a "
     "product or term is the text of its factors in order with the separators between them only, and "
     "empty products and terms are printed as well. Tuples print every element once and separated, "
     "and index pretty printers put the chosen characters.",
     ["inputs"], "all operators, monomials and terms of any length, all prefactors and tuples",
     TESTS + "separators and empty sequences depend on the length.",
     [A + "operator/io.hpp", A + "monomial/io.hpp", A + "term/io.hpp", S + "prefactor.hpp",
      A + "kronecker.hpp", S + "index.hpp", "include/ieompp/tuple.hpp"],
     [("operator<<", A + "operator/io.hpp"), ("operator<<", A + "term/io.hpp"),
      ("print_tuple", "include/ieompp/tuple.hpp")])

prop("P28", "Symbolic prefactors multiply like numbers times products of deltas",
     "A symbolic prefactor is a number times a product of Kronecker deltas: multiplying by a number "
     "scales the number, multiplying by deltas appends them in order, and multiplying two prefactors "
     "multiplies the numbers and concatenates the deltas, also for a prefactor times itself. Ordering "
     "the deltas sorts the two indices of every delta and then the deltas, and changes nothing else.",
     ["inputs"], "all prefactors with any number of deltas",
     TESTS + "the tests never multiply prefactors with several common and different deltas.",
     [S + "prefactor.hpp", A + "kronecker.hpp"],
     [("operator*=", S + "prefactor.hpp"), ("order of a delta", A + "kronecker.hpp")])

prop("P29", "Collecting terms and counting quantum numbers loses nothing",
     "Uniting the terms of a list adds the prefactors of terms with the same operators, leaves "
     "exactly one term per product of operators in ascending order, and neither loses nor invents a "
     "term. The number of creators minus annihilators, the total spin and the total momentum of a "
     "term are the sums of what its operators contribute, creators positive and annihilators "
     "negative.",
     ["inputs"], "all lists of terms and all terms of any length",
     TESTS + "which terms coincide or cancel is arbitrary.",
     [A + "term/list.hpp", A + "term/checks.hpp", H + "operator_traits.hpp"],
     [("copy_as_unique_terms", A + "term/list.hpp"), ("checks of quantum numbers", A + "term/checks.hpp")])

prop("P17", "Excitations of a Fermi sea obey the exclusion principle",
     "Creating a particle changes the state exactly if its momentum lies outside of the Fermi sea and "
     "it has not been created yet, or inside of it and there is a hole to be filled; annihilating is "
     "the mirror image. Any other attempt makes the state vanish for good and leaves the recorded "
     "particles and holes alone. Applying a product of operators applies its factors from right to "
     "left, stops as soon as the state vanishes, and creating and annihilating the same particle "
     "undo each other.",
     ["inputs", "histories"], "all states with any excitations, all dispersions and Fermi energies, "
     "all products",
     TESTS + "which particles and holes exist depends on the history of the state.",
     [M + "excited_fermi_sea.hpp"],
     [("create_particle, annihilate_particle, apply", M + "excited_fermi_sea.hpp")])

prop("P21", "Iterators over integers behave like integers",
     "Stepping, adding, subtracting, comparing and dereferencing an integer iterator gives what the "
     "same operation on the integer gives; assigning operations change the iterator and return it, "
     "all others leave it alone. A range of such iterators visits every number from its begin to its "
     "end once.",
     ["inputs"], "all signed and unsigned start values and distances",
     TESTS + "the laws hold for all numbers and distances.",
     ["include/ieompp/iterators/integer_iterator.hpp"],
     [("IntegerIterator", "include/ieompp/iterators/integer_iterator.hpp")])

prop("P26", "Operands may be the same object or part of each other",
     "Multiplying a product, term or symbolic prefactor by itself or by one of its own parts in place, "
     "commutating a term with itself and collecting a list of terms into itself give the same result "
     "as with an independent copy of the operand. No operation reads an element of a container after "
     "changing the container has invalidated it.",
     ["inputs", "configurations"], "all products, terms, prefactors and lists of any length",
     TESTS + "whether a reference into a growing container survives depends on lengths and capacities.",
     [A + "monomial/monomial.hpp", A + "term/term.hpp", S + "prefactor.hpp", A + "commutator.hpp",
      A + "term/list.hpp"],
     [("operator*=", A + "monomial/monomial.hpp"), ("operator*=", S + "prefactor.hpp"),
      ("copy_as_unique_terms", A + "term/list.hpp")])

prop("P10", "Index functions of the operator bases find the element they name",
     "The real-space bases hold the creator of every site and, after them, one product of three operators "
     "for every triple of sites; the momentum-space basis holds the creator of the chosen momentum and one "
     "product per pair of momenta, whose third momentum conserves the total momentum. For every combination "
     "of indices the index function returns the position of exactly that product, within the size of the "
     "basis and never twice. Conjugating a basis conjugates every element and keeps sizes and positions, in "
     "place or in a copy.",
     ["inputs", "configurations"], "all lattice sizes, all discretisations, all momenta and all indices",
     TESTS + "index arithmetic has to be right for every size and every triple of indices.",
     [R + "basis.hpp", M + "basis.hpp"],
     [("get_3op_index and constructors", R + "basis.hpp"), ("get_3op_index", M + "basis.hpp")])

prop("P11", "The real-space Liouvillian is the commutator with the Hubbard model",
     "Every element of the matrices assembled for the real-space bases is the coefficient of the column's "
     "operator in the commutator of the Hubbard Hamiltonian with the row's operator: minus J for every bond "
     "to a neighbour of a creator, plus J for an annihilator, and the interaction U of equal sites. In the "
     "normal ordered basis the interaction part carries the expectation values of the contractions according "
     "to Wick's theorem, for translationally invariant states. All other elements are zero and the matrix has the size of the "
     "basis.",
     ["inputs", "configurations"], "all bases and lattices with two neighbours, all J, U and expectation "
     "values, all rows and columns",
     TESTS + "which contributions meet in one element depends on which of the three sites coincide or "
     "neighbour each other.",
     [R + "blaze_sparse.hpp", R + "blaze_sparse_no.hpp", R + "liouvillian.hpp"],
     [("init_kinetic_matrix, init_matrix", R + "blaze_sparse.hpp"),
      ("init_matrix of the normal ordered basis", R + "blaze_sparse_no.hpp")])

prop("P12", "The momentum-space Liouvillian is the commutator with the Hubbard model",
     "The matrix assembled for the momentum-space basis holds, on its diagonal, the dispersion of the "
     "operators of its row (creators positive, annihilators negative) plus half of the interaction. The "
     "interaction divided by twice the number of momenta couples the single creator to every product of "
     "three operators, and back, and every other element is zero.",
     ["inputs", "configurations"], "all bases, momentum spaces, dispersions, interactions, rows and columns",
     TESTS + "the matrix depends on all momenta and on the dispersion of every operator.",
     [M + "blaze_sparse.hpp", M + "liouvillian.hpp"],
     [("init_matrix", M + "blaze_sparse.hpp")])

prop("P09", "Coordinates and sites of a lattice correspond, periodically",
     "The coordinate of a site in real or momentum space is its index times the spacing from the lower limit, "
     "and every coordinate, any number of revolutions away, belongs to a site of the lattice: the one nearest "
     "to it. In particular the site of the coordinate of a site is the site itself, and adding and "
     "subtracting momenta adds and subtracts their indices modulo the size. The search for the closest site "
     "finds the same site.",
     ["inputs", "configurations"], "all lattice sizes and spacings, all coordinates that are not half-way "
     "between sites (exact arithmetic)",
     TESTS + "wrap-around needs coordinates far outside of the cell and odd or rectangular sizes.",
     [L + "periodic_chain.hpp", L + "periodic_square_lattice.hpp"],
     [("operator[], operator(), closest", L + "periodic_chain.hpp"),
      ("operator[], operator(), closest", L + "periodic_square_lattice.hpp")])

prop("P13", "Sparse matrices are assembled row by row, in order and within capacity",
     "The functions which assemble the matrices of the models fill them as a compressed sparse matrix demands: "
     "the rows one after another, the columns of a row in ascending order and inside of the matrix, every row "
     "finished exactly once. They never append more elements than they reserved. In the normal ordered basis, "
     "where contributions may meet in one element, every element of a row of three operators is given at most once.",
     ["inputs", "configurations"], "all sizes of bases and lattices, all expectation values and contents",
     TESTS + "a violated protocol corrupts the matrix only for particular neighbours and coincidences of "
     "indices, and the sparse matrix library is not available to the tests.",
     [R + "blaze_sparse.hpp", R + "blaze_sparse_no.hpp", M + "blaze_sparse.hpp"],
     [("init_kinetic_matrix, init_matrix", R + "blaze_sparse.hpp"),
      ("init_matrix_no", R + "blaze_sparse_no.hpp"), ("init_matrix", M + "blaze_sparse.hpp")])

prop("P14", "One Runge-Kutta step is the fourth-order Taylor expansion of the solution",
     "For a linear equation u' = M u one step with step size h maps u to the sum of (h M)^n u / n! for n from 0 "
     "to 4, for every matrix, every vector and every step size, whether the matrix is stored or given by a function. "
     "The in-place product with a matrix given by a function is the matrix-vector product, element by element.",
     ["inputs", "configurations"], "all matrices (of two coupled equations), vectors and step sizes; products "
     "of any dimension", TESTS + "a wrong coefficient of one stage changes only the order of convergence.",
     ["include/ieompp/ode/rk4.hpp", T + "multiply_assign.hpp", T + "blaze/multiply_assign.hpp"],
     [("RK4::step (stored matrix)", "include/ieompp/ode/rk4.hpp"),
      ("RK4::step (matrix given by a function)", "include/ieompp/ode/rk4.hpp"),
      ("multiply_assign", T + "blaze/multiply_assign.hpp")])

prop("P27", "The dispersion of a momentum is -2J times the sum of the cosines of k.a",
     "For every momentum of the momentum space the dispersion is -2J times the sum, over the lattice vectors, of the "
     "cosine of the product of momentum and vector, for chains, square lattices and any other lattice, J being 1 "
     "unless given. The Fermi momentum of a chain is the filling factor times pi.",
     ["inputs", "configurations"], "all lattice and momentum space sizes, spacings, hoppings and momenta",
     TESTS + "the values depend on every momentum, spacing and hopping.",
     [H + "dispersion.hpp", L + "periodic_chain.hpp", L + "periodic_square_lattice.hpp",
      T + "dot_product.hpp", T + "blaze/dot_product.hpp"],
     [("Dispersion", H + "dispersion.hpp"), ("make_dispersion", H + "dispersion.hpp"),
      ("calculate_fermi_momentum_1d", H + "dispersion.hpp")])

prop("P31", "Tabulated correlations of the Fermi sea follow their formulas",
     "On a chain the expectation value of two sites is the filling factor for equal sites and sin(k_F d dx) / "
     "(pi d dx) for sites d bonds apart. At half filling on a square lattice it is one half for equal sites, "
     "sin(pi s/2) / (pi s) along the diagonal and 2/pi^2 sin(pi s/2)/s sin(pi t/2)/t otherwise, with s the sum "
     "and t the difference of the distances along the axes; every lookup stays inside of the table.",
     ["inputs", "configurations"], "all lattice sizes (square and rectangular), spacings, fillings, Fermi "
     "momenta and pairs of sites", TESTS + "each pair of distances has an entry of its own.",
     [R + "expectation_value.hpp"],
     [("ExpectationValue1DHalfFilled", R + "expectation_value.hpp"),
      ("ExpectationValue2DHalfFilled", R + "expectation_value.hpp")])

prop("P15", "Site occupations follow Wick's theorem for all pairs of basis elements",
     "For products of one or three operators the expectation values used for the site occupation are those of "
     "the normal ordered products at half filling: 2<a+ b>, 4<a+ d>(<b+ c> - delta_bc/2) for one and three, "
     "and 8<a+ d> times the expectation value of the two remaining pairs, each reduced by half a delta, for three "
     "and three. The occupation is the sum of these, times h_i conj(h_j) / 2, over all pairs of elements of the "
     "basis; exploiting the symmetry of the pairs, each pair of different elements is counted twice.",
     ["inputs", "configurations"], "all sites, contractions, amplitudes and basis sizes",
     TESTS + "all combinations of coinciding sites occur only in large bases.",
     [R + "site_occupation.hpp", T + "number/complex.hpp"],
     [("expectation_value_1_1 ... 3_3", R + "site_occupation.hpp"),
      ("operator()", R + "site_occupation.hpp"),
      ("multiply_with_conjugate, add_conjugate_products", T + "number/complex.hpp")])

prop("P16", "Fermi jumps are the squared amplitude at the Fermi momentum",
     "The Fermi jump is the squared absolute value of the sum over all sites of exp(i k_F r_i) times the amplitude "
     "of the site, with the positions of the sites of the lattice, in one and two dimensions. For the basis with "
     "products of three operators the amplitude of a site i is h_i plus the sum over all j and k of "
     "(2 <c_j+ c_k> - delta_jk) h_ijk. For normal ordered bases, where k_F is half of pi, only the h_i count.",
     ["inputs", "configurations"], "all lattices, momenta, amplitudes, contractions and basis sizes",
     TESTS + "every element of the vector enters the sum with a coefficient of its own.",
     [R + "fermi_jump/1d.hpp", R + "fermi_jump/2d.hpp", R + "fermi_jump_no.hpp",
      T + "blaze/dot_product.hpp"],
     [("FermiJump1D", R + "fermi_jump/1d.hpp"), ("FermiJump2D", R + "fermi_jump/2d.hpp"),
      ("FermiJump1D_NO", R + "fermi_jump_no.hpp")])

prop("P18", "Non-vanishing expectation values of the Fermi sea are complete and weighted",
     "The list holds exactly one value for every pair of basis elements for which at least one part of the product "
     "returns the Fermi sea to itself, and none for other pairs: 1 for the first element with itself, 2 for the full "
     "product of one and three operators plus 1 if the equal momenta of the triple are left out, and 4, 2, 2 and 1 for "
     "two triples. Sorting orders by the left, then the right index. The particle number is the sum of the values times "
     "h_left conj(h_right), for the given Fermi energy (zero by default).",
     ["inputs", "configurations"], "all basis sizes, momenta, dispersions, Fermi energies and amplitudes",
     TESTS + "the combinations of coinciding momenta and occupations grow with the square of the basis.",
     [M + "non_vanishing_expectation_values.hpp", M + "particle_number.hpp"],
     [("NonVanishingExpectationValues", M + "non_vanishing_expectation_values.hpp"),
      ("sort", M + "non_vanishing_expectation_values.hpp"),
      ("ParticleNumber", M + "particle_number.hpp")])

prop("P30", "Programs set up matrices, vectors, observables and files as they say",
     "The matrix of the time evolution is i times the assembled matrix, with one row and column per basis element, "
     "for all variants; the initial vector is (1, 0, 0, ...); models, lattices, integrators, averages and observables "
     "get the given sizes, spacings, couplings, filling and the Fermi momentum pi times the filling. A measurement is "
     "due once at least the given number of steps has passed, whatever the rounding of time; a checkpoint holds the "
     "whole vector and the time, each in a file of its own which no other checkpoint of the run overwrites. Cleaning an "
     "output file moves it away before the new one is written in its place, which holds the lines of the moved one up to the "
     "last of the wanted entries, in order.",
     ["inputs", "configurations", "histories"], "all sizes, couplings, fillings, times and contents of files",
     TESTS + "the programs are not run by any test, and without Blaze most of them are not even built.",
     ["src/hubbard/include/vector.hpp", "src/hubbard/include/rk4.hpp", "src/hubbard/include/common.hpp",
      "src/hubbard/include/checkpoint.hpp", "src/hubbard/real_space/matrix.hpp",
      "src/hubbard/real_space/matrix_no.hpp", "src/hubbard/momentum_space/momentum_space.hpp",
      "src/hubbard/real_space/fermi_jump.hpp", "src/hubbard/real_space/site_occupation.hpp"],
     [("compute_matrix, compute_kinetic_matrix", "src/hubbard/real_space/matrix.hpp"),
      ("init_vector", "src/hubbard/include/vector.hpp"),
      ("has_time_interval_passed", "src/hubbard/include/common.hpp"),
      ("write_checkpoint_file, clean_output_file", "src/hubbard/include/checkpoint.hpp"),
      ("init_expectation_value", "src/hubbard/real_space/expectation_value_1d.hpp")])

prop("P33", "Theory and dispersion programs write what their formulas say",
     "Every line the theory program of the free chain (128 sites) writes holds a time t, and the real and imaginary "
     "part of the sum over all pairs of sites of their average at half filling times h_i conj(h_j), where h_i is "
     "(-i)^d times the Bessel function of order d of 2t, d being the distance of site i from site 0; times rise by "
     "0.01 from 0. The dispersion program writes each momentum of a chain of 1024 sites and its energy, in ascending order.",
     ["inputs", "configurations"], "all 10000 times and 1024 momenta of the programs, for any distances and averages",
     TESTS + "the programs are built, but run by no test.",
     ["src/hubbard/hubbard_real_1d_kinetic_theory.cpp", "src/hubbard/hubbard_dispersion_1d.cpp"],
     [("main, minus_i_power", "src/hubbard/hubbard_real_1d_kinetic_theory.cpp"),
      ("main", "src/hubbard/hubbard_dispersion_1d.cpp")])

S_ = "src/hubbard/"
prop("P35", "Runs measure the state they integrated, at the time of that state",
     "Each program that integrates equations of motion writes a line for the initial state and one after every number "
     "of steps for which a measurement is due, before it steps on, and no others: the line holds the time (steps times dt) "
     "and the observable, or all coefficients, of the state after that many steps of the integrator. Whether one is due is "
     "asked for the time since the last line, dt and the given interval, and the run makes exactly the steps needed to "
     "reach t_end. Lattice, basis and its conjugate, averages, matrix (the kinetic one and single operators if there is "
     "no interaction), integrator and observable are made of the options of the same names, which are declared with that "
     "type and a default before the command line is read, and belong to the same lattice; the program for two sites "
     "makes its 2000 steps of 0.01 with its fixed matrix.",
     ["inputs", "histories", "configurations"], "all options (dt > 0), numbers of steps and schedules of measurements of "
     "eight programs",
     TESTS + "most of these programs are not even built here.",
     [S_ + f for f in ("hubbard_real_1d_rk4.cpp", "hubbard_real_1d_kinetic_rk4.cpp", "hubbard_real_1d_rk4_jump.cpp",
                       "hubbard_real_2d_rk4_jump.cpp", "hubbard_real_1d_rk4_coefficients.cpp",
                       "hubbard_real_1d_kinetic_rk4_coefficients.cpp", "hubbard_momentum_1d_rk4.cpp", "hubbard_trivial.cpp")],
     [("main", S_ + "hubbard_real_1d_rk4.cpp"), ("main", S_ + "hubbard_real_1d_rk4_coefficients.cpp"),
      ("main", S_ + "hubbard_real_2d_rk4_jump.cpp"), ("main", S_ + "hubbard_momentum_1d_rk4.cpp")])

prop("P36", "With assertions enabled, valid arguments are never rejected",
     "In builds with assertions (without NDEBUG) none of them fails for arguments the library is made for: lattices with "
     "at least one site, fillings from 0 to 1, matrices and vectors of equal size, terms of which at least one has an even "
     "number of operators, pairs of any element of a basis and any element of its conjugate, and real coefficients, "
     "for which occupations and particle numbers are real.",
     ["inputs", "configurations"], "all sizes, fillings, sites, lengths of terms and real coefficients",
     "The tests are built without assertions here, so that a wrong one stays unnoticed until a debug build stops.",
     [L + "periodic_chain.hpp", L + "periodic_square_lattice.hpp", A + "commutator.hpp", "include/ieompp/ode/rk4.hpp",
      R + "expectation_value.hpp", R + "site_occupation.hpp", M + "particle_number.hpp",
      T + "blaze/multiply_assign.hpp", T + "eigen/multiply_assign.hpp"],
     [("SiteOccupation", R + "site_occupation.hpp"), ("commutate", A + "commutator.hpp")])

prop("P37", "Matrices are filled with the values of a function, element by element",
     "Filling a matrix from a function gives it the size asked for, and each element the value of the function there; a "
     "sparse matrix gets exactly the elements that do not vanish, each once and inside of the matrix. Filling a symmetric "
     "matrix evaluates the lower triangle and puts its values in both; inserting puts one value in its row and column.",
     ["inputs"], "all sizes, all functions, dense and sparse matrices",
     "No test fills a matrix, and neither matrix library is available to the tests.",
     [T + "eigen/init.hpp", T + "blaze/matrix_insert.hpp"],
     [("init, init_symmetric", T + "eigen/init.hpp"), ("matrix_insert", T + "blaze/matrix_insert.hpp")])

prop("P34", "Symbolic programs print the equations of motion",
     "The programs for real space and momentum space print the terms of the Hubbard Hamiltonian (hopping between a site "
     "and its neighbour in both directions and for both spins, or one term per spin in momentum space, and the "
     "interaction) and then the commutators of each of them with one creator and with a product of two creators and an "
     "annihilator. The terms of each commutator are complete, in order, with the sign and the Kronecker deltas that the "
     "commutation rules give, and the deltas of a term are sorted.",
     ["configurations"], "all terms of all commutators of both programs",
     TESTS + "the programs are built, but run by no test.",
     ["src/hubbard/hubbard_commutators_real_space.cpp", "src/hubbard/hubbard_commutators_momentum_space.cpp",
      A + "commutator.hpp", "include/ieompp/symbolic/prefactor.hpp"],
     [("main", "src/hubbard/hubbard_commutators_real_space.cpp"),
      ("main", "src/hubbard/hubbard_commutators_momentum_space.cpp")])

prop("P01", "Parallel regions are free of data races",
     "In every parallel region no two threads access the same element of shared memory if one of them writes "
     "it, for every number of threads and every schedule, unless both are inside of a critical or atomic section. "
     "Elements that are numbered by the thread exist for every thread.",
     ["schedules", "configurations", "inputs"], "all numbers of threads, schedules, sizes and iterations of every "
     "OpenMP region of the headers and the programs",
     "The tests run one schedule with the threads of one machine and tiny sizes; a race changes their results "
     "rarely or not at all.",
     [T + "blaze/multiply_assign.hpp", T + "eigen/multiply_assign.hpp", H + "dispersion.hpp",
      R + "basis.hpp", R + "expectation_value.hpp", R + "site_occupation.hpp", R + "fermi_jump/1d.hpp",
      R + "fermi_jump/2d.hpp", R + "fermi_jump_no.hpp", M + "basis.hpp",
      P + "hubbard_real_1d_kinetic_theory.cpp"],
     [("matrix-vector product", T + "blaze/multiply_assign.hpp"),
      ("sums with one slot per thread", R + "site_occupation.hpp"),
      ("Fourier coefficients", R + "fermi_jump/1d.hpp"), ("Dispersion", H + "dispersion.hpp"),
      ("conjugation of bases", R + "basis.hpp"), ("ExpectationValue2DHalfFilled", R + "expectation_value.hpp")],
     technique="effect analysis: the accesses of an arbitrary iteration of an arbitrary thread, with their "
     "path conditions, are collected by abstract interpretation of every region; for each write and each "
     "access of the same object the designated elements are proved different for different threads")

prop("P32", "Types the library computes are the ones its users rely on",
     "The compile-time facts about operators, terms, bases, numbers, matrices and iterators (is it one, types of indices, "
     "spatial index, scalar type, number of rows, names) are right for every number and kind of indices, terms hold copies "
     "of what they are made of, and conjugating conjugates the value of a symbolic prefactor. Every template accepts the "
     "types it is meant for (one to four indices, numeric and symbolic, every precision and type of site). Forbidden uses "
     "(an index that does not exist, changing a constant operator, comparing indices of different kinds, bases of other "
     "operators) do not compile.",
     ["inputs"], "all instantiations over the kinds of indices, prefactors, numbers, vectors and lattices",
     "A test only instantiates what it uses: a template that nobody instantiates compiles whatever it says.",
     [A + "operator/operator.hpp", A + "operator/get_index.hpp", A + "operator/is_symbolic.hpp", A + "term/term.hpp",
      H + "operator_traits.hpp", T + "matrix.hpp", T + "blaze/traits.hpp", T + "number/complex.hpp", T + "names.hpp",
      "include/ieompp/symbolic/index.hpp"],
     [("traits", H + "operator_traits.hpp"), ("access to indices", A + "operator/get_index.hpp")],
     technique="constant folding of the traits by the abstract interpreter, and compile-fail / compile-pass witness programs")

prop("P22", "Lines, messages and options are passed on whole and in order",
     "Reading a line skips blank lines and lines that hold only a comment, and no others; it returns the first other "
     "line, reads nothing behind it, and raises an exception only at the end of the input. Exceptions carry file, line "
     "and message, and composed texts are their parts in order; the options of a program are those of the command line, "
     "in order, followed by the defaults of the others. Every line of a response file is parsed; a program started "
     "without one writes one with a line --key=value for each option, and the header of its output file is only "
     "comments and lists the options it was started with, with their values; its log, matrix and checkpoints are named "
     "after the output file.",
     ["inputs", "configurations"], "all lines, texts, options and defaults",
     TESTS + "no test reads a line, raises an exception or starts a program.",
     ["include/ieompp/io/line.hpp", "include/ieompp/io/exception.hpp", "include/ieompp/exception.hpp",
      "include/ieompp/string.hpp", "include/ieompp/io/eigen/sparse.hpp", "src/hubbard/include/cli.hpp",
      "src/hubbard/include/application.hpp"],
     [("is_skippable_line, next_line", "include/ieompp/io/line.hpp"),
      ("compose", "include/ieompp/string.hpp"),
      ("parse_command_line_options, read_response_file", "src/hubbard/include/cli.hpp"),
      ("Application::Application", "src/hubbard/include/application.hpp")])

prop("P24", "Every header of the library can be used alone and in several translation units",
     "Each header compiles as the only header of a program, and every function or variable it defines may be defined in "
     "several translation units (templates, inline functions, constants), so that programs of several files link.",
     ["inputs"], "all headers, all definitions in them and all combinations of translation units",
     "Each test is one translation unit which includes a few headers in one order.",
     [A + "kronecker.hpp", "include/ieompp/io/line.hpp", T + "blaze.hpp", "include/ieompp/platform.hpp"],
     [("definitions in headers", A + "kronecker.hpp")],
     technique="type checking of every header alone and AST query for definitions that cannot be shared")

na("P40", "Integration converges to the exact solution as the time step shrinks",
   "The error of the time evolution against the exact solution of the linear equations of motion shrinks with the "
   "fourth power of the time step, and conserved quantities drift by no more than that.",
   ["inputs"], "all systems of equations, initial values, time spans and step sizes",
   "The tests integrate one equation over one interval and compare with a loose tolerance.",
   ["include/ieompp/ode/rk4.hpp"], [("RK4::step", "include/ieompp/ode/rk4.hpp")],
   "a bound on the error over many steps depends on the norms of the matrices at run time; the algebraic identity of "
   "one step, which the order of the method follows from, is proved by P14")

na("P41", "Floating point comparisons tolerate exactly the rounding of the computation",
   "The tolerances used to decide whether numbers are zero or equal are large enough for the rounding errors of the "
   "computation and small enough to keep different values apart.",
   ["inputs"], "all magnitudes of matrix elements, momenta and system sizes",
   "The tests use numbers of order one.",
   [T + "number/is_zero.hpp", T + "number/is_equal.hpp"],
   [("IsZero", T + "number/is_zero.hpp"), ("IsEqual", T + "number/is_equal.hpp")],
   "the sizes of rounding errors accumulated at run time have no sound static bound in reach, and the analysis treats "
   "floating point numbers as exact; the comparisons themselves are decided by P19")

na("P42", "An interrupted run resumes from its last checkpoint",
   "Whatever moment a simulation is interrupted at, some complete checkpoint can be loaded and continuing from it "
   "yields the same output as the uninterrupted run.",
   ["crash_points"], "all moments of interruption",
   "No test interrupts a program.",
   [P + "include/checkpoint.hpp", P + "include/application.hpp"],
   [("write_checkpoint_file", P + "include/checkpoint.hpp"),
    ("read_checkpoint_file", P + "include/checkpoint.hpp")],
   "the programs neither write checkpoints atomically nor continue from them, and the state of a file after an interrupted "
   "write is decided by the operating system at run time, not by the source")
