"""What decides each property."""

EXACT = "every claim of the obligation functions is discharged for all inputs"

PROPS = {
    "P01": dict(title="parallel regions", drivers=["P01.cpp"], race=True,
                rule="every pair of accesses of one object in a parallel region, one of them "
                "writing, designates different elements for different threads"),
    "P04": dict(title="equality and ordering laws", drivers=["P04.cpp"], rule=EXACT),
    "P05": dict(title="conjugation laws", drivers=["P05.cpp"], rule=EXACT),
    "P06": dict(title="commutators", drivers=["P06.cpp"], rule=EXACT),
    "P07": dict(title="anticommutators and Kronecker deltas", drivers=["P07.cpp"], rule=EXACT),
    "P08": dict(title="lattice topology", drivers=["P08.cpp"], rule=EXACT),
    "P09": dict(title="coordinates and sites", drivers=["P09.cpp"], rule=EXACT),
    "P10": dict(title="operator bases", drivers=["P10.cpp"], rule=EXACT),
    "P11": dict(title="real-space Liouvillian", drivers=["P11.cpp"], rule=EXACT),
    "P12": dict(title="momentum-space Liouvillian", drivers=["P12.cpp"], rule=EXACT),
    "P13": dict(title="assembly of sparse matrices", drivers=["P13.cpp", "P13b.cpp"], rule=EXACT),
    "P14": dict(title="Runge-Kutta integrator", drivers=["P14.cpp", "P14b.cpp"], rule=EXACT),
    "P15": dict(title="site occupation", drivers=["P15.cpp", "P15b.cpp"], rule=EXACT),
    "P16": dict(title="Fermi jump", drivers=["P16.cpp"], rule=EXACT),
    "P17": dict(title="excited Fermi sea", drivers=["P17.cpp"], rule=EXACT),
    "P18": dict(title="expectation values of the Fermi sea and particle numbers",
                drivers=["P18.cpp"], rule=EXACT),
    "P19": dict(title="number helpers and matrix predicates", drivers=["P19.cpp"], rule=EXACT),
    "P20": dict(title="triplet lists", drivers=["P20.cpp"], rule=EXACT),
    "P21": dict(title="integer iterators", drivers=["P21.cpp"], rule=EXACT),
    "P22": dict(title="lines, messages and files of parameters",
                drivers=["P22.cpp", "P22b.cpp", "P22c.cpp", "P22d.cpp", "P22e.cpp"],
                lints=["regex_languages"], rule=EXACT),
    "P24": dict(title="headers stand alone", drivers=[], lints=["standalone_headers"],
                rule="type checking of every header alone; clang-tidy misc-definitions-in-headers"),
    "P25": dict(title="printing", drivers=["P25.cpp", "P25b.cpp"], rule=EXACT),
    "P26": dict(title="arguments may alias", drivers=["P26.cpp"], rule=EXACT),
    "P27": dict(title="dispersion relation", drivers=["P27.cpp"], rule=EXACT),
    "P28": dict(title="symbolic prefactors", drivers=["P28.cpp"], rule=EXACT),
    "P29": dict(title="collecting terms and quantum numbers", drivers=["P29.cpp"], rule=EXACT),
    "P30": dict(title="what the programs set up and write",
                drivers=["P30.cpp", "P30b.cpp", "P30c.cpp"], rule=EXACT),
    "P31": dict(title="correlations of the Fermi sea", drivers=["P31.cpp"], rule=EXACT),
    "P32": dict(title="traits and types", drivers=["P32.cpp"], lints=["compile_witnesses"],
                rule=EXACT),
    "P33": dict(title="output of the programs without interaction", drivers=["P33.cpp"],
                rule=EXACT),
    "P34": dict(title="symbolic programs", drivers=["P34.cpp"], rule=EXACT),
    "P35": dict(title="runs of the programs",
                drivers=["P35.cpp", "P35b.cpp", "P35c.cpp", "P35d.cpp", "P35e.cpp", "P35f.cpp",
                         "P35g.cpp", "P35h.cpp"], rule=EXACT),
    "P36": dict(title="assertions", drivers=["P36.cpp"], rule=EXACT),
    "P37": dict(title="filling of matrices", drivers=["P37.cpp"], rule=EXACT),
}
