#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=None)))

G="irrep/gvectors.py"; K="irrep/kpoint.py"; S="irrep/spacegroup.py"; B="irrep/bandstructure.py"; R="irrep/readfiles.py"; U="irrep/utility.py"; C="irrep/cli.py"; T="irreptables/irreptables/__init__.py"

prop("C01","Plane-wave generation is complete, duplicate-free and within the cutoff",
 "For every k-point, reciprocal lattice, cutoff and shell limit, the plane waves generated when no plane-wave count is prescribed are exactly the integer vectors G in the searched shells (|g1|+|g2|+|g3| below the limit) whose kinetic energy |k+G|^2/(2m/hbar^2) is below the calculation's cutoff and not above the reduced cutoff (when one is given and positive), each exactly once. When a plane-wave count is prescribed, the number of generated plane waves below the calculation's cutoff equals that count (half of it for spinors) or an error is raised, and again no vector is repeated and none is above the cutoffs.",
 ["inputs"],"all k-points, reciprocal lattices, cutoffs, shell limits and prescribed counts",
 "The tests run a handful of fixed k-points of fixed crystals; completeness and uniqueness quantify over every lattice, k-point and cutoff and over an unbounded number of shells.",
 [G],[("shell enumeration loops and cutoff filter","irrep/gvectors.py: calc_gvectors")],observe=["columns returned by calc_gvectors"])

prop("C02","Generated plane waves are numbered in the storage order of the file",
 "Each generated plane wave carries the position at which its coefficient is stored: among all plane waves below the calculation's cutoff, those positions are 0,1,2,... without gap or repetition when ordered by third, then second, then first component, each component running 0,1,2,... first and then the negative values in ascending order. Applying the reduced cutoff and sorting by energy never changes which position belongs to which plane wave.",
 ["inputs"],"all sets of plane waves below a cutoff",
 "Wrongly attached coefficients only show for plane waves at the edge of the sphere, which the reduced cutoff used by the tests removes; the property is about every set of plane waves.",
 [G,B],[("storage-order key and index row","irrep/gvectors.py: calc_gvectors"),("coefficient selection for VASP","irrep/bandstructure.py: BandStructure.__init__")],observe=["row 3 of the array returned by calc_gvectors"])

prop("C03","Cutoff and energy sorting keep coefficients attached to their plane waves",
 "For every set of plane waves and coefficients read from a file (scalar or spinor), the cutoff step returns exactly the plane waves whose energy is below the requested cutoff, each once and in ascending energy. Column j of the returned coefficients (in both spin halves for spinors) is the column that belonged to the plane wave returned in column j.",
 ["inputs"],"all plane-wave lists, coefficient arrays, lattices, cutoffs, scalar and spinor",
 "Tests only look at traces near 1e-4 for two files; a misalignment of high-energy coefficients, of the lower spinor half or at ties is invisible to them.",
 [G],[("selection, argsort and column gather","irrep/gvectors.py: sortIG")],observe=["return value of sortIG"])

prop("C04","Equal-energy blocks partition the energy-sorted plane waves",
 "The block bounds stored with every plane wave describe contiguous, non-overlapping blocks that cover all columns, and every column lies inside its own block and shares the bounds with all members of it. Neighbouring plane waves belong to one block exactly when their energy difference does not exceed the tolerance.",
 ["inputs"],"all energy-sorted plane-wave lists of any length",
 "Depends on arbitrary numbers of plane waves and of energy gaps, including none and the last one; tests see a few lists and never look at the bounds.",
 [G],[("wall loop","irrep/gvectors.py: sortIG and calc_gvectors")],observe=["rows 4 and 5 of the plane-wave array"])

prop("C05","A symmetry maps every plane wave to its exact image or an error is raised",
 "Whenever the action of a symmetry on the plane waves of a k-point is computed, the returned index for plane wave G is a plane wave equal to the rotated G plus the reciprocal vector that returns the rotated k to k, for every G. If the rotated k is not equivalent to k a dedicated not-a-symmetry error is raised, if some image is absent from the equal-energy block an error is raised, and if all images are present no error is raised.",
 ["inputs"],"all invertible rotations, k-points and plane-wave lists with equal-energy blocks",
 "The tests exercise only symmetric plane-wave sets of a few crystals, so neither the error paths nor the pairing for arbitrary lists is settled.",
 [G],[("image search","irrep/gvectors.py: transformed_g")],observe=["return value / exception of transformed_g"])

prop("C06","Symmetry traces and matrices equal the matrix elements of the operation",
 "For every operation {R|t} of the little group (with spinor matrix S) and every set of Bloch states, element (m,n) of the computed symmetry matrix is <psi_m|{R|t}|psi_n>: the sum over plane waves and spin components of the conjugated coefficient at the rotated plane wave, times S, times the coefficient, times exp(-2 pi i t.(R^-T (G+k))). The per-band traces are the diagonal of that same matrix, for scalars and for spinors.",
 ["inputs"],"all operations, k-points, coefficients, plane-wave lists, scalar and spinor",
 "Tests compare traces to four digits for the symmorphic or order-two operations of three crystals; phases of translations not invariant under the rotation and off-diagonal spinor terms are not settled.",
 [G],[("phase factor and contraction","irrep/gvectors.py: symm_eigenvalues, symm_matrix")],observe=["return values"])

prop("C07","The little group is exactly the selected operations that leave k invariant",
 "The operations used at a k-point are precisely those among the requested ones (all if none are requested) whose rotation maps k to k plus a reciprocal lattice vector, each once, listed in ascending order of their index. The traces reported for that k-point have one column per such operation in that order.",
 ["inputs"],"all k-points, operation lists in any order, selections of indices",
 "Membership and order depend on arbitrary k and on the order in which operations are supplied; tests use a few fixed k-points and the default selection.",
 [K],[("little group construction","irrep/kpoint.py: Kpoint.__init__")],observe=["Kpoint.little_group, columns of Kpoint.char"])

prop("C08","Bands are partitioned into degenerate levels and traces are summed per level",
 "For every ascending list of band energies, the reported degeneracies are positive, add up to the number of bands and split the list exactly where the energy step exceeds the degeneracy tolerance. For each level the reported energy is the mean over its bands and the reported trace of each operation is the sum of the single-band traces over its bands.",
 ["inputs"],"all energy lists, tolerances, numbers of bands and operations",
 "Tests fix one tolerance and a few energy lists; the partition must hold for every list including single bands, one level only and gaps at either end.",
 [K],[("borders, degeneracies, calculate_traces","irrep/kpoint.py")],observe=["Kpoint.degeneracies, Kpoint.Energy_mean, Kpoint.char"])

prop("C09","Reference-cell traces and adapted tables agree in phase and sign",
 "Traces in the reference cell equal the traces in the calculation cell times the spinor sign of the operation and exp(-2 pi i dt.k_ref), where dt is the translation in the tables minus the operation's translation expressed in the reference cell and k_ref is k expressed in the reference cell; when the two cells coincide (identity and zero shift) they are unchanged. Table characters adapted to the calculation cell are the table characters times the same sign and exp(+2 pi i dt.k_table), and asking for a k-point label whose coordinates do not match the given k, or that does not exist, raises an error.",
 ["inputs","configurations"],"all operations, cell transformations, shifts, k-points and tables",
 "The tests only reach one transformation per crystal; a wrong phase convention cancels whenever dt.k is 0 or 1/2.",
 [K,S],[("char_refUC","irrep/kpoint.py: calculate_traces"),("table adaptation","irrep/spacegroup.py: SpaceGroup.get_irreps_from_table")],observe=["Kpoint.char_refUC, return value of get_irreps_from_table"])

prop("C10","Irrep multiplicities are the projection of the traces on the table characters",
 "For every level and every irrep of the little group, the reported multiplicity is (1/|G_k|) times the sum over the operations of the irrep's character times the conjugated trace of the level, and irreps are omitted exactly when the modulus of that number is at most 1e-3. If no table is given no irrep is reported.",
 ["inputs"],"all characters, irrep tables, group orders and numbers of levels",
 "Tests compare the irreps of few levels of two crystals with real integer multiplicities.",
 [K],[("identify_irreps","irrep/kpoint.py: Kpoint.identify_irreps")],observe=["Kpoint.irreps, JSON output"])

prop("C11","Change of cell acts on operations as conjugation and fails if not integer",
 "Expressing an operation {R|t} in a reference cell given by basis matrix P and origin shift p yields {P^-1 R P | P^-1 (t + R p - p)} for every P and p, so products of operations are preserved. If P^-1 R P is not integer an error is raised instead of returning a rounded matrix.",
 ["inputs"],"all integer rotations, translations, invertible basis changes and shifts",
 "Tests use identity or one fixed basis change with zero shift.",
 [S],[("rotation_refUC, translation_refUC","irrep/spacegroup.py: SymmetryOperation")],observe=["return values"])

prop("C12","Symmetry matching with the tables is one-to-one and correct, or fails",
 "When matching succeeds, each operation of the crystal is assigned a different operation of the table with the same rotation in the reference cell and with a translation that agrees up to lattice translations of the calculation cell within the tolerance. If an operation has no such partner, or two operations share one, an error is raised. After a successful match the operations are listed in table order and each carries the 1-based position of its table partner as its index.",
 ["inputs","configurations"],"all operation lists, tables, cell transformations, shifts and tolerances, including crystals supplying only part of the table's operations",
 "Tests only see complete, correctly transformed groups of three crystals; mismatches, permutations and incomplete groups are unreached.",
 [S],[("match_symmetries","irrep/spacegroup.py: SpaceGroup.match_symmetries"),("reordering","irrep/spacegroup.py: SpaceGroup.__init__")],observe=["return value, SymmetryOperation.ind"])

prop("C13","The reference cell is the user's, or one in which all symmetries match",
 "If the user gives a basis change and/or an origin shift they are used (the basis change transposed, the missing one replaced by identity or zero); if none is given and no search is requested the identity and zero shift are used. If a search is requested, the returned transformation is one for which every symmetry matches the tables, or an error is raised.",
 ["inputs","configurations"],"all combinations of user input and search flag, all crystals",
 "Tests cover two of the configurations for three crystals.",
 [S],[("determine_basis_transf","irrep/spacegroup.py: SpaceGroup.determine_basis_transf"),("centring vectors and inversion centres","irrep/spacegroup.py: vecs_centering, vecs_inv_centers")],observe=["SpaceGroup.refUC, SpaceGroup.shiftUC"])

prop("C14","A symmetry operation is stored normalised and with a matching spinor matrix",
 "For every operation of a crystal the stored translation lies in [0,1) componentwise and differs from the given one by integers (values within 1e-5 of 1 becoming 0), and the caller's arrays are not modified. The handedness flag is set exactly when the rotation has negative determinant, and the proper part of the Cartesian rotation is the rotation by the stored angle (a multiple of 30 degrees) about the stored axis, with the spinor matrix being exp(-i angle/2 axis.sigma).",
 ["inputs"],"all lattices and all rotations compatible with them, all translations",
 "Tests never check axis, angle or spinor matrix; correctness must hold for all lattices and all 3-, 4- and 6-fold operations of either sense.",
 [S],[("__init__, _get_operation_type","irrep/spacegroup.py: SymmetryOperation")],observe=["SymmetryOperation attributes"])

prop("C15","Writing a .sym file and reading it back gives the same operations",
 "For every lattice, lattice parameter and list of operations, reading back a symmetry file written by the program yields the same number of operations in the same order, with the same integer rotations and the same translations.",
 ["inputs"],"all lattices, lattice parameters and operations, any number of them",
 "The test uses one symmorphic crystal, where all translations vanish and sign errors cannot show.",
 [S],[("str_sym, write_sym_file","irrep/spacegroup.py"),("read_sym_file, cart_to_crystal","irrep/spacegroup.py")],observe=["symmetries of a SpaceGroup built from the file"])

prop("C16","Unfolding projects on exactly the plane waves of the target k-point",
 "For every supercell matrix and every primitive k-point that folds on the supercell k-point, the weight of each group of bands is the squared norm carried by precisely those plane waves that, seen from the primitive cell, differ from that k-point by a primitive reciprocal vector, in both spin halves, so the weights over all k-points folding on it add up to the number of bands in the group. If the primitive k-point does not fold on the supercell k-point an error is raised.",
 ["inputs"],"all supercells, k-points, orthonormal states, scalar and spinor",
 "Unfolding is not exercised by any test.",
 [K,U],[("unfold, get_rho_spin, k_close_mod1","irrep/kpoint.py"),("is_round","irrep/utility.py")],observe=["return value of Kpoint.unfold"])

prop("C17","Separating by a symmetry partitions the bands",
 "Separating the states of a k-point by a symmetry assigns every band to exactly one subspace: the numbers of bands of the subspaces add up to the number of bands, and in each subspace energies, states, traces and irreps are listed for the same bands in ascending energy. This holds with and without grouping Kramers partners, and the original k-point is left unchanged.",
 ["inputs"],"all k-points, symmetries and groupings",
 "One test separates one k-point by one symmetry with grouping on; the ungrouped variant is never run.",
 [K],[("Separate, copy_sub","irrep/kpoint.py: Kpoint")],observe=["return value of Kpoint.Separate"])

prop("C18","Overlaps, Zak phases and Wannier centres follow from plane-wave pairing",
 "The overlap of two k-points pairs each plane wave G of the first with the plane wave of the second that has the same k+G up to the rounded reciprocal shift, and element (m,n) is the sum over such pairs (and spin) of the conjugated coefficient of band m times that of band n. Zak phases are the summed phases of the determinants of the leading blocks of the consecutive overlaps modulo 2 pi, with band gaps taken from the band energies, and Wannier charge centres are the sorted phases over 2 pi, in [0,1), of the eigenvalues of the product of the unitary parts of the overlaps.",
 ["inputs"],"all pairs of k-points, plane-wave lists and states, closed paths of any length",
 "No test calls any of these functions.",
 [K,B],[("overlap","irrep/kpoint.py: Kpoint.overlap"),("zakphase, wcc","irrep/bandstructure.py: BandStructure")],observe=["return values"])

prop("C19","Gaps and inversion parities are computed over all k-points",
 "The direct gap is the minimum over k-points of the energy of the first band above the set minus the top level of the set, and the indirect gap is the minimum over k-points of the former minus the maximum of the latter, k-points without an upper band being ignored for the former. At each k-point invariant under the pure inversion (zero translation) the number of inversion-odd states is half of the sum over levels of degeneracy minus the real trace of inversion, it is absent at other k-points, and the total adds up the k-points that have it.",
 ["inputs"],"all band structures with any number of k-points",
 "Tests have one or few k-points and mostly no upper band; minima, maxima and sums over arbitrarily many k-points are unsettled.",
 [B,K],[("gap_direct, gap_indirect, num_bandinvs","irrep/bandstructure.py"),("num_bandinvs","irrep/kpoint.py: Kpoint.__init__")],observe=["JSON output, properties of BandStructure"])

prop("C20","Exactly the requested bands and k-points are processed and inputs stay intact",
 "For every request of first and last band (1-based, non-positive or too large meaning the end of the range) and of k-points, the states kept are exactly bands first..last of exactly the requested existing k-points in the requested order, with energies shifted by the Fermi energy, and the energy recorded as upper is that of the next band or not-a-number if there is none. An empty band range is an error, and the arrays passed by the caller are not modified.",
 ["inputs","configurations","histories"],"all band ranges, k-point lists, Fermi energy settings, repeated constructions with the same arguments",
 "Tests use two or three windows; edges of the range and repeated use of the same argument arrays are not tried.",
 [B],[("band and k-point selection","irrep/bandstructure.py: BandStructure.__init__")],observe=["BandStructure.kpoints, Kpoint.upper, Kpoint.Energy_raw"])

prop("C21","WAVECAR data are read from the records of the right k-point and band",
 "For every number of k-points, bands and plane waves, the k-point coordinates, energies and coefficients returned for k-point i and band b are those stored in the header record of k-point i and in the record of band b of k-point i of the file layout (record 2+i(nbands+1) and the following ones). Unsupported files (double precision, spin-polarised, odd coefficient count for spinors) raise an error.",
 ["inputs"],"all files following the layout, all k-point indices",
 "One test file with one or two k-points is read.",
 [R],[("WAVECARFILE.record, ParserVasp.parse_header/parse_kpoint","irrep/readfiles.py")],observe=["return values of the VASP parser"])

prop("C22","ABINIT k-points can be read in any ascending selection",
 "For every WFK file and every ascending selection of k-points, each requested k-point is read from its own block: energies, plane waves and coefficients returned are those stored for that k-point, whatever k-points are skipped before it and however their numbers of plane waves and bands differ.",
 ["inputs","histories"],"all files and all ascending sequences of requested k-points",
 "The only ABINIT test file has a single k-point, so skipping never happens.",
 [R],[("ParserAbinit.parse_kpoint, kpt_count","irrep/readfiles.py")],observe=["return value of the ABINIT parser"])

prop("C23","POSCAR structures are read with correct lattice, positions and species",
 "For every POSCAR with positive scale factor, with or without an element line and selective-dynamics line, in direct or Cartesian mode, the lattice is the scaled one, the positions are the direct coordinates of all atoms in file order (Cartesian ones scaled by the same factor before conversion) and the species indices follow the per-species counts. Lines that are not coordinates are skipped, and too few positions or an unknown mode raise an error.",
 ["inputs"],"all well-formed POSCAR files",
 "Tests read two POSCARs in direct mode with unit scale.",
 [R],[("ParserVasp.parse_poscar","irrep/readfiles.py")],observe=["return value of parse_poscar"])

prop("C24","Quantum Espresso spin channels and structure are read consistently",
 "For spin-polarised calculations the energies, the number of bands and the wave functions returned are all those of the selected channel, and energies of the other channel never appear. Lattice and direct positions are those of the file in angstrom and relative to that lattice, coefficients are those stored for each band, and species indices are equal exactly for atoms of equal species.",
 ["inputs","configurations"],"all files, k-points and spin channels",
 "Only one noncollinear example is tested; the spin-polarised path is never run.",
 [R,B],[("ParserEspresso","irrep/readfiles.py"),("channel selection","irrep/bandstructure.py")],observe=["return value of parse_kpoint"])

prop("C25","Wannier90 input is read correctly irrespective of order and units",
 "For every .win file the lattice (in angstrom whether given in bohr or angstrom), k-points, fractional positions and species are those in the file whatever the block order, species indices being equal exactly for atoms of equal name, and a block that occurs twice or is not closed, or a required parameter (number of bands, spinors, grid) that is missing or repeated, raises an error. Energies are returned per k-point and band and an .eig file whose size or indices are inconsistent raises an error.",
 ["inputs"],"all .win and .eig files",
 "The Wannier90 tests cannot run (their data are absent) and would read two files.",
 [R],[("ParserW90","irrep/readfiles.py")],observe=["return values of the Wannier90 parser"])

prop("C26","Command-line and table tokens are parsed to the values they denote",
 "Lists with ranges (comma- or space-separated) expand to exactly the integers they denote in order, complex numbers written as a+bi or a-bi give that value with the right sign, booleans follow their first letter and anything else is an error. Formatting a number shows each of its parts that is not smaller than the last requested decimal, with the requested number of decimals and its sign.",
 ["inputs"],"all token lists and numbers",
 "No test targets these helpers; only a few literals pass through them.",
 [U],[("str2list, str2list_space, compstr, str2bool, short","irrep/utility.py")],observe=["return values"])

prop("C27","Shipped irrep tables are internally consistent",
 "In every shipped table the operations form a group modulo lattice translations with a matching (projective, for spinors) multiplication of the spinor matrices, and at every k-point the listed operations are exactly a subgroup leaving k invariant and the irrep characters are orthonormal and complete with dimension equal to the character of the identity, and multiply as the characters of irreducible (projective) representations of that subgroup.",
 ["inputs"],"all 230 space groups, scalar and spinor tables",
 "Tests read two or three of the 460 tables.",
 [T],[("IrrepTable, SymopTable, KPoint, Irrep","irreptables/irreptables/__init__.py")],observe=["IrrepTable attributes"])

prop("C28","Path lengths and trace output list levels consistently",
 "The k-path coordinate starts at 0, never decreases, has one entry per k-point and each step equals the Cartesian distance of consecutive k-points, or 0 if that distance exceeds the break threshold. In the trace output each level's first-band number is one plus the number of bands in the levels before it, followed by its degeneracy, energy and the traces of the little-group operations in the listed order.",
 ["inputs"],"all paths and band structures",
 "Tests do not inspect the path coordinate or trace.txt.",
 [B,K],[("KPOINTSline","irrep/bandstructure.py"),("write_trace","irrep/kpoint.py")],observe=["return values, trace.txt"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as f:
        for p in P: f.write(json.dumps(p) + "\n")
    import collections
    print(len(P), [p["id"] for p in P if len(p["title"])>80])
