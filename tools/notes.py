DED = 'deductive verification of contracts on the real functions (symbolic execution of the Python source, ring normal form + z3/cvc5), concrete contract runs as conformance check'
BND = 'bounded: contracts checked at run time on the real functions with generated inputs (no obligation discharged)'
BASE = ' Floats are treated as real numbers; numpy/Python semantics are those modelled in /verif/vc (trusted, cross-checked by concrete runs of the same contracts).'
def proof(x): return ('proof', DED, x + BASE)
def bounded(x): return ('exploration', BND, x)
NA = {}
NOTES = {
 'C01': bounded('calc_gvectors on generated k-points, lattices, cutoffs, shell limits and counts against direct enumeration.'),
 'C02': proof('calc_gvectors without prescribed number of plane waves, for every k-point, lattice, cutoffs and shell limit: positions are ranks in the storage order among all plane waves of the calculation, distinct, and independent of the reduced cutoff. With a prescribed number (VASP) and for the coefficients attached to the positions: bounded runs, end to end from synthetic WAVECAR files.'),
 'C03': proof('All inputs, any number of plane waves and bands, scalar and spinor: every postcondition of sortIG is discharged.'),
 'C04': proof('All inputs: the block bounds written by sortIG are discharged for any number of plane waves; calc_gvectors is covered by the bounded runs.'),
 'C05': proof('All inputs: transformed_g returns exact images or raises, and raises only if it must.'),
 'C06': proof('All inputs: symm_eigenvalues and symm_matrix equal the defining sums, scalar and spinor; transformed_g enters through its contract (proved under C05).'),
 'C07': proof('All k-points, operation lists in any order and requests: membership, order and columns of the little group, with the traces entering through the contract of symm_eigenvalues.'),
 'C08': proof('All ascending energy lists, thresholds, numbers of bands and operations: the level partition, mean energies and summed traces.'),
 'C09': proof('All bands, levels, operations, changes of cell, signs and k-points: traces in the reference cell and adapted tables; the translation in the reference cell enters through the contract of translation_refUC (proved under C11).'),
 'C10': proof('All characters, irreps, levels and operations: multiplicities, omission and the case without table.'),
 'C11': proof('All operations, basis matrices and origin shifts: translation_refUC, rotation_refUC and the product lemma.'),
 'C12': proof('Any number of operations and table entries: a successful match is one-to-one with equal rotations and equivalent translations (rotation_refUC and translation_refUC through their contracts), a failed one is an error, and SpaceGroup.__init__ lists the operations in table order with 1-based indices and signs.'),
 'C13': proof('All user input: the six combinations without search, the default, and the search over any list of candidate cells (the match of all symmetries enters as an uninterpreted predicate).'),
 'C14': proof('Normalised translation, handedness flag, rounding of the angle, spinor matrix argument, untouched arguments and the Cartesian rotation handed to the eigenvalue routine, for every rotation, translation and non-singular lattice; that axis and angle describe that rotation rests on numpy.linalg.eig and is covered by bounded runs on all operations of the 230 groups.'),
 'C15': bounded('write and read of .sym files for generated lattices and operations.'),
 'C16': proof('unfold and get_rho_spin, scalar and spinor: groups of bands and the weight of each group are discharged for every supercell, k-point and orthonormal states; the sum over all primitive k-points is checked on generated supercells.'),
 'C17': ('exploration', DED + ' for copy_sub; bounded contract runs for Separate', 'copy_sub (subspace of any size: same bands in all lists, ascending energy, original unchanged) is discharged; the assignment of every band to exactly one subspace by Separate is bounded: generated representations, with and without Kramers grouping.'),
 'C18': proof('overlap (scalar, spinor), zakphase and wcc for all paths and numbers of bands; determinant, singular values and eigenvalues enter as abstract functions whose arguments are obligations, so their numerical values are covered by the bounded runs.'),
 'C19': proof('Any number of k-points, levels and operations: direct and indirect gap, number of odd states per k-point and total.'),
 'C20': proof('BandStructure.__init__ for all four codes, with and without k-point lists, any request and any number of bands and k-points: the readers and Kpoint enter through contracts (ABINIT with one number of bands), which bounded runs on synthetic calculations of the four codes check.'),
 'C21': proof('WAVECARFILE and ParserVasp.parse_header/parse_kpoint on a file of unknown content, any numbers of k-points, bands and coefficients and any record length: every value returned is the one stored at its byte position, and unsupported files raise.'),
 'C22': proof('ParserAbinit.parse_kpoint on a file of any number of blocks of any sizes: each k-point of an ascending selection is read from its own block, and the state left depends only on the last k-point read; the header is covered by bounded runs on synthetic WFK files.'),
 'C23': bounded('generated POSCAR files.'),
 'C24': proof('ParserEspresso header, structure and k-point data for any number of bands per channel, plane waves, atoms and species: energies and files of the selected channel only; the XML tree and the record file enter as their content (no theory of text).'),
 'C25': bounded('generated .win, .eig and UNK files.'),
 'C26': proof('str2list and str2list_space for any number of elements and ranges, compstr, str2bool, split and short (0 to 15 decimals) for all numbers: text is modelled as known characters and literals of arbitrary numbers; Python\'s own split, int, float, complex and format are trusted, and bounded runs on generated texts check them together.'),
 'C27': bounded('exhaustive over the 460 shipped tables, as loaded by the code.'),
 'C28': proof('All paths: the k-path coordinate is discharged for every contract of KPOINTSline. The text of the trace output is covered by bounded runs only.'),
}
