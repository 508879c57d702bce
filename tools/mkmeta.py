"""writes properties.jsonl and MANIFEST.json (run by hand after editing the table below)"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CR, MT, LC = 'structrans/crystallography/', 'structrans/marttrans/', 'structrans/marttrans/lat_cor/'
P = []


def prop(title, statement, over, text, why, files, mech, observe=None):
    P.append({'id': 'C%02d' % (len(P) + 1), 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech],
                          'observe_at': observe or ['return values of the public calls'], 'hook_needed': None}})


prop('Lattice equality is equality of the sets of lattice points',
     'Two lattices compare equal exactly when their bases differ by an integer matrix of determinant +1 or -1, in any dimension and in both directions; '
     'a proper sublattice, superlattice or rotated lattice is never equal. A base that is not a square, non-singular matrix of finite real numbers is refused with ValueError, '
     'and comparison with something that is not a lattice is false.',
     ['inputs'], 'all bases in dimensions 1-6, all changes of base', 'The tests compare a handful of fixed bases; equality has to be right for every pair.',
     [CR + 'lattice.py'], [('Lattice.__eq__, Lattice.__init__', CR + 'lattice.py')])
prop('Symmetry groups are groups of symmetries; membership tests follow the definition',
     'The Laue and point groups reported for a 2D or 3D lattice contain each element once, contain the identity, are closed under products and inverses and consist only of orthogonal maps of the lattice onto itself; '
     'the Laue group is exactly the set of proper rotations in the point group, and the predefined cubic, hexagonal and square groups are groups of the right order. '
     'Point-group, lattice-group and subgroup membership tests accept exactly the matrices (groups) that satisfy the definition and refuse matrices of wrong shape or dimension.',
     ['inputs'], 'all lattices and all candidate matrices in dimensions 1-5 (groups in 2 and 3)', 'Tests look at the order of a few groups of nicely oriented lattices.',
     [CR + 'lattice.py', CR + 'matrix_group.py'], [('Laue_group, point_group, inpointgroup, inlatticegroup', CR + 'lattice.py'), ('MatrixGroup.hassubgroup and the predefined groups', CR + 'matrix_group.py')])
prop('The full holohedry of every Bravais type is found, whatever base is used',
     'For every 2D and 3D Bravais type in its standard orientation the reported Laue and point groups are the complete sets of rotations and orthogonal maps that leave the lattice invariant, '
     'and they stay the same when the lattice is described by any other base, left- or right-handed.',
     ['inputs'], 'all 19 types, all lattice parameters (rhombohedral angles away from 60, 90 and 109.47 degrees), all unimodular base changes',
     'Tests check orders for one parameter set of a few types.', [CR + 'lattice.py', CR + 'matrix_group.py', CR + 'bravais_lattice.py'],
     [('Laue_group / point_group filter the standard groups', CR + 'lattice.py')])
prop('Integer lattice groups are the point groups in lattice coordinates',
     'The lattice group and the special lattice group consist of integer matrices of determinant +1 or -1 (+1 for the special one in 3D) that preserve all lengths and angles of the lattice; '
     'they correspond one to one to the point group and the Laue group by change of base, and both ways of asking (current and deprecated names) give the same set.',
     ['inputs', 'histories'], 'all 2D and 3D lattices and bases, any order of queries', 'Tests never compare the integer groups with an independent enumeration.',
     [CR + 'lattice.py'], [('lattice_group, special_lattice_group', CR + 'lattice.py')])
prop('A Bravais lattice realises the parameters it was given',
     'The conventional base of a Bravais lattice has exactly the given lengths and angles, is right-handed, is related to the primitive base by the reported conversion matrix, and its cell contains exactly the lattice points of the centring of that type; '
     'the type, the parameters and the textual description report the values that were given. A type or parameter list that does not exist (wrong type number, wrong number of parameters, non-positive values, angles of 180 degrees or more) is refused with ValueError.',
     ['inputs'], 'all 14 + 5 types, all admissible and malformed parameters', 'The Bravais tests of the repository do not run here; they use one parameter set per type.',
     [CR + 'bravais_lattice.py'], [('primitive bases and conversion matrices per type', CR + 'bravais_lattice.py')])
prop('Index conversion between primitive and conventional cells is invertible',
     'Converting indices of a direction between conventional and primitive base keeps the Cartesian direction, the two conversions undo each other, and a list is converted item by item in order; '
     'indices of the wrong dimension are refused with ValueError and the input is left unchanged.',
     ['inputs'], 'all types, single indices and lists, integer and real', 'Tests do not cover index conversion.',
     [CR + 'bravais_lattice.py'], [('to_primitive_Miller, to_conventional_Miller', CR + 'bravais_lattice.py')])
prop('Hermite normal forms list every sublattice of an index exactly once',
     'The list of Hermite normal forms of a given determinant and dimension contains every lower triangular integer matrix with positive diagonal, entries left of the diagonal in (-diagonal, 0] and that determinant, each exactly once; '
     'the same holds for the forms of a given diagonal, and the divisors of an integer are listed completely, ascending and once.',
     ['inputs'], 'all determinants and dimensions up to 5', 'Tests compare counts for a few determinants.',
     [CR + 'hnf.py', 'structrans/util/utils.py'], [('hnf_from_det, hnf_from_diag', CR + 'hnf.py'), ('divisors', 'structrans/util/utils.py')])
prop('Hermite normal form decomposition is exact and canonical',
     'Decomposing a non-singular integer matrix M yields a Hermite normal form H and a unimodular integer L with M = H L, the same H for all bases of the same sublattice, with or without asking for L; the input is left unchanged.',
     ['inputs'], 'all non-singular integer matrices of dimension 1-5 with entries small enough for 64-bit intermediates', 'Tests decompose a few matrices.',
     [CR + 'hnf.py'], [('hnfd', CR + 'hnf.py')])
prop('LLL reduction returns a reduced base of the same lattice',
     'The reduced base generates exactly the same lattice with the same handedness, all its Gram-Schmidt coefficients are at most 1/2 in size and consecutive vectors satisfy the 4/3 exchange condition; the input is left unchanged.',
     ['inputs'], 'all bases in dimensions 2-6, integer or real, however skewed', 'No test covers the reduction.',
     [CR + 'lattice_reduction.py'], [('LLL, Gauss_reduction, swapping', CR + 'lattice_reduction.py')])
prop('Rotations, Euler angles and screw axes are the rotations they name',
     'The rotation about an axis by an angle is the right-handed proper rotation with that fixed axis, for any non-zero axis of any length and any angle in degrees or radians; Euler angles compose the three elementary rotations in the given order, first letter first; '
     'an n-fold screw of type p is the rotation by 360/n degrees about its axis with the translation p/n (p modulo n) along it. Unknown axes or a wrong number of angles are refused with ValueError.',
     ['inputs'], 'all angles, axes, orders and units', 'Tests sample a few angles.',
     ['structrans/util/utils.py', CR + 'spacegroup.py'], [('rotation, Euler', 'structrans/util/utils.py'), ('skew', CR + 'spacegroup.py')])
prop('Rank-one solvers return exactly the solutions of the compatibility equation',
     'For a symmetric positive definite tensor C with middle eigenvalue 1 the interface solvers return the two pairs (b, m), |m| = 1, with (I + m b)(I + b m) = C; for a middle eigenvalue different from 1 the austenite/martensite solver returns nothing, '
     'and non-symmetric or indefinite input is refused. Two deformations are called compatible exactly when the middle principal value of their relative stretch is 1.',
     ['inputs'], 'all 3x3 tensors, spectra and orientations, beyond a numerical tolerance band', 'Not covered by the tests that run.',
     [MT + 'Compatibility.py', 'structrans/util/utils.py'], [('AM_Solver, isCompatible', MT + 'Compatibility.py'), ('solve_rank1, pos_def_sym, sort_eig', 'structrans/util/utils.py')])
prop('Variants are the orbit of the stretch under the parent symmetry, each once',
     'The variants of a reversible transformation are exactly the distinct images of its stretch tensor under the Laue group of the parent, starting with the stretch itself and numbered from 1, and the group indices recorded per variant split the whole group into the elements that produce it; '
     'a transformation whose product has a symmetry rotation that the parent lacks is reported irreversible and its variants are refused with AttributeError.',
     ['inputs'], 'all stretch tensors of all symmetries, all parent groups', 'Not covered by the tests that run.',
     [MT + 'martensite.py'], [('calcvariants, isreversible, getLaueidx', MT + 'martensite.py')])
prop('Setting stretch or parent symmetry is validated and never changes an object',
     'Setting the stretch (one to four numbers, nested list or array) or the parent symmetry (Bravais type number or group) returns a new object with exactly that stretch or the full Laue group of that type, keeps the other attribute, and leaves every existing object as it was; '
     'a stretch that is not a symmetric positive definite 3x3 tensor of finite real numbers is refused with TypeError and an unknown symmetry with ValueError.',
     ['inputs', 'histories'], 'all chains of calls with all accepted and malformed arguments', 'Not covered by the tests that run.',
     [MT + 'martensite.py'], [('setU, setLaue, getU, getLaue', MT + 'martensite.py')])
prop('Twin parameters solve the twinning equation',
     'For every pair of compatible stretches Ui, Uj the two reported solutions (Q, a, n) satisfy Q Uj = Ui + a n with a rotation Q and a unit normal n, and they are different; the parameters of a pair that is not compatible are refused with AttributeError.',
     ['inputs'], 'all compatible pairs: variants under any parent, pairs related by any two-fold axis, rank-one related pairs without axis', 'Not covered by the tests that run.',
     [MT + 'twin.py'], [('TwinPair.twinparam and its solvers', MT + 'twin.py')])
prop('Twins are classified by their two-fold axes and the parent group',
     'The twin table lists exactly the pairs of variants whose relative stretch has middle eigenvalue 1, the reported axes are all the two-fold axes that carry one variant into the other, a twin is compound when there are two of them and of type I/II otherwise, and conventional exactly when a two-fold rotation of the parent group relates the variants; '
     'the cofactor parameters are |U^-1 e| and |U e| for the axis e, the direct cofactor values are -(U a).cof(U^2 - I) n, and the lists of a twin system agree with its pairs one to one.',
     ['inputs'], 'all crystal systems under cubic, hexagonal, tetragonal and orthorhombic parents (pairs inside the numerical tolerance band excluded)', 'Not covered by the tests that run.',
     [MT + 'twin.py'], [('TwinSystem, TwinPair.istwinnable/ax/isconventional/iscompound/XI/XII/direct_cof', MT + 'twin.py')])
prop('Volume fractions and habit planes are exactly the austenite/twin interfaces',
     'A volume fraction in [0, 1] is reported for a twin solution exactly when the twinned laminate is compatible with the identity at that fraction, and none otherwise; compatibility queries agree with it, '
     'and every reported habit plane (R, b, m) with unit m satisfies R sqrt(C) = I + b m for the laminate at the fraction f or 1 - f, two for each, with R a rotation. Habit planes of an incompatible twin are refused with AttributeError, unknown twin types with ValueError.',
     ['inputs'], 'all twins of all crystal systems (cases inside the numerical tolerance band excluded)', 'Not covered by the tests that run.',
     [MT + 'twin.py'], [('volumefrac, iscompatible, habitplanes', MT + 'twin.py')])
prop('Directions and planes are carried consistently between the phases',
     'For a lattice correspondence L, directions are mapped to d\' with L d\' = d and planes to p\' with p\'.d\' = p.d for every direction, singly or in lists in the same order, for nested lists and arrays alike, without changing the input.',
     ['inputs'], 'all invertible correspondences, all index lists', 'Not covered by the tests that run.',
     [MT + 'orientation_relationship.py'], [('direc_trans, plane_trans', MT + 'orientation_relationship.py')])
prop('Every reported lattice correspondence is consistent with the two lattices',
     'Each solution of either correspondence search is a non-singular integer correspondence (for the sublattice search, a Hermite normal form inside the volume window times a unimodular matrix) whose distance, conventional correspondence, symmetric positive definite stretch U with U^2 = F^T F and ascending principal stretches are those of the given lattices; '
     'solutions are sorted by distance, no two are symmetry-equivalent, and there are at least as many as asked for, with more only when they tie with the last.',
     ['inputs', 'configurations'], 'all pairs of Bravais lattices in 2D and 3D, all distances, numbers of solutions and thresholds', 'The correspondence tests are not part of the stable set.',
     [LC + 'main_hnf.py', LC + 'main_direct.py'], [('lat_cor (both solvers)', LC + 'main_hnf.py, main_direct.py')])
prop('The exhaustive search misses no closer correspondence',
     'The correspondences returned by the exhaustive search (the default one) are the best ones: no integer correspondence of any determinant has a smaller distance, up to symmetry, than the answers listed, whatever the slice size or the random starting point.',
     ['inputs', 'configurations'], 'all 2D pairs; 3D pairs for which the search is feasible', 'Tests cannot sample optimality; it needs an independent exact enumeration.',
     [LC + 'main_direct.py', LC + 'quartic_opt.py', LC + 'dist.py'], [('lat_cor: bounded radius enumeration with shrinking radius', LC + 'main_direct.py'), ('quart_min', LC + 'quartic_opt.py')])
prop('Parallel and serial sublattice searches give the same answer',
     'Solving the sublattices through an asynchronous back end gives the same solutions as solving them one after the other, whatever the pool size and whatever the order and delay in which results arrive; '
     'every sublattice is submitted once and its result consumed once, and never more tasks than the pool size are outstanding.',
     ['schedules', 'configurations'], 'all completion orders, delays and pool sizes; threads and processes', 'No test runs the parallel path.',
     [LC + 'main_hnf.py', LC + 'lat_opt.py'], [('asynchronous task loop, merge of solutions', LC + 'main_hnf.py'), ('lat_opt_unpack', LC + 'lat_opt.py')],
     ['submission, readiness polling and delivery of tasks at the back end', 'returned solutions'])
prop('Distances measure the deformation and not its description',
     'The Cauchy, strain and Ericksen distances equal their definitions, vanish exactly for a rigid rotation, and do not change when either lattice is rotated, both are scaled, or the parent (for Cauchy and strain also the product) is described by another base; '
     'a batch of matrices gets the same distances, in the same order, as the matrices one by one.',
     ['inputs'], 'all bases and integer matrices in 2D and 3D, batches of any size', 'Not covered by the tests that run.',
     [LC + 'dist.py'], [('Cauchy_dist, strain_dist, Eric_dist, Cauchy_dist_vec', LC + 'dist.py')])
prop('The sublattice search visits every admissible sublattice once up to symmetry',
     'The sublattices of the parent handed to the optimizer are, up to rotations of the parent, exactly all sublattices whose index lies within the volume threshold around the volume ratio (or the nearest positive index when none does), no two of them symmetry-related, with serial and with divided parallel reduction.',
     ['inputs', 'configurations'], 'all pairs of 2D/3D lattices, thresholds and volume ratios', 'No test looks at which sublattices are searched.',
     [LC + 'main_hnf.py', CR + 'hnf.py'], [('volume window, reduce_hnfs', LC + 'main_hnf.py')], ['tasks handed to the parallel back end'])
prop('The sublattice optimizer returns valid, sorted, inequivalent, locally best cells',
     'For two bases the optimizer returns at least the number of unimodular matrices asked for, each with its true distance, sorted and pairwise inequivalent, more only for ties with the last, and no elementary shear of the best one is closer; in two dimensions the best Cauchy distance is the global minimum. '
     'The minimum and maximum depth options bound the generations searched, and raising the minimum depth never gives a worse best solution, also through the whole sublattice search. '
     'The inputs are left unchanged.',
     ['inputs'], 'all pairs of bases in 2D and 3D, all distances', 'Not covered by the tests that run.',
     [LC + 'lat_opt.py', LC + 'slnode.py', LC + 'dfs.py'], [('lat_opt: descent plus breadth first search', LC + 'lat_opt.py'), ('SLNode', LC + 'slnode.py'), ('dfs', LC + 'dfs.py')])
prop('Candidate vectors are enumerated completely, once, and resumable',
     'The enumeration of integer vectors up to a length visits every such vector exactly once and no longer one, in any dimension; restarted from any visited vector it continues with exactly the rest of the sequence, so that interrupting and resuming with the same or a smaller length loses and repeats nothing.',
     ['inputs', 'histories'], 'all lengths, dimensions and interruption points', 'No test covers the enumeration.',
     [LC + 'main_direct.py'], [('vec_generator', LC + 'main_direct.py')], ['the sequence of yielded vectors'])
prop('Stereographic projection follows its definition',
     'The projection of a direction about a zone axis z lies at radius |z| tan(theta/2) (theta the angle to z after reflecting the lower hemisphere to the upper one) and at the azimuth of the direction in the frame of z, independently of the length of the direction; '
     'a pole figure projects every direction of a list in order, and malformed lists give no figure.',
     ['inputs'], 'all zone axes and directions, to within 0.2% of the circle', 'No test covers the projection.',
     [CR + 'stereogram.py'], [('stereo_proj, pole_figure', CR + 'stereogram.py')])
prop('Batched matrix operations equal the operations one by one',
     'Products, transposes, traces, determinants and eigenvalues of lists of matrices are those of the individual matrices in order; sorted spectra are ascending with matching unit eigenvectors, cofactors are signed minors, '
     'unique rows keeps each distinct row once with an index pointing at it, and the enumeration of integer triples is complete and without repetition.',
     ['inputs'], 'all lists of matrices of size 1-5', 'Not covered by the tests that run.',
     ['structrans/mat_math.py', 'structrans/util/utils.py'], [('mat_dot, mat_T, mat_trace, mat_det, mat_eig, unique_rows, eigSort, cofactor, tuple', 'structrans/mat_math.py'), ('sort_eig', 'structrans/util/utils.py')])
prop('Drawn unit cells have the corners and edges of the lattice cell',
     'The primitive and conventional cells of a drawn unit cell have as corners exactly the origin plus all sums of base vectors, and as edges every pair of corners differing by one base vector, each once (12 in 3D, 4 in 2D); moving the origin or copying a cell translates it, '
     'and every point drawn with a conventional cell is a lattice point of the lattice placed at its origin and, for 3D cells with perpendicular axes, lies in that cell, no centring corner of the primitive cell inside it being left out. Other dimensions are refused.',
     ['inputs'], 'all Bravais types, parameters and origins', 'No test covers the drawing helpers.',
     [CR + 'visualization.py'], [('UnitCell, vertex, bonds, box', CR + 'visualization.py')])
prop('Answers do not depend on history and callers cannot corrupt objects',
     'Every query of a lattice, Bravais lattice, matrix group, martensite, twin system or twin pair gives the same answer however often and in whatever order questions were asked before, and pure functions give the same answer again without changing their arguments; '
     'overwriting any array or list that such a query returned, or that such an object was made of, changes no later answer of any object.',
     ['histories'], 'all orders and repetitions of queries, with results overwritten by the caller in between', 'Tests ask each question once on a fresh object.',
     [CR + 'lattice.py', CR + 'matrix_group.py', CR + 'bravais_lattice.py', MT + 'martensite.py', MT + 'twin.py'],
     [('lazy caches and defensive copies', CR + 'lattice.py, matrix_group.py, ' + MT + 'martensite.py, twin.py')], ['answers along random query histories'])
prop('The printed report states the returned solutions',
     'With display on, both correspondence searches print (and log) for every returned solution, numbered in order, its correspondence column by column, stretch, Hermite normal form (sublattice search), principal stretches and distance, equal to the returned values to the printed precision, together with the description of both lattices and the name of the distance; a log file named to the exhaustive search receives the same report; display is on by default, and with display off nothing is printed.',
     ['inputs', 'configurations'], 'all searches and numbers of solutions', 'No test parses the report.',
     [LC + 'main_hnf.py', LC + 'main_direct.py', CR + 'bravais_lattice.py'], [('_sols_tostr, lprint', LC + 'main_hnf.py, main_direct.py')], ['standard output and log records'])
prop('Display and logging options never change results',
     'Both correspondence searches and the sublattice optimizer return exactly the same (for the same random state) whatever the display level, the level and handlers of the loggers and the log file; '
     'a display level prints everything the lower levels print, in the same order, and level 0 prints nothing; what is logged does not depend on the display level; '
     'a log file named in a call gets each message of that call once, whatever log files earlier calls named, and calls without a log file still reach the handlers of the application afterwards.',
     ['inputs', 'configurations', 'histories'], 'all searches, display and logger levels and sequences of calls with and without log files', 'The tests switch display off throughout.',
     [LC + 'lat_opt.py', LC + 'main_hnf.py', LC + 'main_direct.py'], [('lprint, log file handlers', LC + 'lat_opt.py, main_hnf.py, main_direct.py')], ['results, standard output and log records across option settings'])

prop('The sublattice search misses no closer correspondence in its window',
     'The correspondences returned by the sublattice search are the best ones within its volume window: no orientation-preserving integer correspondence whose determinant lies in the window has a smaller Cauchy or strain distance than the answers listed, '
     'up to rotations of the two lattices (and not of a sublattice that happens to be more symmetric than the parent), so that equally close inequivalent answers are all kept when there is room for them.',
     ['inputs'], 'all 2D pairs, up to 4 solutions; textbook 3D transformations between cubic, tetragonal and orthorhombic lattices, up to 3 solutions', 'No test compares the answer with an exhaustive enumeration.',
     [LC + 'main_hnf.py', LC + 'lat_opt.py', LC + 'slnode.py', LC + 'dfs.py'], [('merge_sols, sublattice_group', LC + 'main_hnf.py'), ('descent plus breadth first search', LC + 'lat_opt.py')])


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps(p) + '\n')
    checks = []
    for p in P:
        sched = p['id'] == 'C20'
        checks.append({
            'property': p['id'], 'quick_cmd': 'bash check.sh ' + p['id'], 'thorough_cmd': 'bash check.sh %s --tier thorough' % p['id'],
            'technique': 'runtime monitoring: ' + (
                'online checker of recorded submission/delivery histories under controlled schedules, threads and process pools' if sched else
                'oracle monitors in independent pure Python over executions of the real code under seeded generated workloads'),
            'level': 'exploration',
            'level_note': 'Holds on every observed execution; the evidence file counts the events and oracle evaluations. No claim beyond the generated workloads (see DESIGN.md for bounds and exclusions).'})
    man = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': [],
           'notes': 'All checks import structrans from /repo (VERIF_REPO overrides) with byte code caching off; seeds from VERIF_SEED. No hooks in /repo. Exit 3 = inconclusive (a monitor did not fire often enough).'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')


main()
