"""What each check specifies, its oracle, bounds and assumptions.  Goes into
DESIGN.md (tools/mkdocs.py) and, the assumptions, into the evidence."""

REALS = 'floats are encoded as reals'
XX = 'xxhash digests are equal only for equal data'
SPG = 'spglib reports exactly the operations of the crystal at the given tolerance, in its usual order'

NOTES = {
 'C01': dict(
  how='`fixed_count` runs the generator for one selection and count with symbolic atomic numbers for the crystal and the new species; the symmetry of the crystal for that assignment is found by forking on equality of the numbers. An arbitrary arrangement (a symbolic choice of n target sites) must be related to exactly one yielded structure; each yielded structure must have exactly n substituted sites and the rest unchanged; the initial crystal must be unchanged afterwards. `reuse` runs several enumerations from the same generator object, one after the other or interleaved in a symbolic order.',
  oracle='orbits of arrangements under the group computed from the geometry by engine/geom.py',
  bounds='37 catalogue cells with 1 to 48 sites, all crystal classes from triclinic to cubic, supercells (up to 384 operations), sites listed out of order and outside the cell, cells symmetric only to a few hundredths of an angstrom; selections by element, by Wyckoff letter, and all sites; n from 0 to 5 (more than there are sites included); interleavings of up to 5 steps.',
  assume=[SPG, XX, 'lattices and positions are those of the catalogue; elements are arbitrary']),
 'C02': dict(
  how='`levels` opens the level generators in the order given, late, or in a symbolic order (which level advances next is a symbolic choice) and requires on each level exactly one structure per class of arrangements. `levels_again` repeats or interleaves two enumerations of one generator object.',
  oracle='orbits of arrangements, as in C01; the number of levels from the numbers of atoms',
  bounds='23 cells and selections up to level 4, symbolic schedules of 4 to 5 steps (7 thorough), new species already present on other sites.',
  assume=[SPG, XX]),
 'C24': dict(
  how='`trinary` runs the two-species generator with symbolic species and requires exactly one structure per class of pairs of disjoint site subsets.',
  oracle='orbits of labelled arrangements',
  bounds='26 cells and counts up to (3, 3) with and without a target element, repeated and interleaved use of one generator, new species that the crystal already has on other sites (with a target element).',
  assume=[SPG, XX, 'the two new species differ from each other and from the target']),
 'C25': dict(
  how='`filter_stream` feeds the filter a stream of k structures whose elements are all symbolic; paths fork on equalities. The output is compared with the definition; `is_equivalent` is compared with the existence of an operation for every pair. `filter_twice` filters two streams with one object, one after the other and interleaved.',
  oracle='the group of the crystal acting on the symbolic occupations',
  bounds='streams of 2 to 4 structures on cells of 2 to 5 sites with arbitrary elements, and of 2 structures on cells of 8 sites (384 operations) with two elements.',
  assume=[SPG, XX]),
 'C26': dict(
  how='`stru_equal` compares two grid structures, the second with symbolic elements, for the operations of the empty grid, for a symbolically chosen one of them, for the identity or for none, with symbolic lattice vectors and symbolic noise added to the translations. The answer must be true exactly when a listed operation carries one onto the other. Texts made from arrays are modelled as numpy prints them (padding, line breaks, abbreviation of long arrays).',
  oracle='the site permutation of every operation, from engine/geom.py, applied to the symbolic elements',
  bounds='six lattices, grids of 2 to 9 sites with up to four arbitrary or nine two-valued elements, lattice vectors in -2..2, noise 1e-11; grids of 80 and of 1100 sites with one free site.',
  assume=['the operations carry the grid onto itself (they come from its symmetry)', REALS]),
 'C28': dict(
  how='`every` runs the plain generators with symbolic elements and asks that an arbitrary symbolic choice of sites is listed; `step` feeds the one-step generators a stream of occupations with symbolic elements on the varied sites and compares with an arbitrary symbolic occupation; `bucky_step` does so for the cage.',
  oracle='the definition: choices of sites, written out',
  bounds='20 crystals of up to 9 (some 16) sites; streams of 1 to 3 occupations with up to 4 varied sites of 2 or 3 elements.',
  assume=[SPG, XX]),
 'C27': dict(
  how='`inspect` asks a cell of symbolic elements for its symmetry, identity and library cell, replaces the elements by other symbolic ones and asks again (the equality pattern of the elements is decided by the solver, so all elements are covered); counts, formula and per-element coordinates use a chosen palette of elements. `cartesian` uses symbolic coordinates and basis entries.',
  oracle='operations and orbits from engine/geom.py for the elements now held, at the tolerance of the cell; counting; the product of coordinates and basis',
  bounds='19 cells of up to 8 atoms (one of 14), up to 4 free elements, one replacement; tolerances 1e-3 and 0.1 on distorted cells; 4 bases, up to three free coordinates in -2..2.',
  assume=[REALS]),
 'C03': dict(
  how='`perms` builds the permutation table with a symbolic origin along chosen axes, with symbolic noise up to the tolerance on the translations (`noise`) or on coordinates (`pnoise`), and in a symbolic order of operations. Every row must be the permutation of one operation, and each operation must have its row.',
  oracle='for each operation, the site on which each image falls, modulo lattice translations',
  bounds='37 cells; symbolic origins along each axis for 8 cells, along all axes for 3; noise 1e-4 on up to 3 operations or coordinates; both tables of the package (GeneralCell and CStru); repeated use.',
  assume=[SPG, 'noise is below the tolerance of the package and sites are farther apart than the tolerance', REALS]),
 'C04': dict(
  how='`identity` makes two cells from a set of sites with symbolic thousandth coordinates: one plain, one reordered (symbolic permutation), translated by symbolic lattice vectors and disturbed by symbolic noise. Identity and element list must agree. Two occupations with symbolic elements must have equal identities exactly if all elements agree.',
  oracle='multisets of (position modulo 1, element)',
  bounds='1 to 4 sites, up to 6 free coordinates on the grid of thousandths, translations in -2..2, noise up to 1e-4; layers with equal coordinates; the cell boundary.',
  assume=['sites are resolved to the working precision (three decimals)', XX, REALS]),
 'C05': dict(
  how='`tiling` builds the supercell with symbolic site coordinates, lattice entries and elements and checks lattice, number of copies, and that each supercell site is a lattice translate of a unit-cell site with its element, no two coinciding.',
  oracle='exact tiling in fractional coordinates',
  bounds='about 20 Hermite matrices up to determinant 27 (and lower-triangular ones for `supercell`), 1 to 2 sites, one or two free coordinates, positions in [-1, 2).',
  assume=[REALS, 'matrices are triangular with non-negative entries and positive diagonal']),
 'C06': dict(
  how='`hnfs` takes an arbitrary superlattice of index n as a symbolic Hermite form and requires exactly one superlattice of the enumeration to be related to it by an operation of the crystal. `lateq` compares the equality of two symbolic superlattices with the existence of such an operation. Repeated generators are included.',
  oracle='integrality of H^-1 R H for the operations R of the crystal',
  bounds='11 crystals, indices 1 to 8 (to 26 in two dimensions); equality with symbolic off-diagonals up to determinant 211.',
  assume=[SPG, 'crystals are primitive or not, as in the catalogue']),
 'C07': dict(
  how='`mindist` evaluates the restriction for symbolic positions, elements and threshold.',
  oracle='squared distances over all 27 neighbouring images, own images included',
  bounds='6 lattices (cubic, orthorhombic, monoclinic, triclinic, hexagonal, flat), 1 to 3 atoms, one or two free coordinates in [0, 1), symbolic elements, any threshold in 0.1..8; equality on dyadic coordinates.',
  assume=[REALS, '|d^2 - r^2| > 1e-4 unless all numbers are exact in binary', 'only images in adjacent cells count (as the package documents)']),
 'C08': dict(
  how='`clarify` runs both clarifiers on a cell with symbolic radius, one free coordinate of a site or centre, and symbolic elements; `clarify_reject` gives both a fixed cell; `sphere` asks for the sites around a centre.',
  oracle='squared distances over the 27 images; the list of remaining sites in order',
  bounds='5 lattices, 2 to 4 sites, 1 to 2 centres, equality on dyadic coordinates, consecutive use of one clarifier.',
  assume=[REALS, '|d^2 - r^2| > 1e-4 unless all numbers are exact in binary']),
 'C09': dict(
  how='`history` applies a sequence of operations with symbolic kinds, indices and contents to the cell, to a copy, and to plain lists. `mcell_eq`, `mcell_find`, `mcell_conv` decide equality, lookup and conversion for symbolic contents.',
  oracle='plain Python lists of (position, element)',
  bounds='1 to 3 initial sites, 2 to 4 operations (5 thorough), all indices including negative and out-of-range ones.',
  assume=[REALS]),
 'C10': dict(
  how='`perturb` draws every normal deviate as a symbolic real and requires the squared cartesian displacement to be the square of the request.',
  oracle='exact squared length',
  bounds='4 lattices, 1 to 2 sites, distances 0 to 1, directions with components in -4..4, an exactly zero draw and a very short one; shifting one site by a symbolic vector.',
  assume=[REALS, 'cells are larger than twice the displacement, so that it is not ambiguous modulo the lattice']),
 'C11': dict(
  how='`poscar_write` writes a crystal with symbolic coordinates, lattice entries and elements, and reads the text with an independent reader and with the package. `poscar_read` reads texts composed with symbolic numbers.',
  oracle='independent reader; multiset of sites modulo the lattice',
  bounds='2 to 4 sites, elements from palettes of 3 to 4, lattice entries symbolic or left-handed or of ten and more characters, coordinates in -300..300; 12 spellings of the mode line, scale positive, negative (volume) or symbolic, symbols occurring twice, selective trailing columns, missing final newline.',
  assume=['numbers in texts carry the printed digits', REALS, 'at least one atom that is not a vacancy']),
 'C12': dict(
  how='`yaml_write`, `yaml_read`, `dispatch`: as C11, with the yaml library modelled as exact for the data written, and with every recognised name and format.',
  oracle='the data itself',
  bounds='2 to 4 sites, symbolic zoom, coordinates and lattice entries, names and formats in several cases and directories.',
  assume=[REALS, 'the dialect of PyYAML for nested lists of numbers and names is exact (checked by replay)']),
 'C13': dict(
  how='`roundtrip`, `copies`, `equality`, `sea`, `speckles`, `geometry`: grids with symbolic elements and basis vectors.',
  oracle='plain nested lists',
  bounds='3-dimensional sizes up to 8 points, 2-dimensional up to 6; every number of speckles.',
  assume=[REALS]),
 'C14': dict(
  how='`neighbours` queries every grid point with a symbolic distance (and symbolic basis entries).',
  oracle='squared distances between all grid points',
  bounds='sizes up to 9 points (27 thorough) and chains of 6 points; 4 bases; equality on dyadic coordinates.',
  assume=[REALS, '|d^2 - r^2| > 1e-4 unless all numbers are exact in binary']),
 'C15': dict(
  how='`walk_graph` runs the walk on a graph whose adjacency is symbolic (every edge a boolean) with symbolic random choices; `walk_lattice` on the built-in lattices; `lattice_problem` compares the neighbours of a symbolic position of a symbolic-size grid with the distances on the lattice.',
  oracle='the definition of a connected walk',
  bounds='all graphs of up to 4 vertices (5 for two steps, thorough: all), fixed graphs of 5 to 7 vertices, walks of up to 7; lattices up to 4 steps; neighbours on grids up to 5x5 and 3x3x3 (thorough 7x7, 4x4x4); second walk of the same problem.',
  assume=['the component of the start has enough sites (the walk of an exhausted component is outside)']),
 'C16': dict(
  how='`popset` applies a symbolic history to the set and to a plain list model with symbolic items; `popany` shows that every member can be returned, by asking the solver for a draw that returns it.',
  oracle='a list of distinct items',
  bounds='0 to 4 initial items, 2 to 4 operations, then draining; items are symbolic integers or pairs.',
  assume=['None is not an item (it is what popping from an empty set gives)']),
 'C17': dict(
  how='`mcts` runs the search on a tree game with symbolic priors, evaluations, rollout results and lengths, against a ledger that repeats the selection rule; `treenode` drives a node.',
  oracle='ledger of (path, evaluation); a path must be greedy in value plus bonus',
  bounds='up to 3 actions, depth 4, 5 playouts, several rounds with moves between them, two searches with one policy.',
  assume=[REALS, 'square roots are exact']),
 'C18': dict(
  how='`bucky` enumerates levels (concrete data: 60 sites) and takes an arbitrary arrangement (symbolic choice of sites) that must be related by one of the 120 operations to exactly one structure.',
  oracle='the 120 operations computed from the coordinates of the truncated icosahedron',
  bounds='0 to 3 (thorough 4) and 57 to 60 substitutions, level orders, repeated use.',
  assume=[XX]),
 'C19': dict(
  how='`element_number` with a symbolic atomic number, `element_symbol` with an arbitrary symbol of the table.',
  oracle='a table of the periodic system written out in the harness',
  bounds='numbers -5..130 (-300..1000 thorough), all symbols of the table and some outside.',
  assume=[]),
 'C20': dict(
  how='`occupation`, `suplat`, `supcell`, `pcell`, `atclear`, `perturb` run the click commands through the real option definitions with symbolic thresholds, counts and random suffixes in a scratch directory, then read every file with an independent reader.',
  oracle='the classes that meet the options, from C01/C24 and C07 definitions; files matched one to one',
  bounds='about 20 catalogue cells of up to 8 sites (16 thorough), 1 to 3 restrictions with symbolic thresholds, up to 3 coinciding random suffixes, 1 to 3 runs, every output format, refinement on and off, zoom, defaults.',
  assume=[SPG, XX, REALS, 'files and directories behave as on a local file system with no concurrent writer']),
 'C21': dict(
  how='`nodup` and `disjunct`: grids with symbolic species and symbolic placement of speckles.',
  oracle='the symmetry of the empty periodic grid; squared distances over images',
  bounds='6 named lattices for the enumeration, 11 for the disjunct test; sizes up to 9 points (12 thorough); all placements.',
  assume=[SPG, REALS]),
 'C22': dict(
  how='`spgroup_symbol`: the space-group symbol returned by the library is a symbolic choice of the 230 and the list of allowed numbers is symbolic. `spgroup_cell`: real geometry of catalogue crystals whose group is known.',
  oracle='the table of the 230 groups',
  bounds='all 230 groups, lists of 0 to 3 numbers (6 and 12 for some groups), 30 crystals.',
  assume=['the library determines the group correctly']),
 'C23': dict(
  how='`convert` runs each conversion with symbolic elements; the library model returns converted sites in a symbolic order and origin.',
  oracle='composition, volume per atom, species-resolved squared distances up to a cutoff, the number of atoms from the pure translations',
  bounds='28 crystals, 20 occupations of supercells, shifted origins, repeated use.',
  assume=[SPG, REALS]),
}
