#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one table below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, qtext, why, files, mech, built=True):
    assert len(title) <= 80, (id, len(title))
    P.append((dict(id=id, title=title, statement=statement,
                   quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                   anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech])), built))


prop('C01', 'Fixed-count substitution lists every symmetry class exactly once',
     'Given a crystal, a selection of its sites (all sites of one element, all sites of one Wyckoff letter, or all sites), a new species and a number n, the non-duplicate generators yield only structures in which exactly n selected sites carry the new species and everything else is unchanged. Every such structure is related by a symmetry operation of the initial crystal to exactly one yielded structure. The initial crystal is left unchanged, and enumerations made with the same generator object, one after the other or interleaved, do not affect one another.',
     ['inputs'], 'all crystals of the catalogue, all elements, selections, counts and arrangements',
     'The tests compare a few counts on one or two crystals; a lost or doubled class for other elements, site selections or crystals goes unseen.',
     ['ababe/stru/sogen.py', 'ababe/stru/scaffold.py'],
     [('OccupyGenerator.gen_nodup, gen_nodup_of_ele, gen_nodup_unitary', 'ababe/stru/sogen.py'), ('GeneralCell site permutations and cell identity', 'ababe/stru/scaffold.py')])

prop('C02', 'Level-by-level substitution is complete in every order of drawing',
     'The level-wise generators yield one generator for every number of atoms of the new species, from one more than the crystal already has up to the given maximum. Each level holds exactly one structure of every symmetry class of arrangements that replace that many further selected sites (one element, one Wyckoff letter, or all sites), the rest unchanged. This does not depend on the order in which levels are opened and structures are drawn, nor on other enumerations made with the same generator object.',
     ['inputs', 'histories'], 'all crystals of the catalogue, elements, selections and maxima; all interleavings of opening and drawing',
     'The tests draw the levels in one order and compare counts.',
     ['ababe/stru/sogen.py'],
     [('OccupyGenerator.all_speckle_gen, all_speckle_gen_of_ele, all_speckle_gen_unitary', 'ababe/stru/sogen.py')])

prop('C24', 'Two-species substitution lists every symmetry class exactly once',
     'Given a crystal, an optional target element, and counts n1 and n2 of two new species, the generator yields only structures in which exactly n1 and n2 of the target sites (all sites if no target is given) carry the new species and everything else is unchanged. Every such structure is related by a symmetry operation of the initial crystal to exactly one yielded structure. Enumerations made with the same generator object do not affect one another.',
     ['inputs'], 'all crystals of the catalogue, species, counts and arrangements',
     'The tests check a couple of counts for one crystal.',
     ['ababe/stru/sogen.py'],
     [('OccupyGenerator.gen_nodup_trinary_alloy', 'ababe/stru/sogen.py')])

prop('C25', 'The duplicate filter keeps one structure of each class of any stream',
     'For any stream of occupations of one crystal, the duplicate filter yields structures of the stream in stream order, never two that a symmetry operation of the crystal relates, and drops only structures related to one it has yielded before. Streams filtered with the same generator object, one after the other or interleaved, do not affect one another. The equivalence test of two occupations is true exactly when a symmetry operation of the crystal carries one onto the other.',
     ['inputs', 'histories'], 'all streams of occupations with arbitrary elements, up to the bound on their length',
     'The tests only filter the streams the generators produce.',
     ['ababe/stru/sogen.py'],
     [('OccupyGenerator.gen_2nodup_gen, is_equivalent', 'ababe/stru/sogen.py')])

prop('C28', 'Plain and one-step substitution list every arrangement once',
     'The plain generators of a crystal (all sites, sites of one element, sites of one Wyckoff letter) yield, for a new species and a number n, exactly one structure for every choice of n of the selected sites, with these sites replaced and the rest unchanged. The one-step generators yield, for any stream of occupations of the crystal, every occupation that arises from one of them by replacing one more selected site, and nothing else, each exactly once. The same holds for the one-step generator of the buckyball. The crystal and the structures of the stream stay as they are, and repeated or interleaved use does not matter.',
     ['inputs', 'histories'], 'all elements, all choices of sites, all streams of occupations up to the bound on their length',
     'The tests count the structures of a few crystals; they never feed a stream of arbitrary occupations to the one-step generators.',
     ['ababe/stru/sogen.py', 'ababe/stru/buckyball.py'],
     [('OccupyGenerator.gen_dup*, gen_add_one_speckle*', 'ababe/stru/sogen.py'), ('Structure.add_one_speckle_generator, help_add_one_speckle', 'ababe/stru/buckyball.py')])

prop('C26', 'Comparing two grid structures up to symmetry is exact',
     'Two structures of one basis and grid size are judged equal for a list of operations exactly when one of the listed operations carries the one structure onto the other, site by site and element by element: whatever the elements, the order of the operations, the size of the grid (as long as three decimals tell its points apart), the lattice vectors added to their translations and rounding noise in them. The structures stay as they are.',
     ['inputs'], 'all occupations of the grid, all subsets of the operations of the grid, all lattice translations',
     'The tests only compare identifiers of one hand-made structure; two structures that differ on one site, or operations beyond the identity, are never compared.',
     ['ababe/stru/sogen.py'],
     [('is_stru_equal, _get_id_seq', 'ababe/stru/sogen.py')])

prop('C27', 'A crystal answers for the atoms it now holds',
     'Whatever a crystal is asked about itself fits its lattice, sites and elements: the number of its atoms and of those of an element, its formula (elements by atomic number with counts, vacancies left out), cartesian coordinates of all atoms or those of an element, its identity, the cell it hands to the symmetry library, its symmetry operations, site permutations, space group and Wyckoff letters (one per site, the same for equivalent sites) at its own tolerance, and whether it is primitive. After its elements are replaced by others, every answer is that of a crystal built with the new elements. Converting fractional to cartesian coordinates and back returns them.',
     ['inputs', 'histories'], 'all elements before and after, all positions and tolerances within the bound',
     'The tests ask a handful of fixed cells, none with vacancies, off-diagonal bases and free coordinates together, and never replace the elements of a cell.',
     ['ababe/stru/scaffold.py'],
     [('GeneralCell accessors and symmetry queries', 'ababe/stru/scaffold.py'), ('numbers setter', 'ababe/stru/scaffold.py')])

prop('C03', 'The site permutations of a crystal are exactly its symmetry',
     'The permutation table of a crystal contains, for every symmetry operation, the permutation of the listed sites that this operation performs, and nothing else: each row is a permutation that maps sites to sites of the same element. This holds for every choice of origin, including sites on the cell boundary or on a rounding boundary, and for symmetry translations that carry numerical noise within the symmetry tolerance.',
     ['inputs', 'configurations'], 'all crystals, origins, orders of operations and translation noise up to the tolerance',
     'The tests look at tables of two crystals with convenient coordinates; they never place a site on a rounding boundary or perturb the reported translations.',
     ['ababe/stru/scaffold.py'],
     [('GeneralCell.get_symmetry_permutation', 'ababe/stru/scaffold.py')])

prop('C04', 'Crystal identity ignores how the sites are listed',
     'A crystal cell keeps all the sites it is given with their elements. Its identity and its list of elements are the same for every order in which the sites are given, for every lattice translation of individual sites, and for coordinate noise well below the working precision of 0.001 around coordinates of three decimals, at the cell boundary too. Two occupations of the same sites have the same identity only if they put the same element on every site.',
     ['inputs'], 'all sets of sites resolved to the working precision, all orders, all lattice translations, all pairs of occupations',
     'The tests compare a few hand-made listings; the property quantifies over all orders, translations and occupations.',
     ['ababe/stru/scaffold.py'],
     [('GeneralCell construction, sorting of sites and id', 'ababe/stru/scaffold.py')])

prop('C05', 'A supercell is the unit cell repeated',
     'The supercell of a crystal for a Hermite scaling matrix has the scaled lattice, exactly determinant-many copies of every unit-cell site, and every one of its sites is a lattice translate of a unit-cell site with the same element. No two sites of the supercell coincide.',
     ['inputs'], 'all site positions and elements, all Hermite scaling matrices within the bound',
     'The tests compare one or two supercells; tiling must hold for every matrix and every position of the sites.',
     ['ababe/stru/scaffold.py', 'ababe/stru/grid.py'],
     [('GeneralCell.supercell, get_frac_from_mat', 'ababe/stru/scaffold.py'), ('SuperLatticeCell.to_general_cell', 'ababe/stru/grid.py')])

prop('C06', 'Superlattice enumeration finds every inequivalent superlattice once',
     'For a crystal and a volume n, every superlattice of index n is related by a symmetry of the crystal to exactly one superlattice of the enumeration (in the two-dimensional mode: every superlattice that leaves the third axis alone). Two superlattice descriptions compare equal exactly when a symmetry of the crystal carries one onto the other.',
     ['inputs'], 'all superlattices (Hermite forms) of index n of each crystal; all pairs of superlattices',
     'The tests compare counts of a few crystals; a wrong merge and a wrong split can cancel and other symmetries are never run.',
     ['ababe/stru/grid.py'],
     [('SuperLatticeCell.__eq__', 'ababe/stru/grid.py'), ('SuperLatticeGenerator, SuperLatticeGenerator2D', 'ababe/stru/grid.py')])

prop('C07', 'The minimum-distance restriction is exact and periodic',
     'A structure satisfies a minimum-distance restriction for an element exactly when any two different atoms of that element, including an atom and its own or another atom\'s periodic images in adjacent cells, are farther apart than the threshold. A structure with no atom of that element satisfies it.',
     ['inputs'], 'all positions of the atoms, all elements and thresholds, several lattice shapes',
     'The tests use two structures with fixed coordinates; distances across each cell face, edge and corner and skew lattices are not sampled.',
     ['ababe/stru/restriction.py', 'ababe/stru/scaffold.py'],
     [('MinDistanceRestriction', 'ababe/stru/restriction.py'), ('distance computation', 'ababe/stru/scaffold.py')])

prop('C08', 'Clarifiers remove exactly the sites within the radius',
     'Clarifying a modifiable cell removes exactly the sites of the chosen element (of any element if none is chosen) that lie closer than the given cartesian distance to one of the given centres, or, in the element-centred variant, to any site of a given centre element; periodic images in adjacent cells count. All other sites keep element, position and order. A cell that is not modifiable is refused and left alone. Asked for the sites of one element, or of all, within a distance of a centre, a modifiable cell names exactly those, by index.',
     ['inputs'], 'all positions, elements, centres and radii, several lattice shapes',
     'The tests clarify two fixed cells; sites close to a cell face, skew lattices and consecutive removals are not sampled.',
     ['ababe/stru/clarifier.py', 'ababe/stru/scaffold.py'],
     [('Clarifier classes', 'ababe/stru/clarifier.py'), ('ModifiedCell', 'ababe/stru/scaffold.py')])

prop('C09', 'A modifiable cell behaves as a list of sites under every edit history',
     'After any sequence of appending, inserting, replacing, popping, removing, substituting and copying, a modifiable cell holds exactly the sites an ordinary list would hold, in order, through iteration, indexing, looking up, length, positions and elements; a site is found exactly when position and element agree; edits of a copy never show in the original. Cells are equal exactly when lattice, positions and elements agree. Converting between fixed and modifiable cells keeps every site and does not alter the source.',
     ['histories', 'inputs'], 'all edit sequences up to the bound, all indices and site contents',
     'The tests run single edits; the property quantifies over sequences of edits and copies.',
     ['ababe/stru/scaffold.py', 'ababe/stru/site.py'],
     [('ModifiedCell', 'ababe/stru/scaffold.py'), ('Site', 'ababe/stru/site.py')])

prop('C10', 'Perturbation displaces every atom by exactly the requested distance',
     'Perturbing a modifiable cell moves every site by exactly the requested cartesian distance, in whatever direction is drawn, and moving one site by a given vector displaces it by exactly that vector. Elements, number and order of sites, and the lattice stay.',
     ['inputs'], 'all lattices of the catalogue, all positions, distances and drawn directions (a zero draw included)',
     'The tests draw a few random directions on one cell.',
     ['ababe/stru/scaffold.py'], [('ModifiedCell.perturb', 'ababe/stru/scaffold.py')])

prop('C11', 'POSCAR files keep the crystal',
     'Writing a crystal as POSCAR (direct or cartesian) and reading it back gives the same lattice, and the same sites with the same elements up to the printed and rounded precision of the coordinates; vacancies are dropped. Reading honours the scale factor (a negative one is the cell volume), symbols paired with their counts even when a symbol occurs twice, and direct or cartesian coordinates. Atoms are listed by element in the order of the symbol line.',
     ['inputs'], 'all coordinates, element assignments, scale factors and both coordinate modes',
     'The tests write a fixed crystal and compare text; reading back other lattices, orders of elements, scale factors or cartesian files is not covered.',
     ['ababe/io/vasp.py', 'ababe/stru/io.py', 'ababe/io/io.py'],
     [('VaspInput, VaspOutput', 'ababe/io/vasp.py'), ('VaspPOSCAR', 'ababe/stru/io.py')])

prop('C12', 'YAML files keep the crystal and the file format follows the name',
     'Writing a crystal as YAML and reading it back gives the same lattice, sites and elements, vacancies included, up to the rounding of the coordinates; the zoom factor of the file scales the lattice. Reading and writing through the general file interface picks the format from the requested format or the file name (.yaml, .vasp, POSCAR), and prints the text when no file name is given.',
     ['inputs', 'configurations'], 'all coordinates, element assignments, zoom factors, recognised file names and formats',
     'The tests round-trip one crystal.',
     ['ababe/io/yaml.py', 'ababe/io/io.py', 'ababe/stru/io.py'],
     [('YamlInput, YamlOutput', 'ababe/io/yaml.py'), ('GeneralIO', 'ababe/io/io.py')])

prop('C13', 'Grid structures: arrays, copies and geometry are faithful',
     'A grid made from an array of atomic numbers gives that array back and holds each element at its site; a sea holds one element everywhere; assignment changes exactly one site and never shows in a deep copy or another grid; grids and structures are equal exactly when basis and all sites agree. Grid point (i,j,k) of a structure sits at i*a+j*b+k*c of the repeated basis, with the element its grid now holds. The speckle generators list every arrangement with the requested number of speckles exactly once, in grids that share nothing.',
     ['inputs', 'histories'], 'all array contents and elements, sizes within the bound, all basis vectors',
     'The tests use a handful of fixed arrays.',
     ['ababe/stru/scaffold.py', 'ababe/stru/scaffold2d.py'],
     [('SitesGrid, CStru', 'ababe/stru/scaffold.py'), ('SitesGrid2d, CStru2d', 'ababe/stru/scaffold2d.py')])

prop('C14', 'Neighbour queries return exactly the points within the distance',
     'The neighbours of a grid point of a structure within a distance are exactly the other grid points whose cartesian distance from it inside the grid, without periodic images, is at most that distance.',
     ['inputs'], 'all grid points, distances and basis vectors, sizes within the bound',
     'The tests query one point of one cubic grid.',
     ['ababe/stru/scaffold.py', 'ababe/stru/scaffold2d.py'], [('get_neighbors', 'ababe/stru/scaffold.py')])

prop('C15', 'Random walks visit distinct connected sites',
     'A random walk of an arrangement problem returns the requested number of different sites, begins at the start site, and every later site is a neighbour of an earlier one, whatever the random choices and whatever the neighbour relation; the built-in two- and three-dimensional lattice problems start in the middle of their grid, stay on it, and take as neighbours of a site exactly the other grid points within the neighbour distance 2.1 (triangular lattice of spacing 2; face-centred cubic lattice of unit cell edge 1). A problem that lacks one of its operations ends the run with an error that names it.',
     ['inputs', 'histories'], 'all neighbour graphs within the bound with a sufficiently large component, all random choices',
     'There is no test of the walks beyond construction.',
     ['ababe/mlearn/arrange.py', 'ababe/mlearn/arrangeAgent.py', 'ababe/mlearn/dsutils.py'],
     [('random_walk_arrange', 'ababe/mlearn/arrange.py'), ('Boron2dArrangeProblem, FCC3dArrangeProblem', 'ababe/mlearn/arrangeAgent.py'), ('random-pop set frontier', 'ababe/mlearn/dsutils.py')])

prop('C16', 'A random-pop set is a set under every history',
     'For every sequence of additions, removals, unions and random pops, the random-pop set contains exactly the members an ordinary set would: its size, membership and iteration agree, a popped item was a member and no longer is, removing an absent item raises an error, and popping from an empty set gives nothing. Draining it by random pops yields every member exactly once, and every member can be the one a pop or draw returns.',
     ['histories', 'inputs'], 'all operation sequences up to the bound, all item values and random choices',
     'No stable test exercises sequences of operations on it.',
     ['ababe/mlearn/dsutils.py'], [('random-pop set', 'ababe/mlearn/dsutils.py')])

prop('C17', 'Tree-search statistics equal the ledger of its playouts',
     'Each playout of the tree search descends by the greatest value plus exploration bonus, evaluates its leaf by the requested mixture of value function and rollout result, and adds that same evaluation to every node on its path, so that the value of a node is the mean of the evaluations made below it. The search runs the requested number of playouts within the depth limit, never alters the caller\'s state, and returns the most visited action.',
     ['inputs', 'histories'], 'all priors, evaluations, rollout outcomes and game lengths within the bound',
     'There is no test of the tree search.',
     ['ababe/mlearn/mcts.py'], [('TreeNode, MCTS', 'ababe/mlearn/mcts.py')])

prop('C18', 'Buckyball structures: one per class under icosahedral symmetry',
     'Starting from the pure carbon cage, the level-wise buckyball generator yields, for every number of substituted atoms up to the maximum, structures of 60 sites with exactly that number of substitutions, the rest carbon, such that every arrangement is related by one of the 120 symmetry operations of the cage to exactly one of them; the order in which the levels are drawn, and earlier or simultaneous enumerations, do not matter. The plain generator lists every arrangement with a given number of substitutions once, and its duplicate filter keeps one per class.',
     ['inputs'], 'all arrangements with a given number of substitutions',
     'The tests compare identifiers and counts for one or two substitutions.',
     ['ababe/stru/buckyball.py'], [('Structure and generators', 'ababe/stru/buckyball.py')])

prop('C19', 'Elements and atomic numbers correspond one to one',
     'For every atomic number of the table (0 to 56 and 72 to 88), the element made from the number has that number, its symbol is the symbol of the periodic table, and the symbol leads back to the number; elements are equal exactly when their symbols are, and never equal to anything else; every element carries its atomic mass. The ghost element is the vacancy with number 0 and symbol G; symbols or numbers outside the table are errors.',
     ['inputs'], 'all atomic numbers and symbols',
     'The tests look at a few elements.',
     ['ababe/stru/element.py', 'ababe/stru/pt.json'], [('Specie, GhostSpecie', 'ababe/stru/element.py')])

prop('C20', 'Command-line runs write exactly the accepted structures',
     'Each occupation command (ocumaker, ocubiter, ocutenter, ocumakert) writes, into one new directory per run, one readable structure file for every symmetry-distinct structure that meets its options (numbers of substituted atoms, primitivity, and every distance restriction given) and no other; only sites of the target element are substituted. The superlattice command writes one file per inequivalent superlattice. No file of a run overwrites another, even if random suffixes repeat, and directories of earlier occupation runs stay intact. The clarifying, perturbing, supercell and primitive-cell commands write or print exactly the one modified structure. Format, refinement, zoom and defaults follow the options.',
     ['inputs', 'configurations', 'histories'], 'all input structures of the catalogue, options, thresholds, random suffixes and repeated runs',
     'The tests only check the parsing of the commands; the produced files are not examined.',
     ['ababe/cmdline/apps/occupymaker.py', 'ababe/cmdline/apps/occupybiter.py', 'ababe/cmdline/apps/occupytenter.py', 'ababe/cmdline/apps/occupymakert.py', 'ababe/cmdline/apps/superlattice.py', 'ababe/cmdline/apps/atomclarifier.py', 'ababe/cmdline/apps/atomperturb.py', 'ababe/cmdline/runabalib.py', 'ababe/cmdline/runatilib.py'],
     [('App.run', 'ababe/cmdline/apps'), ('options of the commands', 'ababe/cmdline/runabalib.py, ababe/cmdline/runatilib.py')])

prop('C21', 'Grid structures: one per class, and the disjoint-speckle test is exact',
     'The grid generator yields, for a named lattice, size and number of speckles, structures with exactly that number of speckles such that every arrangement on the periodic grid is related by a symmetry of the empty grid to exactly one of them. The disjoint-speckle test accepts a structure exactly when no two of its speckles, periodic images included, are within 1.01 of each other.',
     ['inputs'], 'all arrangements on grids within the bound, all species; all speckle placements',
     'The tests compare a few counts.',
     ['ababe/stru/sogen.py', 'ababe/stru/scaffold.py'],
     [('gen_nodup_cstru, get_permutation_cell, lat_dict', 'ababe/stru/sogen.py'), ('is_speckle_disjunct', 'ababe/stru/sogen.py')])

prop('C22', 'The space-group restriction accepts exactly the listed groups',
     'A structure satisfies a space-group restriction exactly when the international number of its space group is in the list of allowed numbers, for every one of the 230 groups whatever its symbol looks like.',
     ['inputs', 'configurations'], 'all 230 space groups with their symbols, all lists of allowed numbers',
     'The tests check one structure.',
     ['ababe/stru/restriction.py', 'ababe/stru/scaffold.py'], [('SpaceGroupRestriction', 'ababe/stru/restriction.py')])

prop('C23', 'Cell conversions keep the crystal',
     'The refined primitive cell, the refined conventional cell and the reshaped cell obtained from a crystal describe the same crystal: the same composition, the same volume per atom and the same species-resolved distances. The primitive cell has the smallest number of atoms, the conventional cell holds one primitive cell per point of the centred lattice, the reshaped cell keeps the number of atoms, and a cell is called primitive exactly when no smaller translation repeats it. The crystal itself is left unchanged.',
     ['inputs', 'configurations'], 'all crystals of the catalogue, elements, and orders in which the converted sites are reported',
     'The tests convert one or two crystals.',
     ['ababe/stru/scaffold.py'], [('get_refined_cell, get_refined_pcell, get_shaped_cell, is_primitive', 'ababe/stru/scaffold.py')])

TECH = 'bounded symbolic execution of the package\'s own sources with z3, counterexamples replayed on the real package'
NOTE = ('Within the stated bounds every path of the real source is executed symbolically and the assertion is decided by z3 '
        'for all remaining values; real arithmetic stands for floats (margins around comparisons), numpy and spglib are '
        'modelled by the engine and validated per path against the real libraries. ')


def main():
    P.sort(key=lambda x: x[0]['id'])
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p, _ in P:
            f.write(json.dumps(p) + '\n')
    checks, na = [], []
    for p, built in P:
        i = p['id']
        if not built:
            na.append({'property': i, 'reason': 'check not built yet'})
            continue
        checks.append({'property': i,
                       'quick_cmd': 'cd /verif && python3-vt -m engine.run %s --tier quick' % i,
                       'thorough_cmd': 'cd /verif && python3-vt -m engine.run %s --tier thorough' % i,
                       'technique': TECH, 'level': 'model_checking',
                       'level_note': NOTE + 'Bounds and assumptions: DESIGN.md, section %s.' % i})
    m = {'version': 1, 'setup_cmd': 'cd /verif && python3-vt -c "import z3, numpy" && /opt/pvenv/bin/python -c "import numpy, spglib"',
         'checks': checks, 'not_applicable': na,
         'notes': 'No hooks are used: the engine loads the sources of /repo directly.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')

    design()


MISSED = dict(l.split(': ', 1) for l in """\
filter-skips-identity: streams that contain a structure twice were added
hnf-coarse-rounding: larger indices were added
id-fine-rounding: noise and cell boundary were added
perm-loose-symprec: cells symmetric only to a few hundredths were added
trinary-ordered: more than one site of each new species, low symmetry
neighbours-tolerance: distances met exactly in binary were added
levels-seen-kept: repeated enumerations were added
poscar-left-handed: left-handed lattices with a negative scale were added
disjunct-open-axis: grids that connect along one axis only were added
equivalent-part: operations in the order of the library, 384 of them
id-32-bit: digests that are cut short were modelled with their collisions
stru-equal-192: one operation behind 400 others was added""".split('\n'))


def design():
    import sys
    sys.path.insert(0, HERE)
    from harness.notes import NOTES
    rd = lambda f: open(os.path.join(HERE, 'tools', f)).read()
    out = [rd('design_head.md'), '## 3. The properties\n\n']
    for p, built in P:
        n = NOTES[p['id']]
        out.append('### %s. %s\n\n%s\n\n' % (p['id'], p['title'], p['statement']))
        out.append('- **Decided by**: %s\n' % n['how'])
        out.append('- **Oracle**: %s.\n' % n['oracle'].rstrip('.'))
        out.append('- **Bounds**: %s\n' % n['bounds'])
        if n['assume']:
            out.append('- **Assumed**: %s.\n' % '; '.join(n['assume']))
        out.append('- **Why tests cannot**: %s\n' % p['why_tests_cant'])
        out.append('- **Anchors**: %s\n\n' % '; '.join('%s (%s)' % (m['name'], m['where']) for m in p['anchors']['mechanism']))
    out.append(rd('design_tail.md'))
    out.append('## 8. Planted changes\n\nEach is confirmed in a scratch copy (`tools/plant.py`): the tests pass, the demonstration '
               'fails with it and passes without it. All are caught by the quick check of their property; "first missed" says what was '
               'added to the check for those it did not catch at first.\n\n'
               '| change | property | needs | first missed |\n|---|---|---|---|\n')
    sd = os.path.join(HERE, 'seeded')
    for d in sorted(os.listdir(sd)):
        m = json.load(open(os.path.join(sd, d, 'meta.json')))
        out.append('| %s | %s | %s | %s |\n' % (d, m['property'], m['needs'].replace('|', '/').replace('\n', ' '), MISSED.get(d, '')))
    with open(os.path.join(HERE, 'DESIGN.md'), 'w') as f:
        f.write(''.join(out))


main()
