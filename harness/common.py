from __future__ import division
from engine import geom
from harness import cells


def atoms(ctx, labels, lo=0, hi=88, prefix='Z'):
    """distinct symbolic atomic numbers for the labels in use"""
    z = {}
    for l in sorted(set(labels)):
        v = ctx.int('%s_%s' % (prefix, l), lo, hi)
        for o in z.values():
            ctx.assume(o != v)
        z[l] = v
    return z


_gcache = {}


def group(name):
    """permutations of the site list of a catalogue cell induced by its
    symmetry operations (site i is carried onto site p[i])"""
    g = _gcache.get(name)
    if g is None:
        lat, pos, lab = cells.get(name)
        ops = geom.symmetry_ops(lat, pos, lambda i, j: lab[i] == lab[j])
        g = _gcache[name] = sorted(set(tuple(o[2]) for o in ops))
    return g


def make_cell(ctx, name, z):
    lat, pos, lab = cells.get(name)
    one = cells.ONE_LETTER.get(name)
    if one:
        ctx.hooks['wyckoff'] = lambda eq: [one] * len(eq)
    return ctx.GeneralCell(lat, pos, [z[l] for l in lab])


def site_map(pos, cell):
    """index into the catalogue site list for every site of a cell with the
    same (concrete) positions; None when some site does not match"""
    out = []
    for p in cell.positions.tolist():
        hit = [k for k, q in enumerate(pos) if geom.same_site(p, q)]
        if len(hit) != 1:
            return None
        out.append(hit[0])
    return out if sorted(out) == list(range(len(pos))) else None


def same_lattice(a, b, tol=1e-6):
    return all(abs(float(x) - float(y)) <= tol for r, s in zip(a, b) for x, y in zip(r, s))
