"""Symbols and contracts shared by the properties: an arbitrary crystal, its MD supercell and a trajectory of it."""
from dpv.deductive import terms as T
from dpv.deductive.terms import P
from dpv.deductive.values import *
from dpv.deductive.sym import Interp, PyExc

STRUCT = 'dynaphopy.atoms.Structure'
DYN = 'dynaphopy.dynamics.Dynamics'
QP = 'dynaphopy.Quasiparticle'


def size(name):
    return T.var(name, 'i', nn=True)


N = size('N')            # steps
M = size('M')            # atoms of the MD cell
U = size('U')            # atoms of the unit cell
A = size('A')            # primitive atoms (types)
Dm = size('Dm')          # dimensions
SIZES = [N - 1, M - 1, A - 1, Dm - 1, U - 1]


def const(v):
    """Contract of a method or property that returns v(I)."""
    def g(I, self=None, *a, **k):
        return v(I) if callable(v) else v
    return g


def prop(v):
    g = const(v)
    g.is_property = True
    return g


def seq(I, n, f):
    """A list of symbolic length with items f(i)."""
    q = T.fresh('q')
    return ListRef(I.new(Seq((('seq', P(n), T.var_name(q), f(q)),))))


class World:
    """The shared arrays of one verification run; created before the function starts, so that the frame
    obligation covers them."""

    def __init__(self, I, dim=Dm):
        self.dim = dim
        I.w = self
        self.sup = I.mk(arr('sup', (dim,), 'i', nn=True))
        self.x = I.mk(arr('x', (M, dim)))
        self.x0 = I.mk(arr('x0', (U, dim)))
        self.cell = I.mk(arr('cell', (dim, dim)))
        self.scell = I.mk(arr('scell', (dim, dim)))
        self.prim = I.mk(arr('prim', (dim, dim)))
        self.pmat = I.mk(arr('pmat', (dim, dim)))
        self.ty = seq(I, M, lambda i: T.app('ty', [i], 'i', nn=True))
        self.ty0 = seq(I, U, lambda i: T.app('ty0', [i], 'i', nn=True))
        self.mass = seq(I, M, lambda i: T.app('mass', [i], nn=True))
        self.mass0 = seq(I, U, lambda i: T.app('mass0', [i], nn=True))
        self.structure = I.new_obj(STRUCT, {'$open': True})


def supercell_choice(I, sup, whole, unit):
    """Value of a structure method for supercell=None (unit cell) or the MD supercell sizes."""
    if sup is None:
        return getattr(I.w, unit)
    a = I.arr(sup)
    b = I.content(I.w.sup)
    if a.ndim == 1 and same_dim(a.shape[0], b.shape[0]) and a.expr == b.expr:
        return getattr(I.w, whole)
    if a.expr == T.ONE:
        return getattr(I.w, unit)
    raise Undecided('%s for another supercell: %r' % (whole, a))


def by_supercell(whole, unit):
    def g(I, self, supercell=None):
        return supercell_choice(I, supercell, whole, unit)
    return g


def structure_contracts(**extra):
    """Contracts of the structure methods (discharged under C09, C10 and C11, or bounded there)."""
    c = {STRUCT + '.get_number_of_primitive_atoms': const(A),
         STRUCT + '.get_number_of_atom_types': const(A),
         STRUCT + '.get_number_of_atoms': const(U),
         STRUCT + '.get_number_of_cell_atoms': const(U),
         STRUCT + '.get_number_of_dimensions': lambda I, self: P(I.w.dim),
         STRUCT + '.get_positions': by_supercell('x', 'x0'),
         STRUCT + '.get_atom_type_index': by_supercell('ty', 'ty0'),
         STRUCT + '.get_masses': by_supercell('mass', 'mass0'),
         STRUCT + '.get_cell': lambda I, self, supercell=None: supercell_choice(I, supercell, 'scell_', 'cell'),
         STRUCT + '.get_primitive_cell': lambda I, self: I.w.prim,
         STRUCT + '.get_primitive_matrix': lambda I, self: I.w.pmat}
    c.update(extra)
    return c


def new_dynamics(I, state=None, **kw):
    """A Dynamics object made by the real constructor; state: values of remembered fields."""
    ci = I.class_info(DYN)
    if ci is None:
        raise Undecided('class Dynamics is not defined')
    o = I.construct(DYN, ci, [], kw)
    for k, v in (state or {}).items():
        if k not in I.heap[o.cid]:
            raise Undecided('Dynamics has no field %s' % k)
        I.set_field(o, k, v)
    return o


def again(I, qual, *args):
    """Value of a second call in the state after the first one."""
    f = I.function(qual)
    return I.inline(f, list(args), {})
