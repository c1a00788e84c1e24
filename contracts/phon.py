"""Contracts of the phonopy library as it is used here: every result is a function of the crystal, the force constants and the
arguments of the calculation."""
from contracts.world import *
from dpv.deductive.terms import Poly

PL = 'dynaphopy.interface.phonopy_link.'
PH = PL + 'PhonopyLegacy'
FC = PL + 'ForceConstants'
ND = size('ND')          # points of a density of states
NBR = size('NBR')        # branches


def new_dict(I, d):
    return DictRef(I.new(d))


def ident(I, v):
    """Text that is equal for equal values."""
    if v is None or isinstance(v, (str, bool)):
        return repr(v)
    if isinstance(v, Obj):
        return 'object%s' % v.cid
    if isinstance(v, (int, float)):
        return P(v).key
    if isinstance(v, Poly):
        return v.key
    if isinstance(v, (Ref, ListRef, tuple)):
        try:
            a = I.arr(v)
            return '%s:%s' % ([P(s).key for s in a.shape], T.resolve(a.expr).key)
        except (Undecided, PyExc):
            return repr(I.freeze(v))
    if isinstance(v, Opaque):
        return v.name
    raise Undecided('argument %r' % (v,))


def number(v, none=-1000):
    return P(none) if v is None else P(v)


def phonon(I, structure, NAC=False, setup_forces=True, custom_supercell=None, symprec=None):
    """Contract of get_phonon, discharged below: the harmonic force constants only when they are asked for."""
    if not (isinstance(structure, Obj) and structure.cid == I.w.structure.cid):
        raise Undecided('phonons of another structure')
    return made(I, setup_forces, custom_supercell, NAC)


def made(I, setup_forces, custom_supercell, NAC):
    sup = I.w.psup if custom_supercell is None else custom_supercell
    return I.new_obj(PH, {'force_constants': I.w.hfc if setup_forces else None, '$key': (ident(I, sup), ident(I, NAC)), '$mesh': None,
                          '$open': True})


def forces(I, o):
    f = I.field(o, 'force_constants')
    if f is None:
        raise PyExc('RuntimeError', 'no force constants')
    return ident(I, f)


def key(I, o, *more):
    return '{%s}' % '|'.join((forces(I, o),) + I.field(o, '$key') + more)


def mesh_key(mesh, **kw):
    return 'mesh ' + ' '.join(str(x) for x in [mesh] + ['%s=%s' % k for k in sorted(kw.items())])


def run_mesh(I, self, mesh=P(100), shift=None, is_time_reversal=True, is_mesh_symmetry=True, with_eigenvectors=False, **kw):
    if kw or shift is not None:
        raise Undecided('mesh options')
    I.set_field(self, '$mesh', (ident(I, mesh), bool(is_mesh_symmetry), bool(with_eigenvectors)))


def run_total_dos(I, self, sigma=None, freq_min=None, freq_max=None, freq_pitch=None, use_tetrahedron_method=True):
    m = I.field(self, '$mesh')
    if m is None:
        raise PyExc('RuntimeError', 'no mesh')
    I.set_field(self, '$dos', (key(I, self, m[0], ident(I, sigma), ident(I, use_tetrahedron_method)), [number(x) for x in (freq_min, freq_max, freq_pitch)]))


def axis(name, k, args):
    return T.app('%s%s' % (name, k), [D(0)] + args)


def total_dos(I, self):
    k, args = I.field(self, '$dos')
    return new_dict(I, {'frequency_points': I.mk(Arr((ND,), axis('f', k, args))), 'total_dos': I.mk(Arr((ND,), axis('dos', k, args)))})


def run_projected_dos(I, self, sigma=None, freq_min=None, freq_max=None, freq_pitch=None, use_tetrahedron_method=True, direction=None, xyz_projection=False):
    m = I.field(self, '$mesh')
    if m is None or not m[2] or m[1]:
        raise PyExc('RuntimeError', 'mesh without eigenvectors or with symmetry')
    if direction is not None or xyz_projection:
        raise Undecided('direction')
    I.set_field(self, '$pdos', (key(I, self, m[0], ident(I, sigma), ident(I, use_tetrahedron_method)), [number(x) for x in (freq_min, freq_max, freq_pitch)]))


def projected_dos(I, self):
    k, args = I.field(self, '$pdos')
    return new_dict(I, {'frequency_points': I.mk(Arr((ND,), axis('f', k, args))),
                       'projected_dos': I.mk(Arr((A, ND), T.app('pdos' + k, [D(0), D(1)] + args)))})


def run_thermal(I, self, t_min=P(0), t_max=P(1000), t_step=P(10), temperatures=None, **kw):
    if kw:
        raise Undecided('options of the thermal properties')
    m = I.field(self, '$mesh')
    if m is None:
        raise PyExc('RuntimeError', 'no mesh')
    if temperatures is not None:
        t = I.arr(temperatures)
    else:
        if not T.equal(P(t_min), P(t_max))[0] == 'equal':
            raise Undecided('a range of temperatures')
        t = Arr((P(1),), P(t_min))
    I.set_field(self, '$thermal', (key(I, self, m[0]), t))


def thermal(I, self):
    k, t = I.field(self, '$thermal')
    one = lambda n: I.mk(Arr(t.shape, T.app(n + k, [t.expr])))
    return new_dict(I, {'temperatures': I.mk(t), 'free_energy': one('F'), 'entropy': one('entropy'), 'heat_capacity': one('Cv')})


def run_bands(I, self, paths, with_eigenvectors=False, is_band_connection=False, **kw):
    if {k for k, v in kw.items() if v is not False and v is not None}:
        raise Undecided('options of the bands')
    I.set_field(self, '$bands', (key(I, self, ident(I, is_band_connection)), paths))


def bands(I, self):
    k, paths = I.field(self, '$bands')
    c = I.freeze(paths)
    out = {'qpoints': [], 'distances': [], 'frequencies': [], 'eigenvectors': []}
    I.w.paths = paths
    for j in range(len(I.items(paths))):
        p = I.arr(I.items(paths)[j])
        n = p.shape[0]
        q = [p.at(D(0), P(x)) for x in range(3)]
        out['qpoints'].append(I.mk(p))
        out['distances'].append(I.mk(Arr((n,), T.app('distance' + k, [P(j), D(0)]))))
        out['frequencies'].append(I.mk(Arr((n, NBR), T.app('w' + k, [D(1)] + q))))
        out['eigenvectors'].append(I.mk(Arr((n, NBR, NBR), T.app('ev' + k, [D(1), D(2)] + q, 'c'))))
    return new_dict(I, {n: I.new_list(v) for n, v in out.items()})


def contracts(**extra):
    c = structure_contracts(**{
        PH + '.run_mesh': run_mesh, PH + '.run_total_dos': run_total_dos, PH + '.get_total_dos_dict': total_dos,
        PH + '.run_projected_dos': run_projected_dos, PH + '.get_projected_dos_dict': projected_dos,
        PH + '.run_thermal_properties': run_thermal, PH + '.get_thermal_properties_dict': thermal,
        PH + '.run_band_structure': run_bands, PH + '.get_band_structure_dict': bands,
        PL + 'get_phonon': phonon})
    c.update(extra)
    return c


class PWorld(World):
    def __init__(self, I, dim=P(3)):
        World.__init__(self, I, dim)
        self.psup = I.mk(arr('psup', (3, 3), 'i'))           # the supercell of the structure's force constants
        self.hfc = I.mk(arr('hfc', (size('NF0'), size('NF0'), 3, 3)))
        self.gsup = I.mk(arr('gsup', (3, 3), 'i'))
        self.garr = I.mk(arr('gfc', (size('NF1'), size('NF1'), 3, 3)))

    def given(self, I):
        return I.construct(FC, I.class_info(FC), [self.garr], {'supercell': self.gsup})


def reference(I, given, NAC=False):
    """A phonon calculation with the harmonic or with given force constants."""
    o = made(I, not given, I.w.gsup if given else None, NAC)
    if given:
        I.set_field(o, 'force_constants', I.w.garr)
    return o
