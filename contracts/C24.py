"""Contracts of C24: renormalised force constants and the data at the commensurate wave vectors."""
from contracts.phon import *
from contracts import quasi
import itertools

LEVEL = 'proof'
TECHNIQUE = 'contracts on the real Python source, symbolic execution with inductive loop summaries, term normal form and z3; bounded replay on the real code'
NOTE = 'the eigenvalues and eigenvectors given to phonopy proved for every crystal, set of frequencies and eigenvectors; the commensurate data for up to three wave vectors and four modes with arbitrary values; the inverse transform of phonopy and the equivalent wave vectors are trusted or bounded'
DM = PL + 'DynmatToForceConstantsLegacy'
NQ, NB = size('NQ'), size('NB')
UNIT = T.var('VaspToTHz', nn=True)


def signs(p):
    """The absolute value as the number times its sign."""
    return T.deep(p, lambda a: a.data[1][0] * T.sign(a.data[1][0]) if a.kind == 'fun' and a.data[0] == 'abs' else None)


def obligations(E):
    f = lambda j, b: T.app('f', [P(j), P(b)])
    ev = lambda j, b, a, k: T.app('e', [P(j), P(b), P(a), P(k)], 'c')
    for symmetrize in (False, True):
        for shape in ('array', 'list'):
            def setup(I):
                w = PWorld(I)
                w.calls = []
                w.fsup = I.mk(arr('fsup', (3, 3), 'i'))
                q = T.fresh('q')
                w.f = I.mk(Arr((NQ, 3 * A), f(D(0), D(1))))
                w.ev = seq(I, NQ, lambda i: Arr((3 * A, A, P(3)), ev(i, D(0), D(1), D(2)))) if shape == 'list' else \
                    I.mk(Arr((NQ, 3 * A, A, P(3)), ev(D(0), D(1), D(2), D(3))))
                return [w.f, w.ev, w.structure, w.fsup], {'symmetrize': symmetrize}

            def dynmat(I, primitive, supercell, **kw):
                if kw:
                    raise Undecided('options of the transform')
                return I.new_obj(DM, {'$cells': (primitive, supercell), '$open': True, '$eigen': None, '$run': False})

            def old(I, self, *a):
                raise PyExc('TypeError', 'set_dynamical_matrices takes one argument')

            def create(I, self, eigenvalues, eigenvectors):
                I.set_field(self, '$eigen', (I.mk(I.arr(eigenvalues)), I.mk(I.arr(eigenvectors))))

            def run(I, self, *a):
                if I.field(self, '$eigen') is None:
                    raise PyExc('RuntimeError', 'no dynamical matrices')
                I.set_field(self, 'force_constants', I.mk(arr('back', (size('NF0'), size('NF0'), 3, 3))))
                I.w.eigen = [I.content(x) for x in I.field(self, '$eigen')]
                I.w.cells = I.field(self, '$cells')

            def symmetry(I, fc, lattice, positions, symm):
                I.w.sym = (I.content(fc), ident(I, lattice), ident(I, positions), ident(I, symm))

            def check(ob, I, o):
                w = I.w
                vals, vecs = w.eigen
                k = w.phonon
                pr, su = w.cells
                good = isinstance(pr, Opaque) and pr.name == 'primitive of ' + k and isinstance(su, Obj) and I.heap[su.cid].get('$name') == k == ident(I, w.fsup)
                ob('cells of the phonon calculation', P(1 if good else 0), P(1))
                x = f(D(0), D(1)) / UNIT
                ob('eigenvalues: squares of the frequencies, with their sign', Arr(vals.shape, signs(vals.expr)), Arr((NQ, 3 * A), x * x * T.sign(x)))
                a, kk = T.floor(D(1) / 3), D(1) - 3 * T.floor(D(1) / 3)
                ob('eigenvectors: components in the order of the atoms, modes in columns', vecs, Arr((NQ, 3 * A, 3 * A), ev(D(0), D(2), a, kk)))
                ob('force constants of the transform', I.getattr(o.value, '_force_constants'), arr('back', (size('NF0'), size('NF0'), 3, 3)))
                ob('their supercell', I.getattr(o.value, '_supercell'), I.content(w.fsup))
                if symmetrize:
                    ob('symmetrised in place with the symmetry of the supercell', P(1 if w.sym[1:] == ('cell of %s' % k, 'positions of %s' % k, 'symmetry of %s' % k) else 0), P(1))

            def calculation(I, structure, **kw):
                o = phonon(I, structure, **kw)
                k = ident(I, kw.get('custom_supercell'))
                I.w.phonon = k
                sup = I.new_obj('supercell', {'get_cell': lambda I: Opaque('cell of ' + k), 'get_scaled_positions': lambda I: Opaque('positions of ' + k),
                                              'cell': Opaque('cell of ' + k), 'scaled_positions': Opaque('positions of ' + k), '$open': True, '$name': k})
                for n, v in (('primitive', Opaque('primitive of ' + k)), ('supercell', sup), ('symmetry', Opaque('symmetry of ' + k))):
                    I.set_field(o, n, v)
                return o

            E.function('get_renormalized_force_constants, eigenvectors in %s%s' % (shape, ', symmetrised' if symmetrize else ''),
                       PL + 'get_renormalized_force_constants', setup, check,
                       contracts=contracts(**{PL + 'get_phonon': calculation, DM: dynmat, DM + '.set_dynamical_matrices': old, DM + '.create_dynamical_matrices': create,
                                              DM + '.run': run, 'phonopy.harmonic.force_constants.set_tensor_symmetry_PJ': symmetry,
                                              'phonopy.physical_units.get_physical_units': lambda I: I.new_obj('units', {'DefaultToTHz': UNIT, '$open': True}), 'phonopy.units.VaspToTHza': UNIT}), facts=SIZES + [NQ - 1])

    # ---------------------------------------------------------------- commensurate and equivalent wave vectors
    def setup(I):
        w = PWorld(I)
        w.fsup = I.mk(arr('fsup', (3, 3), 'i'))
        return [w.structure, w.fsup], {}

    def calculation_(I, structure, **kw):
        o = phonon(I, structure, **kw)
        k = ident(I, kw.get('custom_supercell'))
        I.set_field(o, 'primitive', Opaque('primitive of ' + k))
        I.set_field(o, 'supercell', Opaque('supercell of ' + k))
        return o

    def dynmat_(I, primitive, supercell, **kw):
        if kw:
            raise Undecided('options of the transform')
        return I.new_obj(DM, {'commensurate_points': I.mk(arr('points %s %s' % (primitive.name, supercell.name), (NQ, 3)))})

    def check_points(ob, I, o):
        k = ident(I, I.w.fsup)
        ob('the commensurate points of the primitive cell and the supercell', o.value, arr('points primitive of %s supercell of %s' % (k, k), (NQ, 3)))
    E.function('get_commensurate_points', PL + 'get_commensurate_points', setup, check_points, facts=SIZES,
               contracts=contracts(**{PL + 'get_phonon': calculation_, DM: dynmat_}))

    for ops in (0, 1, 2):
        def setup(I):
            w = PWorld(I)
            w.q = I.mk(arr('q', (3,)))
            w.el = seq(I, U, lambda i: T.app('element', [i], 'i'))
            w.scaled = I.mk(arr('scaled', (U, 3)))
            w.ops = I.new_list([I.mk(Arr((3, 3), T.app('R', [P(k), D(0), D(1)], 'i'))) for k in range(ops)])
            return [w.q, w.structure], {'symprec': T.var('symprec', nn=True)}

        def atoms(I, symbols=None, scaled_positions=None, cell=None, **kw):
            return I.new_obj('PhonopyAtoms', {'key': tuple(ident(I, x) for x in (symbols, scaled_positions, cell)) + tuple(sorted(kw)), '$open': True})

        def symmetry_(I, bulk, symprec=None, **kw):
            w = I.w
            if I.field(bulk, 'key') != tuple(ident(I, x) for x in (w.el, w.scaled, w.cell)) or P(symprec) != T.var('symprec', nn=True) or kw:
                raise Undecided('symmetry of another crystal')
            return I.new_obj('Symmetry', {'reciprocal_operations': w.ops, '$open': True})

        def check_equivalent(ob, I, o):
            from dpv.deductive.npfun import inv_arr
            w = I.w
            q = [T.app('q', [P(k)]) for k in range(3)]
            pm, inv = I.content(w.pmat), inv_arr(I.content(w.pmat))
            images = [q]
            for k in range(ops):
                # reduced components in the primitive cell of the wave vector rotated in the unit cell
                unit = [sum((inv.at(b, a) * q[b] for b in range(3)), T.ZERO) for a in range(3)]
                turned = [sum((T.app('R', [P(k), P(a), P(b)], 'i') * unit[b] for b in range(3)), T.ZERO) for a in range(3)]
                images.append([sum((pm.at(a, c) * turned[a] for a in range(3)), T.ZERO) for c in range(3)])
            items = I.items(o.value)
            own = False
            for n, x in enumerate(items):
                v = [I.arr(x).at(P(k)) for k in range(3)]
                hit = [m for m, im in enumerate(images) if all(T.equal(v[k], im[k], (), o.conds, last=False)[0] == 'equal' for k in range(3))]
                own = own or 0 in hit
                if not hit:
                    for k in range(3):
                        ob('wave vector %d is an image of the given one' % n, v[k], images[-1][k])
                else:
                    ob('wave vector %d is an image of the given one' % n, P(1), P(1))
            ob('the wave vector itself', P(1 if own else 0), P(1))
        E.function('get_equivalent_q_points_by_symmetry, %d operations' % ops, PL + 'get_equivalent_q_points_by_symmetry', setup, check_equivalent, facts=SIZES,
                   contracts=structure_contracts(**{
                       'phonopy.structure.atoms.PhonopyAtoms': atoms, PL + 'PhonopyAtoms': atoms, 'phonopy.structure.symmetry.Symmetry': symmetry_,
                       'builtins.set': lambda I, x=(): I.new_list(list(I.items(x))),
                       STRUCT + '.get_atomic_elements': lambda I, self, supercell=None, unique=False: I.w.el,
                       STRUCT + '.get_scaled_positions': lambda I, self, supercell=None: I.w.scaled}))

    # ---------------------------------------------------------------- equal wave vectors
    for n, m in ((1, 1), (1, 2), (2, 2), (2, 3), (1, 0), (3, 3)):
        def setup(I):
            w = World(I, dim=P(3))
            w.test = I.new_list([I.new_list([T.app('test', [P(k), P(x)]) for x in range(3)]) for k in range(n)])
            w.full = I.new_list([I.mk(Arr((3,), T.app('full', [P(k), D(0)]))) for k in range(m)])
            return [w.test, w.full], {}

        def check_in(ob, I, o):
            r = I.num(o.value)
            miss = T.ONE
            for k in range(n):
                same_ = T.ONE
                for x in range(3):
                    entry = sum((T.bracket_eq(r - i) * T.app('full', [P(i), P(x)]) for i in range(m)), T.ZERO)
                    same_ = same_ * T.bracket_eq(entry - T.app('test', [P(k), P(x)]))
                miss = miss * (1 - same_)
            ob('an entry that is equal to one of the wave vectors, or zero', miss * (1 - T.bracket_eq(r)), T.ZERO)
            ob('position in the list', sum((T.bracket_eq(r - i) for i in range(max(m, 1))), T.ZERO), T.ONE)
        E.function('_vector_in_list, %d of %d' % (n, m), 'dynaphopy._vector_in_list', setup, check_in, facts=SIZES, outcome='next')

    # ---------------------------------------------------------------- the data at the commensurate wave vectors
    fit = 'dynaphopy.analysis.fitting.phonon_fitting_analysis'
    MODES = 4
    com = lambda i, x: T.app('com', [P(i), P(x)])
    for n, index in ((1, (0,)), (2, (0, 0)), (3, (0, 0, 0)), (3, (0, 0, 1)), (4, (0, 0, 0, 1))):
        for symmetric in (True, False):
            for md, auto in ((True, True), (False, False)):
                if (n, index) != (2, (0, 0)) and (md, auto) != (True, True):
                    continue

                def setup(I):
                    w = quasi.QWorld(I, dim=P(3), use_symmetry=symmetric, use_MD_cell_commensurate=md, fitting_function=P(2), save_renormalized_frequencies=False,
                                     mesh_phonopy=I.mk(arr('mesh', (3,), 'i', nn=True)))
                    w.smat = I.mk(arr('md', (3,), 'i'))
                    w.psup = I.mk(arr('psup', (3, 3), 'i'))
                    w.current = w.q
                    w.asked = 0
                    return [w.qp], {'auto_range': auto}

                def here(I):
                    a = I.arr(I.w.current)
                    return [a.at(P(x)) for x in range(3)]

                def change(I, self, q):
                    """Contract of set_reduced_q_vector (C14): later results belong to the new wave vector."""
                    I.w.current = I.mk(I.arr(q))
                    I.set_field(I.w.par, '_reduced_q_vector', I.w.current)

                def limits(I, self, x):
                    I.w.limits = [I.num(y) for y in I.items(x)]
                    I.set_field(I.w.par, '_frequency_range', I.mk(arr('newrange', (size('NEW'),))))

                def dos(I, structure, mesh=None, **kw):
                    if kw or not (isinstance(structure, Obj) and structure.cid == I.w.structure.cid) or ident(I, mesh) != ident(I, I.getattr(I.w.par, 'mesh_phonopy')):
                        raise Undecided('another density of states')
                    return I.mk(Arr((2, ND), T.bracket_eq(D(0)) * T.app('dosf', [D(1)], nn=True) + T.bracket_eq(D(0) - 1) * T.app('dosv', [D(1)])))

                def points(I, structure, supercell):
                    I.w.used = I.arr(supercell)
                    return I.mk(Arr((P(n), 3), com(D(0), D(1))))

                def equivalent(I, q, structure, **kw):
                    I.w.equivalent = I.arr(q)
                    return Opaque('equivalent')

                def found(I, test, full):
                    i = len(I.items(full))
                    if not (isinstance(test, Opaque) and test.name == 'equivalent'):
                        raise Undecided('search of other wave vectors')
                    good = all(T.equal(I.arr(x).at(P(k)), com(j, k))[0] == 'equal' for j, x in enumerate(I.items(full)) for k in range(3)) and \
                        all(T.equal(I.w.equivalent.at(P(k)), com(i, k))[0] == 'equal' for k in range(3))
                    if not good:
                        raise Undecided('search in other wave vectors')
                    return P(index[i])

                def fitted(I, spectrum, frequencies, harmonic_frequencies=None, thermal_expansion_shift=None, show_plots=True, fitting_function_type=P(0), use_degeneracy=True, **kw):
                    """Contract of phonon_fitting_analysis (C13, C16): what is fitted decides the positions and widths."""
                    if kw or show_plots or P(fitting_function_type) != P(2):
                        raise Undecided('another fit')
                    if use_degeneracy is not symmetric:
                        raise Undecided('degeneracy')
                    s, h, x = [I.arr(y) for y in (spectrum, harmonic_frequencies, thermal_expansion_shift)]
                    fr = I.arr(frequencies)
                    key = [s.at(P(0), P(0)), h.at(P(0)), x.at(P(0)), fr.at(P(0))]
                    f = lambda name: I.new_list([T.fun(name, P(k), *key) for k in range(MODES)])
                    return new_dict(I, {'positions': f('position'), 'widths': f('width')})

                state = lambda name, shape, sort='r': (lambda I, self: I.mk(Arr(shape, T.app(name, here(I) + [D(i) for i in range(len(shape))], sort))))

                def check(ob, I, o):
                    w = I.w
                    d = I.heap[o.value.cid]
                    fr = T.app('newrange', [P(0)]) if auto else I.content(w.freqs).at(P(0))
                    if auto:
                        ob('lower limit of the frequencies', w.limits[0], P(0))
                        ob('upper limit: 1.2 times the last frequency of the harmonic density', w.limits[1], T.app('dosf', [ND - 1], nn=True) * T.F(6, 5))
                    sup = Arr((3, 3), T.app('psup', [D(0), D(1)], 'i')) if not md else Arr((3, 3), T.bracket_eq(D(0) - D(1)) * T.app('md', [D(0)], 'i'))
                    ob('supercell of the commensurate points', w.used, sup)
                    ob('supercell in the result', d['fc_supercell'], sup)
                    ob('the wave vector is the one before', I.getattr(w.par, 'reduced_q_vector'), arr('q', (3,)))
                    ob('the current wave vector is the one before', w.current, arr('q', (3,)))
                    items = lambda name: [I.arr(x) for x in I.items(d[name])]
                    for i, x in enumerate(items('q_points')):
                        ob('wave vector %d' % i, x, Arr((3,), com(i, D(0))))
                    for i, x in enumerate(items('eigenvectors')):
                        ob('eigenvectors %d' % i, x, Arr((MODES, 2, 3), T.app('ev', [com(i, k) for k in range(3)] + [D(0), D(1), D(2)], 'c')))
                    ob('number of wave vectors', P(len(items('q_points'))), P(n))
                    ob('number of eigenvectors', P(len(items('eigenvectors'))), P(n))
                    val = {'frequencies': [], 'linewidths': [], 'frequency_shifts': []}
                    for i in range(n):
                        if symmetric and index[i] != 0:
                            for v in val.values():
                                v.append(v[index[i]])
                            continue
                        q = [com(i, k) for k in range(3)]
                        gamma = T.bracket_eq(q[0]) * T.bracket_eq(q[1]) * T.bracket_eq(q[2])
                        keys = [T.app('psd', q + [P(0), P(0)]), T.app('w', q + [P(0)]), T.app('qha', q + [P(0)]), fr]
                        pos = [T.fun('position', P(k), *keys) * (1 - gamma if k < 3 else 1) for k in range(MODES)]
                        val['frequencies'].append(pos)
                        val['linewidths'].append([T.fun('width', P(k), *keys) * (1 - gamma if k < 3 else 1) for k in range(MODES)])
                        val['frequency_shifts'].append([pos[k] - T.app('w', q + [P(k)]) for k in range(MODES)])
                    for name, v in val.items():
                        a = I.arr(d[name])
                        ob('shape of %s' % name, P(1 if [P(x) for x in a.shape] == [P(n), P(MODES)] else 0), P(1))
                        for i in range(n):
                            for k in range(MODES):
                                ob('%s of mode %d at wave vector %d' % (name, k, i), a.at(P(i), P(k)), v[i][k])
                    ob('the data are remembered', P(1 if I.field(w.qp, '_commensurate_points_data').cid == o.value.cid else 0), P(1))

                E.function('get_commensurate_points_data, %d wave vectors, equivalents %s%s%s%s' % (
                    n, list(index), '' if symmetric else ', no symmetry', ', MD cell' if md else '', ', automatic range' if auto else ''),
                    QP + '.get_commensurate_points_data', setup, check, facts=SIZES + [ND - 1, size('F') - 1],
                    contracts=quasi.contracts(**{
                        PL + 'obtain_phonopy_dos': dos, PL + 'get_commensurate_points': points, PL + 'get_equivalent_q_points_by_symmetry': equivalent,
                        'dynaphopy._vector_in_list': found, fit: fitted,
                        DYN + '.get_supercell_matrix': lambda I, self: I.w.smat, STRUCT + '.get_supercell_phonon': lambda I, self: I.w.psup,
                        QP + '.set_reduced_q_vector': change, QP + '.set_frequency_limits': limits,
                        QP + '.get_eigenvectors': state('ev', (P(MODES), P(2), P(3)), 'c'), QP + '.get_frequencies': state('w', (P(MODES),)),
                        QP + '.get_power_spectrum_phonon': state('psd', (size('NEW'), P(MODES))),
                        QP + '.get_qha_shift': lambda I, self, q: I.mk(Arr((P(MODES),), T.app('qha', [I.arr(q).at(P(k)) for k in range(3)] + [D(0)])))}))

    # ---------------------------------------------------------------- force constants of the data
    for symmetrize in (False, True):
        for cached in (False, True):
            def setup(I):
                w = quasi.QWorld(I, dim=P(3), symmetrize=symmetrize)
                w.parts = [I.mk(arr(k, (NQ, NB))) for k in ('rf', 'lw')] + [I.mk(arr('rev', (NQ, NB, A, P(3)), 'c')), I.mk(arr('fsup', (3, 3), 'i'))]
                w.data = new_dict(I, dict(zip(('frequencies', 'linewidths', 'eigenvectors', 'fc_supercell'), w.parts)))
                if cached:
                    w.old = I.new_obj(FC, {'$open': True})
                    I.set_field(w.qp, '_renormalized_force_constants', w.old)
                return [w.qp], {}

            def make(I, f, e, s, supercell, symmetrize=False):
                if not (isinstance(s, Obj) and s.cid == I.w.structure.cid):
                    raise Undecided('another structure')
                return Opaque('|'.join(ident(I, x) for x in (f, e, supercell, symmetrize)))

            def check(ob, I, o):
                p = I.w.parts
                now = I.field(I.w.qp, '_renormalized_force_constants')
                if cached:
                    ob('the remembered ones', P(1 if o.value.cid == I.w.old.cid == now.cid else 0), P(1))
                    return
                want = '|'.join(ident(I, x) for x in (p[0], p[2], p[3], symmetrize))
                ob('of the frequencies, eigenvectors and supercell of the commensurate data', P(1 if o.value.name == want else 0), P(1))
                ob('remembered', P(1 if now.name == want else 0), P(1))
            E.function('Quasiparticle.get_renormalized_force_constants%s%s' % (', symmetrised' if symmetrize else '', ', remembered' if cached else ''),
                       QP + '.get_renormalized_force_constants', setup, check, facts=SIZES,
                       contracts=quasi.contracts(**{QP + '.get_commensurate_points_data': lambda I, self: I.w.data, PL + 'get_renormalized_force_constants': make}))

    # ---------------------------------------------------------------- shift of the quasi-harmonic force constants
    for given in (False, True):
        def setup(I):
            w = quasi.QWorld(I, dim=P(3))
            w.qha = I.new_obj(FC, {'$open': True, 'name': 'qha'}) if given else None
            I.set_field(w.qp, '_force_constants_qha', w.qha)
            I.set_field(w.structure, '_force_constants', Opaque('harmonic'))
            w.asked = I.mk(arr('asked', (3,)))
            return [w.qp, w.asked], {}

        def remember(I, self, f):
            I.set_field(self, '_force_constants', f)

        def modes_of(I, structure, q, print_data=False, **kw):
            if kw:
                raise Undecided('options')
            q = I.arr(q)
            k = I.field(structure, '_force_constants')
            k = k.name if isinstance(k, Opaque) else I.field(k, 'name')
            return (Opaque('ev'), I.mk(Arr((NB,), T.app('w ' + k, [q.at(P(x)) for x in range(3)] + [D(0)]))))

        def check(ob, I, o):
            q = [T.app('asked', [P(x)]) for x in range(3)]
            if given:
                ob('frequencies of the quasi-harmonic constants minus the harmonic ones', o.value,
                   Arr((NB,), T.app('w qha', q + [D(0)]) - T.app('here', [D(0)])))
            else:
                ob('no shift', P(1 if o.value is None else 0), P(1))
            ob('the structure keeps its force constants', P(1 if getattr(I.field(I.w.structure, '_force_constants'), 'name', None) == 'harmonic' else 0), P(1))
        E.function('get_qha_shift%s' % (', quasi-harmonic force constants' if given else ''), QP + '.get_qha_shift', setup, check, facts=SIZES,
                   contracts=quasi.contracts(**{STRUCT + '.set_force_constants': remember, PL + 'obtain_eigenvectors_and_frequencies': modes_of,
                                                QP + '.get_frequencies': lambda I, self: I.mk(Arr((NB,), T.app('here', [D(0)])))}))
    E.trust('phonopy.DynmatToForceConstantsLegacy: force constants whose dynamical matrices at the commensurate wave vectors have the given eigenvalues and eigenvectors')
    E.trust('phonopy.Symmetry: reciprocal operations of the crystal; set_tensor_symmetry_PJ: symmetrisation in place')
    E.trust('float.__eq__ and set(): equal wave vectors that differ by rounding may be treated as different (bounded check)')
