"""Contracts of C26: harmonic densities of states, thermal properties and bands."""
from contracts.phon import *
from contracts import quasi

LEVEL = 'proof'
TECHNIQUE = 'contracts on the real Python source, symbolic execution with inductive loop summaries, term normal form and z3; bounded replay on the real code'
NOTE = 'the densities of states, thermal properties and band paths proved for every crystal, mesh, range and resolution; the renormalised bands for up to three branches and segments; connected bands and phonopy itself are bounded or trusted'
TK = T.var('temperature', nn=True)


def obligations(E):
    # ---------------------------------------------------------------- the phonon calculation
    for have in ('constants', 'sets'):
        for setup_forces in (True, False):
            for custom in (True, False):
                def setup(I):
                    w = PWorld(I)
                    w.have = have
                    w.csup = I.mk(arr('csup', (3, 3), 'i'))
                    w.el = seq(I, U, lambda i: T.app('element', [i], 'i'))
                    w.scaled = I.mk(arr('scaled', (U, 3)))
                    w.harmonic = w.given(I)
                    w.sets = I.construct(PL + 'ForceSets', I.class_info(PL + 'ForceSets'), [Opaque('displacements'), w.gsup], {}) if have == 'sets' else None
                    return [w.structure], {'setup_forces': setup_forces, 'custom_supercell': w.csup if custom else None, 'symprec': T.var('symprec', nn=True)}

                def atoms(I, symbols=None, scaled_positions=None, cell=None, **kw):
                    return I.new_obj('PhonopyAtoms', {'key': tuple(ident(I, x) for x in (symbols, scaled_positions, cell)) + tuple(sorted(kw)), '$open': True})

                def legacy(I, bulk, supercell, primitive_matrix=None, symprec=P(T.F(1, 100000)), **kw):
                    return I.new_obj(PH, {'$made': (I.field(bulk, 'key'), ident(I, supercell), ident(I, primitive_matrix), ident(I, symprec), tuple(sorted(kw))),
                                          '$open': True, 'force_constants': None, 'dataset': None})

                def produce(I, self, *a, **k):
                    if a or k:
                        raise Undecided('options of produce_force_constants')
                    d = I.field(self, 'dataset')
                    I.set_field(self, 'force_constants', I.mk(arr('fc of ' + ident(I, d), (size('NF1'), size('NF1'), 3, 3))))

                def check(ob, I, o):
                    w = I.w
                    made_ = I.field(o.value, '$made')
                    wanted = (ident(I, w.el), ident(I, w.scaled), ident(I, w.cell))
                    ob('the atoms of the unit cell', P(1 if made_[0] == wanted else 0), P(1))
                    ob('the supercell', P(1 if made_[1] == ident(I, w.csup if custom else w.psup) else 0), P(1))
                    ob('the primitive matrix', P(1 if made_[2] == ident(I, w.pmat) else 0), P(1))
                    ob('the tolerance', P(1 if made_[3] == T.var('symprec', nn=True).key and not made_[4] else 0), P(1))
                    f = I.field(o.value, 'force_constants')
                    if not setup_forces:
                        ob('no force constants are set', P(1 if f is None else 0), P(1))
                    elif have == 'constants':
                        ob('the force constants of the structure', f, I.content(w.garr))
                    else:
                        ob('the force constants of the displacements', f, arr("fc of displacements", (size('NF1'), size('NF1'), 3, 3)))
                        ob('are remembered', I.field(w.harmonic_set, '_force_constants'), arr("fc of displacements", (size('NF1'), size('NF1'), 3, 3)))
                        ob('with their supercell', I.field(w.harmonic_set, '_supercell'), I.content(w.gsup))

                def remember(I, self, f):
                    I.w.harmonic_set = f
                E.function('get_phonon, force %s of the structure%s%s' % (have, '' if setup_forces else ' not used', ', custom supercell' if custom else ''),
                           PL + 'get_phonon', setup, check, facts=SIZES, contracts=structure_contracts(**{
                               'phonopy.structure.atoms.PhonopyAtoms': atoms, PL + 'PhonopyAtoms': atoms, PH: legacy, PH + '.produce_force_constants': produce,
                               STRUCT + '.get_atomic_elements': lambda I, self, supercell=None, unique=False: I.w.el,
                               STRUCT + '.get_scaled_positions': lambda I, self, supercell=None: I.w.scaled,
                               STRUCT + '.get_supercell_phonon': lambda I, self: I.w.psup,
                               STRUCT + '.get_force_constants': lambda I, self: I.w.harmonic if I.w.have == 'constants' else None,
                               STRUCT + '.get_force_sets': lambda I, self: I.w.sets,
                               STRUCT + '.set_force_constants': remember}))

    # ---------------------------------------------------------------- densities of states and thermal properties
    cells = U / A
    lo, hi, pitch = T.var('flo'), T.var('fhi'), T.var('pitch', nn=True)
    for given in (False, True):
        for projected in (False, True):
            for nac in (False, True):
                atom = T.var('atom', 'i', nn=True)

                def setup(I):
                    w = PWorld(I)
                    w.mesh = I.mk(arr('mesh', (3,), 'i', nn=True))
                    w.fc = w.given(I) if given else None
                    return [w.structure], {'mesh': w.mesh, 'force_constants': w.fc, 'freq_min': lo, 'freq_max': hi, 'freq_pitch': pitch,
                                           'projected_on_atom': atom if projected else P(-1), 'NAC': nac}

                def check(ob, I, o):
                    r = reference(I, given, nac)
                    if projected:
                        run_mesh(I, r, I.w.mesh, is_mesh_symmetry=False, with_eigenvectors=True)
                        run_projected_dos(I, r, freq_min=lo, freq_max=hi)
                        d = I.heap[projected_dos(I, r).cid]
                        x, y = I.arr(d['frequency_points']), I.arr(d['projected_dos']).at(atom, D(0))
                    else:
                        run_mesh(I, r, I.w.mesh)
                        run_total_dos(I, r, freq_min=lo, freq_max=hi, freq_pitch=pitch)
                        d = I.heap[total_dos(I, r).cid]
                        x, y = I.arr(d['frequency_points']), I.arr(d['total_dos']).expr
                    a = I.arr(o.value)
                    ob('frequencies', Arr((ND,), a.at(0, D(0))), x)
                    ob('density of the primitive cell times the primitive cells per unit cell', Arr((a.shape[1],), a.at(1, D(0))), Arr((ND,), y * cells))
                E.function('obtain_phonopy_dos%s%s%s' % (', given force constants' if given else '', ', projected' if projected else '', ', NAC' if nac else ''),
                           PL + 'obtain_phonopy_dos', setup, check, contracts=contracts(), facts=SIZES + ([A - 1 - atom] if projected else []) + [ND - 1])

        for nac in (False, True):
            def setup(I):
                w = PWorld(I)
                w.mesh = I.mk(arr('mesh', (3,), 'i', nn=True))
                w.fc = w.given(I) if given else None
                return [w.structure, TK], {'mesh': w.mesh, 'force_constants': w.fc, 'NAC': nac}

            def check(ob, I, o):
                r = reference(I, given, nac)
                run_mesh(I, r, I.w.mesh)
                k = key(I, r, I.field(r, '$mesh')[0])
                v = o.value
                for i, n in enumerate(('F', 'entropy', 'Cv')):
                    ob('%s of the primitive cell times the primitive cells per unit cell' % n, v[i], T.app(n + k, [TK]) * cells)
            E.function('obtain_phonopy_thermal_properties%s%s' % (', given force constants' if given else '', ', NAC' if nac else ''),
                       PL + 'obtain_phonopy_thermal_properties', setup, check, contracts=contracts(), facts=SIZES)

    # ---------------------------------------------------------------- bands
    RES = size('RES')
    K = 3
    start = lambda j, x: T.app('start', [P(j), P(x)])
    end = lambda j, x: T.app('end', [P(j), P(x)])
    for given in (False, True):
        for connect in (False, True):
            for n in range(1, K + 1):
                def setup(I):
                    w = PWorld(I)
                    w.fc = w.given(I) if given else None
                    w.ranges = I.new_list([(I.mk(Arr((3,), start(j, D(0)))), I.mk(Arr((3,), end(j, D(0))))) for j in range(n)])
                    return [w.structure, w.ranges], {'force_constants': w.fc, 'band_resolution': RES, 'band_connection': connect}

                def check(ob, I, o):
                    r = reference(I, given)
                    k = key(I, r, ident(I, connect))
                    q, d, f, e = o.value
                    for j in range(n):
                        p = lambda x: start(j, x) + (end(j, x) - start(j, x)) * D(0) / RES
                        got = [I.arr(I.items(x)[j]) for x in (q, d, f, e)]
                        ob('wave vectors of segment %d' % j, got[0], Arr((RES + 1, 3), start(j, D(1)) + (end(j, D(1)) - start(j, D(1))) * D(0) / RES))
                        ob('distances of segment %d' % j, got[1], Arr((RES + 1,), T.app('distance' + k, [P(j), D(0)])))
                        ob('frequencies of segment %d' % j, got[2], Arr((RES + 1, NBR), T.app('w' + k, [D(1)] + [p(x) for x in range(3)])))
                        ob('eigenvectors of segment %d' % j, got[3], Arr((RES + 1, NBR, NBR), T.app('ev' + k, [D(1), D(2)] + [p(x) for x in range(3)], 'c')))
                    ob('number of segments', P(len(I.items(q))), P(n))
                E.function('obtain_phonon_dispersion_bands, %d segments%s%s' % (n, ', given force constants' if given else '', ', connected' if connect else ''),
                           PL + 'obtain_phonon_dispersion_bands', setup, check, contracts=contracts(), facts=SIZES + [RES - 1])

    # ---------------------------------------------------------------- renormalised bands
    def sameset(I, f, want):
        return f is not None and isinstance(f, Obj) and f.cid == want.cid

    B, LEN = 3, size('LEN')
    for n in (1, 2):
        for widths in (False, True):
            for labelled in (False, True):
                for nac in (False, True):
                    def setup(I):
                        w = quasi.QWorld(I, dim=P(3), use_NAC=nac, band_resolution=RES, symmetrize=False)
                        w.sets = {}
                        w.fsup = I.mk(arr('fsup', (3, 3), 'i'))
                        w.rf = I.mk(arr('rf', (size('NQ'), NBR)))
                        w.lw = I.mk(arr('lw', (size('NQ'), NBR), nn=True))
                        w.rev = I.mk(arr('rev', (size('NQ'), NBR, NBR), 'c'))
                        w.data = new_dict(I, {'frequencies': w.rf, 'linewidths': w.lw, 'eigenvectors': w.rev, 'fc_supercell': w.fsup})
                        w.ranges = I.new_list([(I.mk(Arr((3,), start(j, D(0)))), I.mk(Arr((3,), end(j, D(0))))) for j in range(n)])
                        w.labels = I.new_list([(Opaque('from %d' % j), Opaque('to %d' % j)) for j in range(n)])
                        w.both = new_dict(I, {'ranges': w.ranges, 'labels': w.labels} if labelled else {'ranges': w.ranges})
                        return [w.qp], {'with_linewidths': widths}

                    def renormalized(I, f, e, s, supercell, **kw):
                        """Contract of get_renormalized_force_constants (C24): one set of force constants for one set of frequencies."""
                        if not (isinstance(s, Obj) and s.cid == I.w.structure.cid) or set(kw) - {'symmetrize'}:
                            raise Undecided('force constants of another structure')
                        return Opaque('forces %s %s %s %s' % (ident(I, f), ident(I, e), ident(I, supercell), ident(I, kw.get('symmetrize', False))))

                    def dispersion(I, structure, ranges, force_constants=None, NAC=False, band_resolution=P(30), band_connection=False):
                        """Contract of obtain_phonon_dispersion_bands, above."""
                        if not (isinstance(structure, Obj) and structure.cid == I.w.structure.cid):
                            raise Undecided('bands of another structure')
                        k = '{%s}' % '|'.join(ident(I, x) for x in (force_constants, ranges, NAC, band_resolution, band_connection))
                        c = lambda name, shape, sort='r': I.new_list([I.mk(Arr(shape, T.app(name + k, [P(j)] + [D(x) for x in range(len(shape))], sort)))
                                                                      for j in range(n)])
                        return (c('q', (LEN, 3)), c('distance', (LEN,)), c('w', (LEN, P(B))), c('ev', (LEN, P(B), P(B)), 'c'))

                    def check(ob, I, o):
                        w = I.w
                        rf, lw = T.app('rf', [D(0), D(1)]), T.app('lw', [D(0), D(1)], nn=True)
                        fc = lambda f: renormalized(I, Arr((size('NQ'), NBR), f) if False else I.mk(Arr((size('NQ'), NBR), f)), w.rev, w.structure, w.fsup, symmetrize=False)
                        at = lambda f: dispersion(I, w.structure, w.ranges, force_constants=f, NAC=nac, band_resolution=RES)
                        h, r, s, i = at(None), at(fc(rf)), at(fc(rf + lw / 2)), at(fc(rf - lw / 2))
                        res = I.items(o.value)
                        ob('number of segments', P(len(res)), P(n))
                        for j in range(n):
                            d = I.heap[res[j].cid]
                            val = lambda x: I.arr(I.items(x[2])[j])
                            ob('distances of segment %d' % j, d['q_path_distances'], I.arr(I.items(h[1])[j]))
                            bounds = I.heap[d['q_bounds'].cid]
                            ob('first wave vector of segment %d' % j, bounds['inf'], Arr((3,), start(j, D(0))))
                            ob('last wave vector of segment %d' % j, bounds['sup'], Arr((3,), end(j, D(0))))
                            want = {'harmonic_frequencies': lambda b: val(h).at(D(0), b), 'renormalized_frequencies': lambda b: val(r).at(D(0), b),
                                    'frequency_shifts': lambda b: val(r).at(D(0), b) - val(h).at(D(0), b)}
                            if widths:
                                want.update({'linewidth_minus': lambda b: val(i).at(D(0), b), 'linewidth_plus': lambda b: val(s).at(D(0), b),
                                             'linewidth': lambda b: val(s).at(D(0), b) - val(i).at(D(0), b)})
                            for name, f in want.items():
                                x = I.heap[d[name].cid]
                                ob('branches of %s' % name, P(len(x)), P(B))
                                for b in range(B):
                                    ob('%s of branch %d, segment %d' % (name, b, j), x['branch_%d' % b], Arr((LEN,), f(P(b))))
                            if labelled:
                                l = I.heap[d['labels'].cid]
                                ob('labels of segment %d' % j, P(1 if (l['inf'].name, l['sup'].name) == ('from %d' % j, 'to %d' % j) else 0), P(1))
                    E.function('get_renormalized_phonon_dispersion_bands, %d segments%s%s%s' % (n, ', linewidths' if widths else '', ', labels' if labelled else '', ', NAC' if nac else ''),
                               QP + '.get_renormalized_phonon_dispersion_bands', setup, check,
                               contracts=quasi.contracts(**{
                                   QP + '.get_commensurate_points_data': lambda I, self: I.w.data, QP + '.get_band_ranges_and_labels': lambda I, self: I.w.both,
                                   PL + 'get_renormalized_force_constants': renormalized, PL + 'obtain_phonon_dispersion_bands': dispersion}), facts=SIZES + [LEN - 1])

    # ---------------------------------------------------------------- thermal properties of the densities of phonopy
    l0 = T.var('_l0', 'i', nn=True)
    thm = 'dynaphopy.analysis.thermal_properties.'
    names = [('F', 'get_free_energy'), ('entropy', 'get_entropy'), ('Cv', 'get_cv'), ('E', 'get_total_energy')]
    for given in (False, True):
        for norm in (False, True):
            for projected in (False, True):
                def setup(I):
                    w = quasi.QWorld(I, dim=P(3), use_NAC=True, spectrum_resolution=pitch, project_on_atom=atom if projected else P(-1),
                                     mesh_phonopy=I.mk(arr('mesh', (3,), 'i', nn=True)))
                    w.fc = I.new_obj(FC, {'$open': True}) if given else None
                    return [w.qp], {'force_constants': w.fc, 'normalize_dos': norm}

                def dos(I, structure, mesh=None, force_constants=None, freq_min=None, freq_max=None, freq_pitch=None, projected_on_atom=P(-1), NAC=False):
                    """Contract of obtain_phonopy_dos, above."""
                    if not (isinstance(structure, Obj) and structure.cid == I.w.structure.cid):
                        raise Undecided('density of another structure')
                    k = '{%s}' % '|'.join(ident(I, x) for x in (mesh, 'given' if force_constants is not None else None, NAC))
                    more = [number(freq_min), number(freq_max), number(freq_pitch), P(projected_on_atom)]
                    return I.mk(arr_of((2, ND), lambda i, j: T.bracket_eq(i) * T.app('f' + k, [j] + more) + T.bracket_eq(i - 1) * T.app('dos' + k, [j] + more)))

                def thermal_of(name):
                    def g(I, t, f, d):
                        f, d = I.arr(f), I.arr(d)
                        return T.fun('of_' + name, P(t), f.at(l0), d.at(l0))
                    return g

                def correction(I, t, f, d0, d1):
                    return T.fun('correction', P(t), I.arr(f).at(l0), I.arr(d0).at(l0), I.arr(d1).at(l0))

                def check(ob, I, o):
                    from dpv.deductive.npfun import quadrature
                    w = I.w
                    last = I.content(w.freqs).at(I.content(w.freqs).shape[0] - 1)
                    mesh = I.getattr(w.par, 'mesh_phonopy')
                    d = lambda fc: I.arr(dos(I, w.structure, mesh, fc, T.F(1, 100), last, pitch, atom if projected else P(-1), True))
                    raw = d(w.fc)
                    x, y = raw.at(0, l0), raw.at(1, l0)
                    total = quadrature('simps', y, x, ND) / (3 * U)
                    if norm:
                        y, total = y / total, T.ONE
                        if projected:
                            y, total = y / A, T.ONE / A
                    e = {n: T.fun('of_' + n, TK, x, y) for n, q in names}
                    if given:
                        h = d(None)
                        c = T.fun('correction', TK, h.at(0, l0), h.at(1, l0), y)
                        e['F'], e['E'] = e['F'] + c, e['E'] + c
                    got = I.items(o.value)
                    for i, (n, q) in enumerate(names):
                        ob('%s of the density of states' % n, got[i], e[n])
                    ob('integral per degree of freedom', got[4], total)
                E.function('get_thermal_properties%s%s%s' % (', given force constants' if given else '', ', normalised' if norm else '', ', projected' if projected else ''),
                           QP + '.get_thermal_properties', setup, check, facts=SIZES + [ND - 1, size('F') - 1],
                           contracts=quasi.contracts(**dict([(PL + 'obtain_phonopy_dos', dos), (QP + '.get_temperature', lambda I, self: TK),
                                                             (thm + 'get_free_energy_correction_dos', correction)] + [(thm + q, thermal_of(n)) for n, q in names])))
    E.trust('phonopy: densities of states, thermal properties and bands depend on the crystal, the supercell and array of the force constants, the mesh and the limits only')
