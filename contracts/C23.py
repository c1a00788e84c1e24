"""Contracts of C23: every setting is read back as it was set, independently of the others."""
from contracts.world import *
import itertools
from contracts.quasi import new_parameters

LEVEL = 'proof'
TECHNIQUE = 'contracts on the real Python source (frame of every setter, of the constructor and of get_data_from_dict), symbolic execution over opaque values; bounded replay of the input file reader on the real code'
NOTE = 'setters, getters and dictionaries proved for all values; read_parameters_from_input_file for any numbers in files with each section, several orders of sections and up to three bands, other files bounded'
PARAMS = 'dynaphopy.parameters.Parameters'
SETTINGS = {n: n for n in ('silent', 'reduced_q_vector', 'number_of_coefficients_mem', 'mem_scan_range', 'correlation_function_step', 'integration_method', 'zero_padding',
                           'power_spectra_algorithm', 'spectrum_resolution', 'frequency_range', 'fitting_function', 'use_NAC', 'band_ranges', 'band_resolution',
                           'number_of_bins_histogram', 'symmetrize', 'use_symmetry', 'symprec', 'save_renormalized_frequencies', 'modes_vectors_scale', 'mesh_phonopy',
                           'use_MD_cell_commensurate', 'project_on_atom')}
SETTINGS['symprec'] = 'symmprec'        # the name of its argument in the constructor


def val(n, k='old'):
    return Opaque('some:%s %s' % (k, n))


VALUES = [('any value', lambda n: val(n, 'new')), ('None', lambda n: None), ('False', lambda n: False), ('zero', lambda n: P(0))]


def names(I):
    ci = I.class_info(PARAMS)
    return sorted(set(SETTINGS) | set(ci.getters))


def fill(I):
    p = new_parameters(I)
    for n in names(I):
        I.setattr(p, n, val(n))
    return p


def obligations(E):
    from dpv.deductive.source import Source
    ci = E.source.module('dynaphopy.parameters').classes['Parameters']
    everything = sorted(set(SETTINGS) | set(ci.getters))
    for n in everything:
        for kind, new in VALUES:
            def setup(I):
                I.w = Namespace()
                I.w.p = new_parameters(I)
                for m in everything:
                    I.setattr(I.w.p, m, val(m))
                return [I.w.p, new(n)], {}

            def check(ob, I, o):
                for m in everything:
                    ob('%s afterwards' % m, I.getattr(I.w.p, m), new(n) if m == n else val(m))
            E.function('setting %s to %s' % (n, kind), 'set:%s.%s' % (PARAMS, n), setup, check)

    # ---- a dictionary of settings changes those it names
    fields = {n: '_' + n for n in everything}
    for (what, named), (kind, new) in itertools.product([('no setting', []), ('every setting', everything)] + [('only ' + n, [n]) for n in everything] + [('all but ' + n, [m for m in everything if m != n]) for n in everything], VALUES):
        def setup(I):
            I.w = Namespace()
            I.w.p = new_parameters(I)
            for m in everything:
                I.setattr(I.w.p, m, val(m))
            d = {fields[m]: new(m) for m in named}
            d['structure_file_name_poscar'] = 'POSCAR'
            return [I.w.p, DictRef(I.new(d))], {}

        def check(ob, I, o):
            for m in everything:
                ob('%s afterwards' % m, I.getattr(I.w.p, m), new(m) if m in named else val(m))
        E.function('get_data_from_dict naming %s, %s' % (what, kind), PARAMS + '.get_data_from_dict', setup, check)

    # ---- the constructor
    def setup(I):
        I.w = Namespace()
        I.w.p = I.new_obj(PARAMS, {})
        return [I.w.p], {SETTINGS[n]: val(n, 'given') for n in SETTINGS}

    def check(ob, I, o):
        for n in SETTINGS:
            ob('%s as given' % n, I.getattr(I.w.p, n), val(n, 'given'))
    E.function('constructor', PARAMS + '.__init__', setup, check)

    # ---- a dictionary of properties of a structure
    FIELDS = ('_cell', '_masses', '_atomic_numbers', '_force_constants', '_force_sets', '_atomic_elements', '_atom_type_index', '_scaled_positions', '_positions',
              '_primitive_matrix', '_charges', '_supercell_matrix')
    for what, named in [('nothing', ()), ('everything', FIELDS)] + [('only ' + f, (f,)) for f in FIELDS]:
        def setup(I):
            I.w = Namespace()
            w = World(I)
            I.w.s = I.construct(STRUCT, I.class_info(STRUCT), [], {'masses': I.mk(arr('m', (U,))), 'cell': I.mk(arr('c', (Dm, Dm))), 'atomic_elements': Opaque('some:elements'),
                                                                   'atomic_numbers': I.mk(arr('z', (U,), 'i'))})
            for m in FIELDS:
                if m not in I.heap[I.w.s.cid]:
                    raise Undecided('Structure has no field ' + m)
                I.set_field(I.w.s, m, val(m))
            d = {m: val(m, 'new') for m in named}
            d['_mesh_phonopy'] = Opaque('some:mesh')
            return [I.w.s, DictRef(I.new(d))], {}

        def check(ob, I, o):
            for m in FIELDS:
                ob('%s afterwards' % m, I.field(I.w.s, m), val(m, 'new' if m in named else 'old'))
        E.function('Structure.get_data_from_dict naming %s' % what, STRUCT + '.get_data_from_dict', setup, check)

    files(E)


def section(which, k=None):
    """(lines as parts of a text, what the reader must give)"""
    num = lambda name, *i: ('n', T.app(name, [P(x) for x in i]), '.8f')
    whole = lambda name, *i: ('n', T.app(name, [P(x) for x in i], 'i'), '')
    table = lambda f, name, n: [p for i in range(n) for j in range(3) for p in (f(name, i, j), ('s', '\n' if j == 2 else '  '))]
    full = lambda name, n, sort: arr(name, (P(n), P(3)), sort)
    if which == 'poscar':
        return [('s', 'STRUCTURE FILE POSCAR\n  ./some dir/POSCAR_1 \n')], {'structure_file_name_poscar': './some dir/POSCAR_1'}
    if which == 'outcar':
        return [('s', 'STRUCTURE FILE OUTCAR\nOUTCAR-1\n')], {'structure_file_name_outcar': 'OUTCAR-1'}
    if which == 'sets':
        return [('s', 'FORCE SETS\nFORCE_SETS_2\n')], {'force_sets_file_name': 'FORCE_SETS_2'}
    if which == 'constants':
        return [('s', 'FORCE CONSTANTS\nFORCE_CONSTANTS_2\n')], {'force_constants_file_name': 'FORCE_CONSTANTS_2'}
    if which == 'primitive':
        return [('s', 'PRIMITIVE MATRIX\n')] + table(num, 'prim', 3), {'_primitive_matrix': full('prim', 3, 'r')}
    if which == 'supercell':
        return [('s', 'SUPERCELL MATRIX PHONOPY\n')] + table(whole, 'super', 3), {'supercell_phonon': full('super', 3, 'i')}
    if which == 'mesh':
        return [('s', 'MESH PHONOPY\n')] + [p for j in range(3) for p in (whole('mesh', j), ('s', '\n' if j == 2 else ' '))], {'_mesh_phonopy': arr('mesh', (P(3),), 'i')}
    if which == 'comment':
        return [('s', '# FORCE SETS BANDS MESH PHONOPY and so on\n')], {}
    # bands, with or without labels
    n, labelled = k
    p = [('s', 'BANDS\n')]
    for i in range(n):
        sep = ', ' if i % 2 == 0 else '   '
        for e in range(2):
            for j in range(3):
                p += [num('band', i, e, j)] + ([('s', sep)] if j < 2 else [])
            p += [('s', '     ')] if e == 0 else []
        p += [('s', (' : GAMMA%d, X%d' if i % 2 else ':GAMMA%d,X%d') % (i, i) if labelled else ''), ('s', '\n')]
    d = {'ranges': [Arr((P(2), P(3)), T.app('band', [P(i), D(0), D(1)])) for i in range(n)]}
    if labelled:
        d['labels'] = [('GAMMA%d' % i, 'X%d' % i) for i in range(n)]
    return p, {'_band_ranges': d}


def files(E):
    from contracts import textfile
    from dpv.deductive import text as X
    B = [(n, l) for n in (1, 2, 3) for l in (False, True)]
    single = [(w,) for w in ('poscar', 'outcar', 'sets', 'constants', 'primitive', 'supercell', 'mesh')]
    some = [('poscar', 'sets', 'primitive', 'supercell', 'mesh', 'bands'), ('bands', 'mesh', 'supercell', 'primitive', 'constants', 'outcar'), ('comment', 'primitive', 'bands', 'sets', 'mesh'),
            ('supercell', 'comment', 'bands', 'poscar'), ('mesh', 'bands', 'primitive', 'outcar', 'sets', 'supercell', 'poscar')]
    cases = [(s, None) for s in single] + [(('bands',), k) for k in B] + [(s, k) for s in some for k in B]
    for which, k in cases:
        for gap in ('\n', ''):
            for end in (True, False):
                if len(which) == 1 and gap or not end and gap:
                    continue

                def setup(I):
                    parts = []
                    want = {'structure_file_name_poscar': 'POSCAR'}
                    for w in which:
                        p, d = section(w, k)
                        parts += p + [('s', gap)]
                        want.update(d)
                    if not end:
                        last = parts[-1] if parts[-1][1] else parts[-2]
                        parts = parts[:-2] + [('s', last[1][:-1])]
                    I.w = Namespace()
                    I.w.want = want
                    textfile.disk(I, {'input_file': X.plain(X.Text(parts))})
                    return ['input_file'], {}

                def check(ob, I, o):
                    got = I.heap[o.value.cid] if isinstance(o.value, DictRef) else None
                    ob('a dictionary', P(1 if got is not None else 0), P(1))
                    if got is None:
                        return
                    ob('the settings of the file and no other', P(1 if sorted(map(str, got)) == sorted(I.w.want) else 0), P(1))
                    for name, v in I.w.want.items():
                        if name not in got:
                            continue
                        g = got[name]
                        if isinstance(v, str):
                            ob(name, P(1 if g == v else 0), P(1))
                        elif isinstance(v, dict):
                            b = I.heap[g.cid]
                            ob('ranges and labels', P(1 if sorted(b) == sorted(v) else 0), P(1))
                            r = I.items(b['ranges'])
                            ob('number of bands', P(len(r)), P(len(v['ranges'])))
                            for i, (x, y) in enumerate(zip(r, v['ranges'])):
                                ob('band %d' % i, x, y)
                            if 'labels' in v and 'labels' in b:
                                ob('labels', P(1 if [tuple(I.items(x)) for x in I.items(b['labels'])] == v['labels'] else 0), P(1))
                        else:
                            ob(name, g, v)
                E.function('read_parameters_from_input_file, %s%s%s%s' % (' '.join(which), ' %d%s' % (k[0], ' labelled' if k[1] else '') if k else '', ', blank lines' if gap else '', '' if end else ', no last line end'),
                           'dynaphopy.interface.iofile.read_parameters_from_input_file', setup, check, contracts=textfile.CONTRACTS)
    E.trust('text: printed numbers are read back as their value; file names and labels are examples, the text of a file is treated as a list of lines with arbitrary numbers')


class Namespace:
    pass
