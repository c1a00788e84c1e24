"""Contracts of C29: files of results."""
import re
from contracts.world import *
from contracts import quasi, textfile
from contracts.quasi import NB
from dpv.deductive import text as X

LEVEL = 'proof'
TECHNIQUE = 'contracts on the real Python source, symbolic execution with a model of printed text, term normal form and z3; bounded replay on the real code'
NOTE = 'any number of rows, columns, wave vectors and modes, any values and earlier contents; a printed number stands for its value, and the format must keep the stated digits; yaml and numpy are trusted to write what they are given'
IO = 'dynaphopy.interface.iofile.'
PL = 'dynaphopy.interface.phonopy_link.'
R, C = size('rows'), size('columns')
NQ, NM = size('NQ'), size('NM')


def tokens(t):
    """A text as a list of 'blank', 'end', ('n', value, format) and ('rep', count, variable, tokens)."""
    out = []
    for p in X.Text(t.parts).parts:
        if p[0] == 's':
            s = p[1].replace(' ', '\t')
            for k, c in enumerate(s):
                tok = 'blank' if c == '\t' else 'end' if c == '\n' else ('c', c)
                if not (tok == 'blank' and out and out[-1] == 'blank'):
                    out.append(tok)
        elif p[0] == 'n':
            out.append(p)
        elif p[0] == 'rep':
            out.append(('rep', p[1], p[2], tokens(p[3])))
        else:
            raise Undecided('text of the file')
    return out


def table(ob, I, name, rows, label, cols, value):
    """The file holds rows of a label and cols values: label(i, printed), value(i, j)."""
    d = I.heap[I.text_disk.cid]
    t = d.get(name)
    ob('files', P(1 if set(k for k in d if k[0] != '$') == {name} else 0), P(1))
    if not isinstance(t, X.Text):
        ob('rows of the file', P(0), P(1))
        return
    top = [x for x in tokens(t) if x != 'blank']
    if len(top) != 1 or top[0][0] != 'rep':
        raise Undecided('rows of the file: %r' % (t,))
    _, n, q, body = top[0]
    sub = lambda e: T.subst(P(e), {q: D(0)})
    ob('number of rows', P(n), P(rows))
    body = [x for k, x in enumerate(body) if not (x == 'blank' and k == 0)]
    if not body or body[0][0] != 'n' or body[-1] != 'end':
        raise Undecided('row of the file: %r' % (body,))
    got = sub(body[0][1])
    ob('label of each row', Arr((P(rows),), got), Arr((P(rows),), label(D(0), got)))
    k, digits = X.form(body[0][2])
    ob('digits of the labels: %s' % body[0][2], P(1 if k in ('', 's') and digits is None or k == 'f' and (6 if digits is None else digits) >= 4 or k in 'eg' and k and digits is not None and digits >= 9 else 0), P(1))
    rest = body[1:-1]
    if not rest or rest[0] != 'blank':
        # the blank may be the first part of each column
        rest = ['blank'] + rest if rest and rest[0][0] == 'rep' and rest[0][3][0] == 'blank' else rest
    reps = [x for x in rest if x != 'blank']
    if len(reps) != 1 or rest[0] != 'blank':
        raise Undecided('columns of the file: %r' % (rest,))
    if reps[0][0] == 'n':
        ob('number of columns', P(1), P(cols))
        ob('values', Arr((P(rows),), sub(reps[0][1])), Arr((P(rows),), value(D(0), P(0))))
        spec = reps[0][2]
    else:
        _, n, q2, col = reps[0]
        nums = [x for x in col if x != 'blank']
        if len(nums) != 1 or nums[0][0] != 'n' or 'blank' not in col:
            raise Undecided('column of the file: %r' % (col,))
        ob('number of columns', sub(n), P(cols))
        ob('values', Arr((P(rows), P(cols)), T.subst(sub(nums[0][1]), {q2: D(1)})), Arr((P(rows), P(cols)), value(D(0), D(1))))
        spec = nums[0][2]
    k, digits = X.form(spec)
    ob('digits of the values: %s' % spec, P(1 if digits is None and k in ('', 's') or k == 'e' and (6 if digits is None else digits) >= 8 or k == 'g' and digits is not None and digits >= 9 else 0), P(1))


def dump(I, data, stream=None, **kw):
    if stream is None or I.field(stream, '$mode') != 'w' or I.field(stream, '$closed') is not False:
        raise PyExc('ValueError', 'the file is not open')
    for s in (False, None, True):
        pass
    d = I.heap[I.text_disk.cid]
    if d[I.field(stream, '$name')] != '':
        raise Undecided('more than one document')
    I.set_field(I.text_disk, I.field(stream, '$name'), data)


def representer(I, kind, f, **kw):
    I.set_field(I.yaml, 'float', f)


YAML = {'yaml.dump': dump, 'yaml.safe_dump': dump, 'yaml.add_representer': representer,
        'dumper.represent_scalar': lambda I, self, tag, text, **kw: I.set_field(self, 'text', text)}


def printed(ob, I):
    """Floats keep eight decimals."""
    f = I.field(I.yaml, 'float')
    if f is None:
        return
    d = I.new_obj('dumper', {'text': None})
    v = T.var('a float')
    I.call(f, [d, v], {})
    t = I.field(d, 'text')
    p = [x for x in t.parts if x[0] != 's' or x[1].strip()] if isinstance(t, X.Text) else []
    ob('floats are printed', P(1 if len(p) == 1 and p[0][0] == 'n' and X.precise(p[0][2], 8) else 0), P(1))
    if p and p[0][0] == 'n':
        ob('value of the floats', p[0][1], v)


def document(ob, I, name):
    d = I.heap[I.text_disk.cid]
    ob('files', P(1 if set(k for k in d if k[0] != '$') == {name} else 0), P(1))
    return d.get(name)


def of_points(ob, I, x, n, want):
    """The list x has n dicts with the given quantities of point @0: want = {key: (shape, term)}."""
    i = T.var('point', 'i', nn=True)
    ob('number of wave vectors', I.length(x), P(n))
    T.FACTS.append(P(n) - 1 - i)
    e = I.subscript(x, (i,))
    if not isinstance(e, DictRef):
        raise Undecided('entry of the file: %r' % (e,))
    d = I.heap[e.cid]
    ob('quantities of a wave vector', P(1 if set(d) == set(want) else 0), P(1))
    for k, (shape, term) in want.items():
        if k not in d:
            continue
        if k == 'group_velocity':
            m = T.var('mode', 'i', nn=True)
            ob('number of group velocities', I.length(d[k]), P(shape[0]))
            T.FACTS.append(P(shape[0]) - 1 - m)
            g = I.subscript(d[k], (m,))
            c = I.heap[g.cid] if isinstance(g, DictRef) else {}
            ob('components', P(1 if set(c) == set('xyz') else 0), P(1))
            for a in c:
                ob('group velocity ' + a, I.num(c[a]), term(i, m, P('xyz'.index(a))))
        elif shape is None:
            ob(k, I.num(d[k]), term(i))
        else:
            ob(k, I.mk(I.arr(d[k])), Arr(shape, term(i)))


def new_disk(I):
    textfile.disk(I, {'out': 'old content\n'})
    I.yaml = I.new_obj('yaml', {'float': None})


def obligations(E):
    K = dict(textfile.CONTRACTS, **YAML)
    # ---------------------------------------------------------------- curves
    def setup(I):
        World(I)
        new_disk(I)
        return [I.mk(arr('x', (R,))), I.mk(arr('y', (R, C))), 'out'], {}
    E.function('write_curve_to_file', IO + 'write_curve_to_file', setup,
               lambda ob, I, o: table(ob, I, 'out', R, lambda i, g: T.app('x', [i]), C, lambda i, j: T.app('y', [i, j])), contracts=K, facts=[R - 1, C - 1])

    freq = lambda i, g=None: T.app('freq', [i])
    for what in ('full', 'wave_vector', 'phonon'):
        def setup(I):
            w = quasi.QWorld(I)
            new_disk(I)
            I.set_field(w.par, '_frequency_range', I.mk(arr('freq', (R,))))
            return [w.qp, 'out'], {}
        spectrum = (lambda I, self: I.mk(arr('S', (R, NM)))) if what == 'phonon' else (lambda I, self: I.mk(arr('S', (R,))))
        value = (lambda i, j: T.app('S', [i, j])) if what == 'phonon' else (lambda i, j: T.app('S', [i]))
        E.function('write_power_spectrum_' + what, QP + '.write_power_spectrum_' + what, setup,
                   lambda ob, I, o, n=NM if what == 'phonon' else 1, value=value: table(ob, I, 'out', R, freq, n, value),
                   contracts=quasi.contracts(**dict(K, **{QP + '.get_power_spectrum_' + what: spectrum})), facts=SIZES + [R - 1, NM - 1])

    # ---------------------------------------------------------------- yaml files
    q = lambda i: T.app('q', [i, D(0)])
    by_mode = lambda name: lambda i: T.app(name, [i, D(0)])
    for extra in (False, True):
        def setup(I):
            World(I)
            new_disk(I)
            data = {'q_points': I.mk(arr('q', (NQ, Dm))), 'eigenvectors': I.mk(arr('e', (NQ, NM, A, Dm), 'c')), 'fc_supercell': I.mk(arr('sup', (3, 3), 'i'))}
            data.update({k: I.mk(arr(k, (NQ, NM))) for k in ('frequencies', 'linewidths', 'frequency_shifts')})
            if extra:
                data['group_velocity'] = I.mk(arr('gv', (NQ, NM, P(3))))
            return [DictRef(I.new(data)), 'out'], {}

        def check(ob, I, o):
            want = {'reduced_wave_vector': ((Dm,), q)}
            want.update({k: ((NM,), by_mode(k)) for k in ('frequencies', 'linewidths', 'frequency_shifts')})
            if extra:
                want['group_velocity'] = ((NM,), lambda i, m, a: T.app('gv', [i, m, a]))
            of_points(ob, I, document(ob, I, 'out'), NQ, want)
            printed(ob, I)
        E.function('save_quasiparticle_data_to_file%s' % (', extra' if extra else ''), IO + 'save_quasiparticle_data_to_file', setup, check, contracts=K, facts=SIZES + [NQ - 1, NM - 1])

    def setup(I):
        World(I)
        new_disk(I)
        w = (I.mk(arr('q', (NQ, Dm))), I.mk(arr('mult', (NQ,), 'i')), I.mk(arr('frequencies', (NQ, NM))), I.mk(arr('linewidths', (NQ, NM))))
        return [w, 'out'], {}

    def check(ob, I, o):
        want = {'reduced_wave_vector': ((Dm,), q), 'multiplicity': (None, lambda i: T.app('mult', [i], 'i'))}
        want.update({k: ((NM,), by_mode(k)) for k in ('frequencies', 'linewidths')})
        of_points(ob, I, document(ob, I, 'out'), NQ, want)
        printed(ob, I)
    E.function('save_mesh_data_to_yaml_file', IO + 'save_mesh_data_to_yaml_file', setup, check, contracts=K, facts=SIZES + [NQ - 1, NM - 1])

    def setup(I):
        World(I)
        new_disk(I)
        I.w.bands = I.new_obj('bands', {})
        return [I.w.bands, 'out'], {}

    def check(ob, I, o):
        d = document(ob, I, 'out')
        ob('the bands', P(1 if getattr(d, 'cid', None) == I.w.bands.cid else 0), P(1))
        printed(ob, I)
    E.function('save_bands_data_to_file', IO + 'save_bands_data_to_file', setup, check, contracts=K)

    # ---------------------------------------------------------------- what the methods of Quasiparticle save
    def saved(I, data, name):
        I.w.saved.append((data, name))

    def quasi_file(what, call, data_of, check, extra=None, contracts_=None, args=()):
        def setup(I):
            w = quasi.QWorld(I)
            w.saved = []
            w.data = data_of(I)
            return [w.qp] + list(args), {}

        def checked(ob, I, o):
            ob('files saved', P(len(I.w.saved)), P(1))
            if I.w.saved:
                ob('name of the file', P(1 if I.w.saved[0][1] == 'out' else 0), P(1))
                check(ob, I, I.w.saved[0][0])
        E.function(what, QP + '.' + call, setup, checked, contracts=quasi.contracts(**contracts_), facts=SIZES + [NQ - 1, NM - 1])

    same = lambda ob, I, d: ob('the data', P(1 if getattr(d, 'cid', None) == I.w.data.cid else 0), P(1))
    for extra in (False, True):
        def points(I, self):
            return DictRef(I.new(dict({k: I.mk(arr(k, (NQ, NM))) for k in ('frequencies', 'linewidths', 'frequency_shifts')}, q_points=I.mk(arr('q', (NQ, Dm))))))

        def check(ob, I, d):
            d = I.heap[d.cid] if isinstance(d, DictRef) else {}
            want = {k: Arr((NQ, NM), T.app(k, [D(0), D(1)])) for k in ('frequencies', 'linewidths', 'frequency_shifts')}
            want['q_points'] = Arr((NQ, Dm), T.app('q', [D(0), D(1)]))
            if extra:
                want['group_velocity'] = Arr((NQ, NM, P(3)), T.app('gv', [D(0), D(1), D(2)]))
            ob('quantities', P(1 if set(d) >= set(want) and ('group_velocity' in d) == extra else 0), P(1))
            for k in want:
                if k in d:
                    ob(k, I.arr(d[k]), want[k])
            # what is remembered does not gain the extra quantities
            ob('remembered data', P(1 if 'group_velocity' not in I.heap[I.w.data.cid] else 0), P(1))
        quasi_file('write_quasiparticles_data%s' % (', extra' if extra else ''), 'write_quasiparticles_data', lambda I: points(I, None), check, args=('out', extra), contracts_={
            QP + '.get_commensurate_points_data': lambda I, self, *a, **k: I.w.data,
            QP + '.get_commensurate_points_properties': lambda I, self: DictRef(I.new({'group_velocity': I.mk(arr('gv', (NQ, NM, P(3)))), 'q_points': I.mk(arr('q', (NQ, Dm)))})),
            IO + 'save_quasiparticle_data_to_file': saved})
    quasi_file('write_mesh_data', 'write_mesh_data', lambda I: I.new_obj('mesh', {}), same, args=('out',), contracts_={
        QP + '.get_mesh_frequencies_and_linewidths': lambda I, self: I.w.data, IO + 'save_mesh_data_to_yaml_file': saved})

    def bands(I, self, with_linewidths=False, band_connection=False, **kw):
        if with_linewidths is not True or band_connection is not True:
            raise PyExc('ValueError', 'bands without linewidths or connections')
        return I.w.data
    quasi_file('write_renormalized_phonon_dispersion_bands', 'write_renormalized_phonon_dispersion_bands', lambda I: I.new_obj('bands', {}), same, args=('out',), contracts_={
        QP + '.get_renormalized_phonon_dispersion_bands': bands, IO + 'save_bands_data_to_file': saved})
    quasi_file('write_renormalized_constants', 'write_renormalized_constants', lambda I: I.new_obj('constants', {}), same, args=('out',), contracts_={
        QP + '.get_renormalized_force_constants': lambda I, self: I.w.data, PL + 'save_force_constants_to_file': saved})

    # ---------------------------------------------------------------- force constants: phonopy writes the array it is given
    def setup(I):
        w = World(I)
        w.saved = []
        w.fc = I.mk(arr('fc', (M, M, Dm, Dm)))
        w.constants = I.new_obj('dynaphopy.interface.phonopy_link.ForceConstants', {'_force_constants': w.fc})
        return [w.constants, 'out'], {}

    def check(ob, I, o):
        ob('files saved', P(len(I.w.saved)), P(1))
        for d, name in I.w.saved:
            ob('name of the file', P(1 if name == 'out' else 0), P(1))
            ob('force constants', d, I.content(I.w.fc))
    E.function('save_force_constants_to_file', PL + 'save_force_constants_to_file', setup, check, facts=SIZES, contracts=structure_contracts(**{
        'phonopy.file_IO.write_FORCE_CONSTANTS': lambda I, fc, filename='FORCE_CONSTANTS', **kw: saved(I, fc, filename)}))

    # ---------------------------------------------------------------- projected velocities
    def savetxt(I, name, x, fmt='%.18e', **kw):
        if set(kw) - {'delimiter', 'newline'}:
            raise Undecided('savetxt')
        I.w.saved.append((I.content(x), name, fmt))

    def complex_rows(ob, I, want, cols):
        ob('files saved', P(len(I.w.saved)), P(1))
        for x, name, fmt in I.w.saved:
            ob('name of the file', P(1 if name == 'out' else 0), P(1))
            ob('projection', x, want)
            n = P(1)
            if isinstance(fmt, X.Text) and len(fmt.parts) == 1 and fmt.parts[0][0] == 'rep' and all(p[0] == 's' for p in fmt.parts[0][3].parts):
                n, fmt = fmt.parts[0][1], ''.join(p[1] for p in fmt.parts[0][3].parts)
            if not isinstance(fmt, str):
                raise Undecided('format of the file')
            specs = re.findall(r'%([^%a-zA-Z]*)([a-zA-Z])', fmt)
            ob('digits', P(1 if specs and all(k in 'eE' and '.' in a and int(a.split('.')[1]) >= 8 for a, k in specs) else 0), P(1))
            if len(specs) != 1 or n != P(1):
                # the parts of every number are printed, the sign separates them
                ob('numbers in a row', n * len(specs), P(2) * cols)
                ob('signs', P(1 if all('+' in a for a, k in specs[1::2]) else 0), P(1))
    atom = T.var('atom', 'i')
    def setup(I):
        w = quasi.QWorld(I, dim=3)
        w.saved = []
        w.vc = I.mk(arr('vc', (N, A, P(3)), 'c'))
        return [w.qp, 'out', atom], {}
    C_ = lambda: quasi.contracts(**{'text': True, QP + '.get_vc': lambda I, self: I.w.vc, 'numpy.savetxt': savetxt})
    E.function('save_vc', QP + '.save_vc', setup, lambda ob, I, o: complex_rows(ob, I, Arr((N, P(3)), T.app('vc', [D(0), atom - 1, D(1)], 'c'), 'c'), 3), contracts=C_(), facts=SIZES + [atom - 1, A - atom])
    for name, fact in (('no atom', -atom), ('atom beyond the cell', atom - 1 - A)):
        E.function('save_vc, %s' % name, QP + '.save_vc', setup, lambda ob, I, o: ob('refused, nothing saved', P(len(I.w.saved)), T.ZERO), contracts=C_(), facts=SIZES + [fact], outcome='raise')

    def setup(I):
        w = quasi.QWorld(I)
        w.saved = []
        w.vq = I.mk(arr('vq', (N, NM), 'c'))
        return [w.qp, 'out'], {}
    E.function('save_vq', QP + '.save_vq', setup, lambda ob, I, o: complex_rows(ob, I, Arr((N, NM), T.app('vq', [D(0), D(1)], 'c'), 'c'), NM),
               contracts=quasi.contracts(**{'text': True, QP + '.get_vq': lambda I, self: I.w.vq, 'numpy.savetxt': savetxt}), facts=SIZES + [NM - 1])
    E.trust('yaml.dump, numpy.savetxt and phonopy write the data they are given in the form they are given')
