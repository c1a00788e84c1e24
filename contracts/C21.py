"""Contracts of C21: HDF5 files."""
from contracts.world import *
from contracts import quasi, h5

LEVEL = 'proof'
TECHNIQUE = 'contracts on the real Python source and script, symbolic execution, term normal form and z3; bounded replay on the real code'
NOTE = 'writing, reading with any range and joining proved for arrays of any size and content, up to four joined files; h5py itself is trusted to give back what was stored'
PARSER = 'argparse.ArgumentParser'
IO = 'dynaphopy.interface.iofile.'
V3 = (N, M, Dm)
QUANTITIES = {'trajectory': (V3, 'c'), 'velocity': (V3, 'c'), 'vc': ((N, A, Dm), 'c'), 'reduced_q_vector': ((Dm,), 'r'), 'time': ((N,), 'r'), 'super_cell': ((Dm,), 'i')}


def content(name, tag=''):
    shape, sort = QUANTITIES[name]
    return Arr(shape, T.app(name + tag, [D(k) for k in range(len(shape))], sort, **({'nn': True} if name == 'super_cell' else {})))


def same_arrays(ob, I, got, want, where):
    ob('quantities in %s' % where, P(1 if set(got) == set(want) else 0), P(1))
    for k, v in want.items():
        if k in got:
            ob('%s in %s' % (k, where), got[k], v)


def obligations(E):
    # ---------------------------------------------------------------- writing
    for parts in (('trajectory', 'velocity'), ('velocity',), ('trajectory',), ('vc', 'reduced_q_vector'), ('vc',), ()):
        for old in (False, True):
            if old and parts != ('velocity',):
                continue

            def setup(I):
                w = World(I)
                h5.disk(I, {'out.h5': {'velocity': content('velocity', ' old'), 'vc': content('vc', ' old')}} if old else None)
                w.data = {k: I.mk(content(k)) for k in parts + ('time', 'super_cell')}
                return ['out.h5', w.data['time'], w.data['super_cell']], {k: w.data[k] for k in parts}

            def check(ob, I, o):
                same_arrays(ob, I, h5.of(I, 'out.h5'), {k: content(k) for k in parts + ('time', 'super_cell')}, 'the file')
                shut = [d['$closed'] for d in I.heap.values() if isinstance(d, dict) and d.get('$file') == 'out.h5']
                ob('the file is closed', P(1 if shut == [True] else 0), P(1))
            E.function('save_data_hdf5, %s%s' % (', '.join(parts) or 'times', ', over an older file' if old else ''), IO + 'save_data_hdf5', setup, check, facts=SIZES, contracts=h5.CONTRACTS)

    for what in ('velocity and trajectory', 'velocity', 'projected velocity'):
        def setup(I):
            w = quasi.QWorld(I)
            h5.disk(I)
            w.data = {k: I.mk(content(k)) for k in ('trajectory', 'vc', 'time', 'super_cell')}
            I.set_field(w.dyn, 'trajectory', w.data['trajectory'])
            return [w.qp, 'out.h5'], {} if what != 'velocity' else {'save_trajectory': False}

        def check(ob, I, o):
            want = {'time': content('time'), 'super_cell': content('super_cell')}
            if what == 'projected velocity':
                want.update(vc=content('vc'), reduced_q_vector=I.content(I.w.q))
            else:
                want['velocity'] = I.content(I.w.v)
                if what != 'velocity':
                    want['trajectory'] = content('trajectory')
            same_arrays(ob, I, h5.of(I, 'out.h5'), want, 'the file')
        E.function('Quasiparticle saves %s' % what, QP + ('.save_vc_hdf5' if what == 'projected velocity' else '.save_velocity_hdf5'), setup, check, facts=SIZES,
                   contracts=quasi.contracts(**dict(h5.CONTRACTS, **{
                       DYN + '.get_time': lambda I, self: I.w.data['time'],
                       DYN + '.get_supercell_matrix': lambda I, self: I.w.data['super_cell'], QP + '.get_vc': lambda I, self: I.w.data['vc']})))

    # ---------------------------------------------------------------- reading
    first, last = T.var('first', 'i', nn=True), T.var('last', 'i', nn=True)
    for parts in (('trajectory', 'velocity'), ('velocity',), ('trajectory',), ('vc', 'reduced_q_vector'), ('vc',)):
        for window in ('all', 'from', 'to', 'both'):
            for read in (True, False):
                for memmap in (False, True):
                    if memmap and window != 'both' or not read and 'trajectory' not in parts:
                        continue

                    def setup(I):
                        w = World(I)
                        h5.disk(I, {'in.h5': {k: content(k) for k in parts + ('time', 'super_cell')}})
                        kw = {}
                        if window in ('from', 'both'):
                            kw['initial_cut'] = first
                        if window in ('to', 'both'):
                            kw['final_cut'] = last
                        if not read:
                            kw['read_trajectory'] = False
                        return ['in.h5', w.structure], dict(kw, memmap=memmap)

                    def check(ob, I, o):
                        w = I.w
                        cut = Slice(first - 1 if window in ('from', 'both') else None, last if window in ('to', 'both') else None, None)
                        part = lambda k: I.content(I.subscript(I.mk(content(k)), (cut,)))
                        d = o.value
                        if 'vc' in parts:
                            ob('number of results', P(len(o.value)), P(3))
                            vc, q, d = o.value
                            ob('projected velocities of the steps', vc, part('vc'))
                            if 'reduced_q_vector' in parts:
                                ob('wave vector', q, content('reduced_q_vector'))
                            else:
                                ob('no wave vector', P(1 if q is None else 0), P(1))
                        for field, k in (('_trajectory', 'trajectory'), ('_velocity', 'velocity')):
                            v = I.field(d, field)
                            if k in parts and (read or k == 'velocity'):
                                ob('%s of the steps' % k, v, part(k))
                            else:
                                ob('no %s' % k, P(1 if v is None else 0), P(1))
                        ob('times of the steps', I.field(d, '_time'), part('time'))
                        ob('supercell', I.field(d, '_supercell'), Arr((Dm, Dm), T.app('super_cell', [D(0)], 'i', nn=True) * T.app('cell', [D(0), D(1)])))
                        ob('structure', P(1 if I.field(d, '_structure').cid == w.structure.cid else 0), P(1))
                        ob('memory mapped as requested', P(1 if I.field(d, '_memmap') is memmap else 0), P(1))
                    E.function('initialize_from_hdf5_file, %s, %s%s%s' % (', '.join(parts), window, '' if read else ', no trajectory', ', memmap' if memmap else ''),
                               IO + 'initialize_from_hdf5_file', setup, check, facts=SIZES + [first - 1, N - first, last - first],
                               contracts=structure_contracts(**dict(h5.CONTRACTS, **{'os.path.isfile': lambda I, n: h5.of(I, n) is not None})))

    # ---------------------------------------------------------------- joining
    skip = T.var('skip', 'i', nn=True)
    size_of = lambda k: size('N%d' % k)

    def held(name, k):
        shape, sort = QUANTITIES[name]
        shape = tuple(size_of(k) if s == N else s for s in shape)
        return Arr(shape, T.app('%s%d' % (name, k), [D(x) for x in range(len(shape))], sort, **({'nn': True} if name == 'super_cell' else {})))

    def parser(I, *a, **kw):
        return I.new_obj(PARSER, {'options': {}})

    def add_argument(I, self, *names, **kw):
        """One declared argument: its name, how many values, and the value when it is not given."""
        if set(kw) - {'metavar', 'type', 'nargs', 'help', 'default', 'action', 'dest'} or kw.get('action') not in (None, 'store_true'):
            raise Undecided('add_argument')
        long = [x for x in names if x.startswith('--')] or list(names)
        dest = kw.get('dest', long[0].lstrip('-').replace('-', '_'))
        many = kw.get('nargs')
        I.set_field(self, 'options', dict(I.field(self, 'options'), **{dest: (names, many if isinstance(many, str) or many is None else int(I.num(many).const()),
                                                                              False if kw.get('action') else kw.get('default'), kw.get('action'))}))

    def parse(given, n):
        def g(I, self):
            o = I.field(self, 'options')
            fields = {}
            line = {'-f': [skip] if given['skip'] else None, '--velocity_only': True if given['only'] else None}
            for dest, (names, many, default, action) in o.items():
                if names[0].startswith('-'):
                    v = next((line.pop(x) for x in names if x in line), None)
                    if v is None:
                        fields[dest] = default
                    elif action:
                        fields[dest] = True
                    else:
                        fields[dest] = I.new_list(v) if many is not None else v[0]
            if any(v is not None for v in line.values()):
                raise PyExc('SystemExit')
            # the files of the command line: one list of one or more, then one
            places = [(d, x) for d, x in o.items() if not x[0][0].startswith('-')]
            if [x[1] for d, x in places] == ['+', 1]:
                fields[places[0][0]] = I.new_list(['part%d.h5' % k for k in range(n)])
                fields[places[1][0]] = I.new_list(['out.h5'])
            elif [x[1] for d, x in places] == ['+', None]:
                fields[places[0][0]] = I.new_list(['part%d.h5' % k for k in range(n)])
                fields[places[1][0]] = 'out.h5'
            else:
                raise Undecided('arguments of the script')
            return I.new_obj('argparse.Namespace', fields)
        return g

    for n in (1, 2, 3, 4):
        for parts in (('velocity', 'trajectory'), ('velocity',), ('trajectory',), ('vc', 'reduced_q_vector')):
            for given in (False, True):
                for only in (False, True):
                    if only and 'trajectory' not in parts or only and parts == ('trajectory',):
                        continue

                    def setup(I):
                        World(I)
                        h5.disk(I, {'part%d.h5' % k: {x: held(x, k) for x in parts + ('time', 'super_cell')} for k in range(n)})
                        return [], {}

                    def check(ob, I, o):
                        out = h5.of(I, 'out.h5')
                        s = skip if given else T.ZERO
                        wanted = [x for x in parts + ('time', 'super_cell') if not (only and x == 'trajectory')]
                        ob('quantities in the joined file', P(1 if set(out) == set(wanted) else 0), P(1))
                        total = sum((size_of(k) - s for k in range(n)), T.ZERO)
                        start = [sum((size_of(j) - s for j in range(k)), T.ZERO) for k in range(n)]
                        for x in wanted:
                            if x in ('super_cell', 'reduced_q_vector'):
                                ob('%s of the joined file' % x, out[x], held(x, 0))
                                continue
                            a = out[x]
                            ob('steps of %s' % x, a.shape[0], total)
                            for k in range(n):
                                own = held(x, k)
                                got = Arr((size_of(k) - s,) + tuple(a.shape[1:]), T.subst(a.expr, {'@0': D(0) + start[k]}))
                                value = T.subst(own.expr, {'@0': D(0) + s})
                                if x == 'time':
                                    t = lambda j, i: T.app('time%d' % j, [P(i)])
                                    # each file goes on one step after the end of the one before, with its own times
                                    shift = lambda j: T.ZERO if j == 0 else t(j - 1, size_of(j - 1) - 1) + shift(j - 1) + (t(0, s + 1) - t(0, s)) - t(j, s)
                                    value = value + shift(k)
                                ob('%s of file %d' % (x, k), got, Arr((size_of(k) - s,) + tuple(own.shape[1:]), value))
                    E.function('concath5 of %d files with %s%s%s' % (n, ', '.join(parts), ', skipping' if given else '', ', velocity only' if only else ''),
                               'script:concath5.__main__', setup, check,
                               facts=SIZES + [size_of(0) - (skip if given else 0) - 2] + [size_of(k) - (skip if given else 0) - 1 for k in range(1, n)],
                               contracts=dict(h5.CONTRACTS, **{PARSER: parser, PARSER + '.add_argument': add_argument, PARSER + '.parse_args': parse({'skip': given, 'only': only}, n),
                                                               'sys.argv': ('concath5', 'files')}))
    E.trust('h5py: a closed file gives back the arrays that were stored, with their element types')
    E.trust('argparse: options and files of a command line as declared')

