"""POSCAR and LAMMPS structure files."""
import os
import numpy as np
from dpv.concrete import lib
from dpv.concrete.lib import fail, close, equal, call, mix

FUNCTIONS = ['generate_cell.generate_VASP_structure', 'generate_cell.generate_LAMMPS_structure',
             'iofile.read_from_file_structure_poscar']
SUPS = [[1, 1, 1], [2, 1, 1], [1, 2, 3], [2, 2, 1], [1, 1, 2], [3, 2, 1]]


def cases(rng, tier):
    for rep in range(150 if tier == 'quick' else 3000):
        yield {'kind': ['poscar', 'lammps', 'read'][rep % 3], 'cell': lib.CELLS[rep // 3 % 6], 'scaled': rep % 2 == 0,
               'own': rep % 5 != 0, 'charges': rep % 4 == 1, 'natoms': 1 + rep // 2 % 5, 'given': rep % 7 < 4, 'rep': rep}


def lammps(text, charges):
    lines = text.split('\n')
    out = {'masses': {}}
    section = None
    atoms = []
    for l in lines:
        w = l.split()
        if not w:
            continue
        if w[-1] == 'atoms':
            out['n'] = int(w[0])
        elif w[1:] == ['atom', 'types']:
            out['types'] = int(w[0])
        elif w[-1] in ('xhi', 'yhi', 'zhi'):
            out[w[-1][0]] = float(w[1]) - float(w[0])
        elif w[-1] == 'yz':
            out['tilt'] = [float(x) for x in w[:3]]
        elif w[0] in ('Masses', 'Atoms'):
            section = w[0]
        elif section == 'Masses':
            out['masses'][int(w[0])] = float(w[1])
        elif section == 'Atoms':
            atoms.append([float(x) for x in w])
    xy, xz, yz = out.get('tilt', [0, 0, 0])
    out['cell'] = np.array([[out['x'], 0, 0], [xy, out['y'], 0], [xz, yz, out['z']]])
    a = np.array(atoms)
    equal([int(x) for x in a[:, 0]], list(range(1, len(a) + 1)), 'atom numbers')
    out['type'] = [int(x) for x in a[:, 1]]
    if charges:
        out['q'] = a[:, 2]
    out['pos'] = a[:, -3:]
    return out


def check(case):
    import dynaphopy.interface.iofile as io
    import dynaphopy.generate_cell as g
    rng = mix(case)
    sup = SUPS[int(rng.integers(6))]
    st, data = lib.structure(rng, case['natoms'], case['cell'], scaled=case['given'], charges=case['charges'])
    el = [data['elements'][k] for k, n in lib.images(data, sup)]
    cell = np.diag(sup) @ data['cell']
    pos = lib.super_positions(data, sup)
    kw = {} if sup == [1, 1, 1] and case['own'] else {'supercell': sup if rng.random() < .5 else tuple(sup)}
    if case['kind'] == 'poscar':
        text = call(g.generate_VASP_structure, st, scaled=case['scaled'], **kw)
        with open('POSCAR', 'w') as f:
            f.write(text)
        r = call(io.read_from_file_structure_poscar, 'POSCAR')
        what = ' of the POSCAR %s read back' % ('direct' if case['scaled'] else 'cartesian')
        close(np.array(r.get_cell(), float), cell, rtol=0, atol=1e-9, what='cell' + what)
        equal([str(x) for x in r.get_atomic_elements()], el, 'elements' + what)
        close(np.array(r.get_positions(), float), pos, rtol=0, atol=2e-8, what='positions' + what)
        close(np.array(r.get_scaled_positions(), float), pos @ np.linalg.inv(cell), rtol=0, atol=2e-8, what='scaled positions' + what)
        # the structure that was written is still the same
        close(np.array(st.get_positions(), float), data['positions'], atol=1e-12, what='positions of the structure written')
        return
    if case['kind'] == 'read':
        m = float(rng.choice([1., 2., .5])) if rng.random() < .6 else 1.
        old = rng.random() < .3
        blocks = [i for i in range(len(el)) if i == 0 or el[i] != el[i - 1]]
        counts = [str(b - a) for a, b in zip(blocks, blocks[1:] + [len(el)])]
        names = ' '.join(el[i] for i in blocks)
        mode = str(rng.choice(['Direct', 'direct', 'd', 'D'] if case['scaled'] else ['Cartesian', 'cart', 'K', 'c']))
        c = pos @ np.linalg.inv(cell) if case['scaled'] else pos / m
        # a negative number is the volume of the cell
        given = -abs(np.linalg.det(cell)) if rng.random() < .25 else m
        with open('POSCAR', 'w') as f:
            f.write((names if old else 'comment') + '\n %.10f\n' % given)
            f.write('\n'.join('%.15f %.15f %.15f' % tuple(x / m) for x in cell) + '\n')
            f.write(('' if old else names + '\n') + ' '.join(counts) + '\n' + mode + '\n')
            f.write('\n'.join('  %.15f %.15f %.15f' % tuple(x) for x in c) + '\n')
        r = call(io.read_from_file_structure_poscar, 'POSCAR')
        what = ' read from a %s POSCAR (%s, scale %s)' % ('old style' if old else 'new style', mode, given)
        close(np.array(r.get_cell(), float), cell, rtol=0, atol=1e-9, what='cell' + what)
        equal([str(x) for x in r.get_atomic_elements()], el, 'elements' + what)
        close(np.array(r.get_positions(), float), pos, rtol=0, atol=1e-8, what='positions' + what)
        return
    text = call(g.generate_LAMMPS_structure, st, **kw)
    o = lammps(text, case['charges'])
    equal(o['n'], len(el), 'number of atoms of the LAMMPS structure')
    close(o['cell'] @ o['cell'].T, cell @ cell.T, rtol=0, atol=1e-6, what='lengths and angles of the LAMMPS cell')
    rot = np.linalg.inv(cell) @ o['cell']
    close(rot @ rot.T, np.eye(3), rtol=0, atol=1e-6, what='rotation to the LAMMPS cell')
    d0 = (pos - pos[0]) @ rot
    d1 = o['pos'] - o['pos'][0]
    close(d1, d0, rtol=0, atol=1e-6, what='interatomic vectors of the LAMMPS structure')
    m = data['masses'][[k for k, n in lib.images(data, sup)]]
    close(np.array([o['masses'][t] for t in o['type']]), m, rtol=0, atol=1e-8, what='masses of the LAMMPS structure')
    for i in range(len(el)):
        for j in range(i):
            if (o['type'][i] == o['type'][j]) != (el[i] == el[j]):
                fail('atoms %d (%s) and %d (%s) have LAMMPS types %d, %d' % (i, el[i], j, el[j], o['type'][i], o['type'][j]))
    equal(o['types'], len(set(el)), 'number of LAMMPS types')
    if case['charges']:
        close(o['q'], np.array(data['charges'])[[k for k, n in lib.images(data, sup)]], rtol=1e-9, what='charges of the LAMMPS structure')
