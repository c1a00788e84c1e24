"""Order of the atoms of a supercell."""
import numpy as np
from dpv.concrete import lib
from dpv.concrete.lib import fail, close, equal, call, mix

FUNCTIONS = ['Structure.get_positions', 'Structure.get_scaled_positions', 'Structure.get_masses', 'Structure.get_charges',
             'Structure.get_atomic_elements', 'Structure.get_atomic_numbers', 'Structure.get_atom_type_index',
             'Structure.get_cell']
SUPS = [None, [1, 1, 1], [2, 1, 1], [1, 3, 1], [1, 1, 2], [2, 3, 1], [1, 2, 4], [3, 2, 2], [2, 2, 2]]
GET = ['positions', 'scaled', 'masses', 'charges', 'elements', 'numbers', 'types', 'cell', 'unit', 'params']


def cases(rng, tier):
    for rep in range(120 if tier == 'quick' else 2000):
        yield {'cell': lib.CELLS[rep % 6], 'sup': SUPS[rep % 9], 'cent': ['P', 'F', 'C', 'I', 'Z2'][rep % 5],
               'nbasis': 1 + rep % 4, 'scaled': bool(rep // 2 % 2), 'array': rep % 3, 'rep': rep,
               'masses': ['elements', 'random'][rep // 3 % 2]}


def check(case):
    rng = mix(case)
    st, data = lib.centred_structure(rng, case['nbasis'], case['cent'], case['cell'], masses=case['masses'],
                                     scaled=case['scaled'], charges=True)
    from dynaphopy.atoms import symbol_map
    order = list(rng.permutation(GET)) + ['positions', 'scaled', 'cell', 'types', 'unit']
    for step, g in enumerate(order):
        sup = case['sup'] if rng.random() < .7 else SUPS[rng.integers(1, 9)]
        s3 = sup or [1, 1, 1]
        arg = sup if sup is None or case['array'] == 0 else (np.array(sup) if case['array'] == 1 else tuple(sup))
        idx = lib.super_index(data, s3)
        what = '%s of the %s supercell' % (g, s3)
        if g == 'positions':
            close(call(st.get_positions, supercell=arg), lib.super_positions(data, s3), atol=1e-8, what=what)
        elif g == 'scaled':
            ref = lib.super_positions(data, s3) @ np.linalg.inv(np.diag(s3) @ data['cell'])
            close(np.array(call(st.get_scaled_positions, supercell=arg)), ref, atol=1e-8, what=what)
        elif g == 'masses':
            close(np.array(call(st.get_masses, supercell=arg), float), data['masses'][idx], what=what)
        elif g == 'charges':
            close(np.array(call(st.get_charges, supercell=arg), float), np.array(data['charges'])[idx], what=what)
        elif g == 'elements':
            equal(list(call(st.get_atomic_elements, supercell=arg)), [data['elements'][k] for k in idx], what=what)
        elif g == 'numbers':
            equal([int(x) for x in call(st.get_atomic_numbers, supercell=arg)], [symbol_map[data['elements'][k]] for k in idx], what=what)
        elif g == 'types':
            equal([int(x) for x in call(st.get_atom_type_index, supercell=arg)], [int(data['types'][k]) for k in idx], what=what)
        elif g == 'cell':
            close(np.array(call(st.get_cell, supercell=arg), float), np.diag(s3) @ data['cell'], what=what)
        elif g == 'unit':
            close(np.array(call(st.get_cell)), data['cell'], what='unit cell')
            close(np.array(call(st.get_positions)), data['positions'], atol=1e-9, what='unit cell positions')
            close(np.array(call(st.get_scaled_positions)) @ np.array(call(st.get_cell)), data['positions'], atol=1e-9, what='scaled positions times cell')
            equal(int(call(st.get_number_of_cell_atoms)), len(data['scaled']), 'number of atoms')
        else:
            a, b, c, al, be, ga = [float(x) for x in call(st.get_cell_parameters, supercell=arg)]
            m = np.diag(s3) @ data['cell']
            l = np.linalg.norm(m, axis=1)
            ang = [np.arccos(m[i] @ m[j] / l[i] / l[j]) for i, j in ((1, 2), (0, 2), (0, 1))]
            close([a, b, c, al, be, ga], [*l, *ang], what='cell parameters')
    # new positions replace the old ones in every later answer
    if case['rep'] % 3 == 0:
        new = data['positions'] + rng.uniform(-.1, .1, data['positions'].shape)
        call(st.set_positions, new)
        close(np.array(call(st.get_positions)), new, atol=1e-9, what='positions after set_positions')
        close(np.array(call(st.get_scaled_positions)), new @ np.linalg.inv(data['cell']), atol=1e-9, what='scaled positions after set_positions')
