"""Atom types."""
import numpy as np
from dpv.concrete import lib
from dpv.concrete.lib import fail, close, equal, call, mix

FUNCTIONS = ['Structure.get_atom_type_index', 'Structure.set_primitive_matrix', 'Structure.get_number_of_atom_types',
             'Structure.get_number_of_primitive_atoms']
CENT = ['P', 'F', 'I', 'C', 'Z2']


def cases(rng, tier):
    for rep in range(120 if tier == 'quick' else 1500):
        yield {'cent': CENT[rep % 5], 'cell': lib.CELLS[rep // 2 % 6], 'nbasis': 1 + rep % 4, 'rep': rep,
               'scaled': bool(rep % 2), 'variant': ['plain', 'isotope', 'wrapped', 'noise', 'reset', 'sublattice', 'close'][rep // 3 % 7]}


def classes(data, prim, tol=0.001):
    cell = (data['cell'].T @ prim).T
    inv = np.linalg.inv(cell)
    n = len(data['scaled'])
    types = [None] * n
    c = 0
    margin = 1.0
    for i in range(n):
        if types[i] is None:
            types[i] = c; c += 1
        for j in range(i + 1, n):
            d = data['positions'][j] - data['positions'][i]
            f = d @ inv
            sep = ((d - np.round(f) @ cell) ** 2).sum()
            margin = min(margin, abs(sep - tol) / tol)
            if sep < tol and data['masses'][i] == data['masses'][j]:
                types[j] = types[i]
    return types, margin


def check(case):
    rng = mix(case)
    variant = case['variant']
    st, data = lib.centred_structure(rng, case['nbasis'], case['cent'], case['cell'], masses='random' if variant == 'isotope' else 'elements')
    P = data['primitive']
    n = len(data['scaled'])
    scaled = data['scaled'].copy()
    masses = data['masses'].copy()
    if variant == 'wrapped':
        scaled = scaled + rng.integers(-2, 3, scaled.shape)
    elif variant == 'noise':
        scaled = scaled + rng.normal(size=scaled.shape) * 1e-4
    elif variant == 'isotope':      # an atom of other mass among translationally equivalent ones
        masses[rng.integers(n)] += 1.0
    elif variant == 'close':        # further atoms of the same element very near, and a cell of any size
        near = rng.uniform(.04, .3, n)[:, None] * lib.unit_vectors(rng, n)
        k = rng.permutation(n)[:max(1, n // 2)]
        data['cell'] = data['cell'] * rng.choice([1., 4., 12.])
        scaled = np.vstack([scaled, scaled[k] + near[k] @ np.linalg.inv(data['cell'])])
        data['elements'] = list(data['elements']) + [data['elements'][i] for i in k]
        masses = np.concatenate([masses, masses[k]])
        n = len(scaled)
    elif variant == 'sublattice':   # an atom of another element on the same sublattice
        k = rng.integers(n)
        data['elements'][k] = 'Si' if data['elements'][k] != 'Si' else 'O'
        masses = np.array([dict(lib.ELEMENTS)[e] for e in data['elements']])
    st, new = lib.make_structure(data['cell'], scaled, data['elements'], masses if variant == 'isotope' else None, P,
                                 case['scaled'], None, masses)
    ref, margin = classes(new, P)
    if margin < .1:
        return
    if variant == 'reset':
        other = lib.CENTRING[CENT[rng.integers(5)]][0]
        st.set_primitive_matrix(other)
        ops = [st.get_atom_type_index, st.get_number_of_atom_types, st.get_number_of_primitive_atoms, st.get_primitive_cell]
        for k in rng.permutation(4)[:rng.integers(1, 5)]:
            call(ops[k])
        st.set_primitive_matrix(P)
    sup = [int(x) for x in rng.integers(1, 4, 3)]
    asks = ['unit', 'super', 'types', 'prim', 'unique', 'masses']
    for a in list(rng.permutation(asks)) + ['unit', 'super', 'prim']:
        if a == 'unit':
            equal([int(x) for x in call(st.get_atom_type_index)], ref, 'atom types')
        elif a == 'super':
            equal([int(x) for x in call(st.get_atom_type_index, supercell=sup)], [ref[k] for k in lib.super_index(new, sup)], 'atom types of the supercell')
        elif a == 'types':
            equal(int(call(st.get_number_of_atom_types)), len(set(ref)), 'number of atom types')
        elif a == 'prim':
            equal(int(call(st.get_number_of_primitive_atoms)), len(set(ref)), 'number of primitive atoms')
        elif a == 'unique':
            equal([str(x) for x in call(st.get_atomic_elements, unique=True)], [new['elements'][ref.index(t)] for t in range(len(set(ref)))], 'elements of the types')
        else:
            call(st.get_masses, supercell=sup)
    close(np.array(call(st.get_positions)), new['positions'], atol=1e-9, what='positions afterwards')
