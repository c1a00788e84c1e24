"""Projection onto a wave vector."""
import numpy as np
from dpv.concrete import lib, oracles as O
from dpv.concrete.lib import fail, close, equal, call, mix

FUNCTIONS = ['projection.project_onto_wave_vector', 'Quasiparticle.get_q_vector', 'Quasiparticle.get_vc',
             'Structure.get_primitive_cell']
CENT = ['P', 'F', 'I', 'C', 'Z2']
SUPS = [[1, 1, 1], [2, 1, 1], [1, 2, 3], [2, 2, 2], [3, 1, 2], [1, 1, 4]]


def cases(rng, tier):
    for rep in range(60 if tier == 'quick' else 800):
        yield {'kind': 'function', 'cent': CENT[rep % 5], 'sup': SUPS[rep % 6], 'cell': lib.CELLS[rep // 2 % 6],
               'memmap': rep % 7 == 3, 'nbasis': 1 + rep % 3, 'rep': rep, 'project': rep % 3 == 1,
               'real': rep % 5 == 0, 'compute': rep % 8 == 5}
    for rep in range(30 if tier == 'quick' else 300):
        yield {'kind': 'object', 'cent': CENT[rep % 5], 'sup': SUPS[rep % 6], 'cell': lib.CELLS[rep % 6],
               'memmap': rep % 7 == 3, 'nbasis': 1 + rep % 3, 'rep': rep, 'project': rep % 2 == 1}


def check(case):
    rng = mix(case)
    sup = case['sup']
    st, data = lib.centred_structure(rng, case['nbasis'], case['cent'], case['cell'],
                                     masses='elements' if case['rep'] % 2 else 'random')
    if rng.random() < .3:   # primitive matrix set afterwards
        st.set_primitive_matrix(np.eye(3)); call(st.get_atom_type_index); call(st.get_number_of_primitive_atoms)
        st.set_primitive_matrix(data['primitive'])
    vel = True
    dyn, d = lib.dynamics(st, data, sup, rng, steps=int(rng.integers(4, 9)), velocity=None if case.get('compute') else vel,
                          memmap=case['memmap'], dt=0.01)
    if case.get('compute'):
        d['vel'] = np.array(call(lambda: dyn.velocity)).copy()
    if case.get('real'):
        from dynaphopy.dynamics import Dynamics
        dyn = Dynamics(structure=st, trajectory=d['traj'] + 0j, velocity=d['vel'] + 0j, time=d['time'], supercell=d['cell'])
    n = len(set(data['types']))
    atom = int(rng.integers(n)) if case['project'] else -1
    q = rng.uniform(-1, 1, 3) if rng.random() < .5 else rng.integers(-2, 3, 3) / np.array(sup)
    v0 = np.array(call(lambda: dyn.velocity)).copy()
    if case['kind'] == 'function':
        from dynaphopy import projection
        qc = O.q_cart(data, q)
        kw = {'project_on_atom': atom} if atom >= 0 else {}
        r = np.array(call(projection.project_onto_wave_vector, dyn, qc, **kw))
        ref = O.project(data, sup, d['vel'], qc, atom)
        close(r, ref, rtol=1e-8, what='projection at %s, atom %d' % (np.round(q, 3), atom))
        r2 = np.array(call(projection.project_onto_wave_vector, dyn, qc, **kw))
        close(r2, ref, rtol=1e-8, what='second projection')
        if atom < 0 and n > 1:
            s = sum(np.array(call(projection.project_onto_wave_vector, dyn, qc, project_on_atom=a)) for a in range(n))
            close(s, ref, rtol=1e-8, what='sum of the projections on each atom type')
    else:
        from dynaphopy import Quasiparticle
        qp = call(Quasiparticle, dyn)
        for k in range(2):
            call(qp.set_reduced_q_vector, q)
            close(np.array(call(qp.get_q_vector)), O.q_cart(data, q), rtol=1e-10, what='Cartesian wave vector')
            if case['project']:
                call(qp.set_projection_onto_atom_type, atom)
            close(np.array(call(qp.get_vc)), O.project(data, sup, d['vel'], O.q_cart(data, q), atom), rtol=1e-8, what='projected velocity')
            q = rng.uniform(-1, 1, 3)
            atom = (atom + 1) % n if case['project'] else -1
    close(np.array(call(lambda: dyn.velocity)), v0, rtol=0, atol=0, what='velocity afterwards')
    close(np.array(call(dyn.get_velocity_mass_average)), O.mass_weighted(data, sup, d['vel']) + 0j, rtol=1e-9, what='mass weighted velocity afterwards')
