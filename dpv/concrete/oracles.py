"""Specifications written directly from the property statements."""
import numpy as np
from dpv.concrete import lib


def mass_weighted(data, sup, vel):
    m = data['masses'][lib.super_index(data, sup)]
    return np.array(vel) * np.sqrt(m)[None, :, None]


def super_types(data, sup):
    return data['types'][lib.super_index(data, sup)]


def q_cart(data, q):
    prim = (data['cell'].T @ data['primitive']).T
    return 2 * np.pi * np.linalg.inv(prim) @ np.array(q)


def project(data, sup, vel, qc, atom=-1):
    v = mass_weighted(data, sup, vel)
    x = lib.super_positions(data, sup)
    t = super_types(data, sup)
    n = len(set(data['types']))
    out = np.zeros((v.shape[0], n, 3), complex)
    for i in range(v.shape[1]):
        if atom >= 0 and t[i] != atom:
            continue
        out[:, t[i]] += v[:, i] * np.exp(-1j * float(qc @ x[i]))
    return out / np.sqrt(v.shape[1] / n)


def mode_project(vc, ev):
    return np.einsum('tjk,mjk->tm', vc, np.conj(ev))


class T:
    def __init__(self, dt):
        self.dt = dt

    def get_time_step_average(self):
        return self.dt


def column_spectrum(alg, v, dt, par):
    """spectrum of one signal by the algorithm of the code (its value is the matter of C02, C03 and C05)"""
    from dynaphopy.power_spectrum import power_spectrum_functions as F
    return np.array(lib.call(F[alg][0], np.array(v)[:, None], T(dt), par))[:, 0]
