"""Reference response factors: two-port network of the layers, residues at the fixed roots, triangular excitation."""
import numpy as np

ROOTS = np.array([2.0e-6, 7.9e-6, 3.1205e-5, 1.2325e-4, 4.8687e-4, 1.9231e-3, 7.5964e-3, 3.0006e-2])
ROOTS_G = np.array([1.0597e-9, 4.2389e-9, 1.6956e-8, 6.7806e-8, 2.7128e-7, 1.085e-6, 4.3417e-6, 1.7361e-5, 6.94444e-5, 2.77778e-4])


def nodes(al):
    out = [al[0] / np.sqrt(al[1] / al[0]), al[0]]
    for k in range(1, len(al)):
        out += [al[k] / np.sqrt(al[k] / al[k - 1]), al[k]]
    return np.array(out)


def transfer(layers, s):
    """(absorption, transmission) transfer functions at Laplace variable s; layers: (R m2K/W, C J/m2K) from the room side"""
    a, b, c, d = 1.0, 0.0, 0.0, 1.0
    for r, cap in layers:
        if cap < 1e-3:
            m = (1.0, r, 0.0, 1.0)
        else:
            w = np.sqrt(r * cap * s)
            m = (np.cosh(w), r * np.sinh(w) / w, w * np.sinh(w) / r, np.cosh(w))
        a, b, c, d = a * m[0] + b * m[2], a * m[1] + b * m[3], c * m[0] + d * m[2], c * m[1] + d * m[3]
    return b / d, 1.0 / d


def factors(layers, ground, dt):
    """-> a0, t0, a1[12], t1[12], r[12]"""
    al = ROOTS_G if ground else ROOTS
    s = nodes(al)
    G = np.array([transfer(layers, v) for v in s])
    R = sum(l[0] for l in layers)
    B = s[:, None] / (s[:, None] + al[None, :])
    AA = np.linalg.lstsq(B, G[:, 0] - R, rcond=None)[0]
    AT = np.linalg.lstsq(B, G[:, 1] - 1.0, rcond=None)[0]
    z = al * dt
    e = np.exp(-z)
    pad = lambda v: np.r_[v, np.zeros(12 - len(v))]
    return (R + np.sum((1 - e) / z * AA), 1.0 + np.sum((1 - e) / z * AT), pad(-AA * (1 - e) ** 2 / z), pad(-AT * (1 - e) ** 2 / z), pad(e))


def envelope(cs, rs, r_o):
    return [(r, c * 1000.0) for r, c in zip(rs, cs)] + [(r_o, 0.0)]


def ground(cs, rs):
    return [(r, c * 1000.0) for r, c in zip(rs, cs)] + [(3.0, 9900.0 * 1000.0)]
