"""Independent reference model: plain numpy, written from the mathematics, never calls oranssi or PennyLane.

Uses the un-instrumented numpy/scipy routines captured here at import time (before the seams are installed)."""
import itertools
import numpy as np

_eigh = np.linalg.eigh
_svd = np.linalg.svd

PAULI = {
    'I': np.eye(2, dtype=complex),
    'X': np.array([[0, 1], [1, 0]], dtype=complex),
    'Y': np.array([[0, -1j], [1j, 0]], dtype=complex),
    'Z': np.array([[1, 0], [0, -1]], dtype=complex),
}
SINGLES = ['X', 'Y', 'Z']
PAIRS = [a + b for a in 'XYZ' for b in 'XYZ']
TRIPLES = [a + b + c for a in 'XYZ' for b in 'XYZ' for c in 'XYZ']


def arr(x):
    return np.array(np.asarray(x), dtype=complex)


def word_matrix(word, wires, n):
    """Pauli word on wires (in order), identity elsewhere; wire 0 is the most significant."""
    letters = ['I'] * n
    for w, p in zip(wires, word):
        letters[w] = p
    m = np.ones((1, 1), dtype=complex)
    for p in letters:
        m = np.kron(m, PAULI[p])
    return m


def rot(word, wires, n, theta):
    """exp(-i theta/2 P)"""
    p = word_matrix(word, wires, n)
    return np.cos(theta / 2) * np.eye(2 ** n) - 1j * np.sin(theta / 2) * p


def gate_matrix(g, n):
    name = g[0]
    if name == 'H':
        m = (word_matrix('X', (g[1],), n) + word_matrix('Z', (g[1],), n)) / np.sqrt(2)
        return m
    if name in ('RX', 'RY', 'RZ'):
        return rot(name[1], (g[2],), n, g[1])
    if name == 'CNOT':
        c, t = g[1]
        e = np.eye(2 ** n)
        z = word_matrix('Z', (c,), n)
        return (e + z) / 2 + (e - z) / 2 @ word_matrix('X', (t,), n)
    if name == 'PauliRot':
        return rot(g[2], g[3], n, g[1])
    raise ValueError(name)


def circuit_unitary(gates, n):
    u = np.eye(2 ** n, dtype=complex)
    for g in gates:
        u = gate_matrix(g, n) @ u
    return u


def unitary_error(u):
    u = arr(u)
    if u.ndim != 2 or u.shape[0] != u.shape[1] or not np.all(np.isfinite(u)):
        return float('inf')
    return float(np.max(np.abs(u @ u.conj().T - np.eye(u.shape[0]))))


def dist(a, b):
    a = arr(a)
    b = arr(b)
    if a.shape != b.shape:
        return float('inf')
    d = np.max(np.abs(a - b)) if a.size else 0.0
    return float(d) if np.isfinite(d) else float('inf')


def exp_herm(h, t):
    """exp(-i t h), h Hermitian"""
    s, v = _eigh(h)
    return (v * np.exp(-1j * t * s)) @ v.conj().T


def expect(phi, o):
    return float((phi.conj() @ (o @ phi)).real)


def cost(phi, obs):
    return sum(expect(phi, o) for o in obs)


def omega(phi, p, o):
    """<phi|[P,O]|phi>, purely imaginary"""
    return complex(phi.conj() @ ((p @ o - o @ p) @ phi))


# -- reference steps -------------------------------------------------------------------------------------
def exact_step(phi, obs, eta):
    """One step of the exact flow on a state: per observable, phi <- exp(eta/2 [rho, O]) phi,
    re-evaluating rho after every observable."""
    for o in obs:
        rho = np.outer(phi, phi.conj())
        # for an involution O, U(pi/2) rho U(pi/2)^+ - U(-pi/2) rho U(-pi/2)^+ = -i [O, rho]
        h = -1j * (o @ rho - rho @ o)
        phi = exp_herm(h, eta / 2) @ phi
    return phi


def exact_step_unitary(u, obs, eta):
    for o in obs:
        phi = u[:, 0]
        rho = np.outer(phi, phi.conj())
        h = -1j * (o @ rho - rho @ o)
        u = exp_herm(h, eta / 2) @ u
    return u


def grad_group_step(u, phi, o, paulis, eta, n, trotter):
    """exp(-eta/2^n sum_j <[P_j,O]> P_j) u, or the product of the single exponentials in order."""
    if trotter:
        for p in paulis:
            w = omega(phi, p, o).imag
            u = exp_herm(w * p, eta / 2 ** n) @ u
        return u
    h = np.zeros((2 ** n, 2 ** n), dtype=complex)
    for p in paulis:
        h = h + omega(phi, p, o).imag * p
    return exp_herm(h, eta / 2 ** n) @ u


def local_groups(n, locality, directions=None):
    if locality == 1:
        words = [w for w in SINGLES if directions is None or w in directions]
        sets = [(i,) for i in range(n)]
    else:
        words = [w for w in PAIRS if directions is None or w in directions]
        sets = list(itertools.combinations(range(n), 2))
    return [[word_matrix(w, q, n) for w in words] for q in sets]


def local_step(u, obs, eta, n, locality, directions=None, trotter=False):
    phi = u[:, 0]
    groups = local_groups(n, locality, directions)
    for o in obs:
        for g in groups:
            u = grad_group_step(u, phi, o, g, eta, n, trotter)
    return u


def custom_group(n, directions=None):
    out = []
    for w in SINGLES + PAIRS:
        if directions is not None and w not in directions:
            continue
        for q in itertools.combinations(range(n), len(w)):
            out.append(word_matrix(w, q, n))
    return out


def custom_step(u, obs, eta, n, directions=None, trotter=False):
    phi = u[:, 0]
    g = custom_group(n, directions)
    for o in obs:
        u = grad_group_step(u, phi, o, g, eta, n, trotter)
    return u


def algebra(n, localities=(1, 2)):
    """{(word, *qubits): matrix} of all Pauli directions of the given localities"""
    table = {1: SINGLES, 2: PAIRS, 3: TRIPLES}
    out = {}
    for l in localities:
        for w in table[l]:
            for q in itertools.combinations(range(n), l):
                out[(w,) + q] = word_matrix(w, q, n)
    return out


def gradients(phi, obs, alg):
    """{direction: |sum_o Im <[P,o]>|}"""
    h = sum(obs)
    return {k: abs(omega(phi, p, h).imag) for k, p in alg.items()}


def line_min(u, p, obs):
    """exact minimum over t of the cost of exp(-i t P) u, and a minimising angle"""
    phi = u[:, 0]
    c0 = cost(phi, obs)
    h = sum(obs)
    php = p @ h @ p
    # E(t) = a + b cos 2t + c sin 2t
    b = (expect(phi, h) - expect(phi, php)) / 2
    a = (expect(phi, h) + expect(phi, php)) / 2
    c = (1j * omega(phi, p, h)).real / 2
    r = np.hypot(b, c)
    t = 0.5 * np.arctan2(-c, -b)
    return a - r, t, c0


def rotation_about(delta, p):
    """If delta = exp(-i t P) (P an involution) return t in (-pi/2.., ], else None."""
    d = delta.shape[0]
    ct = np.trace(delta) / d
    st = 1j * np.trace(p @ delta) / d
    r = ct.real * np.eye(d) - 1j * st.real * p
    if np.max(np.abs(r - delta)) < 1e-7:
        return float(np.arctan2(st.real, ct.real))
    return None


def nearest_unitary(u):
    p, _, q = _svd(u)
    return p @ q


def full_directions(phi, obs, n):
    """all 4^n Pauli words incl. identity -> sum_o Im<[P,o]> / 2^n"""
    out = {}
    h = sum(obs)
    for w in itertools.product('IXYZ', repeat=n):
        w = ''.join(w)
        out[w] = omega(phi, word_matrix(w, range(n), n), h).imag / 2 ** n
    return out
