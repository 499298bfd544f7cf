"""Independent reference model of an open kinematic tree.

Nothing here imports arboris.  Every joint is a chain of elementary screws
(product of exponentials), Jacobians are the screws carried to the body frame,
Jacobian derivatives follow from d/dt Ad(H_bi) = -ad(T_b/i) Ad(H_bi), and the
bias force is the Newton-Euler one, M dT/dt - ad(T)^T M T = W.
Twists are ordered (angular, linear) and are body twists.
"""
import numpy as np

_eye3 = np.eye(3)


def hat(w):
    return np.array([[0., -w[2], w[1]], [w[2], 0., -w[0]], [-w[1], w[0], 0.]])


def rot(axis, a):
    """Rodrigues' formula."""
    k = hat(axis)
    return _eye3 + np.sin(a) * k + (1. - np.cos(a)) * (k @ k)


def mk(R=None, p=None):
    H = np.eye(4)
    if R is not None:
        H[:3, :3] = R
    if p is not None:
        H[:3, 3] = p
    return H


def hinv(H):
    R = H[:3, :3].T
    return mk(R, -R @ H[:3, 3])


def Ad(H):
    R, p = H[:3, :3], H[:3, 3]
    A = np.zeros((6, 6))
    A[:3, :3] = R
    A[3:, 3:] = R
    A[3:, :3] = hat(p) @ R
    return A


def ad(T):
    A = np.zeros((6, 6))
    W = hat(T[:3])
    A[:3, :3] = W
    A[3:, 3:] = W
    A[3:, :3] = hat(T[3:])
    return A


def expse3(T):
    """exp of a twist, by scaling and squaring of the power series."""
    X = np.zeros((4, 4))
    X[:3, :3] = hat(T[:3])
    X[:3, 3] = T[3:]
    n = np.abs(X).sum()
    s = 0
    while n > 0.25:
        n *= 0.5
        s += 1
    Y = X / (2. ** s)
    E = np.eye(4)
    term = np.eye(4)
    for k in range(1, 14):
        term = term @ Y / k
        E = E + term
    for _ in range(s):
        E = E @ E
    return E


_X, _Y, _Z = np.eye(3)


def _r(a):
    return np.concatenate([a, np.zeros(3)])


def _t(a):
    return np.concatenate([np.zeros(3), a])


#: joint type -> list of unit screws, applied in order
SCREWS = {
    'RzRyRx': [_r(_Z), _r(_Y), _r(_X)],
    'RzRy': [_r(_Z), _r(_Y)],
    'RzRx': [_r(_Z), _r(_X)],
    'RyRx': [_r(_Y), _r(_X)],
    'Rz': [_r(_Z)], 'Ry': [_r(_Y)], 'Rx': [_r(_X)],
    'TxTyTz': [_t(_X), _t(_Y), _t(_Z)],
    'Tz': [_t(_Z)], 'Ty': [_t(_Y)], 'Tx': [_t(_X)],
    'Fixed': [],
    'Free': None,
}
NDOF = {k: (6 if v is None else len(v)) for k, v in SCREWS.items()}


def screw_motion(xi, q):
    if xi[:3].any():
        return mk(rot(xi[:3], q))
    return mk(None, xi[3:] * q)


def joint_pose(kind, q):
    if kind == 'Free':
        return np.array(q, dtype=float).reshape(4, 4)
    H = np.eye(4)
    for xi, a in zip(SCREWS[kind], q):
        H = H @ screw_motion(xi, a)
    return H


def joint_local(kind, q, v):
    """pose, J, dJ (in the moving frame) of a joint alone."""
    if kind == 'Free':
        return joint_pose(kind, q), np.eye(6), np.zeros((6, 6))
    sc = SCREWS[kind]
    n = len(sc)
    J = np.zeros((6, n))
    dJ = np.zeros((6, n))
    # H_after[i]: pose of the last frame in the frame just after screw i
    Haft = np.eye(4)
    for i in range(n - 1, -1, -1):
        A = Ad(hinv(Haft))
        J[:, i] = A @ sc[i]
        # twist of the last frame relative to frame i, in the last frame
        Trel = sum((J[:, k] * v[k] for k in range(i + 1, n)), np.zeros(6))
        dJ[:, i] = -ad(Trel) @ J[:, i]
        Haft = screw_motion(sc[i], q[i]) @ Haft
    return joint_pose(kind, q), J, dJ


def advance(kind, q, v, dt):
    """End-of-step joint position for end-of-step velocity v."""
    if kind == 'Free':
        return np.asarray(q).reshape(4, 4) @ expse3(np.asarray(v) * dt)
    return np.asarray(q) + dt * np.asarray(v)


class Link:
    __slots__ = ('id', 'parent', 'kind', 'H0', 'H1', 'mass', 'visc')

    def __init__(self, id, parent, kind, H0, H1, mass, visc):
        self.id, self.parent, self.kind = id, parent, kind
        self.H0, self.H1, self.mass, self.visc = H0, H1, mass, visc


class Kin:
    """kinematics of one configuration; per-body dictionaries keyed by link id
    ('g' is the ground)."""
    __slots__ = ('n', 'dof', 'H', 'T', 'J', 'dJ', 'order')


class RefTree:
    """links in insertion order; children of a body keep a list order."""

    def __init__(self):
        self.links = {}
        self.children = {'g': []}

    def add(self, link, pos=None):
        self.links[link.id] = link
        ch = self.children[link.parent]
        if pos is None:
            ch.append(link.id)
        else:
            ch.insert(pos, link.id)
        self.children.setdefault(link.id, [])

    def order(self):
        """depth-first order of links"""
        out = []

        def rec(b):
            for c in self.children[b]:
                out.append(c)
                rec(c)
        rec('g')
        return out

    def dofs(self):
        n = 0
        d = {}
        for i in self.order():
            k = NDOF[self.links[i].kind]
            d[i] = slice(n, n + k)
            n += k
        return n, d

    def kin(self, q, v, want_dj=True):
        """q, v: dict link id -> joint position / velocity"""
        K = Kin()
        K.order = self.order()
        K.n, K.dof = self.dofs()
        K.H = {'g': np.eye(4)}
        K.T = {'g': np.zeros(6)}
        K.J = {'g': np.zeros((6, K.n))}
        K.dJ = {'g': np.zeros((6, K.n))}
        # list of (dof index, pose of screw frame in ground, xi, twist of that frame)
        path = {'g': []}
        for i in K.order:
            L = self.links[i]
            Hp = K.H[L.parent]
            Hr = Hp @ L.H0
            screws = []
            H = Hr
            # twist of frame r, in r
            T = Ad(hinv(L.H0)) @ K.T[L.parent]
            d0 = K.dof[i].start
            if L.kind == 'Free':
                Hj = joint_pose('Free', q[i])
                H = Hr @ Hj
                T = Ad(hinv(Hj)) @ T + np.asarray(v[i], dtype=float)
                for k in range(6):
                    e = np.zeros(6)
                    e[k] = 1.
                    screws.append((d0 + k, H, e, T))
            else:
                for k, xi in enumerate(SCREWS[L.kind]):
                    M = screw_motion(xi, q[i][k])
                    H = H @ M
                    T = Ad(hinv(M)) @ T + xi * v[i][k]
                    screws.append((d0 + k, H, xi, T))
            Hn1 = hinv(L.H1)
            Hb = H @ Hn1
            Tb = Ad(L.H1) @ T
            path[i] = path[L.parent] + screws
            K.H[i] = Hb
            K.T[i] = Tb
            J = np.zeros((6, K.n))
            dJ = np.zeros((6, K.n))
            Hbi = hinv(Hb)
            for (d, Hs, xi, Ts) in path[i]:
                A = Ad(Hbi @ Hs)
                col = A @ xi
                J[:, d] = col
                if want_dj:
                    dJ[:, d] = -ad(Tb - A @ Ts) @ col
            K.J[i] = J
            K.dJ[i] = dJ
        return K

    # --- dynamics -----------------------------------------------------
    def mass(self, K):
        M = np.zeros((K.n, K.n))
        for i in K.order:
            M += K.J[i].T @ self.links[i].mass @ K.J[i]
        return M

    def visc(self, K):
        B = np.zeros((K.n, K.n))
        for i in K.order:
            if self.links[i].visc is not None:
                B += K.J[i].T @ self.links[i].visc @ K.J[i]
        return B

    def bias(self, K, gvel):
        h = np.zeros(K.n)
        for i in K.order:
            m = self.links[i].mass
            T = K.T[i]
            h += K.J[i].T @ (m @ (K.dJ[i] @ gvel) - ad(T).T @ (m @ T))
        return h

    def weight(self, K, gvec):
        """generalized force of a uniform field (acceleration gvec)"""
        F = np.zeros(K.n)
        for i in K.order:
            m = self.links[i].mass
            a = np.zeros(6)
            a[3:] = K.H[i][:3, :3].T @ gvec
            F += K.J[i].T @ (m @ a)
        return F

    def momentum(self, K):
        P = np.zeros(6)
        for i in K.order:
            P += Ad(hinv(K.H[i])).T @ (self.links[i].mass @ K.T[i])
        return P

    def kinetic(self, K):
        return sum(0.5 * K.T[i] @ self.links[i].mass @ K.T[i] for i in K.order)

    def potential(self, K, up, g=9.81):
        E = 0.
        for i in K.order:
            m = self.links[i].mass
            if m[3, 3] > 0:
                E += m[3, 3] * g * float(np.dot(self.com(K, i), up))
        return E

    def com_local(self, i):
        m = self.links[i].mass
        rx = m[:3, 3:] / m[5, 5]
        return np.array([rx[2, 1], rx[0, 2], rx[1, 0]])

    def com(self, K, i):
        return K.H[i][:3, :3] @ self.com_local(i) + K.H[i][:3, 3]

    def stack(self, K, v):
        g = np.zeros(K.n)
        for i in K.order:
            g[K.dof[i]] = v[i]
        return g


# --- masses ------------------------------------------------------------
def mass_matrix(m, Ip, R, c):
    """6x6 mass matrix, in a frame where the principal frame has rotation R and
    origin c (mass m, principal moments Ip)."""
    Ic = R @ np.diag(Ip) @ R.T
    ch = hat(c)
    M = np.zeros((6, 6))
    M[:3, :3] = Ic - m * ch @ ch
    M[:3, 3:] = m * ch
    M[3:, :3] = -m * ch
    M[3:, 3:] = m * _eye3
    return M


# --- signed distances ----------------------------------------------------
def sd_sphere_sphere(c0, r0, c1, r1):
    """signed distance, unit normal 0->1, closest points"""
    d = c1 - c0
    n = np.linalg.norm(d)
    u = d / n
    return n - r0 - r1, u, c0 + r0 * u, c1 - r1 * u


def sd_plane_sphere(H, coeffs, c1, r1):
    """plane n.x = d in frame H (the convention of the code base's doctests)"""
    n = H[:3, :3] @ coeffs[:3]
    d = coeffs[3] + n @ H[:3, 3]
    h = n @ c1 - d
    return h - r1, n, c1 - h * n, c1 - r1 * n


def sd_box_sphere(H, he, c1, r1):
    he = np.asarray(he)
    p = H[:3, :3].T @ (c1 - H[:3, 3])
    if (np.abs(p) <= he).all():
        dist = np.concatenate([he - p, he + p])
        i = int(np.argmin(dist))
        nl = np.zeros(3)
        f = p.copy()
        if i < 3:
            nl[i] = 1.
            f[i] = he[i]
        else:
            nl[i - 3] = -1.
            f[i - 3] = -he[i - 3]
        n = H[:3, :3] @ nl
        fg = H[:3, :3] @ f + H[:3, 3]
        return -dist[i] - r1, n, fg, c1 - r1 * n
    f = np.minimum(he, np.maximum(-he, p))
    fg = H[:3, :3] @ f + H[:3, 3]
    d = p - f                   # never zero
    nn = np.linalg.norm(d)
    u = H[:3, :3] @ (d / nn)
    return nn - r1, u, fg, c1 - r1 * u
