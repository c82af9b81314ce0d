"""Reference model, written independently of xrd_simulator (plain numpy, closed forms)."""
from itertools import combinations, product

import numpy as np
from scipy.spatial import ConvexHull
from scipy.special import j1

TAU = 2 * np.pi


# ---------------------------------------------------------------- rotations and motions
def unit(v):
    v = np.asarray(v, float)
    return v / np.sqrt((v * v).sum())


def rotmat(axis, angle):
    """Rotation by the half-angle quaternion (not Rodrigues' formula)."""
    x, y, z = np.asarray(axis, float) * np.sin(angle / 2)
    w = np.cos(angle / 2)
    return np.array([
        [w*w + x*x - y*y - z*z, 2*(x*y - w*z), 2*(x*z + w*y)],
        [2*(x*y + w*z), w*w - x*x + y*y - z*z, 2*(y*z - w*x)],
        [2*(x*z - w*y), 2*(y*z + w*x), w*w - x*x - y*y + z*z]])


def random_rotation(rng):
    q = rng.normal(size=4)
    q /= np.sqrt((q * q).sum())
    ang = 2 * np.arccos(np.clip(q[0], -1, 1))
    s = np.sqrt((q[1:] ** 2).sum())
    return rotmat(q[1:] / s, ang) if s > 1e-12 else np.eye(3)


class Move:
    """x -> R(t w)(x-o) + o + t T"""

    def __init__(self, axis, angle, trans, origin=(0, 0, 0)):
        self.axis, self.angle = np.array(axis, float), float(angle)
        self.T, self.o = np.array(trans, float), np.array(origin, float)

    def R(self, t):
        return rotmat(self.axis, self.angle * t)

    def point(self, x, t):
        return self.R(t) @ (np.asarray(x, float) - self.o) + self.o + self.T * t

    def points(self, X, t):
        """(N,3) points, scalar or (N,) times"""
        X = np.asarray(X, float)
        t = np.broadcast_to(np.asarray(t, float), (len(X),))
        return np.array([self.point(x, s) for x, s in zip(X, t)]).reshape(len(X), 3)

    def vectors(self, X, t):
        X = np.asarray(X, float)
        t = np.broadcast_to(np.asarray(t, float), (len(X),))
        return np.array([self.R(s) @ x for x, s in zip(X, t)]).reshape(len(X), 3)


# ---------------------------------------------------------------- lattices
def cell_basis(cell):
    """Direct lattice vectors as columns (a along x, b in the xy plane)."""
    a, b, c = cell[:3]
    al, be, ga = np.radians(cell[3:6])
    av = np.array([a, 0, 0])
    bv = np.array([b * np.cos(ga), b * np.sin(ga), 0])
    cx = c * np.cos(be)
    cy = c * (np.cos(al) - np.cos(be) * np.cos(ga)) / np.sin(ga)
    cz = np.sqrt(c * c - cx * cx - cy * cy)
    return np.column_stack((av, bv, [cx, cy, cz]))


def metric(cell):
    A = cell_basis(cell)
    return A.T @ A


def recip_metric(cell):
    """G* with |G_hkl| = 2 pi sqrt(h G* h)."""
    return np.linalg.inv(metric(cell))


def Bmat(cell):
    """Upper triangular B (with 2 pi): a* along x, b* in the xy plane, from the reciprocal metric."""
    L = np.linalg.cholesky(recip_metric(cell))
    return TAU * L.T


def strained_B(B0, eps_lab, U):
    """Upper triangular B with the reciprocal metric of the deformed cell, B^T B = B0^T C^-1 B0,
    C = 2 U^T E U + I; None when infeasible."""
    E = U.T @ eps_lab @ U
    C = 2 * E + np.eye(3)
    if np.linalg.eigvalsh(C)[0] <= 0:
        return None
    M = B0.T @ np.linalg.solve(C, B0)
    return np.linalg.cholesky((M + M.T) / 2).T


def direct_basis(cell):
    """Direct lattice vectors as columns in the crystal frame of Bmat (a* along x)."""
    return TAU * np.linalg.inv(Bmat(cell)).T


def d_star(cell, hkl):
    hkl = np.asarray(hkl, float).reshape(-1, 3)
    return np.sqrt(np.einsum("ni,ij,nj->n", hkl, recip_metric(cell), hkl))


# allowed reflections: lattice centring, screw axes and glide planes
def _fcc(h, k, l):
    return len({h % 2, k % 2, l % 2}) == 1


def _bcc(h, k, l):
    return (h + k + l) % 2 == 0


def _diamond(h, k, l):
    if not _fcc(h, k, l):
        return False
    if h % 2 == 0:  # all even
        if h == 0 or k == 0 or l == 0:
            # d glides: 0kl with k+l=4n (and permutations)
            if h == 0 and (k + l) % 4:
                return False
            if k == 0 and (h + l) % 4:
                return False
            if l == 0 and (h + k) % 4:
                return False
        return True
    return True


def _p3221(h, k, l):
    return not (h == 0 and k == 0) or l % 3 == 0


def _p21c(h, k, l):
    if h == 0 and l == 0 and k % 2:
        return False
    if k == 0 and l % 2:
        return False
    return True


def _r3m(h, k, l):
    return (-h + k + l) % 3 == 0


def _cm(h, k, l):
    return (h + k) % 2 == 0


def _p63mmc(h, k, l):
    # 6_3 screw along c: 00l, l=2n; c glide: hhl (and equivalents h,-2h,l and -2h,h,l) l=2n
    if l % 2 and (h == k or k == -2 * h or h == -2 * k):
        return False
    return True


def _all(h, k, l):
    return True


def _p212121(h, k, l):
    if h == 0 and k == 0 and l % 2:
        return False
    if h == 0 and l == 0 and k % 2:
        return False
    if k == 0 and l == 0 and h % 2:
        return False
    return True


def _hh2hl(h, k, l):
    return l % 2 == 0 or not (h == k or k == -2 * h or h == -2 * k)


def _hh0l(h, k, l):
    return l % 2 == 0 or not (h == 0 or k == 0 or h == -k)


def _each(rule):
    """A cubic condition on hkl that holds for its cyclic permutations."""
    return lambda h, k, l: rule(h, k, l) and rule(k, l, h) and rule(l, h, k)


def _glide_n(h, k, l):  # 0kl: k + l = 2n
    return h != 0 or (k + l) % 2 == 0


def _glide_c(h, k, l):  # hhl: l = 2n
    return abs(h) != abs(k) or l % 2 == 0


def _glide_d(h, k, l):  # hhl: 2h + l = 4n
    return abs(h) != abs(k) or (2 * h + l) % 4 == 0


def _both(*rules):
    return lambda h, k, l: all(r(h, k, l) for r in rules)


_cache = {}


def allowed(sg, g):
    """Which reflections of a space group are not systematically absent: by the conditions in the International Tables
    where they are written down here, else by the symmetry operations."""
    g = np.asarray(g, float).reshape(-1, 3)
    if sg in ALLOWED:
        return np.array([ALLOWED[sg](*(int(v) for v in r)) for r in g], bool)
    return allowed_by_operations(sg, g)


def allowed_by_operations(sg, g):
    if sg not in _cache:
        from xfab import sg as xfab_sg
        s = xfab_sg.sg(sgname=sg)
        _cache[sg] = [(np.array(R, float), np.round(np.array(t, float) * 24) / 24) for R, t in
                      zip(s.rot[:s.nsymop], s.trans[:s.nsymop])]
    g = np.asarray(g, float).reshape(-1, 3)
    ok = np.ones(len(g), bool)
    for R, t in _cache[sg]:
        p = g @ t
        ok &= ~((g @ R == g).all(1) & (np.abs(p - np.round(p)) > 0.02))
    return ok


ALLOWED = {"Fm-3m": _fcc, "Im-3m": _bcc, "Fd-3m": _diamond, "P3221": _p3221, "P3121": _p3221, "P21/c": _p21c,
           "P-1": _all, "P1": _all, "Pm-3m": _all, "P4/mmm": _all, "R-3m": _r3m, "C2/m": _cm,
           "P212121": _p212121, "Pmmm": _all, "P63/mmc": _p63mmc, "P2": _all, "I4/mmm": _bcc,
           "P63mc": _hh2hl, "P-62c": _hh2hl, "P63cm": _hh0l, "P-6c2": _hh0l, "I432": _bcc, "Pn-3m": _each(_glide_n),
           "Pm-3n": _each(_glide_c), "P-43n": _each(_glide_c), "Pn-3n": _both(_each(_glide_n), _each(_glide_c)),
           "F-43c": _both(_fcc, _each(_glide_c)), "Fm-3c": _both(_fcc, _each(_glide_c)),
           "I-43d": _both(_bcc, _each(_glide_d)),
           "Ia-3d": _both(_bcc, _each(_glide_d), _each(lambda h, k, l: h != 0 or (k % 2 == 0 and l % 2 == 0)))}


def hkls_in(cell, sg, wavelength, bmin, bmax, slack=1e-9):
    """(sure, maybe): hkl certainly within the Bragg bounds, and those on the boundary."""
    smin, smax = np.sin(bmin) / wavelength, np.sin(bmax) / wavelength
    A = cell_basis(cell)
    n = [int(np.ceil(2 * smax * np.linalg.norm(A[:, i]) + 1e-9)) for i in range(3)]
    g = np.array(np.meshgrid(*[np.arange(-m, m + 1) for m in n], indexing="ij")).reshape(3, -1).T
    s = d_star(cell, g) / 2
    tol = slack * max(smax, 1e-3) + slack
    keep = (s >= smin - tol) & (s <= smax + tol) & (np.abs(g).sum(1) > 0)
    g, s = g[keep], s[keep]
    ok = allowed(sg, g)
    g, s = g[ok], s[ok]
    border = (s < smin + tol) | (s > smax - tol)
    return {tuple(int(v) for v in r) for r in g[~border]}, {tuple(int(v) for v in r) for r in g[border]}


# ---------------------------------------------------------------- Laue
def laue_times(k, axis, angle, G):
    """All phi in [0, 2pi) with k.(R(phi)G) + G^2/2 = 0; returns (times, margin) where margin is
    the relative distance of the discriminant from tangency."""
    kn, Gn = k @ axis, G @ axis
    A = k @ G - kn * Gn
    B = k @ np.cross(axis, G)
    C = kn * Gn + G @ G / 2
    amp = np.hypot(A, B)
    if amp == 0:
        return [], -1.0
    x = -C / amp
    margin = 1 - abs(x)
    if abs(x) > 1:
        return [], margin
    base = np.arctan2(B, A)
    d = np.arccos(x)
    return [((base + s * d) % TAU) / angle for s in (1, -1)], margin


def laue_times_many(k, axis, angle, G):
    """Vectorised: G (N,3) -> phi1/angle, phi2/angle (N,), margin (N,), amp-conditioning."""
    kn, Gn = k @ axis, G @ axis
    A = G @ k - kn * Gn
    B = np.cross(axis, G) @ k
    C = kn * Gn + (G * G).sum(1) / 2
    amp = np.hypot(A, B)
    with np.errstate(all="ignore"):
        x = -C / amp
        d = np.arccos(np.where(np.abs(x) <= 1, x, np.nan))
        base = np.arctan2(B, A)
        p1, p2 = ((base + d) % TAU), ((base - d) % TAU)
    return p1, p2, 1 - np.abs(x), amp


# ---------------------------------------------------------------- intensity factors
def lorentz(k, kout, axis):
    """(value, distance in degrees from the singular region boundary)"""
    ku = unit(k)
    tt = np.arctan2(np.linalg.norm(np.cross(ku, kout)), ku @ kout)
    perp = kout - ku * (ku @ kout)
    eta = np.arctan2(np.linalg.norm(np.cross(axis, perp)), axis @ perp)
    e = np.degrees(eta)
    th = np.degrees(tt) / 2
    m = min(abs(e - 0.5), abs(e - 179.5), abs(th - 0.5))
    singular = e < 0.5 or e > 179.5 or th < 0.5
    return (np.inf if singular else 1 / (np.sin(tt) * abs(np.sin(eta)))), m


def polarization(kout, pol):
    return 1 - (unit(kout) @ unit(pol)) ** 2


def scherrer(volume, two_theta, wavelength, K=0.9):
    D = 2e4 * np.cbrt(3 * volume / (4 * np.pi))
    return K * wavelength / (D * np.cos(two_theta / 2))


def two_theta(k, kout):
    return np.arctan2(np.linalg.norm(np.cross(k, kout)), k @ kout)


# ---------------------------------------------------------------- polyhedra
def halfspaces(points):
    """Unit outward normals and offsets n.x + d <= 0 of the convex hull, each face once."""
    H = ConvexHull(np.asarray(points, float)).equations
    keep = []
    for h in H:
        if not any(np.abs(h[:3] - q[:3]).max() < 1e-9 and abs(h[3] - q[3]) < 1e-9 * (1 + abs(h[3])) for q in keep):
            keep.append(h)
    return np.array(keep)


def inside_margin(H, x):
    """Signed distance: > 0 inside."""
    return -(H[:, :3] @ x + H[:, 3]).max()


def tet_volume(V):
    return abs(np.linalg.det(np.asarray(V)[1:] - np.asarray(V)[0])) / 6


def tet_planes(V):
    """Halfspaces of a tetrahedron, directly from its vertices."""
    out = []
    V = np.asarray(V, float)
    for i in range(4):
        a, b, c = V[[j for j in range(4) if j != i]]
        n = np.cross(b - a, c - a)
        n /= np.linalg.norm(n)
        if n @ (V[i] - a) > 0:
            n = -n
        out.append([*n, -n @ a])
    return np.array(out)


def clip_polyhedron(V, H):
    """Clip the convex polyhedron with faces F (list of vertex arrays) by halfspaces, exactly
    (Sutherland-Hodgman on faces). Returns list of faces (arrays of vertices), possibly empty."""
    V = np.asarray(V, float)
    faces = [V[list(f)] for f in ((0, 1, 2), (0, 1, 3), (0, 2, 3), (1, 2, 3))]
    scale = np.abs(V - V.mean(0)).max() + 1e-300
    for h in H:
        n, d = h[:3], h[3]
        new, cut = [], []
        for F in faces:
            s = F @ n + d
            out = []
            for i in range(len(F)):
                j = (i + 1) % len(F)
                if s[i] <= 0:
                    out.append(F[i])
                if (s[i] < 0 < s[j]) or (s[j] < 0 < s[i]):
                    w = s[i] / (s[i] - s[j])
                    p = F[i] + w * (F[j] - F[i])
                    out.append(p)
                    cut.append(p)
                elif s[i] == 0:
                    cut.append(F[i])
            if len(out) >= 3:
                new.append(np.array(out))
        if cut and new:
            P = np.array(cut)
            c = P.mean(0)
            # order the cut polygon around its centre
            u = np.cross(n, [1, 0, 0]) if abs(n[0]) < 0.9 else np.cross(n, [0, 1, 0])
            u = u / np.linalg.norm(u)
            v = np.cross(n, u)
            ang = np.arctan2((P - c) @ v, (P - c) @ u)
            P = P[np.argsort(ang)]
            if len(P) >= 3 and np.ptp(P, axis=0).max() > 1e-12 * scale:
                new.append(P)
        faces = new
        if len(faces) < 3:
            return []
    return faces


def faces_volume_centroid(faces):
    """Volume and centroid of a convex polyhedron given its (unordered-orientation) faces."""
    if not faces:
        return 0.0, np.full(3, np.nan)
    P = np.vstack(faces)
    c = P.mean(0)
    vol, mom = 0.0, np.zeros(3)
    for F in faces:
        for i in range(1, len(F) - 1):
            T = np.array([c, F[0], F[i], F[i + 1]])
            v = abs(np.linalg.det(T[1:] - T[0])) / 6
            vol += v
            mom += v * T.mean(0)
    return vol, (mom / vol if vol > 0 else np.full(3, np.nan))


def clip_volume(V, H):
    return faces_volume_centroid(clip_polyhedron(V, H))


def surface_area(faces):
    s = 0.0
    for F in faces:
        for i in range(1, len(F) - 1):
            s += np.linalg.norm(np.cross(F[i] - F[0], F[i + 1] - F[0])) / 2
    return s


# ---------------------------------------------------------------- smallest enclosing ball of 4 points
def miniball(P):
    """(radius, centre, slack): smallest ball around the points. slack is the distance by which the
    centre of a ball that contains the points within a radius margin of 1e-4 may be off."""
    P = np.asarray(P, float)
    best, cand = None, []
    for n in (2, 3, 4):
        for c in combinations(range(len(P)), n):
            Q = P[list(c)]
            D = (Q[1:] - Q[0]).T
            try:
                lam = np.linalg.solve(2 * D.T @ D, (D * D).sum(0))
            except np.linalg.LinAlgError:
                continue
            x = Q[0] + D @ lam
            r = np.linalg.norm(Q[0] - x)
            if not np.isfinite(r):
                continue
            far = np.linalg.norm(P - x, axis=1).max()
            if n < 4 and far <= r * (1 + 1.2e-4):
                cand.append((r, x, far))
            if far <= r * (1 + 1e-9) and (best is None or r < best[0]):
                best = (r, x)
    r, x = best
    slack = max([np.linalg.norm(c[1] - x) for c in cand if c[2] < r * (1 + 3e-4)], default=0.0)
    return r, x, (0.0 if slack < 1e-7 * r else slack * 1.01)


def miniballs(V):
    """miniball() of every tetrahedron of V (n, 4, 3): (radii, centres, slacks)."""
    V = np.asarray(V, float).reshape(-1, 4, 3)
    n = len(V)
    R, X, C = np.full(n, np.inf), np.zeros((n, 3)), []
    try:
        with np.errstate(all="ignore"):
            for m in (2, 3, 4):
                for c in combinations(range(4), m):
                    Q = V[:, c]
                    D = (Q[:, 1:] - Q[:, :1]).transpose(0, 2, 1)
                    lam = np.linalg.solve(2 * D.transpose(0, 2, 1) @ D, (D * D).sum(1)[:, :, None])
                    x = Q[:, 0] + (D @ lam)[:, :, 0]
                    r = np.linalg.norm(Q[:, 0] - x, axis=1)
                    far = np.linalg.norm(V - x[:, None], axis=2).max(1)
                    if m < 4:
                        C.append((r, x, np.where(np.isfinite(r) & (far <= r * (1 + 1.2e-4)), far, np.inf)))
                    take = np.isfinite(r) & (far <= r * (1 + 1e-9)) & (r < R)
                    R, X = np.where(take, r, R), np.where(take[:, None], x, X)
            S = np.zeros(n)
            for r, x, far in C:
                d = np.linalg.norm(x - X, axis=1)
                S = np.where((far < R * (1 + 3e-4)) & (d > S), d, S)
        if np.isfinite(R).all():
            return R, X, np.where(S < 1e-7 * R, 0.0, S * 1.01)
    except np.linalg.LinAlgError:
        pass
    b = [miniball(v) for v in V]
    return np.array([q[0] for q in b]), np.array([q[1] for q in b]).reshape(-1, 3), np.array([q[2] for q in b])


# ---------------------------------------------------------------- detector
class Plane:
    def __init__(self, c0, c1, c2):
        self.c0, self.c1, self.c2 = (np.array(c, float) for c in (c0, c1, c2))
        self.ymax, self.zmax = np.linalg.norm(self.c1 - self.c0), np.linalg.norm(self.c2 - self.c0)
        self.yhat, self.zhat = (self.c1 - self.c0) / self.ymax, (self.c2 - self.c0) / self.zmax
        n = np.cross(self.zhat, self.yhat)
        self.normal = n / np.linalg.norm(n)

    def hit(self, src, d):
        """(zd, yd, incident angle in degrees, in_front): solves src + s d = c0 + z zhat + y yhat."""
        M = np.column_stack((self.zhat, self.yhat, -np.asarray(d, float)))
        if abs(np.linalg.det(M)) < 1e-300:
            return np.nan, np.nan, 90.0, False
        z, y, s = np.linalg.solve(M, np.asarray(src, float) - self.c0)
        cosang = -unit(d) @ self.normal
        sinang = np.linalg.norm(np.cross(unit(d), self.normal))
        return z, y, np.degrees(np.arctan2(sinang, cosang)), s >= 0


    def subtended(self, direction, apex):
        """Largest angle between the direction and a point of the rectangle, seen from the apex."""
        from scipy.optimize import minimize_scalar
        z, y, _, ahead = self.hit(apex, -np.asarray(direction, float))
        if ahead and 0 <= z <= self.zmax and 0 <= y <= self.ymax:
            return np.pi
        P = np.array([self.c0, self.c1, self.c1 + self.c2 - self.c0, self.c2]) - apex
        best = max(two_theta(direction, p) for p in P)
        if best > np.pi / 2:  # upstream, the angle has its maximum anywhere along an edge
            for a, b in zip(P, np.roll(P, -1, axis=0)):
                best = max(best, -minimize_scalar(lambda t: -two_theta(direction, a + t * (b - a)), bounds=(0, 1), method="bounded",
                                                  options=dict(xatol=1e-12)).fun)
        return best


# ---------------------------------------------------------------- Airy
def airy(r, first_zero):
    x = np.where(r == 0, 1e-9, 3.8317059702075125 * r / first_zero)
    return (2 * j1(x) / x) ** 2
