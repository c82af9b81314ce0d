"""Workload generator: random, realistic and hostile experiments."""
import numpy as np
import torch

from xrd_simulator.beam import Beam
from xrd_simulator.detector import Detector
from xrd_simulator.mesh import TetraMesh
from xrd_simulator.motion import RigidBodyMotion
from xrd_simulator.phase import Phase
from xrd_simulator.polycrystal import Polycrystal

from . import crystal, ref

CATALOGUE = [
    ([3.6149] * 3 + [90.0] * 3, "Fm-3m"),
    ([2.866] * 3 + [90.0] * 3, "Im-3m"),
    ([5.4309] * 3 + [90.0] * 3, "Fd-3m"),
    ([4.926, 4.926, 5.4189, 90.0, 90.0, 120.0], "P3221"),
    ([5.15, 5.21, 5.32, 90.0, 99.2, 90.0], "P21/c"),
    ([4.8, 5.6, 6.3, 82.0, 95.0, 104.0], "P-1"),
    ([5.1, 6.3, 4.2, 90.0, 90.0, 90.0], "P212121"),
    ([3.1, 3.1, 4.4, 90.0, 90.0, 90.0], "P4/mmm"),
    ([2.95, 2.95, 4.68, 90.0, 90.0, 120.0], "P63/mmc"),
    ([4.5, 4.5, 11.8, 90.0, 90.0, 120.0], "R-3m"),
    ([4.1, 4.9, 5.7, 90.0, 90.0, 90.0], "Pmmm"),
    ([5.1, 6.3, 4.2, 90.0, 101.0, 90.0], "P2"),
    ([3.1, 3.1, 6.4, 90.0, 90.0, 90.0], "I4/mmm"),
    ([3.905] * 3 + [90.0] * 3, "Pm-3m"),
    ([4.2, 5.9, 5.1, 78.0, 109.0, 99.0], "P1"),
    ([5.6, 4.1, 4.9, 90.0, 114.0, 90.0], "C2/m"),
    # cells of a higher symmetry than their space groups
    ([4.5, 4.5, 5.0, 90.0, 90.0, 120.0], "P1"),
    ([4.1, 4.1, 4.1, 60.0, 60.0, 60.0], "P-1"),
    ([4.4, 5.1, 5.6, 90.0, 90.0, 90.0], "P21/c"),
    ([3.189, 3.189, 5.185, 90.0, 90.0, 120.0], "P63mc"),
    ([4.759, 4.759, 12.99, 90.0, 90.0, 120.0], "R-3c"),
    ([4.594, 4.594, 2.959, 90.0, 90.0, 90.0], "P42/mnm"),
    ([12.01] * 3 + [90.0] * 3, "Ia-3d"),
    ([3.08, 3.08, 1510.0, 90.0, 90.0, 120.0], "P3m1"),
]


def maybe_torch(rng, x):
    """The same numbers as an array or tensor, now and then in another container, memory layout or number type."""
    x = np.array(x, dtype=float)
    if rng.random() < 0.7:
        return torch.tensor(x) if rng.random() < 0.5 else x
    kinds = ["list", "strided", "strided tensor", "fortran", "reversed", "read-only", "big-endian"]
    if np.isfinite(x).all():
        if (x == np.round(x)).all() and (np.abs(x) < 2 ** 30).all():
            kinds += ["int", "int tensor", "int32", "int list"] * 2
        if (x == x.astype(np.float32)).all():
            kinds += ["single", "single tensor"]
    kind = str(rng.choice(kinds))
    if kind == "list":
        return x.tolist()
    if kind == "strided" or kind == "strided tensor":
        if not x.ndim:
            return x
        y = np.repeat(x, 2, axis=-1)
        y[..., 1::2] = 777.0
        return y[..., ::2] if kind == "strided" else torch.tensor(y)[..., ::2]
    if kind == "fortran":
        return np.asfortranarray(x)
    if kind == "reversed":  # a view with a negative stride
        return x[::-1].copy()[::-1] if x.ndim else x
    if kind == "read-only":
        x.flags.writeable = False
        return x
    if kind == "big-endian":  # as read from some files
        return x.astype(">f8")
    if kind == "single":
        return x.astype(np.float32)
    if kind == "single tensor":
        return torch.tensor(x, dtype=torch.float32)
    i = x.astype(np.int64)
    return {"int": i, "int tensor": torch.tensor(i), "int32": i.astype(np.int32), "int list": i.tolist()}[kind]


def random_tets(rng, n, spread, size, shared=None):
    """(coord, enod): free tetrahedra in a region, of mixed handedness."""
    coord = []
    for _ in range(n):
        c = rng.uniform(-1, 1, 3) * spread
        while True:
            v = rng.normal(size=(4, 3))
            if abs(np.linalg.det(v[1:] - v[0])) > 0.5:
                break
        coord.append(c + v * size * rng.uniform(0.5, 1.0))
    coord = np.vstack(coord)
    enod = np.arange(4 * n).reshape(n, 4)
    perm = rng.permutation(4 * n)  # number the nodes arbitrarily
    new = np.empty_like(coord)
    new[perm] = coord
    return new, perm[enod]


def delaunay_tets(rng, npts, size):
    from scipy.spatial import Delaunay
    p = rng.uniform(-1, 1, (npts, 3)) * size
    e = Delaunay(p).simplices
    vol = np.array([ref.tet_volume(p[s]) for s in e])
    e = e[vol > 1e-3 * vol.max()]
    used = np.unique(e)
    idx = -np.ones(len(p), int)
    idx[used] = np.arange(len(used))
    return p[used], idx[e]


def random_strains(rng, n):
    """(n,3,3): from barely measurable to large, full and sparse, uniform and in single elements only."""
    e = rng.normal(size=(n, 3, 3)) * 10 ** rng.uniform(-6, -1.7)
    E = (e + e.transpose(0, 2, 1)) / 2
    kind = int(rng.choice([0, 1, 2, 3, 4, 5], p=[0.5, 0.1, 0.1, 0.1, 0.1, 0.1]))
    if kind == 1:
        E[:] = E[0]
    elif kind == 2:  # a single component
        i, j = rng.integers(0, 3, 2)
        keep = np.zeros((3, 3))
        keep[i, j] = keep[j, i] = 1
        E = E * keep
    elif kind == 3:  # hydrostatic
        E = np.eye(3) * E[:, :1, :1]
    elif kind == 4:  # some elements only
        E[rng.random(n) < 0.5] = 0
    elif kind == 5:  # of very different magnitude
        E = E * 10 ** rng.uniform(-3, 0, (n, 1, 1))
    return E


def axis_vectors(rng):
    v = np.zeros(3)
    v[rng.integers(3)] = rng.choice([-1.0, 1.0])
    return v


class Scenario:
    """Plain-number description of an experiment, and builders of the real objects."""

    def __init__(self, rng, n=None, phases=None, cif=None, strain=True, nhkl=250, beam="any", spread=None,
                 angle=None, direction=None, translate=True, wavelength=None, moved=False, large=False):
        self.rng = rng
        self.moved = moved  # reach the sample state through moves instead of construction
        self.size = 10 ** (rng.uniform(-0.5, 2.5) if rng.random() < 0.9 else rng.uniform(-3.5, -0.5))
        self.spread = spread if spread is not None else self.size * rng.choice([0.0, 1.0, 5.0])
        n = n if n is not None else int(rng.integers(1, 9))
        if rng.random() < 0.25 and n > 3:
            self.coord, self.enod = delaunay_tets(rng, n, self.size)
        else:
            self.coord, self.enod = random_tets(rng, n, self.spread, self.size)
        self.whole = bool(self.size > 30 and rng.random() < 0.15)
        if self.whole:
            x = np.round(self.coord)
            self.whole = min(ref.tet_volume(x[s]) for s in self.enod) > 1e-4 * self.size ** 3
            if self.whole:  # (no element has become flat)
                self.coord = x
        self.n = len(self.enod)
        nph = phases if phases is not None else int(rng.choice([1, 1, 2, 3]))
        ids = rng.choice(len(CATALOGUE), size=nph, replace=False)
        self.cells = []
        for i in ids:
            c, sg = CATALOGUE[i]
            c = list(c)
            if rng.random() < 0.08 and large:
                c[:3] = [v * float(f) for f in [10 ** rng.uniform(0.5, 2.3)] for v in c[:3]]
            self.cells.append((c, sg))
        if nph > 1 and rng.random() < 0.2:  # phases that hardly differ
            f = 1 + 10 ** rng.uniform(-5, -2)
            self.cells[1] = ([v * f for v in self.cells[0][0][:3]] + self.cells[0][0][3:], self.cells[0][1])
        self.cifs = [None] * nph
        self.crystals = [None] * nph
        if cif is not None:
            for j in range(nph):
                if rng.random() < 0.7:
                    self.crystals[j] = crystal.Crystal(rng, *self.cells[j])
                    self.cifs[j] = self.crystals[j].write(cif, f"phase{j}.cif")
        self.alias = list(range(nph))
        if nph > 1 and rng.random() < 0.25:  # one phase listed twice: the same object
            i, j = rng.permutation(nph)[:2]
            self.alias[j] = int(i)
            for a in (self.cells, self.cifs, self.crystals):
                a[j] = a[i]
        self.emap = rng.integers(0, nph, self.n)
        self.U = np.array([ref.random_rotation(rng) for _ in range(self.n)])
        if rng.random() < 0.15:
            self.U[:] = self.U[0]
        if strain and rng.random() < 0.75:
            self.E = random_strains(rng, self.n)
        else:
            self.E = np.zeros((self.n, 3, 3))
        self.wavelength = wavelength or float(10 ** (rng.uniform(-0.85, -0.1) if rng.random() < 0.85 else rng.uniform(-0.1, 0.7)))
        self.direction = ref.unit(rng.normal(size=3)) if direction is None else np.array(direction, float)
        p = np.cross(self.direction, rng.normal(size=3))
        self.pol = ref.unit(p)
        self.k = 2 * np.pi / self.wavelength * self.direction
        self.axis = ref.unit(rng.normal(size=3))
        if rng.random() < 0.25:
            a = np.cross(self.direction, rng.normal(size=3))
            self.axis = ref.unit(a)
        if angle is not None:
            self.angle = angle
        else:
            self.angle = float(rng.choice([10 ** rng.uniform(-2, 0), rng.uniform(0.1, 3.1), np.pi - 10 ** rng.uniform(-9, -2)],
                                          p=[0.3, 0.6, 0.1]))
        if direction is None and rng.random() < 0.25:  # aligned with the axes, as in most experiments
            self.direction = axis_vectors(rng)
            self.pol = axis_vectors(rng)
            while abs(self.pol @ self.direction) > 0.5:
                self.pol = axis_vectors(rng)
            self.k = 2 * np.pi / self.wavelength * self.direction
        if rng.random() < 0.25:
            self.axis = axis_vectors(rng)
            while abs(self.axis @ self.direction) > 0.99:
                self.axis = axis_vectors(rng)
        self.trans = rng.normal(size=3) * self.size * rng.choice([0, 1, 3]) if translate else np.zeros(3)
        self.origin = rng.normal(size=3) * self.size * rng.choice([0, 1, 5]) if translate else np.zeros(3)
        if self.whole:
            self.trans, self.origin = np.round(self.trans), np.round(self.origin)
        # Bragg bounds giving about nhkl reflections for the largest cell
        V = max(np.linalg.det(ref.cell_basis(c)) for c, _ in self.cells)
        smax = 0.5 * (nhkl / V * 3 / (4 * np.pi)) ** (1 / 3)
        self.bmax = float(np.arcsin(min(smax * self.wavelength, 0.999)) * rng.uniform(0.8, 1.0))
        if smax * self.wavelength > 0.999 and rng.random() < 0.5:
            self.bmax = float(np.pi / 2)
        self.bmin = float(rng.choice([0.0, self.bmax * rng.uniform(0.1, 0.6)]))
        self._make_beam(beam)

    def _make_beam(self, kind):
        rng = self.rng
        ext = (np.abs(self.coord - self.origin).max() + np.linalg.norm(self.origin) + np.linalg.norm(self.trans)) * 2 + self.size
        Rb = ref.random_rotation(rng)
        whole = rng.random() < 0.15  # whole numbers, along the axes
        centre = np.zeros(3)
        if kind == "any":
            kind = rng.choice(["wide", "wide", "box", "slab", "poly"])
        if kind == "wide":
            h = np.array([ext] * 3) * 2
        elif kind == "box":
            h = np.array([rng.uniform(0.3, 1.5) for _ in range(3)]) * (self.size + self.spread)
            centre = rng.normal(size=3) * 0.3 * self.size
        elif kind == "slab":
            h = np.array([ext * 3, ext * 3, rng.uniform(0.2, 1.0) * (self.size + self.spread)])
        if kind == "poly":
            pts = rng.normal(size=(int(rng.integers(5, 20)), 3))
            pts /= np.linalg.norm(pts, axis=1, keepdims=True)
            pts = pts * (self.size + self.spread) * rng.uniform(0.8, 3, 3)
            from scipy.spatial import ConvexHull
            while True:
                hull = ConvexHull(pts)
                if len(hull.vertices) == len(pts):
                    break
                pts = pts[hull.vertices]
            self.bverts = pts @ Rb.T + centre
        else:
            c = np.array([[x, y, z] for x in (-1, 1) for y in (-1, 1) for z in (-1, 1)], float) * h
            if whole and h.min() > 2:
                Rb, centre, c = np.eye(3), np.round(centre), np.round(c)
            self.bverts = c @ Rb.T + centre
        self.bverts = self.bverts[rng.permutation(len(self.bverts))]

    # ---- real objects
    def mesh(self):
        return TetraMesh.generate_mesh_from_vertices(self.given(self.coord), self.enod.copy())

    def given(self, x):
        """An input as the user may give it."""
        return maybe_torch(self.rng, x) if self.rng.random() < 0.3 else x.copy()

    def phases(self):
        made = [Phase(list(c), sg, path_to_cif_file=cif) for (c, sg), cif in zip(self.cells, self.cifs)]
        return [made[i] for i in self.alias]

    def _moved_sample(self):
        """The same lab state, reached by moving the mesh and transforming the polycrystal."""
        rng = self.rng
        U, E, X = self.U.copy(), self.E.copy(), self.coord.copy()
        moves = []
        for _ in range(int(rng.integers(1, 4))):
            m = ref.Move(ref.unit(rng.normal(size=3)), float(rng.uniform(0.05, 3.1)), rng.normal(size=3) * self.size,
                         rng.normal(size=3) * self.size * rng.choice([0, 1]))
            t = float(rng.choice([0.0, 1.0, rng.uniform()], p=[0.1, 0.3, 0.6]))
            R = m.R(t)
            X = (X - m.o - t * m.T) @ R + m.o     # undo the move
            U = np.einsum("ji,njk->nik", R, U)
            E = np.einsum("ji,njk,kl->nil", R, E, R)
            moves.append((m, t))
        shift = rng.normal(size=3) * self.size
        E = (E + E.transpose(0, 2, 1)) / 2
        mesh = TetraMesh.generate_mesh_from_vertices(X - shift, self.enod.copy())
        mesh.translate(shift.copy())
        out = Polycrystal(mesh, U, E, self.phases(), self.emap.copy())
        for m, t in reversed(moves):
            out.transform(RigidBodyMotion(m.axis.copy(), m.angle, m.T.copy(), m.o.copy()), t)
        return out

    def sample(self, plain=False, mesh=None):
        rng = self.rng
        if self.moved and mesh is None and not plain and rng.random() < 0.4:
            return self._moved_sample()
        U, E = self.U, self.E
        if not plain and (U == U[0]).all() and rng.random() < 0.7:
            U = U[0]
        if not plain and (E == E[0]).all() and rng.random() < 0.7:
            E = E[0]
        ph = self.phases()
        emap = self.emap.copy()
        if len(ph) == 1 and not plain:
            r = rng.random()
            if r < 0.3:
                emap = None
            if r > 0.6:
                ph = ph[0]
        if not plain:
            U, E = maybe_torch(rng, U), maybe_torch(rng, E)
        return Polycrystal(mesh if mesh is not None else self.mesh(), U.copy() if plain else U, E.copy() if plain else E, ph, emap)

    def beam(self, plain=False):
        def length():  # any, or as by rounding off a unit vector
            return 1 if plain else self.rng.uniform(0.5, 5) if self.rng.random() < 0.7 else 1 + self.rng.normal() * 10 ** self.rng.uniform(-5, -2)
        d, p = self.direction * length(), self.pol * length()
        if not plain and self.rng.random() < 0.2:  # whole numbers where they are
            d, p = self.direction, self.pol
        return Beam(*(x.copy() if plain else self.given(x) for x in (self.bverts, d)), self.wavelength, p.copy() if plain else self.given(p))

    def motion(self, plain=False):
        if plain:
            return RigidBodyMotion(self.axis.copy(), self.angle, self.trans.copy(), self.origin.copy())
        return RigidBodyMotion(self.given(self.axis), self.angle, self.given(self.trans), self.given(self.origin))

    def ref_move(self):
        return ref.Move(self.axis, self.angle, self.trans, self.origin)

    def diffract(self, sample=None, beam=None, motion=None, **kw):
        return (sample or self.sample()).diffract(
            beam or self.beam(), motion or self.motion(), min_bragg_angle=self.bmin, max_bragg_angle=self.bmax,
            verbose=False, **kw)

    # ---- reference
    def B(self, e):
        return ref.strained_B(ref.Bmat(self.cells[self.emap[e]][0]), self.E[e], self.U[e])

    def UB(self, e):
        return self.U[e] @ self.B(e)

    def balls(self):
        if not hasattr(self, "_balls"):
            self._balls = [ref.miniball(self.coord[s]) for s in self.enod]
        return self._balls

    def summary(self):
        return dict(elements=self.n, phases=[sg for _, sg in self.cells], wavelength=round(self.wavelength, 5),
                    angle_deg=round(float(np.degrees(self.angle)), 5), axis=np.round(self.axis, 4),
                    translation=np.round(self.trans, 3), origin=np.round(self.origin, 3),
                    strain_max=float(np.abs(self.E).max()), beam_vertices=len(self.bverts), size_um=round(self.size, 4),
                    bragg=[round(self.bmin, 5), round(self.bmax, 5)])


def random_detector(rng, centre_dir, dist, half, npix, frame=None, **kw):
    """A tilted detector whose centre lies at dist along centre_dir; returns (corners, pixel counts)."""
    d = ref.unit(centre_dir)
    if frame is None:
        u = ref.unit(np.cross(d, rng.normal(size=3)))
    else:
        u = frame
    v = np.cross(d, u)
    if rng.random() < 0.5:
        v = -v
    tilt = ref.rotmat(ref.unit(rng.normal(size=3)), rng.uniform(0, 0.5))
    u, v = tilt @ u, tilt @ v
    hy, hz = half * rng.uniform(0.7, 1.3), half * rng.uniform(0.7, 1.3)
    c = d * dist + (u * hy * rng.uniform(-0.5, 0.5) + v * hz * rng.uniform(-0.5, 0.5))
    c0, c1, c2 = c - u * hy - v * hz, c + u * hy - v * hz, c - u * hy + v * hz
    nz, ny = npix if isinstance(npix, tuple) else (npix, npix)
    return c0, c1, c2


def make_detector(c0, c1, c2, **kw):
    return Detector(np.array(c0, float), np.array(c1, float), np.array(c2, float), **kw)
