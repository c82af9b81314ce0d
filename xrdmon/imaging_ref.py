"""Reference images and synthetic peak tables for the detector checks."""
import numpy as np
import torch

from xrd_simulator.beam import Beam
from xrd_simulator.detector import Detector
from xrd_simulator.mesh import TetraMesh
from xrd_simulator.motion import RigidBodyMotion

from . import oracle, ref


class Setup:
    """A detector with its plain-number description."""

    def __init__(self, rng, nz=None, ny=None, D=None, px=None, sigma=None, thr=None, maxr=None, tilt=None, flags=None,
                 by=None, square=None, off=None, frac=0.0):
        self.nz = int(nz if nz is not None else rng.integers(12, 90))
        self.ny = int(ny if ny is not None else rng.integers(12, 90))
        self.D = float(D if D is not None else 10 ** rng.uniform(3, 5.7))
        square = rng.random() < 0.4 if square is None else square
        self.pz = float(px if px is not None else self.D * 10 ** rng.uniform(-3.5, -1.8))
        self.py = self.pz if square else self.pz * float(10 ** rng.uniform(-0.5, 0.5) if rng.random() < 0.8 else 1 + rng.uniform(-1e-2, 1e-2))
        n = ref.unit(rng.normal(size=3))
        u = ref.unit(np.cross(n, rng.normal(size=3)))
        v = np.cross(n, u) * (1 if rng.random() < 0.5 else -1)
        tilt = rng.uniform(0, 0.9) * rng.integers(0, 2) if tilt is None else tilt
        R = ref.rotmat(ref.unit(rng.normal(size=3)), tilt)
        u, v = R @ u, R @ v
        Z, Y = self.nz * self.pz, self.ny * self.py
        if rng.random() < frac:  # sides that are not whole numbers of pixels
            by = "size"
            over = [rng.uniform(0.05, 0.95), 10 ** rng.uniform(-4, -1), 1 - 10 ** rng.uniform(-4, -1)]
            Z, Y = Z - self.pz * float(rng.choice(over)), Y - self.py * float(rng.choice(over))
        off = (0.0, 1.0) if off is None else off
        c = n * self.D - v * Z * rng.uniform(*off) - u * Y * rng.uniform(*off)
        self.c0, self.c1, self.c2 = c, c + u * Y, c + v * Z
        self.sigma = float(sigma if sigma is not None else rng.choice([0.3, 0.6, 1.0, 1.0, 1.5, 2.5]))
        self.thr = float(thr if thr is not None else rng.choice([0.02, 0.02, 0.005, 0.1]))
        self.maxr = int(maxr if maxr is not None else rng.choice([2, 2, 1, 4]))
        self.flags = flags if flags is not None else (True, True, True)
        kw = dict(gaussian_sigma=self.sigma, kernel_threshold=self.thr, max_gaussian_kernel_radius=self.maxr,
                  use_structure_factor=self.flags[0], use_lorentz=self.flags[1], use_polarization=self.flags[2])
        by = by or rng.choice(["n", "size"])
        if by == "n":
            kw["n_pixels"] = (self.nz, self.ny) if self.nz != self.ny or rng.random() < 0.5 else self.nz
        else:
            kw["pixel_size"] = (self.pz, self.py) if self.pz != self.py or rng.random() < 0.5 else self.pz
        self.det = Detector(self.c0.copy(), self.c1.copy(), self.c2.copy(), **kw)
        self.plane = ref.Plane(self.c0, self.c1, self.c2)
        self.dist = abs(self.c0 @ self.plane.normal)

    @property
    def shape(self):
        return (self.nz, self.ny)

    def summary(self):
        return dict(pixels=self.shape, pixel_size=[round(self.pz, 4), round(self.py, 4)], sigma=self.sigma,
                    threshold=self.thr, max_radius=self.maxr, distance=round(self.dist, 3))

    def kernel(self):
        """The point spread kernel: Gaussian up to where it drops below thr/2, at most maxr pixels."""
        r = 1
        while r <= self.maxr and np.exp(-r * r / (2 * self.sigma ** 2)) >= self.thr / 2:
            r += 1
        r = min(r, self.maxr)
        a = np.arange(-r, r + 1.0)
        g = np.exp(-a * a / (2 * self.sigma ** 2))
        k = np.outer(g, g)
        return k / k.sum()


def psf(img, k):
    r = k.shape[0] // 2
    out = np.zeros_like(img)
    for i in range(-r, r + 1):
        for j in range(-r, r + 1):
            w = k[i + r, j + r]
            H, W = img.shape
            a, b = max(i, 0), min(H + i, H)
            c, d = max(j, 0), min(W + j, W)
            if a < b and c < d:
                out[a:b, c:d] += w * img[a - i:b - i, c - j:d - j]
    return out


class World:
    """A small sample, beam and motion to accompany a table."""

    def __init__(self, rng, n=3, size=1.0, angle=None, trans=None):
        from . import gen
        self.coord, self.enod = gen.random_tets(rng, n, size, size)
        self.n, self.size = n, size
        self.mesh = TetraMesh.generate_mesh_from_vertices(self.coord.copy(), self.enod.copy())
        h = 50 * size
        self.bverts = np.array([[x, y, z] for x in (-h, h) for y in (-h, h) for z in (-h, h)], float)
        self.direction = np.array([1.0, 0, 0])
        self.wavelength = 0.3
        self.k = 2 * np.pi / self.wavelength * self.direction
        self.beam = Beam(self.bverts.copy(), self.direction.copy(), self.wavelength, np.array([0, 1.0, 0]))
        self.axis = ref.unit(rng.normal(size=3))
        self.angle = float(rng.uniform(0.1, 3.0)) if angle is None else angle
        self.trans = rng.normal(size=3) * size * 0.5 if trans is None else np.array(trans, float)
        self.origin = rng.normal(size=3) * size * 0.5
        self.motion = RigidBodyMotion(self.axis.copy(), self.angle, self.trans.copy(), self.origin.copy())
        self.move = ref.Move(self.axis, self.angle, self.trans, self.origin)


def synth(rng, setup, z, y, src=None, vol=None, F2=None, L=None, pol=None, t=None, fwhm=None, elem=None, world=None,
          spread=0.0, verbose=False, ko=None, tensor=torch.float64):
    """A peak table as diffract() returns it, with rays from src to the detector points (z, y) in microns."""
    z, y = np.atleast_1d(np.asarray(z, float)), np.atleast_1d(np.asarray(y, float))
    n = len(z)
    p = setup.plane
    w = world
    target = p.c0 + z[:, None] * p.zhat + y[:, None] * p.yhat
    src = (rng.normal(size=(n, 3)) * spread if src is None else np.asarray(src, float).reshape(-1, 3)) * np.ones((n, 1))
    wavelength = w.wavelength if w else 0.3
    K = 2 * np.pi / wavelength
    k = w.k if w else np.array([K, 0, 0])
    d = target - src
    ko = K * d / np.linalg.norm(d, axis=1, keepdims=True) if ko is None else ko
    full = lambda v, f: np.array(f(), float) if v is None else np.asarray(v, float) * np.ones(n)
    P = np.zeros((n, 25))
    P[:, 0] = rng.integers(0, w.n if w else 3, n) if elem is None else elem
    P[:, 1] = 0
    P[:, 2:5] = rng.integers(-4, 5, (n, 3))
    P[:, 5] = full(F2, lambda: 10 ** rng.uniform(-1, 2, n))
    P[:, 6] = full(t, lambda: rng.uniform(0, 1, n))
    P[:, 10:13] = ko - k
    P[:, 7:10] = P[:, 10:13]
    P[:, 13:16] = ko
    P[:, 16:19] = src
    P[:, 19] = full(L, lambda: 10 ** rng.uniform(0, 1, n))
    P[:, 20] = full(pol, lambda: rng.uniform(0.1, 1, n))
    P[:, 21] = full(vol, lambda: 10 ** rng.uniform(-3, 3, n))
    P[:, 22] = ref.two_theta(k, ko[0]) if n == 1 else np.arctan2(np.linalg.norm(np.cross(k, ko), axis=1), ko @ k)
    P[:, 23] = full(fwhm, lambda: 10 ** rng.uniform(-5, -3, n))
    P[:, 24] = np.arange(n)
    return dict(peaks=torch.tensor(P, dtype=tensor), columns=list(oracle.COLS), incident_vector=torch.tensor(k),
                wavelength=wavelength, rotation_axis=torch.tensor(w.axis if w else [0, 0, 1.0]),
                mesh_lab=w.mesh if w else None, rigid_body_motion=w.motion if w else None,
                beam=w.beam if w else None, verbose=verbose)


def intensity(P, flags):
    I = np.ones(len(P))
    for f, c in zip(flags, (5, 19, 20)):
        if f:
            I = I * P[:, c]
    return I


def frame_of(t, n):
    n = max(int(n), 1)
    return np.clip(np.ceil(t * n - 1e-12) - 1, 0, n - 1).astype(int)


def micro_image(shape, z, y, I, frame, n, sigma_psf):
    """Sum of the Gaussians sqrt(0.7^2 + sigma^2), each normalised, and a bound of what is cut off."""
    s = np.sqrt(0.49 + sigma_psf ** 2)
    r = max(3, int(3 * s) + 1)
    img, cut = np.zeros((n, *shape)), np.zeros((n, *shape))
    cz, cy = np.round(z).astype(int), np.round(y).astype(int)
    off = [(i, j) for i in range(-r, r + 1) for j in range(-r, r + 1)]
    g = lambda i, j: np.exp(-((cz + i - z) ** 2 + (cy + j - y) ** 2) / (2 * s * s))
    tot = sum(g(i, j) for i, j in off)
    for i, j in off:
        a, b = cz + i, cy + j
        ok = (a >= 0) & (a < shape[0]) & (b >= 0) & (b < shape[1])
        np.add.at(img, (frame[ok], a[ok], b[ok]), (g(i, j) / tot * I)[ok])
        np.add.at(cut, (frame[ok], a[ok], b[ok]), np.abs(I)[ok])
    return img, cut


def airy_kernel(fz, pz, py, sigma, thr, g):
    """Normalised Airy kernel on the pixel grid; fz in units of the smallest pixel side."""
    if fz < 0.5:
        k = g / g.sum()
    else:
        r = int(np.ceil(max(4 * fz, 8.0)))
        while r <= 128 and np.exp(-r * r / (2 * sigma ** 2)) >= thr / 2:
            r *= 2
        r = min(r, 128)
        m = min(pz, py)
        a = np.arange(-r, r + 1.0)
        R = np.sqrt((a[:, None] * pz / m) ** 2 + (a[None] * py / m) ** 2)
        k = ref.airy(R, fz)
        if fz < sigma:
            k = k * np.exp(-R ** 2 / (2 * sigma ** 2))
        k = k / k.sum()
    c = k.shape[0] // 2
    for r in range(1, c + 1):
        if k[c - r:c + r + 1, c - r:c + r + 1].sum() >= 1 - thr:
            break
    else:
        r = c
    return k[c - r:c + r + 1, c - r:c + r + 1] if c else k


def nano_first_zero(setup, P, cosang):
    """First zero of the Airy pattern in units of the smallest pixel side."""
    R = np.abs((setup.plane.c0 - P[:, 16:19]) @ setup.plane.normal) / np.abs(cosang)  # length of the scattered ray
    return P[:, 23] * R / min(setup.pz, setup.py) * 1.1861


def nano_image(setup, z, y, I, frame, n, fz):
    g = setup.kernel()
    img = np.zeros((n, *setup.shape))
    for q in range(len(z)):
        k = airy_kernel(fz[q], setup.pz, setup.py, setup.sigma, setup.thr, g) * I[q]
        c = k.shape[0] // 2
        z0, y0 = int(np.floor(z[q])), int(np.floor(y[q]))
        a, b = z[q] - z0, y[q] - y0
        big = np.zeros((k.shape[0] + 1, k.shape[1] + 1))
        big[:-1, :-1] += (1 - a) * (1 - b) * k
        big[:-1, 1:] += (1 - a) * b * k
        big[1:, :-1] += a * (1 - b) * k
        big[1:, 1:] += a * b * k
        i0, j0 = z0 - c, y0 - c
        ia, ib = max(i0, 0), min(i0 + big.shape[0], setup.nz)
        ja, jb = max(j0, 0), min(j0 + big.shape[1], setup.ny)
        if ia < ib and ja < jb:
            img[frame[q], ia:ib, ja:jb] += big[ia - i0:ib - i0, ja - j0:jb - j0]
    return np.array([psf(f, g) for f in img])


# ---------------------------------------------------------------- macro
def path_lengths(H, points, d):
    """Lengths of the lines (points, unit d) inside the polyhedron with halfspaces H."""
    den = H[:, :3] @ d
    num = -(points @ H[:, :3].T + H[:, 3])
    lo, hi = np.full(len(points), -np.inf), np.full(len(points), np.inf)
    for j in range(len(H)):
        if den[j] > 1e-13:
            hi = np.minimum(hi, num[:, j] / den[j])
        elif den[j] < -1e-13:
            lo = np.maximum(lo, num[:, j] / den[j])
        else:
            hi = np.where(num[:, j] < 0, -np.inf, hi)
    return np.maximum(hi - lo, 0)


def project(plane, pts, d):
    """(z, y) in microns of points carried along d onto the plane."""
    s = ((plane.c0 - pts) @ plane.normal) / (d @ plane.normal)
    x = pts + s[:, None] * d
    return (x - plane.c0) @ plane.zhat, (x - plane.c0) @ plane.yhat


def shadow_planes(pz, py):
    """2D hull of projected points as halfspaces (A, b): A x + b <= 0."""
    from scipy.spatial import ConvexHull
    return ConvexHull(np.column_stack((pz, py))).equations
