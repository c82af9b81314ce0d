"""Detector: C10 intersection, C11 frames, C12 micro, C13 nano, C14 macro, C15 auto, C22 model, C24 resources."""
import contextlib
import copy
import io
import warnings

import numpy as np
import torch
from xrd_simulator.mesh import TetraMesh

from .. import gen, imaging_ref as im, oracle, ref
from ..core import Skip, arr, check, family, internal_call, priv, reseed
from .diffraction import RULE, detector_for, scenario


def frames_ok(ctx, fr, setup_shape, n, dtype=None):
    n = max(int(n), 1)
    ctx.true(tuple(fr.shape) == (n, *setup_shape), "shape of the frames", f"{tuple(fr.shape)} expected {(n, *setup_shape)}")
    if dtype is not None:
        ctx.true(fr.dtype == dtype, "dtype of the frames", f"{fr.dtype} expected {dtype}")
    F = arr(fr)
    ctx.true(np.isfinite(F).all(), "frames are finite", f"{(~np.isfinite(F)).sum()} pixels are NaN or infinite")
    ctx.true((F >= 0).all(), "frames are not negative", f"lowest pixel {F.min()}")
    return F


def render(ctx, det, pd, n=1, method="micro", seed=7, **kw):
    kw.setdefault("verbose", False)
    reseed(seed)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return det.render(pd, frames_to_render=n, method=method, **kw)


def subset(pd, mask):
    out = dict(pd)
    out["peaks"] = pd["peaks"][torch.as_tensor(np.asarray(mask))]
    return out


def moments(F):
    """total, centroid (z, y) and standard deviations in pixels."""
    s = F.sum()
    z, y = np.arange(F.shape[0])[:, None], np.arange(F.shape[1])[None]
    cz, cy = (F * z).sum() / s, (F * y).sum() / s
    return s, cz, cy, np.sqrt((F * (z - cz) ** 2).sum() / s), np.sqrt((F * (y - cy) ** 2).sum() / s)


def same_image(ctx, got, want, label, rtol=1e-6, extra=0.0, **data):
    """Pixelwise: relative to the brightest reference pixel plus the pixel's own scale."""
    got, want = arr(got), arr(want)
    ctx.counts["oracle checks"] += 1
    if got.shape != want.shape:
        ctx.fail(label, f"shape {got.shape} expected {want.shape}", **data)
    tol = rtol * (np.abs(want) + 1e-3 * np.abs(want).max(initial=0)) + extra + 1e-300
    bad = ~(np.abs(got - want) <= tol)
    if bad.any():
        i = np.unravel_index(np.argmax(np.where(bad, np.abs(got - want) / tol, 0)), got.shape)
        ctx.fail(label, f"pixel {tuple(int(v) for v in i)}: got {got[i]!r} expected {want[i]!r}; totals {got.sum()!r} and "
                 f"{want.sum()!r}; {int(bad.sum())} pixels differ", **data)


# ------------------------------------------------------------------ C10
def snapshot(pd):
    return {k: (v.clone() if torch.is_tensor(v) else list(v) if isinstance(v, list) else v) for k, v in pd.items()}


def untouched(ctx, pd, snap):
    ctx.true(set(pd) == set(snap), "input table modified", f"keys {sorted(pd)} were {sorted(snap)}")
    for k, v in snap.items():
        w = pd[k]
        if torch.is_tensor(v):
            same = w.shape == v.shape and w.dtype == v.dtype and bool(((w == v) | (torch.isnan(w) & torch.isnan(v))).all())
        elif isinstance(v, list):
            same = list(w) == v
        else:
            same = w is v or w == v
        ctx.true(same, "input table modified", f"key {k!r}")


def judge_hits(ctx, det, plane, pd, flags, n):
    snap = snapshot(pd)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        out = det.peaks_detector_intersection(pd, frames_to_render=n, verbose=bool(ctx.rng.integers(0, 2)))
    untouched(ctx, pd, snap)
    ctx.true(set(out) == set(pd), "keys of the result", f"{sorted(out)}")
    for k in out:
        if k not in ("peaks", "columns"):
            ctx.true(out[k] is pd[k] or (torch.is_tensor(out[k]) and bool((out[k] == pd[k]).all())) or
                     (not torch.is_tensor(out[k]) and out[k] == pd[k]), "metadata changed", k)
    O = oracle.check_intersection(ctx, pd, out, plane, flags, n)
    inside = arr(det.contains(torch.tensor(O[:, 25]), torch.tensor(O[:, 26]))).astype(bool)
    ctx.true(inside.all(), "contains() denies a reported hit", f"{O[~inside][:1, 25:27]}")
    return out, O


@family
def hits_real(ctx):
    """Real reflections on detectors of any place, tilt and handedness, also behind or beside the sample."""
    rng = ctx.rng
    sc = scenario(ctx, nhkl=150, n=int(rng.integers(1, 5)), beam=str(rng.choice(["wide", "any"])))
    with ctx.quiet():
        pd = sc.diffract()
    P = oracle.table(ctx, pd)
    total = 0
    for _ in range(3):
        flags = tuple(bool(b) for b in rng.integers(0, 2, 3))
        npix = (int(rng.integers(1, 60)), int(rng.integers(1, 60)))
        kw = dict(use_structure_factor=flags[0], use_lorentz=flags[1], use_polarization=flags[2])
        if rng.random() < 0.6:
            det, plane = detector_for(ctx, sc, P, npix=npix, **kw)
        else:
            D = (sc.size + np.abs(P[:, 16:19]).max(initial=0)) * 10 ** rng.uniform(0, 2)
            c = gen.random_detector(rng, rng.normal(size=3), D, D * rng.uniform(0.5, 5), npix)
            det, plane = gen.make_detector(*c, n_pixels=npix, **kw), ref.Plane(*c)
        out, O = judge_hits(ctx, det, plane, pd, flags, int(rng.choice([1, 2, 7])))
        total += len(O)
    ctx.nontrivial(len(P), total)


@family
def hits_synthetic(ctx):
    """Rays aimed at, beside, along, away from and behind the detector; invalid intensities; any number of rows."""
    rng = ctx.rng
    n = int(rng.choice([0, 1, 2, 3, 40, 400, 30000], p=[0.1, 0.15, 0.1, 0.1, 0.25, 0.27, 0.03]))
    flags = tuple(bool(b) for b in rng.integers(0, 2, 3))
    s = im.Setup(rng, flags=flags, D=float(10 ** rng.uniform(-1, 6 if rng.random() < 0.8 else 11)), nz=int(rng.integers(1, 60)), ny=int(rng.integers(1, 60)),
                 tilt=float(rng.uniform(0, np.pi)), frac=0.4)
    p = s.plane
    z, y = rng.uniform(-0.3, 1.3, n) * p.zmax, rng.uniform(-0.3, 1.3, n) * p.ymax
    edge = rng.random(n) < 0.3
    z = np.where(edge, rng.choice([0, 1.0], n) * p.zmax + rng.choice([-1, 1], n) * 10 ** rng.uniform(-7, -2, n) * p.zmax, z)
    edge = rng.random(n) < 0.3
    y = np.where(edge, rng.choice([0, 1.0], n) * p.ymax + rng.choice([-1, 1], n) * 10 ** rng.uniform(-7, -2, n) * p.ymax, y)
    w = im.World(rng) if rng.random() < 0.7 else None
    far = 10 ** rng.uniform(-2, 0.5)
    L = 10 ** rng.uniform(0, 2, n)
    F2 = 10 ** rng.uniform(-2, 3, n)
    pol = rng.uniform(0.01, 1, n)
    if rng.random() < 0.3:  # tiny and huge factors are valid
        F2, pol = 10 ** rng.uniform(-60, 60, n), 10 ** rng.uniform(-40, 0, n)
    if n > 2:
        L[rng.random(n) < 0.1] = np.inf
        F2[rng.random(n) < 0.08] = 0.0
        pol[rng.random(n) < 0.08] = 0.0
        F2[rng.random(n) < 0.05] = np.inf
    pd = im.synth(rng, s, z, y, spread=s.D * far, world=w, L=L, F2=F2, pol=pol)
    if n:
        ko = pd["peaks"][:, 13:16]
        back = torch.tensor(rng.random(n) < 0.2)
        ko[back] = -ko[back]
        if rng.random() < 0.3:  # sources just in front of or behind the plane of the detector
            near = torch.tensor(rng.random(n) < 0.5)
            hitp = torch.tensor(p.c0 + z[:, None] * p.zhat + y[:, None] * p.yhat)
            reach = torch.tensor(10 ** rng.uniform(-11, -2, (n, 1)) * np.abs(p.c0).max() * rng.choice([-1, 1, 1], (n, 1)))
            pd["peaks"][near, 16:19] = (hitp - ko / torch.linalg.norm(ko, dim=1, keepdim=True) * reach)[near]
        along = torch.tensor(rng.random(n) < 0.1)
        ko[along] = torch.linalg.norm(ko[along], dim=1, keepdim=True) * torch.tensor(p.zhat)
    ctx.sample(rows=n, **s.summary())
    out, O = judge_hits(ctx, s.det, p, pd, flags, int(rng.choice([1, 1, 4])))
    # a table that has lost or reordered rows is a valid input as well
    if n > 1:
        perm = rng.permutation(n)[:int(rng.integers(1, n + 1))]
        sub = dict(pd, peaks=pd["peaks"][torch.as_tensor(perm)].clone())
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            o2 = arr(s.det.peaks_detector_intersection(sub, verbose=False)["peaks"])
        full = {int(r[24]): r for r in O}
        want = [full[int(i)] for i in perm if int(i) in full]
        ctx.true([int(r[24]) for r in o2] == [int(r[24]) for r in want], "rows of a reordered table", f"{len(o2)} {len(want)}")
        if len(want):
            W = np.array(want)
            keep = [c for c in range(30) if c != 28]
            ctx.close_to(o2[:, keep], W[:, keep], "a row depends on the other rows", rtol=1e-9, atol=1e-7 * max(p.zmax, p.ymax))
    ctx.nontrivial(n, len(O), flags)


@family
def hits_exact(ctx):
    """Simple numbers: hits exactly on edges and corners, exactly parallel rays, sources on the detector plane."""
    rng = ctx.rng
    m = 4 ** int(rng.integers(0, 5))
    nz, ny = int(2 ** rng.integers(0, 5)), int(2 ** rng.integers(0, 5))
    Z, Y = nz * m * 4.0, ny * m * 4.0
    D = 1024.0 * m
    c0 = np.array([D, -Y / 2, -Z / 2])
    flip = bool(rng.integers(0, 2))
    if flip:
        c0 = np.array([D, Y / 2, -Z / 2])
    c1, c2 = c0 + [0, -Y if flip else Y, 0], c0 + [0, 0, Z]
    det = gen.make_detector(c0, c1, c2, n_pixels=(nz, ny))
    plane = ref.Plane(c0, c1, c2)
    fz = np.array([0, 0.25, 0.5, 1.0, 0, 1, -0.25, 1.25, 0.5])
    fy = np.array([0, 0, 0.5, 1.0, 1, 0.5, 0.5, 0.5, -0.125])
    n = len(fz)
    src = c0 + np.outer(fz * Z, [0, 0, 1.0]) + np.outer(fy * Y, [0, -1.0 if flip else 1.0, 0])
    src[:, 0] = rng.choice([0.0, D / 2, -D], n)
    K = 4.0
    ko = np.tile([K, 0, 0], (n, 1))
    s = type("S", (), dict(plane=plane))
    pd = im.synth(rng, s, fz * Z, fy * Y, src=src, ko=ko)
    out = det.peaks_detector_intersection(pd, verbose=False)
    O = oracle.table(ctx, out, oracle.DCOLS)
    inside = (fz >= 0) & (fz <= 1) & (fy >= 0) & (fy <= 1)
    ctx.true(list(O[:, 24].astype(int)) == list(np.nonzero(inside)[0]), "hits on the edges belong to the detector",
             f"kept {O[:, 24]} expected {np.nonzero(inside)[0]}")
    ctx.close_to(O[:, 25], fz[inside] * Z, "zd", atol=1e-9 * Z)
    ctx.close_to(O[:, 26], fy[inside] * Y, "yd", atol=1e-9 * Y)
    ctx.close_to(O[:, 27], np.full(inside.sum(), 0.0 if flip else 180.0) if plane.normal[0] * (1 if not flip else -1) > 0
                 else np.full(inside.sum(), 180.0 if flip else 0.0), "incident_angle", atol=1e-5)
    got = arr(det.contains(torch.tensor(fz * Z), torch.tensor(fy * Y))).astype(bool)
    ctx.true((got == inside).all(), "contains() on the edges", f"{got} expected {inside}")
    q = rng.uniform(-0.5, 1.5, (200, 2)) * [Z, Y]
    got = arr(det.contains(torch.tensor(q[:, 0]), torch.tensor(q[:, 1]))).astype(bool)
    want = (q[:, 0] > 0) & (q[:, 0] < Z) & (q[:, 1] > 0) & (q[:, 1] < Y)
    ctx.true((got == want).all(), "contains()", "")
    # rays that leave the plane or run along it never hit
    ko2 = ko.copy()
    ko2[:, 0] *= -1
    ko2[::2] = [0, 0, K]
    far = src.copy()
    far[:, 0] = D - 3.0
    pd = im.synth(rng, s, fz * Z, fy * Y, src=far, ko=ko2)
    out = det.peaks_detector_intersection(pd, verbose=False)
    ctx.true(len(out["peaks"]) == 0, "rays along or away from the plane hit nothing", f"{len(out['peaks'])} rows")
    ctx.nontrivial(m, nz, ny, flip)
    ctx.saw("edge and corner hits", int(inside.sum()))


# ------------------------------------------------------------------ macro scenes
class MacroScene:
    """Grains of a given size in pixels, seen by a detector, with their peaks."""

    def __init__(self, rng, px=None, n=None, beam="wide", place="inside", peaks=None, square=None, trans=None, times=None, **kw):
        n = n if n is not None else int(rng.integers(1, 4))
        size = 10 ** rng.uniform(-1, 2)
        self.px = px if px is not None else float(rng.uniform(7, 14))  # rough extent of a grain in pixels
        pix = size / self.px * 2.5
        self.w = w = im.World(rng, n=n, size=size, trans=None if trans is None else np.asarray(trans) * size)
        nz, ny = int(rng.integers(50, 100)), int(rng.integers(50, 100))
        D = float(size * 10 ** rng.uniform(2, 4))
        square = rng.random() < 0.6 if square is None else square
        kw.setdefault("tilt", rng.uniform(0, 0.5))
        self.s = s = im.Setup(rng, nz=nz, ny=ny, D=D, px=pix, square=square, **kw)
        k = n if peaks is None else peaks
        self.elem = rng.integers(0, n, k) if peaks is not None else np.arange(n)
        self.t = rng.uniform(0, 1, k) if times is None else np.asarray(times, float)
        self.V = np.array([w.move.points(w.coord[w.enod[e]], t) for e, t in zip(self.elem, self.t)])
        self.src = self.V.mean(1)
        ext = self.px * max(1, s.pz / s.py, s.pz / pix)
        lo = ext * 1.2 + 8
        if place == "inside":
            z = np.array([rng.uniform(min(lo, nz / 2), max(nz - lo, nz / 2)) for _ in range(k)])
            y = np.array([rng.uniform(min(lo, ny / 2), max(ny - lo, ny / 2)) for _ in range(k)])
        else:  # around the borders
            z, y = rng.uniform(0.5, nz - 0.5, k), rng.uniform(0.5, ny - 0.5, k)
            for i in range(k):
                which = rng.integers(0, 4)
                d = rng.uniform(0.001, 0.4) * self.px
                if which == 0:
                    z[i] = d
                elif which == 1:
                    z[i] = nz - d
                elif which == 2:
                    y[i] = d
                else:
                    y[i] = ny - d
            if place == "corner":
                z = rng.uniform(0.001, 0.5, k) * self.px
                y = rng.uniform(0.001, 0.5, k) * self.px
                z, y = np.where(rng.random(k) < 0.5, z, nz - z), np.where(rng.random(k) < 0.5, y, ny - y)
        self.z, self.y = z, y
        self.pd = im.synth(rng, s, z * s.pz, y * s.py, src=self.src, t=self.t, elem=self.elem, world=w)
        vol = np.array([ref.tet_volume(v) for v in self.V])
        self.pd["peaks"][:, 21] = torch.tensor(vol)
        self.ko = arr(self.pd["peaks"])[:, 13:16]
        if beam != "wide":
            self.cut_beam(rng, beam)
        self.H = ref.halfspaces(w.bverts)

    def cut_beam(self, rng, kind):
        """A beam whose faces cut through the grains (each at the time it diffracts)."""
        w = self.w
        c = self.V.reshape(-1, 3).mean(0)
        spread = np.abs(self.V.reshape(-1, 3) - c).max()
        R = ref.random_rotation(rng)
        if kind == "graze":  # faces that the scattered rays run along, or almost
            k = ref.unit(self.ko[rng.integers(len(self.ko))])
            n = ref.unit(np.cross(k, rng.normal(size=3)))
            n = ref.unit(n + k * rng.choice([-1, 1]) * 10 ** rng.uniform(-6, -2.5))
            a = ref.unit(np.cross(n, rng.normal(size=3)))
            R = np.column_stack((a, np.cross(n, a), n))
        h = spread * rng.uniform(0.2, 0.9, 3) if kind == "box" else np.array([3, 3, rng.uniform(0.1, 0.6)]) * spread
        b = np.array([[x, y, z] for x in (-1, 1) for y in (-1, 1) for z in (-1, 1)], float) * h
        w.bverts = b @ R.T + c + rng.normal(size=3) * spread * 0.1
        w.beam.set_beam_vertices(torch.tensor(w.bverts))

    def lit(self, i):
        faces = ref.clip_polyhedron(self.V[i], self.H)
        vol, c = ref.faces_volume_centroid(faces)
        return faces, vol, c

    def I(self, flags=None):
        return im.intensity(arr(self.pd["peaks"]), flags or self.s.flags)


def shadow(scene, i, faces):
    """Projected vertices of the lit part in pixels."""
    s = scene.s
    z, y = im.project(s.plane, np.vstack(faces), scene.ko[i])
    return z / s.pz, y / s.py


def support(scene, i, faces, reach):
    """Pixels within reach (pixels) of the projected silhouette."""
    z, y = shadow(scene, i, faces)
    H = im.shadow_planes(z, y)
    s = scene.s
    zz, yy = np.meshgrid(np.arange(s.nz), np.arange(s.ny), indexing="ij")
    d = np.max(H[:, 0, None, None] * zz + H[:, 1, None, None] * yy + H[:, 2, None, None], axis=0)
    return d <= reach


def rays(scene, i, faces, grow=0.0):
    """Path lengths along the scattered ray at the pixel positions, of the exact lit part."""
    s = scene.s
    p = s.plane
    d = ref.unit(scene.ko[i])
    zz, yy = np.meshgrid(np.arange(s.nz) * s.pz, np.arange(s.ny) * s.py, indexing="ij")
    pts = p.c0 + zz.reshape(-1, 1) * p.zhat + yy.reshape(-1, 1) * p.yhat
    H = np.vstack((ref.tet_planes(scene.V[i]), scene.H))
    H[:, 3] -= grow * np.linalg.norm(H[:, :3], axis=1)
    return im.path_lengths(H, pts, d).reshape(s.nz, s.ny)


def boxed(scene, z, y):
    """Number of pixels on the detector in the box around a projection, at least."""
    top = np.array([scene.s.nz, scene.s.ny])
    lo, hi = (np.clip(np.ceil([f(z), f(y)]), 0, top) for f in (np.min, np.max))
    return int(np.maximum(hi - lo, 0).prod())


def centroid_tol(Q, nbox, length):
    """Pixels by which a projected spot's centroid may be off: few rays or samples are not accurate."""
    if nbox <= 4:
        return 1.5
    n = (Q > 0).sum()
    return max(0.8, 0.04 * length) if n >= 60 else max(1.2, 0.12 * length) if n >= 20 else None


def solid_scene(rng, **kw):
    """A scene in which every grain covers so many pixels that the rendering is not sampled at random."""
    px = kw.pop("px", 9.0)
    while True:
        sc = MacroScene(rng, px=px, **kw)
        ok = True
        for i in range(len(sc.t)):
            z, y = shadow(sc, i, [sc.V[i]])
            ok &= np.ptp(z) > 3.2 and np.ptp(y) > 3.2 and (rays(sc, i, None) > 0).any()
        if ok:
            return sc
        px = min(px * 1.2, 20.0)


def judge_macro(ctx, scene, i, F, I, label=""):
    """One peak in one frame against the exact projection of its lit part."""
    s = scene.s
    faces, vol, cen = scene.lit(i)
    full = ref.tet_volume(scene.V[i])
    k = s.kernel()
    r = k.shape[0] // 2
    slack = (4e-6 * np.abs(scene.V[i]).max() + 1e-6) / max(np.ptp(scene.V[i], axis=0).max(), 1e-300) + 1e-5
    if vol <= 1e-4 * full:
        # (nearly) dark: nothing, or the sliver
        ctx.true(F.sum() <= I * full * 2e-3 * (1 + slack), "dark grain adds intensity" + label, f"{F.sum()} of {I * full}")
        ctx.saw("dark grains")
        return
    d = ref.unit(scene.ko[i])
    z, y = shadow(scene, i, faces)
    on = (z.min() > 1e-6) & (y.min() > 1e-6) & (z.max() < s.nz - 1e-6) & (y.max() < s.ny - 1e-6)
    reach = r * np.sqrt(2) + 1.5
    out = ~support(scene, i, faces, reach)
    ctx.true(F[out].max(initial=0) <= 1e-9 * I * vol, "intensity outside of the silhouette" + label,
             f"{F[out].max(initial=0)} of {I * vol}", peak=i)
    deep = on and z.min() >= r + 1 and y.min() >= r + 1 and z.max() <= s.nz - r - 2 and y.max() <= s.ny - r - 2
    nbox = (np.floor(z.max()) - np.floor(z.min()) + 1) * (np.floor(y.max()) - np.floor(y.min()) + 1)
    Q = rays(scene, i, faces)
    area = s.pz * s.py * abs(d @ s.plane.normal)
    tol = 5e-4 + 100 * slack * (full / vol) ** 0.5
    if deep:
        ctx.close_to(F.sum(), I * vol, "total intensity" + label, rtol=tol, atol=0, peak=i)
        ctx.saw("totals compared")
        off = centroid_tol(Q, nbox, max(np.ptp(z), np.ptp(y)))
        if off:
            ctx.saw("centroids compared")
            _, cz, cy, _, _ = moments(F)
            pz, py = im.project(s.plane, cen[None], scene.ko[i])
            ctx.true(abs(cz - pz[0] / s.pz) < off and abs(cy - py[0] / s.py) < off, "centroid" + label,
                     f"at {cz:.3f},{cy:.3f} expected {pz[0] / s.pz:.3f},{py[0] / s.py:.3f}", peak=i)
    if on and nbox > 6 and Q.sum() > 0:
        want = im.psf(Q / Q.sum() * vol * I, k)
        # rays that graze a face depend on the last digits of its position
        g = 2e-6 * (1 + np.abs(scene.V[i]).max())
        loose = im.psf((rays(scene, i, faces, g) - rays(scene, i, faces, -g)) / Q.sum() * vol * I, k)
        same_image(ctx, F, want, "projection" + label, rtol=0.02 + 10 * tol, extra=(0.002 + 0.2 * slack) * want.max() + loose)
        ctx.saw("projections compared pixel by pixel")
    elif not on and nbox > 6:
        ideal = im.psf(Q * area * I, k)
        top = ideal.max() if ideal.max() > 0 else I * vol
        seen = boxed(scene, z, y)
        ctx.true((F <= ideal * 1.02 + 0.02 * top).all() or nbox < 60 or seen <= 4 or not Q.any(),  # (else sampled at random) "more than the part on the detector" + label,
                 f"{(F - ideal).max()} above, top {top}", peak=i)
        if Q.astype(bool).sum() > 40:
            ctx.true(F.sum() <= I * vol * (1 + tol), "more than the lit volume" + label, f"{F.sum()} {I * vol}")
            same_image(ctx, F, ideal, "part of the projection on the detector" + label, rtol=0.3, extra=0.2 * top)
            ctx.saw("partly projected grains compared")


@family
def macro_inside(ctx):
    """Fully lit grains of many pixels: total, silhouette, centroid and path lengths per pixel."""
    rng = ctx.rng
    sc = MacroScene(rng)
    ctx.sample(**sc.s.summary(), extent_px=round(sc.px, 2))
    I = sc.I()
    for i in range(len(sc.t)):
        fr, out = render(ctx, sc.s.det, subset(sc.pd, [j == i for j in range(len(sc.t))]), 1, "macro")
        F = frames_ok(ctx, fr, sc.s.shape, 1)[0]
        if len(out["peaks"]):
            judge_macro(ctx, sc, i, F, I[i])
    ctx.nontrivial(round(sc.px, 5), len(sc.t))


@family
def macro_cut(ctx):
    """Grains cut or missed by the beam."""
    rng = ctx.rng
    sc = MacroScene(rng, beam=str(rng.choice(["box", "slab", "graze"])), n=int(rng.integers(1, 4)))
    ctx.sample(**sc.s.summary(), extent_px=round(sc.px, 2))
    I = sc.I()
    for i in range(len(sc.t)):
        fr, out = render(ctx, sc.s.det, subset(sc.pd, [j == i for j in range(len(sc.t))]), 1, "macro")
        F = frames_ok(ctx, fr, sc.s.shape, 1)[0]
        if len(out["peaks"]):
            judge_macro(ctx, sc, i, F, I[i], " of a cut grain")
    ctx.nontrivial(round(sc.px, 5), len(sc.t))


@family
def macro_borders(ctx):
    """Grains that project over the edges and corners of the detector."""
    rng = ctx.rng
    sc = MacroScene(rng, place="border", px=float(rng.uniform(9, 25)), beam=str(rng.choice(["wide", "wide", "box"])))
    ctx.sample(**sc.s.summary(), extent_px=round(sc.px, 2))
    I = sc.I()
    for i in range(len(sc.t)):
        fr, out = render(ctx, sc.s.det, subset(sc.pd, [j == i for j in range(len(sc.t))]), 1, "macro")
        F = frames_ok(ctx, fr, sc.s.shape, 1)[0]
        if len(out["peaks"]):
            judge_macro(ctx, sc, i, F, I[i], " at the border")
    ctx.nontrivial(round(sc.px, 5), len(sc.t))


@family
def macro_small(ctx):
    """Grains of the size of a pixel and below, anywhere on the detector."""
    rng = ctx.rng
    sc = MacroScene(rng, px=float(10 ** rng.uniform(-2.5, 0.7)), n=3, place=str(rng.choice(["inside", "inside", "border"])),
                    beam=str(rng.choice(["wide", "wide", "slab"])))
    ctx.sample(**sc.s.summary(), extent_px=round(sc.px, 4))
    I = sc.I()
    for i in range(len(sc.t)):
        fr, out = render(ctx, sc.s.det, subset(sc.pd, [j == i for j in range(len(sc.t))]), 1, "macro")
        F = frames_ok(ctx, fr, sc.s.shape, 1)[0]
        if len(out["peaks"]):
            judge_macro(ctx, sc, i, F, I[i], " of a small grain")
    ctx.nontrivial(round(sc.px, 6), len(sc.t))


def part_on_detector(scene, i, faces):
    """Volume of the lit part of a grain that projects onto the detector."""
    s, p, d = scene.s, scene.s.plane, scene.ko[i]
    H = [ref.halfspaces(np.vstack(faces))]
    for u, top in ((p.zhat, s.nz * s.pz), (p.yhat, s.ny * s.py)):
        a = u - p.normal * (d @ u) / (d @ p.normal)  # the coordinate of the projection of x is a.x + b
        b = -u @ p.c0 + (d @ u) / (d @ p.normal) * (p.normal @ p.c0)
        n = np.linalg.norm(a)
        H += [np.array([[*(-a / n), -b / n]]), np.array([[*(a / n), (b - top) / n]])]
    try:
        faces = ref.clip_polyhedron(scene.V[i], np.vstack([scene.H] + H[1:]))
    except Exception:
        return None
    return ref.faces_volume_centroid(faces)[0] if faces else 0.0


@family
def macro_slivers(ctx):
    """Grains of which only a few pixels are on the detector: no more light than the part behind those."""
    rng = ctx.rng
    sc = MacroScene(rng, px=float(10 ** rng.uniform(-0.3, 1.0)), n=3, place=str(rng.choice(["border", "corner", "corner"])),
                    beam=str(rng.choice(["wide", "wide", "slab"])))
    ctx.sample(**sc.s.summary(), extent_px=round(sc.px, 4))
    I = sc.I()
    for i in range(len(sc.t)):
        pd = subset(sc.pd, [j == i for j in range(len(sc.t))])
        faces, vol, _ = sc.lit(i)
        full = ref.tet_volume(sc.V[i])
        if not faces or vol < 1e-3 * full:
            ctx.saw("grains missed by the beam")
            continue
        part = part_on_detector(sc, i, faces)
        if part is None:
            continue
        z, y = shadow(sc, i, faces)
        box = 1
        for lo, hi, n in ((z.min(), z.max(), sc.s.nz), (y.min(), y.max(), sc.s.ny)):
            box *= max(int(min(hi, n - 1e-9)) - int(max(lo, 0)) + 1, 0)
        repeats = 40 if box <= 4 else 1
        total = []
        for r in range(repeats):
            fr, out = render(ctx, sc.s.det, pd, 1, "macro", seed=7 + r)
            if not len(out["peaks"]):
                break
            total.append(frames_ok(ctx, fr, sc.s.shape, 1)[0].sum() / (I[i] * vol))
        if not total:
            continue
        q = Q = part / vol
        if repeats == 1:
            s = sc.s
            Q = rays(sc, i, faces).sum() * s.pz * s.py * abs(ref.unit(sc.ko[i]) @ s.plane.normal) / vol
        got = float(np.mean(total))
        room = 0.25 if repeats > 1 else 0.06 if Q > 0 else 0.4  # (by samples or rays, respectively)
        ctx.true(got <= max(q, min(Q, 1.0)) + room, "more than the part on the detector of a grain at the border",
                 f"{got:.4f} of the light, {q:.4f} of the volume on the detector", peak=i, pixels=box)
        ctx.true(got > 0 or q < 0.3, "nothing of a grain at the border", f"{q:.4f} of the volume on the detector", peak=i, pixels=box)
        ctx.saw(f"slivers in {'1' if box == 1 else '2-4' if box <= 4 else '5-16' if box <= 16 else 'many'} pixels")
    ctx.nontrivial(round(sc.px, 6), len(sc.t))


@family
def macro_many(ctx):
    """Many peaks of several grains in several frames: the sum of the single images, in the right frames."""
    rng = ctx.rng
    n = int(rng.integers(1, 5))
    sc = MacroScene(rng, n=3, peaks=int(rng.integers(4, 12)), px=float(rng.uniform(9, 16)),
                    beam=str(rng.choice(["wide", "box"])), place=str(rng.choice(["inside", "border"])))
    ctx.sample(**sc.s.summary(), peaks=len(sc.t), frames=n)
    want = np.zeros((n, *sc.s.shape))
    f = im.frame_of(sc.t, n)
    keep = np.ones(len(sc.t), bool)
    for i in range(len(sc.t)):
        G, again = (frames_ok(ctx, render(ctx, sc.s.det, subset(sc.pd, [j == i for j in range(len(sc.t))]), 1, "macro")[0], sc.s.shape, 1)[0]
                    for _ in range(2))
        if G.sum() > 0:
            judge_macro(ctx, sc, i, G, sc.I()[i])
        faces = sc.lit(i)[0]
        box = boxed(sc, *shadow(sc, i, faces)) if faces else 0
        # (else sampled at random)
        keep[i] = np.abs(G - again).max() <= 1e-9 * G.max() and box > 8 and (rays(sc, i, faces) > 0).sum() > 2
        if keep[i]:
            want[f[i]] += G
    ctx.saw("peaks sampled at random", int((~keep).sum()))
    fr, out = render(ctx, sc.s.det, subset(sc.pd, keep), n, "macro")
    F = frames_ok(ctx, fr, sc.s.shape, n)
    same_image(ctx, F, want, "image of many peaks", rtol=1e-6, extra=1e-9 * want.max())
    ctx.close_to(F.sum((1, 2)), want.sum((1, 2)), "totals of the frames", rtol=1e-6, atol=1e-9 * want.sum())
    ctx.nontrivial(len(sc.t), n, round(float(F.sum()), 6))


@family
def macro_times(ctx):
    """Peaks of the same grains, one right after the other, while the sample races through a small beam."""
    rng = ctx.rng
    n, k = int(rng.integers(1, 4)), int(rng.integers(5, 14))
    speed = 10 ** rng.uniform(0.5, 3)  # grain sizes per motion
    dt = rng.uniform(0.02, 0.5, k) / speed
    t = np.cumsum(dt)
    t = t + rng.uniform(0, max(1 - t[-1], 0))
    t = np.minimum(t, 1)
    sc = MacroScene(rng, n=int(rng.choice([1, 1, 2])), peaks=k, px=float(rng.uniform(9, 14)), beam=str(rng.choice(["box", "slab"])),
                    trans=ref.unit(rng.normal(size=3)) * speed, times=t)
    ctx.sample(**sc.s.summary(), peaks=k, frames=n, speed=float(speed))
    f = im.frame_of(sc.t, n)
    want, keep = np.zeros((n, *sc.s.shape)), np.ones(k, bool)
    frac = []
    for i in range(k):
        G, again = (frames_ok(ctx, render(ctx, sc.s.det, subset(sc.pd, np.arange(k) == i), 1, "macro")[0], sc.s.shape, 1)[0] for _ in range(2))
        judge_macro(ctx, sc, i, G, sc.I()[i], " of a fast grain")
        faces, vol, _ = sc.lit(i)
        frac.append(vol / ref.tet_volume(sc.V[i]))
        box = boxed(sc, *shadow(sc, i, faces)) if faces else 9
        keep[i] = not faces or np.abs(G - again).max() <= 1e-9 * G.max() and box > 8 and (rays(sc, i, faces) > 0).sum() > 2
        if keep[i]:
            want[f[i]] += G
    for order in (np.arange(k), rng.permutation(k)):
        m = order[keep[order]]
        pd = dict(sc.pd, peaks=sc.pd["peaks"][torch.as_tensor(m)].clone())
        F = frames_ok(ctx, render(ctx, sc.s.det, pd, n, "macro")[0], sc.s.shape, n)
        same_image(ctx, F, want, "image of a series of peaks", rtol=1e-6, extra=1e-9 * want.max())
    ctx.saw("peaks of partly lit fast grains", int(((np.array(frac) > 0.02) & (np.array(frac) < 0.98)).sum()))
    ctx.saw("peaks of dark fast grains", int((np.array(frac) <= 0.02).sum()))
    ctx.nontrivial(k, n, tuple(np.round(frac, 3)))


@family
def macro_crowd(ctx):
    """More than a hundred peaks in one or two frames: nothing is left out, whatever the company."""
    rng = ctx.rng
    k, n = int(rng.integers(66, 180)), int(rng.choice([1, 1, 2]))
    sc = MacroScene(rng, n=3, peaks=k, px=float(rng.uniform(10, 13)))
    F = frames_ok(ctx, render(ctx, sc.s.det, sc.pd, n, "macro")[0], sc.s.shape, n)
    part = rng.integers(0, 4, k)
    S = sum(arr(render(ctx, sc.s.det, subset(sc.pd, part == j), n, "macro")[0]) for j in range(4))
    I = sc.I() * arr(sc.pd["peaks"])[:, 21]
    f = im.frame_of(sc.t, n)
    same_image(ctx, F, S, "image of a crowd against its parts", rtol=1e-6, extra=1e-2 * I.max())
    for j in range(n):
        ctx.close_to(F[j].sum(), I[f == j].sum(), "total intensity of a crowd", rtol=0.01, atol=0.0)
    ctx.sample(**sc.s.summary(), peaks=k, frames=n)
    ctx.saw("crowded frames", n)
    ctx.nontrivial(k, n, round(float(F.sum()), 6))


@family
def macro_large(ctx):
    """Grains of a hundred pixels and more in one or both directions of the detector."""
    rng = ctx.rng
    while True:
        huge = 1 if rng.random() < 0.85 else 5
        sc = MacroScene(rng, n=1, px=float(huge * rng.uniform(80, 150)), square=True)
        nz, ny = (int(huge * v) for v in rng.integers(150, 260, 2))
        sc.s = s = im.Setup(rng, nz=nz, ny=ny, D=sc.s.D, px=sc.s.pz, square=bool(rng.random() < 0.5), tilt=0.2)
        sc.pd = im.synth(rng, s, nz / 2 * s.pz, ny / 2 * s.py, src=sc.src, t=sc.t, elem=sc.elem, world=sc.w)
        sc.pd["peaks"][:, 21] = torch.tensor([ref.tet_volume(v) for v in sc.V])
        sc.ko = arr(sc.pd["peaks"])[:, 13:16]
        z, y = shadow(sc, 0, [sc.V[0]])
        if max(np.ptp(z), np.ptp(y)) > 70 and np.ptp(z) < 0.9 * nz and np.ptp(y) < 0.9 * ny:
            break
    ctx.sample(**sc.s.summary(), rows=float(np.ptp(z)), columns=float(np.ptp(y)))
    fr, out = render(ctx, sc.s.det, sc.pd, 1, "macro")
    F = frames_ok(ctx, fr, sc.s.shape, 1)[0]
    ctx.true(len(out["peaks"]) == 1, "peak of a large grain", "")
    judge_macro(ctx, sc, 0, F, sc.I()[0], " of a large grain")
    ctx.nontrivial(round(sc.px, 5))


@family
def macro_numbering(ctx):
    """Few peaks of a sample of many elements and nodes: the same image as of a sample of those elements only."""
    rng = ctx.rng
    sc = solid_scene(rng, n=3, beam=str(rng.choice(["wide", "box"])))
    w, N = sc.w, int(rng.choice([130, 260, 5000, 33000, 40000]))
    where = np.sort(rng.choice(N, 3, replace=False))
    if rng.random() < 0.5:
        where[-1] = N - 1
    node = int(rng.integers(0, N))  # the elements of the scene have their own nodes within those of a crowd
    crowd = ref.unit(rng.normal(size=3)) * w.size * 20 + rng.normal(size=(N + 3, 3)) * w.size
    coord = np.vstack((crowd[:node], w.coord, crowd[node:]))
    label = np.r_[np.arange(node), np.arange(node, len(crowd)) + len(w.coord)]
    enod = label[np.arange(N)[:, None] + np.arange(4)]
    enod[where] = w.enod + node
    mesh = TetraMesh.generate_mesh_from_vertices(coord, enod)
    many = dict(sc.pd, peaks=sc.pd["peaks"].clone(), mesh_lab=mesh)
    many["peaks"][:, 0] = torch.tensor(where[sc.elem].astype(float))
    n = int(rng.choice([1, 3]))
    for method in ("macro", "auto"):
        reseed(n)
        a, _ = render(ctx, sc.s.det, sc.pd, n, method)
        reseed(n)
        b, _ = render(ctx, sc.s.det, many, n, method)
        same_image(ctx, frames_ok(ctx, b, sc.s.shape, n), frames_ok(ctx, a, sc.s.shape, n), f"{method}: image depends on the number of elements",
                   rtol=1e-9, extra=1e-9 * arr(a).max(initial=0))
    ctx.sample(elements=N, nodes=len(coord))
    ctx.saw("images of numbered elements", 2)
    ctx.nontrivial(N, tuple(where))


@family
def macro_aligned(ctx):
    """Grains with one or two faces exactly along the scattered rays, in simple numbers."""
    rng = ctx.rng
    sc = MacroScene.__new__(MacroScene)
    sc.px = px = float(rng.integers(12, 22))
    sc.s = s = im.Setup.__new__(im.Setup)
    s.nz, s.ny = (int(v) for v in rng.integers(50, 80, 2))
    s.pz, s.py = 1.0, float(rng.choice([1.0, 1.0, 0.5, 2.0]))
    s.sigma, s.thr, s.maxr, s.flags = float(rng.choice([0.02, 1.0])), 0.02, 2, (True,) * 3
    e = np.eye(3)[rng.permutation(3)] * rng.choice([-1.0, 1.0], 3)[:, None]  # along the rays, columns and rows of the detector
    D, lo = float(2 ** rng.integers(8, 13)), -np.round(np.array([s.nz * s.pz, s.ny * s.py]) / 2)
    s.c0 = D * e[0] + lo[1] * e[1] + lo[0] * e[2]
    s.c1, s.c2 = s.c0 + s.ny * s.py * e[1], s.c0 + s.nz * s.pz * e[2]
    s.det = gen.make_detector(s.c0, s.c1, s.c2, n_pixels=s.shape, gaussian_sigma=s.sigma, kernel_threshold=s.thr, max_gaussian_kernel_radius=s.maxr)
    s.plane, s.dist = ref.Plane(s.c0, s.c1, s.c2), D
    sc.w = w = im.World(rng, n=1, size=px)
    slope = np.array(rng.choice([[1, 1], [1, -1], [1, 2], [2, 1], [1, -3], [1, 0], [0, 1]]), float)
    unit, slope = slope, slope * np.ceil(px / 2 / np.abs(slope).max())
    a = float(rng.integers(6, 20))
    across = np.array([-slope[1], slope[0]]) * rng.choice([-1, 1])
    corner = [0, 0, 0], [a, 0, 0], [float(rng.integers(-5, 20)), *slope]  # a face with the ray in it, in (ray, column, row)
    if rng.random() < 0.5:
        top = [float(rng.integers(-5, 15)), *across]  # two faces meet in an edge along the ray
    else:
        corner = [0, 0, 0], [a, *unit], [float(rng.integers(-5, 20)), *slope]
        top = [float(rng.integers(-5, 15)), *(across + np.round(slope * rng.uniform(-0.5, 1.5)))]
    at = np.r_[float(rng.integers(-5, 5)), np.round(rng.uniform(-3, 3, 2)) + np.array([1 / 8, 1 / 32])]  # no ray is in a face
    sc.V = (np.array([*corner, top], float) + at - [0, *slope / 2])[None, rng.permutation(4)] @ e
    w.coord, w.enod, w.n = sc.V[0].copy(), np.arange(4)[None], 1
    w.mesh = TetraMesh.generate_mesh_from_vertices(w.coord.copy(), w.enod.copy())
    if rng.random() < 0.3:  # a beam whose faces are along the rays as well
        h = np.array([8 * px, 8 * px, 8 * px])
        h[rng.integers(0, 3)] = float(rng.integers(2, 6)) + 0.0625
        b = np.array([[x, y, z] for x in (-1, 1) for y in (-1, 1) for z in (-1, 1)], float) * h
        w.bverts = (b + at) @ e
        w.beam.set_beam_vertices(torch.tensor(w.bverts))
    sc.elem, sc.t, sc.src = np.array([0]), np.array([0.0]), sc.V.mean(1)
    zero = s.c0 @ e.T
    z, y = sc.src[0] @ e[2] - zero[2], sc.src[0] @ e[1] - zero[1]
    sc.pd = im.synth(rng, s, z, y, src=sc.src, t=sc.t, elem=sc.elem, world=w, ko=np.linalg.norm(w.k) * e[:1],
                     vol=[ref.tet_volume(v) for v in sc.V])
    sc.ko, sc.H = arr(sc.pd["peaks"])[:, 13:16], ref.halfspaces(w.bverts)
    ctx.sample(**s.summary(), vertices=sc.V[0].tolist())
    fr, out = render(ctx, s.det, sc.pd, 1, "macro")
    F = frames_ok(ctx, fr, s.shape, 1)[0]
    ctx.true(len(out["peaks"]) == 1, "peak of an aligned grain", "")
    judge_macro(ctx, sc, 0, F, sc.I()[0], " of a grain with a face along the ray")
    ctx.nontrivial(tuple(sc.V.reshape(-1)))


@family
def macro_real(ctx):
    """diffract() of a real sample followed by macro rendering: lit volumes at the times of diffraction."""
    rng = ctx.rng
    sc = scenario(ctx, n=int(rng.integers(1, 4)), nhkl=60, beam=str(rng.choice(["wide", "any"])), spread=0.0)
    with ctx.quiet():
        pd = sc.diffract()
    P = oracle.table(ctx, pd)
    if not len(P):
        ctx.saw("no peak")
        return
    # a detector around one of the spots, with pixels of a twentieth of the grain size
    r = P[rng.integers(len(P))]
    d = ref.unit(r[13:16])
    ext = sc.size + np.abs(P[:, 16:19]).max()
    D = ext * 10 ** rng.uniform(1, 2.5)
    pix = sc.size / 6
    npix = (int(rng.integers(60, 90)), int(rng.integers(60, 90)))
    u = ref.unit(np.cross(d, rng.normal(size=3)))
    v = np.cross(d, u)
    c = r[16:19] + d * D
    c0 = c - u * npix[1] / 2 * pix - v * npix[0] / 2 * pix
    c1, c2 = c0 + u * npix[1] * pix, c0 + v * npix[0] * pix
    s = im.Setup.__new__(im.Setup)
    s.nz, s.ny, s.pz, s.py, s.sigma, s.thr, s.maxr, s.flags = *npix, pix, pix, 1.0, 0.02, 2, (True,) * 3
    s.det, s.plane = gen.make_detector(c0, c1, c2, n_pixels=npix), ref.Plane(c0, c1, c2)
    scene = MacroScene.__new__(MacroScene)
    hit, O = judge_hits(ctx, s.det, s.plane, pd, s.flags, 1)
    if not len(O):
        return
    mv = sc.ref_move()
    idx = O[:6, 24].astype(int)
    scene.s, scene.H, scene.pd = s, ref.halfspaces(sc.bverts), pd
    scene.V = np.array([mv.points(sc.coord[sc.enod[int(P[i, 0])]], P[i, 6]) for i in range(len(P))])
    scene.ko, scene.t = P[:, 13:16], P[:, 6]
    for q, i in enumerate(idx):
        fr, out = render(ctx, s.det, subset(pd, P[:, 24] == i), 1, "macro")
        F = frames_ok(ctx, fr, s.shape, 1)[0]
        judge_macro(ctx, scene, i, F, O[q, 29], " of a diffracted peak")
    ctx.nontrivial(len(P), len(O))


# ------------------------------------------------------------------ C12
def aimed(rng, s, n=1, margin=None):
    """Detector positions in pixels."""
    if margin is None:
        return rng.uniform(0, s.nz, n), rng.uniform(0, s.ny, n)
    return rng.uniform(margin, s.nz - 1 - margin, n), rng.uniform(margin, s.ny - 1 - margin, n)


@family
def micro_single(ctx):
    rng = ctx.rng
    wide = float(rng.uniform(2.5, 12)) if rng.random() < 0.3 else None
    lo = 40 if wide is None else int(6 * wide) + 20
    s = im.Setup(rng, nz=int(rng.integers(lo, lo + 80)), ny=int(rng.integers(lo, lo + 80)), sigma=wide)
    sig = np.sqrt(0.49 + s.sigma ** 2)
    R = max(3, int(3 * sig) + 1) + 2
    pd0 = None
    for mode in ("deep", "edge", "grid"):
        if mode == "deep":
            z, y = aimed(rng, s, 1, R)
        elif mode == "edge":
            z, y = aimed(rng, s, 1)
            if rng.random() < 0.5:
                z = np.array([rng.choice([0.2, 1.4, s.nz - 0.3, s.nz - 1.7])])
            else:
                y = np.array([rng.choice([0.3, 1.3, s.ny - 0.2, s.ny - 1.8])])
        else:
            z, y = np.round(aimed(rng, s, 1, R))
            z, y = np.atleast_1d(z), np.atleast_1d(y)
        pd = im.synth(rng, s, z * s.pz, y * s.py, spread=s.D * 0.01)
        n = int(rng.choice([1, 3]))
        fr, out = render(ctx, s.det, pd, n, "micro")
        F = frames_ok(ctx, fr, s.shape, n, torch.float64)
        O = arr(out["peaks"])
        if not len(O):
            ctx.true(mode == "edge", "peak lost", "")
            continue
        I = im.intensity(arr(pd["peaks"]), s.flags) * arr(pd["peaks"])[:, 21]
        f = im.frame_of(arr(pd["peaks"])[:, 6], n)
        G = F[f[0]]
        want, cut = im.micro_image(s.shape, z, y, I, f, n, s.sigma)
        same_image(ctx, F, want, "micro spot", rtol=2e-3, extra=3e-6 * cut + 1e-6 * want.max())
        if mode != "edge":
            tot, cz, cy, sz, sy = moments(G)
            ctx.close_to(tot, I[0], "total intensity", rtol=2e-4, atol=0)
            ctx.true(abs(cz - z[0]) < 0.04 and abs(cy - y[0]) < 0.04, "centre of the spot", f"at {cz},{cy} expected {z[0]},{y[0]}")
            ctx.true(abs(sz / sig - 1) < 0.06 and abs(sy / sig - 1) < 0.06, "width of the spot", f"{sz},{sy} expected {sig}")
        else:
            ctx.true(G.sum() <= I[0] * (1 + 1e-4), "total intensity at the edge", f"{G.sum()} of {I[0]}")
        ctx.saw(f"spots {mode}")
    ctx.sample(**s.summary())
    ctx.nontrivial(s.shape, s.sigma, round(float(F.sum()), 9))


@family
def micro_many(ctx):
    """Any number of peaks, any order and dynamic range, any frames: the sum of the single Gaussians."""
    rng = ctx.rng
    s = im.Setup(rng)
    k = int(rng.choice([2, 5, 60, 600]))
    n = int(rng.choice([1, 2, 5]))
    z, y = aimed(rng, s, k)
    if rng.random() < 0.3:
        z[: k // 2], y[: k // 2] = z[0], y[0]  # on top of one another
    vol = 10 ** rng.uniform(-9, 9, k) if rng.random() < 0.5 else None
    pd = im.synth(rng, s, z * s.pz, y * s.py, spread=s.D * 0.01, vol=vol)
    P = arr(pd["peaks"])
    I = im.intensity(P, s.flags) * P[:, 21]
    f = im.frame_of(P[:, 6], n)
    fr, out = render(ctx, s.det, pd, n, "micro")
    F = frames_ok(ctx, fr, s.shape, n)
    ok = np.abs(z - np.floor(z) - 0.5) > 1e-9
    want, cut = im.micro_image(s.shape, z, y, I, f, n, s.sigma)
    same_image(ctx, F, want, "image of many peaks", rtol=2e-3, extra=3e-6 * cut + 2e-7 * want)
    perm = rng.permutation(k)
    fr2, _ = render(ctx, s.det, dict(pd, peaks=pd["peaks"][torch.as_tensor(perm)]), n, "micro")
    same_image(ctx, fr2, F, "order of the peaks", rtol=1e-9, extra=1e-12 * F)
    half = np.arange(k) < k // 2
    a, _ = render(ctx, s.det, subset(pd, half), n, "micro")
    b, _ = render(ctx, s.det, subset(pd, ~half), n, "micro")
    same_image(ctx, arr(a) + arr(b), F, "sum of two halves", rtol=1e-9, extra=1e-12 * F)
    weakest = int(np.argmin(I))
    one, _ = render(ctx, s.det, subset(pd, np.arange(k) == weakest), n, "micro")
    want, cut = im.micro_image(s.shape, z[[weakest]], y[[weakest]], I[[weakest]], f[[weakest]], n, s.sigma)
    same_image(ctx, one, want, "weakest peak on its own", rtol=2e-3, extra=3e-6 * cut + 1e-6 * want.max())
    ctx.saw("peaks rendered", k)
    ctx.sample(**s.summary(), peaks=k, frames=n)
    ctx.nontrivial(k, n, round(float(np.log(F.sum() + 1e-300)), 6))


@family
def micro_huge(ctx):
    """More peaks than one batch holds."""
    rng = ctx.rng
    s = im.Setup(rng, nz=20, ny=30, sigma=0.6)
    k = [int(rng.integers(200_100, 200_900)), int(rng.integers(50_001, 60_000)), int(rng.integers(110_001, 149_999)),
         int(rng.integers(20_001, 45_000))][ctx.index % 4]
    z, y = aimed(rng, s, k)
    pd = im.synth(rng, s, z * s.pz, y * s.py, vol=1.0, F2=1.0, L=1.0, pol=1.0)
    pd["peaks"][-5:, 21] = 1e5  # the last rows must not be lost
    with memory(10 ** 15 if ctx.index % 4 == 3 else 64 * 10 ** 9):
        fr, out = render(ctx, s.det, pd, 2, "micro")
    F = frames_ok(ctx, fr, s.shape, 2)
    O = arr(out["peaks"])
    kept = O[:, 24].astype(int)
    I = arr(pd["peaks"])[:, 21]
    f = im.frame_of(arr(pd["peaks"])[:, 6], 2)
    want, cut = im.micro_image(s.shape, z[kept], y[kept], I[kept], f[kept], 2, s.sigma)
    same_image(ctx, F, want, "image of a huge table", rtol=2e-3, extra=4e-6 * cut)
    ctx.saw("peaks rendered", k)
    ctx.nontrivial(k)


# ------------------------------------------------------------------ C13
def nano_fwhm(rng, s, fz):
    """Scherrer widths that give first zeros of about fz (smallest pixel side)."""
    return fz / 1.1861 * min(s.pz, s.py) / s.dist


def nano_spread(rng, s):
    """Sources near the origin, or a good part of the detector distance away from it."""
    return s.dist * float(rng.choice([0.001, 0.001, 0.1, 0.4]))


@family
def nano_single(ctx):
    rng = ctx.rng
    s = im.Setup(rng, nz=int(rng.integers(60, 140)), ny=int(rng.integers(60, 140)), sigma=float(rng.choice([0.5, 1.0, 1.7])),
                 tilt=float(rng.uniform(0.9, 1.3)) if rng.random() < 0.25 else None)
    widths = []
    z, y = aimed(rng, s, 1, 28)
    src = rng.normal(size=(1, 3)) * nano_spread(rng, s)
    for fz in sorted(10 ** rng.uniform(-1, 0.75, 3)):
        pd = im.synth(rng, s, z * s.pz, y * s.py, src=src, fwhm=nano_fwhm(rng, s, fz), t=0.5)
        P = arr(pd["peaks"])
        I = im.intensity(P, s.flags) * P[:, 21]
        fr, out = render(ctx, s.det, pd, 1, "nano")
        F = frames_ok(ctx, fr, s.shape, 1, torch.float64)
        ctx.true(len(out["peaks"]) == 1, "peak lost", "")
        _, _, cosang, _ = oracle.hits(s.plane, P)
        f0 = im.nano_first_zero(s, P, cosang)
        want = im.nano_image(s, z, y, I, np.zeros(1, int), 1, f0)
        same_image(ctx, F, want, "nano spot", rtol=1e-4, extra=1e-5 * want.max())
        tot, cz, cy, sz, sy = moments(F[0])
        anis = max(s.pz, s.py) / min(s.pz, s.py)
        deep = min(z[0], y[0], s.nz - 1 - z[0], s.ny - 1 - y[0]) > 4 * f0[0] + 4
        if deep:
            ctx.true(I[0] * (1 - s.thr) * (1 - 1e-6) <= tot <= I[0] * (1 + 1e-6), "total intensity",
                     f"{tot / I[0]} of the peak's, threshold {s.thr}")
            ctx.true(abs(cz - z[0]) < 0.05 and abs(cy - y[0]) < 0.05, "centre of the spot", f"{cz},{cy} expected {z[0]},{y[0]}")
            # physical width: radius that holds half of the intensity, in microns on the detector
            zz, yy = np.meshgrid((np.arange(s.nz) - z[0]) * s.pz, (np.arange(s.ny) - y[0]) * s.py, indexing="ij")
            rr = np.hypot(zz, yy).ravel()
            o = np.argsort(rr)
            c = np.cumsum(F[0].ravel()[o])
            half = rr[o][np.searchsorted(c, 0.5 * tot)]
            widths.append((f0[0], half))
            if f0[0] > 3.5 and anis < 1.5 and s.sigma <= 1:
                # half of an Airy pattern's intensity lies within 0.535 FWHM, here slightly blurred and cropped
                w = P[0, 23] * abs((s.plane.c0 - P[0, 16:19]) @ s.plane.normal) / abs(cosang[0])
                blur = min(s.pz, s.py) * 1.0
                ctx.true(0.42 * w - blur < half < 0.68 * w + blur, "width of the spot",
                         f"half of the intensity within {half} for a Scherrer width of {w} at the detector")
                ctx.saw("physical widths compared")
        ctx.saw("nano spots")
    for (fa, a), (fb, b) in zip(widths, widths[1:]):
        anis = max(s.pz, s.py) / min(s.pz, s.py)
        if fb > 1.5 * fa and fa > 1.5 and fb > 2.5 * anis:  # (in coarse pixels, both may be as broad as the pixels)
            ctx.true(b > a, "smaller crystallites give broader spots", f"first zero {fa} -> {fb} gave {a} -> {b}")
    ctx.sample(**s.summary())
    ctx.nontrivial(s.shape, s.sigma, round(float(F.sum()), 9))


@family
def nano_many(ctx):
    """A peak's image does not depend on its company: sums, orders, frames, sharp and broad together."""
    rng = ctx.rng
    s = im.Setup(rng, nz=int(rng.integers(30, 80)), ny=int(rng.integers(30, 80)))
    k = int(rng.choice([2, 3, 8, 20]))
    n = int(rng.choice([1, 1, 3]))
    z, y = aimed(rng, s, k)
    pd = im.synth(rng, s, z * s.pz, y * s.py, spread=nano_spread(rng, s), fwhm=nano_fwhm(rng, s, 10 ** rng.uniform(-1.5, 0.8, k)))
    P = arr(pd["peaks"])
    I = im.intensity(P, s.flags) * P[:, 21]
    f = im.frame_of(P[:, 6], n)
    fr, out = render(ctx, s.det, pd, n, "nano")
    F = frames_ok(ctx, fr, s.shape, n)
    _, _, cosang, _ = oracle.hits(s.plane, P)
    want = im.nano_image(s, z, y, I, f, n, im.nano_first_zero(s, P, cosang))
    same_image(ctx, F, want, "image of many peaks", rtol=1e-4, extra=1e-5 * want.max())
    perm = rng.permutation(k)
    fr2, _ = render(ctx, s.det, dict(pd, peaks=pd["peaks"][torch.as_tensor(perm)]), n, "nano")
    same_image(ctx, fr2, F, "order of the peaks", rtol=1e-8, extra=1e-12 * F.max())
    parts = rng.integers(0, 3, k)
    tot = sum(arr(render(ctx, s.det, subset(pd, parts == j), n, "nano")[0]) for j in range(3))
    same_image(ctx, tot, F, "sum of the parts", rtol=1e-8, extra=1e-12 * F.max())
    free = int(10 ** rng.uniform(2, 7))
    with memory(free):  # a few peaks at a time
        fr3, _ = render(ctx, s.det, pd, n, "nano")
    same_image(ctx, fr3, F, "peaks rendered in batches", rtol=1e-8, extra=1e-12 * F.max(), memory=free)
    one = np.arange(k) == rng.integers(k)
    a, _ = render(ctx, s.det, subset(pd, one), n, "nano")
    j = int(np.nonzero(one)[0][0])
    want = im.nano_image(s, z[[j]], y[[j]], I[[j]], f[[j]], n, im.nano_first_zero(s, P[[j]], cosang[[j]]))
    same_image(ctx, a, want, "peak on its own", rtol=1e-4, extra=1e-5 * want.max())
    ctx.sample(**s.summary(), peaks=k, frames=n)
    ctx.nontrivial(k, n, round(float(F.sum()), 9))


@family
def nano_frames(ctx):
    """Tens of frames, most of them populated."""
    rng = ctx.rng
    s = im.Setup(rng, nz=int(rng.integers(24, 50)), ny=int(rng.integers(24, 50)))
    n = int(rng.integers(9, 130))
    k = int(n * rng.uniform(0.5, 2))
    z, y = aimed(rng, s, k)
    pd = im.synth(rng, s, z * s.pz, y * s.py, spread=nano_spread(rng, s), fwhm=nano_fwhm(rng, s, 10 ** rng.uniform(-1.5, 0.5, k)))
    P = arr(pd["peaks"])
    f = im.frame_of(P[:, 6], n)
    F = frames_ok(ctx, render(ctx, s.det, pd, n, "nano")[0], s.shape, n)
    _, _, cosang, _ = oracle.hits(s.plane, P)
    want = im.nano_image(s, z, y, im.intensity(P, s.flags) * P[:, 21], f, n, im.nano_first_zero(s, P, cosang))
    for j in range(n):
        same_image(ctx, F[j], want[j], "one of many frames", rtol=1e-4, extra=1e-5 * want[j].max(), frame=j)
    ctx.saw("frames", n)
    ctx.sample(**s.summary(), peaks=k, frames=n)
    ctx.nontrivial(k, n, round(float(F.sum()), 9))


@family
def nano_broad(ctx):
    """Spots of tens of pixels, alone and beside a sharp one."""
    rng = ctx.rng
    s = im.Setup(rng, nz=int(rng.integers(180, 330)), ny=int(rng.integers(180, 330)), D=float(10 ** rng.uniform(3, 5)),
                 sigma=float(rng.choice([0.5, 1.0, 1.7])), square=bool(rng.random() < 0.7))
    fz = np.array([10 ** rng.uniform(0.7, 1.49), 10 ** rng.uniform(-0.5, 1.0)])
    z, y = aimed(rng, s, 2, 60)
    src = rng.normal(size=(1, 3)) * nano_spread(rng, s)
    pd = im.synth(rng, s, z * s.pz, y * s.py, src=src, fwhm=nano_fwhm(rng, s, fz), t=0.5)
    P = arr(pd["peaks"])
    I = im.intensity(P, s.flags) * P[:, 21]
    _, _, cosang, _ = oracle.hits(s.plane, P)
    f0 = im.nano_first_zero(s, P, cosang)
    for m in (np.array([True, False]), np.array([True, True])):
        F = frames_ok(ctx, render(ctx, s.det, subset(pd, m), 1, "nano")[0], s.shape, 1)
        want = im.nano_image(s, z[m], y[m], I[m], np.zeros(m.sum(), int), 1, f0[m])
        same_image(ctx, F, want, "broad nano spot", rtol=1e-4, extra=1e-5 * want.max())
        ctx.true(F.sum() <= I[m].sum() * (1 + 1e-6), "total intensity", f"{F.sum()} of {I[m].sum()}")
        tot, cz, cy, _, _ = moments(F[0])
    ctx.sample(**s.summary(), first_zero=round(float(f0[0]), 2))
    ctx.saw("broad spots")
    ctx.nontrivial(s.shape, round(float(f0[0]), 6))


@family
def nano_scherrer(ctx):
    """From crystallite volume to the spot: diffraction of small grains, their widths and images together."""
    rng = ctx.rng
    sc = scenario(ctx, n=1, nhkl=40, beam="wide", phases=1, spread=0.0, strain=False)
    # shrink the grain to nanometres
    scale = 10 ** rng.uniform(-3, -1.7) / sc.size
    sc.coord, sc.trans, sc.origin = sc.coord * scale, sc.trans * scale, sc.origin * scale
    sc.size *= scale
    sc.bverts = np.array([[a, b, c] for a in (-1, 1) for b in (-1, 1) for c in (-1, 1)], float)
    with ctx.quiet():
        pd = sc.diffract()
    P = oracle.table(ctx, pd)
    P = P[np.isfinite(P[:, 19])]
    if not len(P):
        ctx.saw("no peak")
        return
    oracle.check_factors(ctx, sc, P)
    r = P[rng.integers(len(P))]
    d = ref.unit(r[13:16])
    D = 1e5
    width = r[23] * D
    pix = width / rng.uniform(3, 8)
    n = 101
    u = ref.unit(np.cross(d, rng.normal(size=3)))
    v = np.cross(d, u)
    c0 = d * D - (u + v) * (n // 2) * pix
    c1, c2 = c0 + u * n * pix, c0 + v * n * pix
    det = gen.make_detector(c0, c1, c2, n_pixels=n, gaussian_sigma=0.3)
    fr, out = render(ctx, det, subset(pd, arr(pd["peaks"])[:, 24] == r[24]), 1, "nano")
    F = frames_ok(ctx, fr, (n, n), 1)[0]
    ctx.true(len(out["peaks"]) == 1, "peak lost", "")
    # width at half maximum of the profile through the centre, at the distance of the ray
    prof = F[n // 2]
    h = prof.max() / 2
    i = np.nonzero(prof >= h)[0]
    lo = i[0] - (prof[i[0]] - h) / (prof[i[0]] - prof[i[0] - 1])
    hi = i[-1] + (prof[i[-1]] - h) / (prof[i[-1]] - prof[i[-1] + 1])
    got = (hi - lo) * pix / D
    ctx.true(abs(got / r[23] - 1) < 0.15, "width on the detector is the Scherrer width", f"{got} expected {r[23]}")
    ctx.sample(crystallite_um=sc.size, fwhm=r[23], measured=got)
    ctx.saw("widths at half maximum measured")
    ctx.nontrivial(round(got, 9))


@family
def image_covariance(ctx):
    """The image of a table does not change when the whole experiment is rotated and moved, however far."""
    rng = ctx.rng
    s = im.Setup(rng, nz=int(rng.integers(20, 70)), ny=int(rng.integers(20, 70)))
    k = int(rng.choice([1, 3, 12]))
    n = int(rng.choice([1, 4]))
    z, y = aimed(rng, s, k)
    pd = im.synth(rng, s, z * s.pz, y * s.py, spread=nano_spread(rng, s), fwhm=nano_fwhm(rng, s, 10 ** rng.uniform(-1, 0.7, k)))
    R = ref.random_rotation(rng) if rng.random() < 0.6 else np.eye(3)
    d = ref.unit(rng.normal(size=3)) * s.dist * float(rng.choice([0, 0.01, 0.5, 0.95, 3]))
    s2 = copy.copy(s)
    s2.c0, s2.c1, s2.c2 = (R @ c + d for c in (s.c0, s.c1, s.c2))
    s2.det = gen.make_detector(s2.c0, s2.c1, s2.c2, pixel_size=(s.pz, s.py), gaussian_sigma=s.sigma, kernel_threshold=s.thr,
                               max_gaussian_kernel_radius=s.maxr, use_structure_factor=s.flags[0], use_lorentz=s.flags[1],
                               use_polarization=s.flags[2])
    P = arr(pd["peaks"]).copy()
    for c in (7, 10, 13, 16):
        P[:, c:c + 3] = P[:, c:c + 3] @ R.T
    P[:, 16:19] += d
    moved = dict(pd, peaks=torch.tensor(P), incident_vector=torch.tensor(R @ arr(pd["incident_vector"])),
                 rotation_axis=torch.tensor(R @ arr(pd["rotation_axis"])))
    for method in ("micro", "nano"):
        A, oa = render(ctx, s.det, pd, n, method)
        B, ob = render(ctx, s2.det, moved, n, method)
        ctx.true(len(oa["peaks"]) == len(ob["peaks"]) == k, "peaks of a moved experiment", f"{len(oa['peaks'])} {len(ob['peaks'])} of {k}")
        same_image(ctx, B, A, f"image of a moved experiment ({method})", rtol=1e-4, extra=1e-4 * arr(A).max(initial=0))
    ctx.saw("images of moved experiments", k)
    ctx.sample(**s.summary(), moved_by=round(float(np.linalg.norm(d) / s.dist), 3))
    ctx.nontrivial(k, n, s.shape)


# ------------------------------------------------------------------ C11
@family
def frames_partition(ctx):
    """Every peak in exactly one frame; stacks of any length add up to the integrated frame."""
    rng = ctx.rng
    method = str(rng.choice(["micro", "nano", "macro", "auto"]))
    k = int(rng.choice([1, 5, 30]))
    if method == "macro":
        sc = solid_scene(rng, n=2, peaks=min(k, 8), px=9.0)
        s, pd, k = sc.s, sc.pd, min(k, 8)
        t = sc.t
    else:
        s = im.Setup(rng, nz=30, ny=35)
        z, y = aimed(rng, s, k)
        w = im.World(rng, n=2)
        pd = im.synth(rng, s, z * s.pz, y * s.py, spread=s.dist * 0.001, world=w, fwhm=nano_fwhm(rng, s, 10 ** rng.uniform(-1, 0.3, k)))
        if method == "auto":  # no grain in the macro group: they would need their own geometry
            lim = min(s.pz, s.py) ** 3
            pd["peaks"][:, 21] = torch.tensor(10 ** rng.uniform(-6, np.log10(max(min(lim * 0.9, 10), 2e-6)), k))
        t = rng.uniform(0, 1, k)
        grid = int(rng.choice([2, 3, 7, 10]))
        exact = rng.random(k) < 0.4
        t = np.where(exact, rng.integers(0, grid + 1, k) / grid, t)
        t = np.where(rng.random(k) < 0.1, np.nextafter(t, rng.choice([0, 1])), t).clip(0, 1)
        t[rng.integers(k)] = rng.choice([0.0, 1.0, 5e-324, 1 - 2e-16])
        pd["peaks"][:, 6] = torch.tensor(t)
    single, out1 = render(ctx, s.det, pd, 1, method)
    S = frames_ok(ctx, single, s.shape, 1)
    O1 = arr(out1["peaks"])
    ctx.true((O1[:, 28] == 0).all(), "frame of a single frame", f"{O1[:, 28]}")
    for n in [int(rng.choice([0, -1, -7])), int(rng.choice([2, 3, 7])), int(rng.choice([10, 31, 100]))]:
        fr, out = render(ctx, s.det, pd, n, method)
        F = frames_ok(ctx, fr, s.shape, n)
        n = max(n, 1)
        O = arr(out["peaks"])
        ctx.true(list(O[:, 24]) == list(O1[:, 24]), "number of frames changes the peaks", f"{len(O)} {len(O1)}")
        fno = O[:, 28]
        ctx.true((fno == np.round(fno)).all() and (fno >= 0).all() and (fno < n).all(), "frame number", f"{fno} of {n}")
        tt = O[:, 6] * n
        ctx.true(((fno - 1e-9 <= tt) & (tt <= fno + 1 + 1e-9)).all(), "frame does not hold the diffraction time",
                 f"{O[:, 6]} {fno} of {n}")
        same_image(ctx, F.sum(0), S[0], "frames do not add up to the integrated frame", rtol=1e-8, extra=1e-11 * S.max())
        for j in np.unique(np.concatenate((fno[:3], [0, n - 1]))).astype(int):
            rows = set(O[fno == j, 24].astype(int))
            m = np.array([int(q) in rows for q in arr(pd["peaks"])[:, 24]])
            if m.any():
                alone, _ = render(ctx, s.det, subset(pd, m), 1, method)
                alone = arr(alone)[0]
            else:
                alone = np.zeros(s.shape)
            same_image(ctx, F[j], alone, "frame is not the image of its own peaks", rtol=1e-8, extra=1e-11 * S.max())
        ctx.saw("stacks", 1)
        ctx.saw("frames", n)
    inter = s.det.peaks_detector_intersection(pd, frames_to_render=n, verbose=False)
    ctx.close_to(arr(inter["peaks"]), O, "table of render() and of the intersection", rtol=0, atol=0)
    ctx.sample(method=method, peaks=k, **s.summary())
    ctx.nontrivial(method, k, len(O), n)


@family
def frames_boundaries(ctx):
    """Times at and next to all the boundaries of many partitions."""
    rng = ctx.rng
    n = int(rng.choice([1, 2, 3, 5, 6, 7, 10, 11, 60, 90, 97, 180, 360, 1000]))
    b = np.arange(n + 1) / n
    t = np.concatenate((b, np.nextafter(b, 2), np.nextafter(b, -1), rng.uniform(0, 1, 50))).clip(0, 1)
    s = im.Setup(rng, nz=16, ny=16, flags=(False, False, False))
    z, y = aimed(rng, s, len(t), 1)
    pd = im.synth(rng, s, z * s.pz, y * s.py, t=t, vol=1.0)
    out = s.det.peaks_detector_intersection(pd, frames_to_render=n, verbose=False)
    O = oracle.check_intersection(ctx, pd, out, s.plane, s.flags, n)
    ctx.true(len(O) == len(t), "peaks lost by time", f"{len(O)} of {len(t)}")
    mono = O[np.argsort(O[:, 6], kind="stable"), 28]
    ctx.true((np.diff(mono) >= 0).all(), "frame numbers do not grow with time", "")
    ctx.true(set(mono.astype(int)) == set(range(n)), "a frame stays empty", f"{n}")
    fr, _ = render(ctx, s.det, pd, n, "micro")
    F = frames_ok(ctx, fr, s.shape, n)
    cnt = np.bincount(O[:, 28].astype(int), minlength=n)
    full = arr(render(ctx, s.det, pd, 1, "micro")[0])
    same_image(ctx, F.sum(0), full[0], "frames do not add up", rtol=1e-9)
    ctx.true((F.sum((1, 2)) <= cnt * 1.0001 + 1e-9).all() and (F.sum((1, 2)) > 0.1 * cnt).all(), "intensity of the frames", "")
    ctx.saw("boundary times", 3 * (n + 1))
    ctx.nontrivial(n)


@family
def frames_real(ctx):
    rng = ctx.rng
    sc = scenario(ctx, nhkl=150, n=int(rng.integers(1, 5)), beam="wide")
    with ctx.quiet():
        pd = sc.diffract()
    P = oracle.table(ctx, pd)
    det, plane = detector_for(ctx, sc, P, npix=(24, 31))
    n = int(rng.choice([2, 5, 17, 60]))
    out, O = judge_hits(ctx, det, plane, pd, (True, True, True), n)
    method = str(rng.choice(["micro", "nano"]))
    F = frames_ok(ctx, render(ctx, det, pd, n, method)[0], (24, 31), n)
    S = frames_ok(ctx, render(ctx, det, pd, 1, method)[0], (24, 31), 1)
    same_image(ctx, F.sum(0), S[0], "frames do not add up to the integrated frame", rtol=1e-8, extra=1e-11 * S.max())
    empty = [j for j in range(n) if not (O[:, 28] == j).any()]
    ctx.true((F[empty] == 0).all(), "intensity in a frame without peaks", "")
    ctx.saw("frames", n)
    ctx.nontrivial(len(O), n)


# ------------------------------------------------------------------ C15
def mixed(rng, n=1, small_world=False):
    """Peaks of all three groups with consistent macro geometry."""
    sc = solid_scene(rng, n=3, peaks=int(rng.integers(3, 8)), px=float(rng.uniform(7, 12)), sigma=1.0)
    s = sc.s
    k = int(rng.integers(3, 25))
    z, y = aimed(rng, s, k)
    lim = min(s.pz, s.py) ** 3
    other = im.synth(rng, s, z * s.pz, y * s.py, spread=s.dist * 0.001, world=sc.w,
                     fwhm=nano_fwhm(rng, s, 10 ** rng.uniform(-1, 0.4, k)))
    other["peaks"][:, 21] = torch.tensor(10 ** rng.uniform(np.log10(lim) - 6, np.log10(lim) - 0.1, k))
    pd = dict(sc.pd)
    pd["peaks"] = torch.cat((sc.pd["peaks"], other["peaks"]))
    perm = torch.as_tensor(rng.permutation(len(pd["peaks"])))
    pd["peaks"] = pd["peaks"][perm]
    pd["peaks"][:, 24] = torch.arange(len(pd["peaks"]), dtype=torch.float64)
    return sc, s, pd, lim


def grouped(ctx, s, pd, n, hi, lo, dtype=None):
    V = arr(pd["peaks"])[:, 21]
    big = V >= hi
    small = ~big & (V < lo)
    want = 0
    sizes = []
    for m, g in ((big, "macro"), (~big & ~small, "micro"), (small, "nano")):
        sizes.append(int(m.sum()))
        want = want + arr(render(ctx, s.det, subset(pd, m), n, g)[0])
    return want, sizes


@family
def auto_routing(ctx):
    """auto = macro(large) + micro(medium) + nano(small), also exactly at the limits and with own limits."""
    rng = ctx.rng
    n = int(rng.choice([1, 1, 3]))
    sc, s, pd, lim = mixed(rng)
    kind = int(rng.integers(0, 7))
    kw = {}
    V = arr(pd["peaks"])[:, 21]
    if kind == 6:  # no lower limit for macro, given as one kind of zero or another
        hi, lo = 0.0, float(rng.choice([0.0, 0.1 ** 3]))
        kw = dict(macro_grain_limit=[0, 0.0, np.float64(0)][rng.integers(3)])
        if lo == 0:
            kw["micro_grain_limit"] = 0
    elif kind == 0:  # defaults
        hi, lo = float(min(s.det.pixel_size_y, s.det.pixel_size_z)) ** 3, 0.1 ** 3
    elif kind == 1:  # own limits that are the volumes of peaks
        o = np.sort(V)
        lo, hi = float(o[len(o) // 4]), float(o[(3 * len(o)) // 4])
        kw = dict(macro_grain_limit=hi, micro_grain_limit=lo)
    elif kind == 2:  # everything into one group
        which = rng.integers(0, 3)
        lo, hi = [(0.0, 0.0), (0.0, np.inf), (np.inf, np.inf)][which]
        if which == 0:
            hi = float(rng.choice([0.0, V.min()]))
        kw = dict(macro_grain_limit=hi, micro_grain_limit=lo)
    elif kind == 3:
        lo, hi = float(np.quantile(V, 0.3)), float(np.quantile(V, 0.7))
        kw = dict(macro_grain_limit=hi, micro_grain_limit=lo)
    elif kind == 5:  # limits that overlap
        hi, lo = float(np.quantile(V, 0.3)), float(np.quantile(V, 0.7))
        kw = dict(macro_grain_limit=hi, micro_grain_limit=lo)
    else:  # default macro limit hit exactly by a volume, and the volume just below it
        hi, lo = float(min(s.det.pixel_size_y, s.det.pixel_size_z)) ** 3, float(np.quantile(V, 0.3))
        lo = min(lo, hi / 10)
        pd["peaks"][0, 21], pd["peaks"][1, 21], pd["peaks"][2, 21] = hi * (1 + 1e-12), hi * (1 - 1e-12), lo
        kw = dict(micro_grain_limit=lo)
    if rng.random() < 0.5:  # a few peaks per group, or one, or none
        V = arr(pd["peaks"])[:, 21]
        g = np.where(V >= hi, 0, np.where(V < lo, 2, 1))
        keep = np.zeros(len(V), bool)
        for j in range(3):
            m = np.nonzero(g == j)[0]
            keep[rng.permutation(m)[:rng.choice([0, 1, 1, 2])]] = True
        if keep.any():
            pd = subset(pd, keep)
            pd["peaks"] = pd["peaks"].clone()
            pd["peaks"][:, 24] = torch.arange(len(pd["peaks"]), dtype=torch.float64)
            V = arr(pd["peaks"])[:, 21]
    snap = snapshot(pd)
    fr, out = render(ctx, s.det, pd, n, "auto", **kw)
    untouched(ctx, pd, snap)
    F = frames_ok(ctx, fr, s.shape, n, torch.float64)
    want, sizes = grouped(ctx, s, pd, n, hi, lo)
    same_image(ctx, F, want, "auto is not the sum of its groups", rtol=1e-8, extra=1e-10 * want.max(), groups=sizes, limits=[lo, hi])
    # the groups' own scales differ by orders of magnitude: judge the dim ones too
    for m in ("macro", "micro", "nano"):
        ctx.saw(f"peaks in group {m}", sizes[("macro", "micro", "nano").index(m)])
    inter = s.det.peaks_detector_intersection(pd, frames_to_render=n, verbose=False)
    ctx.close_to(arr(out["peaks"]), arr(inter["peaks"]), "table of render()", rtol=0, atol=0)
    ctx.true(list(out["columns"]) == oracle.DCOLS, "columns", f"{out['columns']}")
    # every peak on its own: exactly one method (dim peaks cannot hide behind bright ones)
    P = arr(pd["peaks"])
    vis = arr(out["peaks"])[:, 24].astype(int)
    for i in vis[:6]:
        one = subset(pd, P[:, 24] == i)
        a = arr(render(ctx, s.det, one, 1, "auto", **kw)[0])
        v = V[i] if kind != 4 else arr(pd["peaks"])[i, 21]
        g = "macro" if v >= hi else "nano" if v < lo else "micro"
        b = arr(render(ctx, s.det, one, 1, g)[0])
        same_image(ctx, a, b, f"single {g} peak in auto", rtol=1e-8, extra=1e-12 * b.max(), volume=v, limits=[lo, hi])
    ctx.sample(**s.summary(), groups=sizes, limits=[lo, hi])
    ctx.nontrivial(kind, tuple(sizes), n)


@family
def render_laws(ctx):
    """dtype, linearity and finiteness for every method."""
    rng = ctx.rng
    sc, s, pd, lim = mixed(rng)
    n = int(rng.choice([1, 2]))
    P = arr(pd["peaks"])
    for method in ("micro", "nano", "macro", "auto"):
        q = pd if method == "auto" else subset(pd, P[:, 21] >= lim if method == "macro" else P[:, 21] < lim)
        base, out = render(ctx, s.det, q, n, method)
        B = frames_ok(ctx, base, s.shape, n, torch.float64)
        for dt in (torch.float32, torch.float64):
            fr, o2 = render(ctx, s.det, q, n, method, render_dtype=dt)
            F = frames_ok(ctx, fr, s.shape, n, dt)
            same_image(ctx, F, B, f"{method} in {dt}", rtol=1e-3 if dt == torch.float32 else 1e-9,
                       extra=(2e-6 if dt == torch.float32 else 1e-12) * B.max())
            ctx.close_to(arr(o2["peaks"]), arr(out["peaks"]), "table depends on the dtype", rtol=0, atol=0)
        c = float(10 ** rng.choice([rng.uniform(-3, 3), rng.uniform(-12, 12)]))
        q2 = dict(q, peaks=q["peaks"].clone())
        q2["peaks"][:, 20] *= c
        fr, _ = render(ctx, s.det, q2, n, method)
        same_image(ctx, fr, B * c, f"{method} is not linear in the intensity", rtol=1e-8, extra=1e-11 * B.max() * c)
        again, _ = render(ctx, s.det, q, n, method)
        same_image(ctx, again, B, f"{method} is not repeatable", rtol=1e-9, extra=1e-12 * B.max())
        ctx.saw(f"renders {method}", 5)
    # unknown methods are refused
    for bad in ("Micro", "gauss", "", None):
        ctx.raises(ValueError, lambda: s.det.render(pd, method=bad, verbose=False), "unknown method", repr(bad))
    ctx.sample(**s.summary())
    ctx.nontrivial(s.shape, round(float(B.sum()), 6))


@family
def methods_agree(ctx):
    """The same spot rendered by all methods: the same total and position."""
    rng = ctx.rng
    sc = MacroScene(rng, n=1, px=float(rng.uniform(1.0, 8)), sigma=float(rng.choice([0.6, 1.0])), thr=0.02)
    s = sc.s
    sc.pd["peaks"][:, 23] = nano_fwhm(rng, s, float(rng.uniform(0.2, 1.2)))
    I = sc.I()[0] * float(sc.pd["peaks"][0, 21])
    faces, vol, cen = sc.lit(0)
    z, y = shadow(sc, 0, faces)
    got = {}
    for m in ("micro", "nano", "macro", "auto"):
        fr, out = render(ctx, s.det, sc.pd, 1, m)
        F = frames_ok(ctx, fr, s.shape, 1)[0]
        if not len(out["peaks"]):
            return
        got[m] = moments(F)
    R = max(4 * s.sigma + 4, 10)
    box = (np.floor(z.max()) - np.floor(z.min()) + 1) * (np.floor(y.max()) - np.floor(y.min()) + 1)
    deep = min(z.min(), y.min(), s.nz - z.max(), s.ny - y.max()) > R
    if deep:
        for m, (tot, cz, cy, _, _) in got.items():
            ctx.true(I * (1 - s.thr) * 0.999 <= tot <= I * 1.001, f"total of method {m}", f"{tot / I}")
            off = 0.05 if m in ("micro", "nano") else centroid_tol(rays(sc, 0, faces), box, max(np.ptp(z), np.ptp(y)))
            ctx.true(off is None or abs(cz - sc.z[0]) < off and abs(cy - sc.y[0]) < off, f"position of method {m}",
                     f"{cz},{cy} expected {sc.z[0]},{sc.y[0]}")
        ctx.saw("spots rendered by all methods")
    ctx.sample(**s.summary(), extent_px=sc.px)
    ctx.nontrivial(round(sc.px, 6), deep)


# ------------------------------------------------------------------ C22
@family
def detector_model(ctx):
    """Attributes of detectors from corners and pixel specification."""
    rng = ctx.rng
    nz, ny = int(rng.integers(1, 300)), int(rng.integers(1, 300))
    if rng.random() < 0.3:
        ny = nz
    n = ref.unit(rng.normal(size=3))
    u = ref.unit(np.cross(n, rng.normal(size=3)))
    v = np.cross(n, u) * rng.choice([1, -1])
    if rng.random() < 0.4:  # along the axes
        u, v = np.array([0, 1.0, 0]), np.array([0, 0, 1.0])
        n = np.array([1.0, 0, 0])
    pz = float(rng.choice([10 ** rng.uniform(-2, 3), 0.1, 0.3, 1.0, 50.0, 75.0, 1.1, 172.0]))
    py = pz if rng.random() < 0.5 else float(rng.choice([10 ** rng.uniform(-2, 3), 0.1, 0.7, 55.0, 100.0]))
    Z, Y = nz * pz, ny * py
    frac = rng.random() < 0.25  # a size that is not a whole number of pixels
    if frac:
        over = [rng.uniform(0.05, 0.9), 10 ** rng.uniform(-4, -1), 1 - 10 ** rng.uniform(-4, -1)]
        Z, Y = Z - pz * float(rng.choice(over)), Y - py * float(rng.choice(over))
    c0 = n * Z * rng.uniform(0.5, 20) - v * Z * rng.uniform(0, 1) - u * Y * rng.uniform(0, 1)
    c1, c2 = c0 + u * Y, c0 + v * Z
    sigma = float(rng.choice([0.2, 0.5, 1.0, 1.0, 2.0, 5.0]))
    thr = float(rng.choice([0.02, 0.001, 0.2]))
    maxr = int(rng.choice([1, 2, 2, 3, 6, 15]))
    kw = dict(gaussian_sigma=sigma, kernel_threshold=thr, max_gaussian_kernel_radius=maxr)
    by = "size" if frac else str(rng.choice(["n", "size"]))
    if by == "n":
        spec = (nz, ny) if nz != ny or rng.random() < 0.5 else nz
        if isinstance(spec, tuple) and rng.random() < 0.3:
            spec = list(spec)
        det = gen.make_detector(c0, c1, c2, n_pixels=spec, **kw)
    else:
        spec = (pz, py) if pz != py or rng.random() < 0.5 else pz
        if isinstance(spec, tuple) and rng.random() < 0.3:
            spec = list(spec)
        det = gen.make_detector(c0, c1, c2, pixel_size=spec, **kw)
    p = ref.Plane(c0, c1, c2)
    tiny = 1e-9 * (np.abs(c0).max() + Z + Y)
    for name, want in (("det_corner_0", c0), ("det_corner_1", c1), ("det_corner_2", c2)):
        ctx.close_to(getattr(det, name), want, name, atol=tiny)
    ctx.close_to(det.zmax, Z, "zmax", rtol=1e-9)
    ctx.close_to(det.ymax, Y, "ymax", rtol=1e-9)
    ctx.close_to(det.zdhat, v, "zdhat", atol=1e-9)
    ctx.close_to(det.ydhat, u, "ydhat", atol=1e-9)
    ctx.close_to(det.normal, np.cross(v, u), "normal", atol=1e-9)
    ctx.close_to(det.pixel_size_z, pz, "pixel_size_z", rtol=1e-9, atol=0)
    ctx.close_to(det.pixel_size_y, py, "pixel_size_y", rtol=1e-9, atol=0)
    ctx.true(tuple(det.pixel_coordinates.shape) == (nz, ny, 3), "number of pixels",
             f"{tuple(det.pixel_coordinates.shape)} expected {(nz, ny, 3)} for {by}={spec} extents {Z},{Y}")
    zz, yy = np.meshgrid(np.arange(nz) * pz, np.arange(ny) * py, indexing="ij")
    ctx.close_to(det.pixel_coordinates, c0 + zz[..., None] * v + yy[..., None] * u, "pixel coordinates", atol=tiny)
    g = arr(det.gaussian_kernel)
    r = g.shape[0] // 2
    ctx.true(g.ndim == 2 and g.shape[0] == g.shape[1] and g.shape[0] % 2 == 1, "kernel shape", f"{g.shape}")
    ctx.close_to(g.sum(), 1.0, "kernel is normalised")
    ctx.true(np.allclose(g, g.T, rtol=1e-9) and np.allclose(g, g[::-1], rtol=1e-9) and np.allclose(g, g[:, ::-1], rtol=1e-9),
             "kernel is symmetric", "")
    a = np.arange(-r, r + 1.0)
    want = np.exp(-(a[:, None] ** 2 + a[None] ** 2) / (2 * sigma ** 2))
    ctx.close_to(g, want / want.sum(), "kernel is Gaussian", rtol=1e-9, atol=1e-300)
    rr = 1
    while rr <= maxr and np.exp(-rr * rr / (2 * sigma ** 2)) >= thr / 2:
        rr += 1
    ctx.true(r == min(rr, maxr), "kernel radius", f"{r} expected {min(rr, maxr)} for sigma={sigma} threshold={thr} max={maxr}")
    fr, _ = render(ctx, det, im.synth(rng, type("S", (), dict(plane=p)), [Z / 2], [Y / 2], vol=1.0, F2=1, L=1, pol=1), 2, "micro")
    frames_ok(ctx, fr, (nz, ny), 2)
    ctx.sample(pixels=(nz, ny), by=by, spec=spec, sigma=sigma)
    ctx.saw("pixels", nz * ny)
    ctx.nontrivial(nz, ny, by, frac)


def lit_nodes(sc):
    H = ref.halfspaces(sc.bverts)
    d = (sc.coord @ H[:, :3].T + H[:, 3]).max(1)
    return d < 0, np.abs(d).min()


@family
def automatic_bounds(ctx):
    """Bragg bounds from the detector: the exact reference set, nothing lost within the cone it subtends."""
    rng = ctx.rng
    sc = scenario(ctx, n=int(rng.integers(1, 4)), phases=1, nhkl=200, beam=str(rng.choice(["wide", "wide", "box"])), moved=True)
    lit, edge = lit_nodes(sc)
    if edge < 1e-4 * sc.size:
        raise Skip("a node on the surface of the beam")
    centre = sc.coord[lit].mean(0) if lit.any() else sc.coord[np.unique(sc.enod)].mean(0)
    if not lit.any():
        # mean of element centroids or of nodes: only judged when the sample is small
        centre = np.mean([sc.coord[e].mean(0) for e in sc.enod], axis=0)
    tth = 2 * sc.bmax * rng.uniform(0.3, 1.5)
    D = (sc.size + sc.spread + np.abs(sc.coord).max()) * 10 ** rng.uniform(0.3, 3)
    half = D * np.tan(min(tth, 1.2)) / 1.5
    c = gen.random_detector(rng, sc.direction if rng.random() < 0.7 else sc.direction + 0.5 * rng.normal(size=3), D, half, 16)
    det, plane = gen.make_detector(*c, n_pixels=16), ref.Plane(*c)
    cone = plane.subtended(sc.direction, centre) / 2
    given = str(rng.choice(["none", "both", "min"]))
    lo = 0.0 if given == "none" else sc.bmin
    hi = None if given in ("none", "min") else sc.bmax
    top = cone if hi is None else min(hi, cone)
    if top <= lo * 1.001 or len(ref.hkls_in(*sc.cells[0], sc.wavelength, lo, min(top, np.pi / 2))[0]) > 3000:
        raise Skip("empty or too large range")
    kw = {}
    if given != "none":
        kw["min_bragg_angle"] = lo
    if hi is not None:
        kw["max_bragg_angle"] = hi
    with ctx.quiet():
        pd = sc.sample().diffract(sc.beam(), sc.motion(), detector=det, verbose=False, **kw)
    P = oracle.check_rows(ctx, sc, pd)
    if top < np.pi / 2 * 0.999:
        exp = oracle.expected(sc, bounds=(lo, top), bound_slack=1e-7)
        if lit.any():
            oracle.check_complete(ctx, P, exp, what=" with bounds from the detector")
    # never beyond the given bounds
    if hi is not None and len(P):
        K = np.linalg.norm(sc.k)
        h = P[:, 2:5]
        s = np.array([ref.d_star(sc.cells[0][0], x)[0] / 2 for x in h])
        th = np.arcsin(np.minimum(s * sc.wavelength, 1))
        ctx.true((th <= hi * (1 + 1e-7) + 1e-9).all() and (th >= lo * (1 - 1e-7) - 1e-9).all(), "beyond the given bounds",
                 f"{th.min()}..{th.max()} given {lo} {hi}")
    # the same image as without the detector, for reflections within the cone seen from every source
    if top < 0.6 and (hi is None or hi > cone):
        wide = min(top * 1.2 + 0.02, 1.2)
        with ctx.quiet():
            pd2 = sc.sample().diffract(sc.beam(), sc.motion(), min_bragg_angle=lo, max_bragg_angle=wide, verbose=False)
        A = arr(det.peaks_detector_intersection(pd, verbose=False)["peaks"])
        B = arr(det.peaks_detector_intersection(pd2, verbose=False)["peaks"])
        # a source away from the centre sees the detector up to this much further out; so does strain
        off = np.linalg.norm(B[:, 16:19] - centre, axis=1).max(initial=0) if len(B) else 0
        dmin = np.abs((plane.c0 - centre) @ plane.normal)
        margin = np.arctan2(off, max(dmin - off, 1e-9)) + 2 * np.abs(sc.E).max() + 1e-6
        th = np.array([np.arcsin(min(ref.d_star(sc.cells[0][0], x)[0] / 2 * sc.wavelength, 1)) for x in B[:, 2:5]])
        inner = B[th < top - 1e-7] if len(B) else B
        ka = {(int(r[0]), *map(int, r[2:5]), round(r[6], 7)) for r in A}
        kb = {(int(r[0]), *map(int, r[2:5]), round(r[6], 7)) for r in inner}
        near = {k for k in kb - ka if not any(k[:4] == q[:4] and abs(k[4] - q[4]) < 1e-6 for q in ka)}
        ctx.true(not near, "a reflection within the cone is lost", f"{sorted(near)[:3]} of {len(kb)}")
        outer = B[th > top + margin] if len(B) else B
        ctx.true(len(outer) == 0, "reference: a hit outside of the cone", f"{len(outer)} hits beyond {top}+{margin}")
        ctx.saw("hits within the cone", len(inner))
    ctx.saw(f"bounds given: {given}")
    ctx.nontrivial(len(P), round(cone, 6), given)


@family
def automatic_bounds_image(ctx):
    """A sample that is small against the detector: the image with automatic bounds is that of all reflections."""
    rng = ctx.rng
    sc = scenario(ctx, n=int(rng.integers(1, 3)), phases=1, nhkl=150, beam="wide", strain=False, spread=0.0)
    D = (sc.size + np.abs(sc.coord).max() + np.abs(sc.trans).max() + np.abs(sc.origin).max()) * 1e5
    c = gen.random_detector(rng, sc.direction, D, D * np.tan(min(2 * sc.bmax, 1.0)) * rng.uniform(0.3, 0.8), 24)
    det, plane = gen.make_detector(*c, n_pixels=24), ref.Plane(*c)
    with ctx.quiet():
        a = sc.sample().diffract(sc.beam(), sc.motion(), detector=det, verbose=False)
    cone = plane.subtended(sc.direction, np.zeros(3)) / 2
    if len(ref.hkls_in(*sc.cells[0], sc.wavelength, 0, cone + 0.05)[0]) > 4000 or cone > 1.4:
        raise Skip("too many reflections")
    with ctx.quiet():
        b = sc.sample().diffract(sc.beam(), sc.motion(), min_bragg_angle=0, max_bragg_angle=cone + 0.05, verbose=False)
    A, B = (arr(det.peaks_detector_intersection(x, verbose=False)["peaks"]) for x in (a, b))
    th = B[:, 22] / 2
    B = B[th < cone - 1e-3]
    A = A[A[:, 22] / 2 < cone - 1e-3]
    ctx.true(len(A) == len(B), "reflections on the detector lost or added by the automatic bounds", f"{len(A)} with, {len(B)} without")
    ctx.saw("peaks on the detector", len(B))
    key = lambda X: X[np.lexsort((np.round(X[:, 6], 6), X[:, 4], X[:, 3], X[:, 2], X[:, 0]))]
    if len(A):
        ctx.close_to(key(A)[:, 25:27], key(B)[:, 25:27], "positions", rtol=1e-6, atol=1e-6 * D)
    sub = lambda x: subset(x, arr(x["peaks"])[:, 22] / 2 < cone - 1e-3)
    Fa, Fb = (arr(render(ctx, det, sub(x), 2, "micro")[0]) for x in (a, b))
    same_image(ctx, Fa, Fb, "image with and without automatic bounds", rtol=1e-3, extra=1e-6 * Fb.max(initial=0))
    ctx.nontrivial(len(B), round(cone, 6))


@family
def upstream_bounds(ctx):
    """Detectors at any side of the sample, upstream included, or with a corner on the beam: no peak that hits them is lost."""
    rng = ctx.rng
    sc = scenario(ctx, n=int(rng.integers(1, 4)), phases=1, beam="wide", strain=False, spread=0.0)
    V = np.linalg.det(ref.cell_basis(sc.cells[0][0]))
    sc.wavelength = float(2 * (V * 4 * np.pi / 3 / rng.uniform(60, 400)) ** (1 / 3))  # all reflections up to a Bragg angle of 90 degrees
    sc.k = 2 * np.pi / sc.wavelength * sc.direction
    L = sc.size + np.abs(sc.coord).max() + np.abs(sc.trans).max() + np.abs(sc.origin).max()
    D = L * 10 ** rng.uniform(4, 6)
    kind = str(rng.choice(["back", "side", "any", "corner"]))
    if kind == "corner":
        q = ref.unit(np.cross(sc.direction, rng.normal(size=3)))
        c0 = sc.direction * D
        c = (c0, c0 + q * D * rng.uniform(0.1, 2), c0 + np.cross(sc.direction, q) * D * rng.uniform(0.1, 2))
    else:
        side = ref.unit(np.cross(sc.direction, rng.normal(size=3)))
        d = {"back": -sc.direction + 0.3 * rng.normal(size=3), "side": side + 0.3 * rng.normal(size=3), "any": rng.normal(size=3)}[kind]
        c = gen.random_detector(rng, d, D, D * 10 ** rng.uniform(-0.7, 0.7), 16)
    det, plane = gen.make_detector(*c, n_pixels=16), ref.Plane(*c)
    nodes = sc.coord[np.unique(sc.enod)]
    cone = plane.subtended(sc.direction, nodes.mean(0)) / 2
    kw = {} if rng.random() < 0.6 else dict(max_bragg_angle=None)
    with ctx.quiet():
        a = sc.sample().diffract(sc.beam(), sc.motion(), detector=det, verbose=False, **kw)
        b = sc.sample().diffract(sc.beam(), sc.motion(), min_bragg_angle=0, verbose=False)
        A, B = (arr(det.peaks_detector_intersection(x, verbose=False)["peaks"]) for x in (a, b))
    near = 1e-2 + 10 * np.sqrt(L / D)  # the angle varies with the root of the distance to the point opposite to the beam
    keep = lambda X: X[(X[:, 22] / 2 < cone - near) | (cone == np.pi / 2)]
    A, B = keep(A), keep(B)
    ident = lambda X: {(int(r[0]), *map(int, r[2:5]), round(r[6], 6)) for r in X}
    ka, kb = ident(A), ident(B)
    lost = [q for q in kb - ka if not any(q[:4] == x[:4] and abs(q[4] - x[4]) < 1e-5 for x in ka)]
    ctx.true(not lost, "a reflection that hits the detector is lost", f"{lost[:3]}: {len(lost)} of {len(kb)}; {kind}, subtends {2 * cone}")
    far = arr(a["peaks"])
    ctx.true((far[:, 22] / 2 < cone + near).all(), "a reflection beyond the cone", f"{far[:, 22].max(initial=0)} > {2 * cone}")
    lo = float(rng.choice([0.0, rng.uniform(0, 0.6)])) * cone
    hi = float(rng.uniform(lo + 0.05, np.pi / 2))
    with ctx.quiet():
        g = sc.sample().diffract(sc.beam(), sc.motion(), min_bragg_angle=lo, max_bragg_angle=hi, detector=det, verbose=False)
    th = arr(g["peaks"])[:, 22] / 2
    ctx.true((th < min(hi + 1e-6, cone + near)).all() and (th > lo - 1e-6).all(), "beyond the given bounds",
             f"{th.min(initial=2)}..{th.max(initial=0)} given {lo} {hi}, subtends {2 * cone}")
    want = {q[:4] for q in ident(B[(B[:, 22] / 2 > lo + 1e-6) & (B[:, 22] / 2 < hi - 1e-6)])}
    with ctx.quiet():
        G = ident(keep(arr(det.peaks_detector_intersection(g, verbose=False)["peaks"])))
    lost = want - {q[:4] for q in G}
    ctx.true(not lost, "a reflection within the given bounds is lost", f"{sorted(lost)[:3]}: {len(lost)} of {len(want)}; {lo}..{hi}")
    ctx.saw("hits within given bounds", len(want))
    ctx.saw("hits", len(kb))
    ctx.saw("upstream hits", int((B[:, 22] > np.pi / 2).sum()))
    ctx.saw(f"detector {kind}")
    ctx.nontrivial(len(kb), round(cone, 6), kind)


# ------------------------------------------------------------------ C24
@contextlib.contextmanager
def memory(kind):
    """Pretend an amount of free memory for every query the simulator makes."""
    import psutil
    from xrd_simulator import detector as dmod, utils as umod
    real = psutil.virtual_memory
    calls = []

    def fake():
        calls.append(kind)
        if kind == "raise":
            raise RuntimeError("no memory information")
        v = real()
        return v._replace(available=int(kind), free=int(kind))

    psutil.virtual_memory = fake
    try:
        yield calls
    finally:
        psutil.virtual_memory = real


KINDS = ["raise", 0, 1, 1000, 10 ** 5, 10 ** 7, 10 ** 9, 64 * 10 ** 9, 10 ** 15]


@family
def memory_independence(ctx):
    rng = ctx.rng
    sc, s, pd, lim = mixed(rng)
    n = int(rng.choice([1, 3]))
    P = arr(pd["peaks"])
    base = {}
    for method in ("micro", "nano", "macro", "auto"):
        q = pd if method == "auto" else subset(pd, P[:, 21] >= lim if method == "macro" else P[:, 21] < lim)
        with memory(64 * 10 ** 9):
            base[method], _ = render(ctx, s.det, q, n, method)
        for kind in rng.choice(len(KINDS), 3, replace=False):
            with memory(KINDS[kind]) as calls:
                fr, _ = render(ctx, s.det, q, n, method, verbose=bool(rng.integers(0, 2)))
            F = frames_ok(ctx, fr, s.shape, n)
            B = arr(base[method])
            same_image(ctx, F, B, f"{method} depends on free memory", rtol=1e-8, extra=1e-11 * B.max(), memory=str(KINDS[kind]))
            ctx.saw("memory queries answered", len(calls))
            ctx.saw("renders with pretended memory")
    ctx.sample(**s.summary())
    ctx.nontrivial(s.shape, n, round(float(arr(base["auto"]).sum()), 6))


@family
def memory_batches(ctx):
    """Tables larger than the smallest batch, and nano peaks that only fit one at a time."""
    rng = ctx.rng
    s = im.Setup(rng, nz=20, ny=24, sigma=float(rng.choice([0.3, 0.6])))
    if ctx.index % 2 == 0:
        k = int(rng.integers(10_001, 45_000))
        z, y = aimed(rng, s, k)
        pd = im.synth(rng, s, z * s.pz, y * s.py, vol=None, F2=1.0, L=1.0, pol=1.0)
        pd["peaks"][-3:, 21] = 1e6
        pd["peaks"][:3, 21] = 1e6
        method = "micro"
    else:
        k = int(rng.integers(5, 40))
        z, y = aimed(rng, s, k)
        pd = im.synth(rng, s, z * s.pz, y * s.py, fwhm=nano_fwhm(rng, s, 10 ** rng.uniform(-1, 0.7, k)))
        method = "nano"
    imgs = {}
    for kind in (64 * 10 ** 9, 0, "raise", 10 ** 4, 2 * 10 ** 6, 10 ** 15):  # the last one gives the smallest micro batches
        with memory(kind) as calls:
            fr, _ = render(ctx, s.det, pd, 3, method)
        imgs[kind] = frames_ok(ctx, fr, s.shape, 3)
        ctx.saw("memory queries answered", len(calls))
    B = imgs.pop(64 * 10 ** 9)
    P = arr(pd["peaks"])
    O = arr(s.det.peaks_detector_intersection(pd, verbose=False)["peaks"])
    kept = O[:, 24].astype(int)
    I = im.intensity(P, s.flags) * P[:, 21]
    f = im.frame_of(P[:, 6], 3)
    if method == "micro":
        want, cut = im.micro_image(s.shape, z[kept], y[kept], I[kept], f[kept], 3, s.sigma)
        same_image(ctx, B, want, "image", rtol=2e-3, extra=4e-6 * cut)
    for kind, F in imgs.items():
        same_image(ctx, F, B, f"{method} depends on the batches", rtol=1e-8, extra=1e-11 * B.max(), memory=str(kind))
    # the split of the table into two calls
    cut_at = int(rng.integers(1, k))
    a = arr(render(ctx, s.det, subset(pd, np.arange(k) < cut_at), 3, method)[0])
    b = arr(render(ctx, s.det, subset(pd, np.arange(k) >= cut_at), 3, method)[0])
    same_image(ctx, a + b, B, f"{method} depends on the split of the table", rtol=1e-8, extra=1e-11 * B.max())
    ctx.saw("peaks rendered", k)
    ctx.nontrivial(method, k)


@family
def verbosity(ctx):
    """Nothing is printed with verbose off; the flag given to render() overrides the stored one; results are the same."""
    import sys
    rng = ctx.rng
    sc = scenario(ctx, n=int(rng.integers(1, 4)), nhkl=60, beam=str(rng.choice(["wide", "any"])))
    sample, beam, motion = sc.sample(), sc.beam(), sc.motion()

    def captured(fn):
        o, e = io.StringIO(), io.StringIO()
        reseed(5)
        with contextlib.redirect_stdout(o), contextlib.redirect_stderr(e), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            r = fn()
        return r, o.getvalue() + e.getvalue()

    def dif(v, det=None):
        kw = {} if det is None else dict(detector=det)
        return lambda: sample.diffract(beam, motion, min_bragg_angle=sc.bmin, max_bragg_angle=sc.bmax, verbose=v, **kw)

    quiet, text = captured(dif(False))
    ctx.true(text == "", "diffract() prints although verbose is off", repr(text[:200]))
    loud, text = captured(dif(True))
    ctx.saw("characters of progress", len(text))
    A, B = arr(quiet["peaks"]), arr(loud["peaks"])
    key = lambda X: X[np.lexsort((X[:, 6], X[:, 4], X[:, 3], X[:, 2], X[:, 0]))][:, :24]
    ctx.close_to(key(A), key(B), "diffraction depends on verbosity", rtol=1e-9, atol=1e-9)
    det, plane = detector_for(ctx, sc, A, npix=(15, 17))
    try:
        w, text = captured(dif(False, det))
    except AssertionError:  # the detector lies within the lower bound
        text = ""
    ctx.true(text == "", "diffract() with detector prints although verbose is off", repr(text[:200]))
    for method in ("micro", "nano", "auto", "macro"):
        images = []
        many = int(rng.choice([1, 2, 5]))
        for pd in (quiet, loud):
            for v in (None, True, False):
                n = many if many > 1 else int(rng.choice([0, 1]))
                (fr, out), text = captured(lambda: det.render(pd, frames_to_render=n, method=method, verbose=v))
                on = pd["verbose"] if v is None else v
                if not on:
                    ctx.true(text == "", f"render({method}) prints although verbose is off", f"stored {pd['verbose']} given {v}: {text[:200]!r}")
                elif method != "auto" and len(out["peaks"]) and on:
                    ctx.true(text != "", f"render({method}) prints nothing although verbose is on", f"stored {pd['verbose']} given {v}")
                images.append(((pd is loud), arr(fr)))
                ctx.saw("renders captured")
        for flag in (False, True):
            same = [F for g, F in images if g == flag]
            for F in same[1:]:
                same_image(ctx, F, same[0], f"{method} depends on verbosity", rtol=1e-9, extra=1e-12 * same[0].max(initial=0))
    broad = dict(quiet, peaks=quiet["peaks"].clone())  # spots broader than the detector, and narrower than a pixel
    broad["peaks"][:, 23] = torch.tensor(10 ** rng.uniform(-12, 2, len(A)))
    for method in ("nano", "micro"):
        _, text = captured(lambda: det.render(broad, method=method, verbose=False))
        ctx.true(text == "", f"render({method}) of broad spots prints although verbose is off", repr(text[:200]))
    # the flag of one call does not stay with the detector
    _, text = captured(lambda: det.render(quiet, method="micro"))
    ctx.true(text == "", "an earlier verbose render makes later ones print", repr(text[:200]))
    _, text = captured(lambda: det.peaks_detector_intersection(quiet, verbose=False))
    ctx.true(text == "", "intersection prints although verbose is off", repr(text[:200]))
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        with contextlib.redirect_stdout(io.StringIO()):
            odd = dict(quiet, peaks=quiet["peaks"].clone())  # some intensities are infinite, not numbers or zero
            odd["peaks"][::2, 19] = float(rng.choice([np.inf, np.nan, 0.0]))
            for table in (quiet, odd):
                det.peaks_detector_intersection(table, verbose=False)
                det.render(table, method="micro", verbose=False)
    ctx.true(not [x for x in ws if "peaks" in str(x.message)], "warning although verbose is off", f"{[str(x.message)[:80] for x in ws]}")
    ctx.nontrivial(len(A))


check("C10", RULE, [("hits_real", 90, 3000), ("hits_synthetic", 220, 7000), ("hits_exact", 60, 600)])
check("C11", RULE, [("frames_partition", 70, 2500), ("frames_boundaries", 60, 1500), ("frames_real", 30, 1000)])
check("C12", RULE, [("micro_single", 140, 5000), ("micro_many", 90, 3000), ("render_laws", 6, 300), ("micro_huge", 4, 40)])
check("C13", RULE, [("nano_single", 90, 3500), ("nano_many", 80, 3000), ("nano_broad", 8, 300), ("nano_frames", 20, 700), ("image_covariance", 30, 1000), ("render_laws", 6, 300), ("nano_scherrer", 60, 1500)])
check("C14", RULE, [("macro_inside", 60, 2500), ("macro_cut", 110, 4000), ("macro_borders", 80, 3000), ("macro_small", 60, 2000), ("macro_slivers", 40, 1500),
                    ("macro_many", 30, 1200), ("macro_times", 30, 1200), ("render_laws", 8, 300), ("macro_crowd", 4, 200), ("macro_large", 12, 300),
                    ("macro_numbering", 8, 300), ("macro_aligned", 40, 1500), ("macro_real", 60, 2000)])
check("C15", RULE, [("auto_routing", 120, 2500), ("render_laws", 25, 900), ("methods_agree", 60, 2000)])
check("C22", RULE, [("detector_model", 150, 4000), ("automatic_bounds", 90, 3000), ("automatic_bounds_image", 30, 1000), ("upstream_bounds", 80, 2500)])
check("C24", RULE, [("memory_independence", 30, 900), ("memory_batches", 16, 500), ("verbosity", 50, 1200)])
