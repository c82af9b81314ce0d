"""C19 scanning-3DXRD template, C20 sample templates."""
import contextlib
import io

import numpy as np
import torch

from xrd_simulator import templates, utils
from xrd_simulator.phase import Phase
from xrd_simulator.polycrystal import Polycrystal

from .. import gen, oracle, ref
from ..core import Skip, arr, check, family, internal_call, priv, reseed
from .diffraction import RULE
from .imaging import moments, render
from .state import check_mesh_geometry


# ------------------------------------------------------------------ C19
def parameters(rng, small=False):
    def num(v):  # numbers of all kinds
        return [float(v), np.float64(v), v][rng.integers(3)]

    nz, ny = int(rng.integers(1, 400)), int(rng.integers(1, 400))
    D = 10 ** rng.uniform(1, 6.5)
    pz = D * 10 ** rng.uniform(-4, -1.5)
    py = pz if rng.random() < 0.3 else pz * 10 ** rng.uniform(-0.6, 0.6)
    if rng.random() < 0.3:
        pz, py, D = float(round(pz) or 1), float(round(py) or 1), float(round(D) or 1)
    kind = rng.integers(0, 4)
    if kind == 0:
        cz, cy = nz / 2, ny / 2
    elif kind == 1:
        cz, cy = int(rng.integers(0, nz + 1)), int(rng.integers(0, ny + 1))
    elif kind == 2:
        cz, cy = rng.uniform(0, nz), rng.uniform(0, ny)
    else:
        cz, cy = rng.uniform(-2, 3) * nz, rng.uniform(-2, 3) * ny
    p = {"detector_distance": num(D), "number_of_detector_pixels_z": nz, "number_of_detector_pixels_y": ny,
         "detector_center_pixel_z": num(cz), "detector_center_pixel_y": num(cy), "pixel_side_length_z": num(pz),
         "pixel_side_length_y": num(py), "wavelength": float(10 ** rng.uniform(-1, 0.3)),
         "beam_side_length_z": num(D * 10 ** rng.uniform(-4, 0)), "beam_side_length_y": num(D * 10 ** rng.uniform(-4, 0)),
         "rotation_step": float(np.radians(10 ** rng.uniform(-2, 2.2))), "rotation_axis": ref.unit(rng.normal(size=3))}
    if rng.random() < 0.4:
        p["rotation_axis"] = np.array([0, 0, 1.0])
    if rng.random() < 0.3:  # in millimetres, metres, nanometres
        f = float(rng.choice([1e-3, 1e-6, 1e3]))
        for k in p:
            if k == "detector_distance" or "side_length" in k:
                p[k] = p[k] * f
    keys = list(p)
    rng.shuffle(keys)
    out = {k: p[k] for k in keys}
    if rng.random() < 0.3:
        out["comment"] = "not a parameter"
    return out


@family
def s3dxrd_objects(ctx):
    rng = ctx.rng
    p = parameters(rng)
    keep = {k: np.array(v) if isinstance(v, np.ndarray) else v for k, v in p.items()}
    with ctx.quiet():
        beam, det, motion = templates.s3dxrd(p)
    ctx.true(list(p) == list(keep) and all(np.array_equal(p[k], keep[k]) for k in keep), "the parameters were changed", "")
    g = {k: (v if isinstance(v, (str, np.ndarray)) else float(v)) for k, v in p.items()}
    D, nz, ny = g["detector_distance"], int(g["number_of_detector_pixels_z"]), int(g["number_of_detector_pixels_y"])
    pz, py, cz, cy = (g[k] for k in ("pixel_side_length_z", "pixel_side_length_y", "detector_center_pixel_z", "detector_center_pixel_y"))
    tol = 1e-9 * (D + (nz + abs(cz)) * pz + (ny + abs(cy)) * py)
    # detector
    c0 = np.array([D, -cy * py, -cz * pz])
    ctx.close_to(det.det_corner_0, c0, "detector corner 0", atol=tol)
    ctx.close_to(det.det_corner_1, c0 + [0, ny * py, 0], "detector corner 1", atol=tol)
    ctx.close_to(det.det_corner_2, c0 + [0, 0, nz * pz], "detector corner 2", atol=tol)
    ctx.close_to(det.pixel_size_z, pz, "pixel size z", rtol=1e-9)
    ctx.close_to(det.pixel_size_y, py, "pixel size y", rtol=1e-9)
    ctx.true(tuple(det.pixel_coordinates.shape) == (nz, ny, 3), "numbers of pixels", f"{tuple(det.pixel_coordinates.shape)} expected {(nz, ny)}")
    i, j = int(rng.integers(nz)), int(rng.integers(ny))
    ctx.close_to(arr(det.pixel_coordinates)[i, j], c0 + [0, j * py, i * pz], "pixel coordinates", atol=tol)
    ctx.close_to(det.zdhat, [0, 0, 1], "zdhat", atol=1e-12)
    ctx.close_to(det.ydhat, [0, 1, 0], "ydhat", atol=1e-12)
    # beam
    K = 2 * np.pi / g["wavelength"]
    ctx.close_to(beam.wavelength, g["wavelength"], "wavelength", rtol=1e-15)
    ctx.close_to(beam.wave_vector, [K, 0, 0], "direction of the beam", rtol=1e-12, atol=1e-12 * K)
    V = arr(beam.vertices)
    by, bz = g["beam_side_length_y"] / 2, g["beam_side_length_z"] / 2
    want = {(sx * D, sy * by, sz * bz) for sx in (-1, 1) for sy in (-1, 1) for sz in (-1, 1)}
    got = {tuple(v) for v in V}
    ctx.true(len(V) == 8, "beam vertices", f"{len(V)}")
    for w in want:
        d = min(np.abs(np.array(w) - np.array(v)).max() for v in got)
        ctx.true(d <= 1e-12 * D, "beam vertices", f"no vertex at {w}")
    ctx.close_to(beam.centroid, [0, 0, 0], "centre of the beam", atol=1e-9 * D)
    pol = arr(beam.polarization_vector)
    ctx.true(abs(np.linalg.norm(pol) - 1) < 1e-12 and abs(pol[0]) < 1e-12, "polarization", f"{pol}")
    ctx.close_to(np.abs(pol), [0, 1, 0], "polarization along y", atol=1e-12)
    X = rng.uniform(-1.3, 1.3, (300, 3)) * [D, by, bz]
    m = 1 - np.abs(X) / [D, by, bz]
    sure = (np.abs(m) * [D, by, bz]).min(1) > 1e-4 + 1e-5 * D
    if sure.any():
        with internal_call():
            inb = arr(priv(beam, "_contains")(X[sure].T)).astype(bool)
        ctx.true((inb == (m[sure] > 0).all(1)).all(), "points in the beam", "")
        ctx.saw("points in the beam", int(inb.sum()))
    # motion
    ctx.close_to(motion.rotation_angle, g["rotation_step"], "rotation step", rtol=1e-15)
    ctx.close_to(motion.rotation_axis, p["rotation_axis"], "rotation axis", atol=1e-15)
    ctx.close_to(motion.translation, np.zeros(3), "translation", atol=0)
    ctx.close_to(motion.origin, np.zeros(3), "origin of the rotation", atol=0)
    x = rng.normal(size=(4, 3))
    for t in (0.0, 1.0, float(rng.uniform())):
        ctx.close_to(motion(x, t), x @ ref.rotmat(p["rotation_axis"], g["rotation_step"] * t).T, "rotation of the sample", atol=1e-9)
    # the direct beam hits the centre pixel
    plane = ref.Plane(arr(det.det_corner_0), arr(det.det_corner_1), arr(det.det_corner_2))
    z, y, _, front = plane.hit(np.zeros(3), np.array([1.0, 0, 0]))
    ctx.true(front and abs(z / pz - cz) < 1e-6 * (1 + abs(cz)) and abs(y / py - cy) < 1e-6 * (1 + abs(cy)), "the direct beam hits the centre pixel",
             f"{z / pz},{y / py} expected {cz},{cy}")
    # independent of the caller afterwards
    p["rotation_axis"] *= -1
    ctx.close_to(motion.rotation_axis, keep["rotation_axis"], "rotation axis follows the parameters", atol=1e-15)
    ctx.sample(pixels=[nz, ny], distance=D, pixel_size=[pz, py], centre=[cz, cy])
    ctx.nontrivial(nz, ny, round(D, 6))


@family
def s3dxrd_experiment(ctx):
    """A small grain at the origin, diffracted and rendered: spots where geometry demands them."""
    rng = ctx.rng
    n = int(rng.integers(40, 160))
    D = float(10 ** rng.uniform(3, 6))
    cell = [float(rng.uniform(3.5, 5))] * 3 + [90.0] * 3
    w = float(rng.uniform(0.2, 0.5))
    bmax = float(np.arcsin(w / 2 / cell[0] * rng.uniform(1.8, 3)))
    half = D * np.tan(2 * bmax) * rng.uniform(0.6, 1.2)
    nz, ny = n, int(n * rng.uniform(0.6, 1.6))
    pz, py = 2 * half / nz, 2 * half / ny
    cz, cy = nz / 2 + rng.uniform(-0.2, 0.2) * nz, ny / 2 + rng.uniform(-0.2, 0.2) * ny
    R = D * 1e-4
    p = {"detector_distance": D, "number_of_detector_pixels_z": nz, "number_of_detector_pixels_y": ny, "detector_center_pixel_z": cz,
         "detector_center_pixel_y": cy, "pixel_side_length_z": pz, "pixel_side_length_y": py, "wavelength": w, "beam_side_length_z": R * 4,
         "beam_side_length_y": R * 4, "rotation_step": float(rng.uniform(0.1, 1.5)), "rotation_axis": np.array([0, 0, 1.0])}
    with ctx.quiet():
        beam, det, motion = templates.s3dxrd(p)
    coord, enod = gen.random_tets(rng, 2, R * 0.05, R * 0.2)
    U = np.array([ref.random_rotation(rng) for _ in range(2)])
    from xrd_simulator.mesh import TetraMesh
    sample = Polycrystal(TetraMesh.generate_mesh_from_vertices(coord, enod), U, np.zeros((3, 3)), Phase(cell, "Pm-3m"))
    with ctx.quiet():
        pd = sample.diffract(beam, motion, 0.0, bmax, verbose=False)
    P = oracle.table(ctx, pd)
    K = 2 * np.pi / w
    # independent count of reflections
    B = ref.Bmat(cell)
    hkl = np.array(sorted(ref.hkls_in(cell, "Pm-3m", w, 0, bmax)[0]), float).reshape(-1, 3)
    want = 0
    for u in U:
        p1, p2, margin, amp = ref.laue_times_many(np.array([K, 0, 0]), np.array([0, 0, 1.0]), p["rotation_step"], hkl @ (u @ B).T)
        for q in (p1, p2):
            t = q / p["rotation_step"]
            want += int((t[margin > 0] <= 1).sum())
    ctx.true(abs(len(P) - want) <= 1, "number of reflections", f"{len(P)} expected {want}")
    out = det.peaks_detector_intersection(pd, frames_to_render=1, verbose=False)
    O = arr(out["peaks"])
    on = 0
    for r in P:
        k = r[13:16]
        if k[0] <= 0:
            continue
        z = (r[18] + k[2] / k[0] * (D - r[16])) / pz + cz
        y = (r[17] + k[1] / k[0] * (D - r[16])) / py + cy
        mine = O[O[:, 24] == r[24]]
        if 1e-6 < z < nz - 1e-6 and 1e-6 < y < ny - 1e-6 and np.isfinite(r[19]) and r[19] * r[20] > 0:
            on += 1
            ctx.true(len(mine) == 1, "a spot on the detector is missing", f"pixel {z},{y} of {nz}x{ny}")
            ctx.close_to(mine[0, 25:27], [z * pz, y * py], "spot position", atol=1e-6 * D)
            # by angles: 2 theta and the azimuth
            dy, dz = (y - cy) * py, (z - cz) * pz
            ctx.close_to(np.arctan2(np.hypot(dy, dz), D), r[22], "spot radius", atol=5e-4 + 2 * R / D)
    if on:
        i = int(rng.integers(len(O)))
        one = dict(pd, peaks=pd["peaks"][pd["peaks"][:, 24] == O[i, 24]])
        F = arr(render(ctx, det, one, 1, "micro")[0])[0]
        ctx.true(F.shape == (nz, ny), "shape of the image", f"{F.shape}")
        z, y = O[i, 25] / pz, O[i, 26] / py
        if 8 < z < nz - 8 and 8 < y < ny - 8:
            tot, mz, my, _, _ = moments(F)
            ctx.true(abs(mz - z) < 0.1 and abs(my - y) < 0.1, "position of the spot in the image", f"{mz},{my} expected {z},{y}")
            ctx.saw("spots imaged")
    ctx.saw("spots on the detector", on)
    ctx.sample(pixels=[nz, ny], distance=D, reflections=want, on_detector=on)
    ctx.nontrivial(len(P), on)


# ------------------------------------------------------------------ C20
class Probe:
    """An orientation density that records how it was called."""

    def __init__(self, f):
        self.f, self.xs, self.q = f, [], None

    def __call__(self, x, q):
        self.xs.append(np.array(x, float))
        self.q = np.array(q, float)
        self.types = (type(x), type(q), np.shape(x), np.shape(q))
        return self.f(np.asarray(x, float), np.asarray(q, float))


UNIFORM = 1 / np.pi ** 2


def quat(R):
    from scipy.spatial.transform import Rotation
    return Rotation.from_matrix(R).as_quat()


def proper(ctx, U):
    U = arr(U)
    ctx.close_to(np.einsum("nij,nkj->nik", U, U), np.broadcast_to(np.eye(3), U.shape), "sampled matrices are not rotations", atol=1e-9)
    ctx.close_to(np.linalg.det(U), np.ones(len(U)), "sampled rotations are not proper", atol=1e-9)
    ctx.saw("orientations sampled", len(U))
    return U


def mesh_fills(ctx, coord, enod, R, H, want_n):
    """The elements tile the polygonal cylinder."""
    tol = 1e-6 * max(R, H)
    rad = np.hypot(coord[:, 0], coord[:, 1])
    ctx.true((rad <= R + tol).all(), "nodes outside of the cylinder's radius", f"{rad.max()} radius {R}")
    ctx.true((np.abs(coord[:, 2]) <= H / 2 + tol).all(), "nodes outside of the cylinder's height", f"{np.abs(coord[:, 2]).max()} half height {H / 2}")
    V = coord[enod]
    vol = np.abs(np.linalg.det(V[:, 1:] - V[:, :1])) / 6
    ctx.true((vol > 0).all(), "an element has no volume", "")
    # both caps are regular polygons with at least 8 corners on the circle
    for s in (-1, 1):
        rim = coord[(np.abs(coord[:, 2] - s * H / 2) < tol) & (np.abs(rad - R) < tol)]
        ang = np.sort(np.arctan2(rim[:, 1], rim[:, 0]))
        gap = np.diff(np.concatenate((ang, ang[:1] + 2 * np.pi)))
        gap = gap[gap > 1e-6]
        ctx.true(len(gap) >= 8 and gap.max() <= 2 * np.pi / 8 * 1.001, "the rim of the cylinder", f"{len(gap)} corners, largest gap {gap.max(initial=0)}")
        k = round(2 * np.pi / gap.max())
    from scipy.spatial import ConvexHull
    body = ConvexHull(coord).volume
    ctx.close_to(vol.sum(), body, "the elements do not fill the cylinder", rtol=1e-6)
    lo = k / 2 * R * R * np.sin(2 * np.pi / k) * H
    ctx.true(lo * (1 - 1e-6) <= body <= np.pi * R * R * H * (1 + 1e-6), "volume of the sample", f"{body} expected {lo} to {np.pi * R * R * H}")
    n = len(enod)
    ctx.true(want_n / 6 - 40 <= n <= 250 + 3 * want_n, "number of crystals", f"{n} requested {want_n}")
    hull = ConvexHull(coord).equations
    pts = np.random.default_rng(n).uniform(-1, 1, (80, 3)) * [R, R, H / 2]
    A = np.linalg.inv((V[:, 1:] - V[:, :1]).transpose(0, 2, 1))
    for x in pts:
        if (hull[:, :3] @ x + hull[:, 3]).max() > -1e-6 * R:
            continue
        lam = np.einsum("eij,ej->ei", A, x - V[:, 0])
        m = np.minimum(lam.min(1), 1 - lam.sum(1))
        ctx.true((m > 1e-9).sum() <= 1, "elements overlap", f"{x}")
        ctx.true((m > -1e-9).sum() >= 1, "a point of the cylinder lies in no element", f"{x}")
        ctx.saw("probe points")


@family
def odf_cylinder(ctx):
    rng = ctx.rng
    R, H = 10 ** rng.uniform(-1, 3), 10 ** rng.uniform(-1, 3)
    H = float(np.clip(H, R / 8, R * 8))
    n = int(10 ** rng.uniform(0.5, 2.6))
    probe = Probe(lambda x, q: np.full(len(q), UNIFORM))
    A, b = rng.normal(size=(3, 3)) * 1e-3, rng.normal(size=3) / max(R, H)
    A = A + A.T
    seen = []

    def strain(x):
        seen.append((type(x), np.shape(x), np.array(x, float)))
        return A * np.cos(b @ x) + np.eye(3) * 1e-4 * np.sin(b @ x)

    cell, sg = gen.CATALOGUE[rng.integers(len(gen.CATALOGUE))]
    with_strain = rng.random() < 0.7
    args = dict(orientation_density_function=probe, number_of_crystals=n, sample_bounding_cylinder_height=H if rng.random() < 0.8 else int(np.ceil(H)),
                sample_bounding_cylinder_radius=R if rng.random() < 0.8 else int(np.ceil(R)), unit_cell=list(cell), sgname=sg,
                maximum_sampling_bin_seperation=float(np.radians(rng.uniform(12, 30))))
    if with_strain:
        args["strain_tensor"] = strain
    R, H = float(args["sample_bounding_cylinder_radius"]), float(args["sample_bounding_cylinder_height"])
    with ctx.quiet():
        s = templates.polycrystal_from_odf(**args)
    mesh = s.mesh_lab
    coord, enod = arr(mesh.coord), arr(mesh.enod).astype(int)
    mesh_fills(ctx, coord, enod, R, H, n)
    check_mesh_geometry(ctx, mesh, coord, enod, max(R, H), " (cylinder)")
    cen = coord[enod].mean(1)
    U = proper(ctx, s.orientation_lab)
    ctx.true(len(U) == len(enod), "one orientation per element", f"{len(U)} {len(enod)}")
    ctx.true(len(np.unique(np.round(U.reshape(-1, 9), 9), axis=0)) == len(U), "orientations are drawn once per element", "")
    E = arr(s.strain_lab)
    if with_strain:
        want = np.array([A * np.cos(b @ x) + np.eye(3) * 1e-4 * np.sin(b @ x) for x in cen])
        ctx.close_to(E, want, "strain at the centroids", rtol=1e-7, atol=1e-10)
        ctx.true(all(t[0] is np.ndarray and t[1] == (3,) for t in seen), "the strain field is called with numpy points", f"{seen[0][:2]}")
    else:
        ctx.close_to(E, np.zeros_like(want_shape(E)), "strain", atol=0)
    X = np.array(probe.xs)
    ctx.true(probe.types[0] is np.ndarray and probe.types[1] is np.ndarray and probe.types[2] == (3,) and probe.types[3][1:] == (4,),
             "arguments of the orientation density", f"{probe.types}")
    for x in cen:
        ctx.true(np.abs(X - x).max(1).min() < 1e-9 * (R + H), "the density is evaluated at the centroid of every element", f"{x}")
    ctx.true(len(s.phases) == 1 and list(s.phases[0].unit_cell) == list(cell) and s.phases[0].sgname == sg, "phase of the sample", "")
    ctx.close_to(s.element_phase_map, np.zeros(len(enod)), "phase map")
    ctx.sample(radius=R, height=H, requested=n, elements=len(enod))
    ctx.nontrivial(len(enod), round(R, 6))


def want_shape(E):
    return np.zeros(np.shape(E))


def draws(ctx, odf, N, sep, X=None):
    f = priv(templates, "_sample_ODF")
    X = np.zeros((N, 3)) if X is None else X
    with internal_call():
        U = f(odf, sep, X)
    U = proper(ctx, U)
    ctx.true(len(U) == N, "one orientation per coordinate", f"{len(U)} of {N}")
    return U


def grid(ctx, sep):
    """The grid of orientations at which densities are evaluated."""
    probe = Probe(lambda x, q: np.full(len(q), UNIFORM))
    draws(ctx, probe, 1, sep)
    return probe.q


def sphere_points(n, rng):
    q = rng.normal(size=(n, 4))
    return q / np.linalg.norm(q, axis=1, keepdims=True)


@family
def odf_grid(ctx):
    """The grid covers orientation space once, within the requested separation, with normalised weights."""
    rng = ctx.rng
    deg = float(rng.uniform(5, 40)) if ctx.tier != "thorough" else float(rng.uniform(3, 40))
    sep = float(np.radians(deg))
    q = grid(ctx, sep)
    ctx.close_to(np.linalg.norm(q, axis=1), np.ones(len(q)), "grid quaternions are not unit", atol=1e-12)
    # coverage: no orientation is farther from the grid than a cell's half diagonal
    T = sphere_points(300, rng)
    c = np.abs(T @ q.T).max(1)
    far = 2 * np.arccos(np.clip(c, -1, 1))
    ctx.true(far.max() <= 1.8 * sep, "orientation space is not covered", f"{np.degrees(far.max())} degrees from the grid, separation {deg}")
    # normalisation: a constant density with integral c is accepted exactly when |c - 1| < 0.05
    for v, ok in ((1.0, True), (1.049, True), (0.951, True), (1.052, False), (0.948, False), (0.5, False), (2.0, False), (0.0, False)):
        odf = lambda x, qq: np.full(len(qq), UNIFORM * v)  # noqa: B023
        if ok:
            draws(ctx, odf, 1, sep)
        else:
            ctx.raises((AssertionError, ValueError), lambda: draws(ctx, odf, 1, sep), "density that is not normalised", f"integral {v}")
    ctx.saw("grid points", len(q))
    # each cell has its true volume: narrow densities, normalised by an independent integral over smooth test functions
    for _ in range(3):
        c = sphere_points(1, rng)[0]
        p = int(rng.integers(1, 4))
        # integral of |q.c|^(2p) over the half sphere: pi^2 * (2p-1)!!/( 4*6*...*(2p+2) ) * ...
        want = np.pi ** 2 * np.prod([(2 * k - 1) / (2 * k + 2) for k in range(1, p + 1)])
        for v, ok in ((1.0, True), (1.09, False), (0.91, False)):
            odf = lambda x, qq: v / want * (qq @ c) ** (2 * p)  # noqa: B023
            if ok and deg < 30:
                draws(ctx, odf, 1, sep)
            elif not ok and deg < 20:
                ctx.raises((AssertionError, ValueError), lambda: draws(ctx, odf, 1, sep), "density that is not normalised", f"integral {v}")
    ctx.nontrivial(round(deg, 6), len(q))


@family
def odf_distribution(ctx):
    """Many draws against the moments of the density (integrated independently)."""
    rng = ctx.rng
    N = 4500 if ctx.tier != "thorough" else 9000
    sep = float(np.radians(rng.uniform(9, 13)))
    c = sphere_points(1, rng)[0]
    p = int(rng.integers(0, 4))
    want = np.pi ** 2 * np.prod([(2 * k - 1) / (2 * k + 2) for k in range(1, p + 1)])
    odf = Probe(lambda x, q: (q @ c) ** (2 * p) / want)
    U = draws(ctx, odf, N, sep)
    q = quat(U)
    # E|q.d|^2 and E|q.d|^4 for the density |q.c|^2p, from the closed form in the basis (c, perpendicular):
    # q.c = cos(a), density of a on the half sphere ~ cos^2p sin^2
    a = (np.arange(200000) + 0.5) / 200000 * np.pi / 2
    w = np.cos(a) ** (2 * p) * np.sin(a) ** 2
    w /= w.sum()
    m2, m4 = (w * np.cos(a) ** 2).sum(), (w * np.cos(a) ** 4).sum()
    s2 = (1 - m2) / 3
    B = np.linalg.qr(np.column_stack((c, np.eye(4)[:, :3] + 1e-3 * rng.normal(size=(4, 3)))))[0]
    got = ((q @ B) ** 2)
    for i in range(4):
        mean = m2 if i == 0 else s2
        sd = got[:, i].std() / np.sqrt(N)
        ctx.true(abs(got[:, i].mean() - mean) <= 6.5 * sd + 0.012 * mean + 0.002, "second moments of the sampled orientations",
                 f"{got[:, i].mean()} expected {mean} +- {6.5 * sd}", power=p)
    sd = (got[:, 0] ** 2).std() / np.sqrt(N)
    ctx.true(abs((got[:, 0] ** 2).mean() - m4) <= 6.5 * sd + 0.02 * m4 + 0.002, "fourth moment of the sampled orientations",
             f"{(got[:, 0] ** 2).mean()} expected {m4}", power=p)
    marginals(ctx, q, lambda v: (v @ c) ** (2 * p))
    # rotations about random axes: Haar marginal of matrix entries for the uniform density
    if p == 0:
        haar(ctx, U)
    # within the cells the draws are spread, not put on the grid
    spread_in_cells(ctx, q, odf.q, sep)
    d = 2 * np.arccos(np.clip(np.abs(q[:400] @ odf.q.T).max(1), -1, 1))
    ctx.true(np.median(d) > 0.05 * sep, "draws lie on the grid", f"median distance {np.degrees(np.median(d))} degrees")
    ctx.true(d.max() <= 1.8 * sep, "draws far from the grid", "")
    ctx.saw("moments compared", 5)
    ctx.nontrivial(p, round(sep, 6))


def marginals(ctx, q, density):
    """Distributions of the angles of the draws, and of their projections, early and late ones alike."""
    rng = ctx.rng
    v = sphere_points(300000, rng)
    v *= np.where(v[:, :1] < 0, -1, 1)
    w = density(v)
    neff = w.sum() ** 2 / (w * w).sum()
    q = q * np.where(q[:, :1] < 0, -1, 1)
    d = sphere_points(2, rng)

    def stats(v):
        s = np.sqrt(np.maximum(1 - v[:, 0] ** 2, 1e-300))
        return dict(first=v[:, 0], second=v[:, 3] / s, third=np.arctan2(v[:, 2], v[:, 1]), one=np.abs(v @ d[0]), another=np.abs(v @ d[1]))

    A, Bs = stats(v), stats(q)
    for name in A:
        o = np.argsort(A[name])
        F = np.cumsum(w[o]) / w.sum()
        for part, label in ((slice(None), "all"), (slice(len(q) // 2), "first half"), (slice(len(q) // 2, None), "second half")):
            x = np.sort(Bs[name][part])
            D = np.abs(np.interp(x, A[name][o], F) - (np.arange(len(x)) + 0.5) / len(x)).max()
            ctx.true(D <= 3.3 / np.sqrt(len(x)) + 3.3 / np.sqrt(neff) + 0.02, "distribution of the sampled orientations",
                     f"{name} coordinate: KS distance {D} of {len(x)} draws ({label})")
    ctx.saw("marginal distributions compared", 15)


def spread_in_cells(ctx, q, grid, sep):
    """Draws fill the cells of the grid evenly, in each of its three angles."""
    if cell_volumes(sep, grid) is None:
        return
    step = np.diff(np.unique(np.round(np.arccos(np.clip(grid[:, 0], -1, 1)), 6)))[0]
    step = np.pi / 2 / round(np.pi / 2 / step)
    q = q * np.where(q[:, :1] < 0, -1, 1)
    a1 = np.arccos(np.clip(q[:, 0], -1, 1))
    a2 = np.arccos(np.clip(q[:, 3] / np.sin(a1), -1, 1))
    a3 = np.arctan2(q[:, 2], q[:, 1])
    for a, name in ((a1, "first"), (a2, "second"), (a3, "third")):
        x = np.sort((a / step) % 1)
        D = np.abs(x - (np.arange(len(x)) + 0.5) / len(x)).max()
        ctx.true(D <= 3.3 / np.sqrt(len(x)) + 0.02, "draws do not fill the cells of the grid evenly", f"{name} angle: KS distance {D} of {len(x)}")
    ctx.saw("spreads within cells compared", 3)


@family
def odf_cell(ctx):
    """A density on a single grid cell: the draws fill that cell, in all three directions, and nothing else."""
    rng = ctx.rng
    sep = float(np.radians(rng.uniform(12, 25)))
    g = grid(ctx, sep)
    ok = np.nonzero((g[:, 1] ** 2 + g[:, 2] ** 2 > 0.5))[0]
    if not len(ok):
        raise Skip("other grid")
    i = int(ok[rng.integers(len(ok))])

    def odf(v):
        return lambda x, q: v * (np.arange(len(q)) == i)

    def accepted(v):
        try:
            draws(ctx, odf(v), 1, sep)
            return True
        except (AssertionError, ValueError):
            return False

    # the weight of the cell: the density is accepted where density times volume is one within 5 percent
    vs = (sep / 2) ** -3 * 1.07 ** np.arange(-25, 60)
    good = [v for v in vs if accepted(v)]
    ctx.true(1 <= len(good) <= 2, "normalisation of a density on a single cell", f"accepted {good} of {len(vs)}")
    N = 250
    q = quat(draws(ctx, odf(good[0]), N, sep))
    q = q * np.sign(q @ g[i])[:, None]
    # coordinates in the tangent space (twice, as the rotation angle is twice that of the quaternion)
    T = np.linalg.svd(g[i][None])[2][1:]
    x = 2 * (q @ T.T)
    sd = np.sqrt(np.linalg.eigvalsh(np.cov(x.T)))
    ctx.true(sd[0] >= 0.08 * sep and sd[2] <= 0.42 * sep, "draws do not fill their cell",
             f"standard deviations {np.degrees(sd)} degrees, separation {np.degrees(sep)}")
    ctx.true(np.linalg.norm(x.mean(0)) <= 0.15 * sep, "draws are not centred on their cell", f"{np.degrees(x.mean(0))}")
    ctx.saw("cells drawn from")
    ctx.nontrivial(i, round(sep, 6))


def haar(ctx, U):
    """Uniform orientations: rotated directions are uniform on the sphere, rotation angles follow (1-cos)/pi."""
    N = len(U)
    ks = 3.3 / np.sqrt(N) + 0.015 * (N < 1e9)  # P(D > 3.3/sqrt(N)) < 1e-9; the grid adds a little
    for v in (np.eye(3)[0], np.eye(3)[1], np.eye(3)[2], ref.unit(np.array([1.0, -2, 0.5]))):
        for Y in (U @ v, np.einsum("nij,i->nj", U, v)):
            for k in range(3):
                x = np.sort(Y[:, k])
                D = np.abs((x + 1) / 2 - (np.arange(N) + 0.5) / N).max()
                ctx.true(D <= ks, "uniform orientations: directions are not uniform", f"KS distance {D} of {N} draws")
    ang = np.sort(np.arccos(np.clip((np.trace(U, axis1=1, axis2=2) - 1) / 2, -1, 1)))
    D = np.abs((ang - np.sin(ang)) / np.pi - (np.arange(N) + 0.5) / N).max()
    ctx.true(D <= ks, "uniform orientations: rotation angles", f"KS distance {D} of {N} draws")
    # consecutive draws are independent
    tr = np.einsum("nij,nij->n", U[1:], U[:-1])
    ctx.true(abs(tr.mean()) <= 7 / np.sqrt(N), "consecutive draws depend on each other", f"mean trace {tr.mean()}")
    ctx.saw("uniformity tests")


@family
def odf_support(ctx):
    """Densities that vanish over parts of orientation space, differently at every point of the sample."""
    rng = ctx.rng
    sep = float(np.radians(rng.uniform(8, 14)))
    kind = str(rng.choice(["half", "ball", "single cell"]))
    N = 60
    X = rng.normal(size=(N, 3))
    centres = sphere_points(N, rng)
    which = {tuple(np.round(x, 12)): i for i, x in enumerate(X)}
    q = grid(ctx, sep)

    def region(i, qq):
        c = np.abs(qq @ centres[i])
        if kind == "half":
            return c > np.cos(np.pi / 4)
        if kind == "ball":
            return c > np.cos(max(2.2 * sep, 0.4) / 2)
        return c >= c.max() - 1e-12

    norm = {}
    cells = cell_volumes(sep, q)
    if cells is None:
        raise Skip("the grid is not that of spherical coordinates")
    for i in range(N):
        norm[i] = 1 / cells[region(i, q)].sum()

    def odf(x, qq):
        i = which[tuple(np.round(np.asarray(x, float), 12))]
        return np.where(region(i, np.asarray(qq)), norm[i], 0.0)

    U = draws(ctx, odf, N, sep, X)
    s = quat(U)
    for i in range(N):
        d = 2 * np.arccos(np.clip(np.abs(q[region(i, q)] @ s[i]).max(), -1, 1))
        ctx.true(d <= 0.95 * sep + 1e-9, "an orientation was drawn where the density vanishes",
                 f"{np.degrees(d)} degrees from the support, cells are {np.degrees(sep)} wide ({kind})")
    ctx.saw("draws compared with their support", N)
    ctx.nontrivial(kind, round(sep, 6))


def cell_volumes(sep, q):
    """True volumes of the cells of a regular grid in hyperspherical angles with the given centres, or None."""
    a1 = np.arccos(np.clip(q[:, 0], -1, 1))
    with np.errstate(all="ignore"):
        a2 = np.arccos(np.clip(q[:, 3] / np.sin(a1), -1, 1))
    u = np.unique(np.round(a1, 6))
    if len(u) < 2 or np.ptp(np.diff(u)) > 1e-5:
        return None
    d = np.diff(u)[0] / 2
    # integral of sin^2 and sin over the cell, by Simpson's rule on a fine grid
    t = np.linspace(-d, d, 201)
    w = np.ones(201)
    w[1:-1:2], w[2:-1:2] = 4, 2
    w *= (t[1] - t[0]) / 3
    v1 = {k: (w * np.sin(k + t) ** 2).sum() for k in u}
    u2 = np.unique(np.round(a2, 6))
    v2 = {k: (w * np.sin(k + t)).sum() for k in u2}
    vol = np.array([v1[k] for k in np.round(a1, 6)]) * np.array([v2[k] for k in np.round(a2, 6)]) * 2 * d
    return vol if abs(vol.sum() - np.pi ** 2) < 1e-3 else None


@family
def odf_spatial_texture(ctx):
    """Texture and strain that vary through the cylinder: every element follows its own centroid."""
    rng = ctx.rng
    R, H = 10 ** rng.uniform(-0.5, 2), 10 ** rng.uniform(-0.5, 2)
    H = float(np.clip(H, R / 4, R * 4))
    sep = float(np.radians(rng.uniform(9, 14)))
    c = sphere_points(2, rng)
    n = ref.unit(rng.normal(size=3))
    # (q.c)^(2p): a peak about c on one side and about another orientation on the other side
    p = 40

    def odf(x, q):
        k = (np.asarray(q) @ c[int(n @ x > 0)]) ** (2 * p)
        return k / want

    a = (np.arange(200000) + 0.5) / 200000 * np.pi / 2
    want = 4 * np.pi * (np.cos(a) ** (2 * p) * np.sin(a) ** 2).sum() * (np.pi / 2 / 200000)
    try:
        with ctx.quiet():
            s = templates.polycrystal_from_odf(odf, int(rng.integers(40, 250)), H, R, [4.0, 4, 4, 90, 90, 90], "Pm-3m",
                                               maximum_sampling_bin_seperation=sep)
    except AssertionError:
        raise Skip("the density is too narrow for the grid")
    cen = arr(s.mesh_lab.coord)[arr(s.mesh_lab.enod).astype(int)].mean(1)
    q = quat(proper(ctx, s.orientation_lab))
    side = (cen @ n > 0).astype(int)
    # 1 - (q.c)^2 has mean about 3/(2p+4): far tails are impossible
    m = np.abs(np.einsum("ni,ni->n", q, c[side]))
    lim = np.cos(min(np.arccos(10 ** (-14 / (2 * p))) + sep, np.pi / 2))
    ctx.true((m >= lim).all(), "an orientation does not follow the density at its centroid", f"lowest |q.c| {m.min()} limit {lim}")
    ctx.true(abs((m ** 2).mean() - (2 * p + 1) / (2 * p + 4)) < 0.03 + 6.5 * (m ** 2).std() / np.sqrt(len(m)), "spread about the texture component",
             f"{(m ** 2).mean()} expected {(2 * p + 1) / (2 * p + 4)}")
    ctx.sample(elements=len(q), radius=R, height=H)
    ctx.nontrivial(len(q), round(R, 6))


@family
def powder(ctx):
    rng = ctx.rng
    R = float(10 ** rng.uniform(-2, 3))
    n = int(rng.choice([1, 2, 3, 10, 100, 1500]))
    cell, sg = gen.CATALOGUE[rng.integers(len(gen.CATALOGUE))]
    E = rng.normal(size=(3, 3)) * 1e-3
    E = (E + E.T) / 2
    kw = {} if rng.random() < 0.3 else {"strain_tensor": E.copy()}
    with ctx.quiet():
        s = templates.get_uniform_powder_sample(R, n, list(cell), sg, **kw)
    want = kw.get("strain_tensor", np.zeros((3, 3)))
    coord, enod = arr(s.mesh_lab.coord), arr(s.mesh_lab.enod).astype(int)
    ctx.true(len(enod) == n and int(s.mesh_lab.number_of_elements) == n, "number of grains", f"{len(enod)} requested {n}")
    V = coord[enod]
    r = np.linalg.norm(V, axis=2)
    ctx.true((r <= R * (1 + 1e-9)).all(), "a grain reaches out of the bounding sphere", f"{r.max()} of {R}")
    vol = np.abs(np.linalg.det(V[:, 1:] - V[:, :1])) / 6
    ctx.true((vol > 1e-3 * R ** 3).all(), "grains have no volume", f"{vol.min()}")
    ctx.close_to(s.mesh_lab.evolumes, vol, "volumes", rtol=1e-6)
    # overlaid at the origin: all grains hold it
    lam = np.linalg.solve((V[:, 1:] - V[:, :1]).transpose(0, 2, 1), -V[:, 0][:, :, None])[:, :, 0]
    ctx.true((np.minimum(lam.min(1), 1 - lam.sum(1)) >= -1e-9).all(), "a grain does not hold the origin", "")
    U = proper(ctx, s.orientation_lab)
    ctx.close_to(s.strain_lab, np.broadcast_to(want, (n, 3, 3)), "strain of the grains", atol=0)
    ctx.close_to(s.element_phase_map, np.zeros(n), "phases of the grains")
    ctx.true(list(s.phases[0].unit_cell) == list(cell) and s.phases[0].sgname == sg, "phase", "")
    if n >= 1500:
        haar(ctx, U)
    if n > 1:
        ctx.true(len(np.unique(np.round(U.reshape(-1, 9), 9), axis=0)) == n, "orientations are drawn once per grain", "")
    # another sample has other orientations
    with ctx.quiet():
        o = templates.get_uniform_powder_sample(R, n, list(cell), sg, **kw)
    ctx.true(np.abs(arr(o.orientation_lab) - U).max() > 1e-6, "samples repeat their orientations", "")
    ctx.sample(radius=R, grains=n)
    ctx.nontrivial(n, round(R, 6))


check("C19", RULE, [("s3dxrd_objects", 150, 4000), ("s3dxrd_experiment", 60, 1500)])
check("C20", RULE, [("odf_cylinder", 24, 700), ("odf_grid", 24, 400), ("odf_distribution", 5, 60), ("odf_support", 12, 200), ("odf_cell", 6, 100),
                    ("odf_spatial_texture", 8, 150), ("powder", 40, 700)])
