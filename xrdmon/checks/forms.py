"""C26 results depend on the numbers given, not on how they are stored or passed."""
import warnings

import numpy as np
import torch

from xrd_simulator import templates
from xrd_simulator.beam import Beam
from xrd_simulator.detector import Detector
from xrd_simulator.mesh import TetraMesh
from xrd_simulator.motion import RigidBodyMotion
from xrd_simulator.phase import Phase
from xrd_simulator.polycrystal import Polycrystal

from .. import gen, imaging_ref as im, ref
from ..core import Skip, arr, check, family
from .diffraction import RULE, scenario
from .imaging import render, same_image
from .objects import ATTR, attributes, same_attributes, same_peaks

LAYOUTS = ("plain", "list", "tuple", "rows", "strided", "fortran", "reversed", "flipped", "read-only", "big-endian", "sub-array",
           "tensor", "strided tensor", "transposed tensor")
WHOLE = ("int64", "int32", "int16", "big-endian int", "int list", "int tensor", "int32 tensor")
SINGLE = ("float32", "big-endian float32", "float32 tensor", "strided float32")


def forms_of(x):
    kinds = list(LAYOUTS)
    if (x == np.round(x)).all() and (np.abs(x) < 2 ** 14).all():
        kinds += WHOLE
    if (x == x.astype(np.float32)).all():
        kinds += SINGLE
    return kinds


def put(x, kind):
    """The numbers x stored in the given way."""
    x = np.array(x, float)
    if kind == "plain":
        return x
    if kind == "list":
        return x.tolist()
    if kind == "tuple":
        return tuple(x.tolist())
    if kind == "rows":
        return list(x)
    if kind in ("strided", "strided tensor", "strided float32"):
        y = np.repeat(x, 3, axis=-1)
        y[..., 1::3] = y[..., 2::3] = -777.0
        if kind == "strided float32":
            y = y.astype(np.float32)
        return torch.tensor(y)[..., ::3] if kind == "strided tensor" else y[..., ::3]
    if kind == "fortran":
        return np.asfortranarray(x)
    if kind == "reversed":
        return x[::-1].copy()[::-1]
    if kind == "flipped":  # along every axis
        return np.flip(np.flip(x).copy())
    if kind == "read-only":
        x.flags.writeable = False
        return x
    if kind == "big-endian":
        return x.astype(">f8")
    if kind == "sub-array":
        y = np.full([n + 3 for n in x.shape], 555.0)
        y[tuple(slice(1, n + 1) for n in x.shape)] = x
        return y[tuple(slice(1, n + 1) for n in x.shape)]
    if kind == "tensor":
        return torch.tensor(x)
    if kind == "transposed tensor":
        return torch.tensor(np.ascontiguousarray(x.T)).permute(*reversed(range(x.ndim)))
    if kind == "float32 tensor":
        return torch.tensor(x, dtype=torch.float32)
    if kind == "int tensor":
        return torch.tensor(x.astype(np.int64))
    if kind == "int32 tensor":
        return torch.tensor(x.astype(np.int32))
    if kind == "int list":
        return x.astype(int).tolist()
    return x.astype({"float32": np.float32, "big-endian float32": ">f4", "int64": np.int64, "int32": np.int32, "int16": np.int16,
                     "big-endian int": ">i4"}[kind])


def number(rng, v):
    """The same number of another type."""
    kinds = [float, np.float64]
    if v == round(v) and abs(v) < 1e6:
        kinds += [int, np.int64, np.int32]
    if v == float(np.float32(v)):
        kinds += [np.float32]
    return kinds[rng.integers(len(kinds))](v)


class Store:
    """Hands out the numbers in the plain or in some other form, and remembers the forms and what was handed out."""

    def __init__(self, ctx, plain):
        self.ctx, self.plain, self.given = ctx, plain, []

    def __call__(self, x):
        x = np.array(x, float)
        if self.plain:
            return x
        kinds = forms_of(x)
        kind = kinds[self.ctx.rng.integers(len(kinds))]
        out = put(x, kind)
        self.ctx.saw("form: " + kind)
        self.given.append((kind, out, x))
        return out

    def num(self, v):
        return float(v) if self.plain else number(self.ctx.rng, float(v))

    def unchanged(self):
        for kind, out, x in self.given:
            self.ctx.true(np.array_equal(np.array(arr(out), float), x), f"an argument was changed ({kind})", "")


def rounded(rng, x):
    """Sometimes numbers that fit in single precision, so that they can be given as such."""
    return np.array(x, np.float32).astype(float) if rng.random() < 0.5 else np.array(x, float)


def build(st, v):
    """An experiment: (mesh, sample, beam, motion)."""
    mesh = TetraMesh.generate_mesh_from_vertices(st(v["coord"]), st.enod(v["enod"]))
    if v["shift"] is not None:
        mesh.translate(st(v["shift"]))
    if v["turn"] is not None:
        mesh.rotate(st(v["turn"][0]), st.num(v["turn"][1]))
    phases = []
    for c, sg in v["cells"]:
        c = [st.num(a) for a in c]
        if not st.plain:
            c = [c, tuple(c), np.array(c)][st.ctx.rng.integers(3)]
        phases.append(Phase(c, sg))
    sample = Polycrystal(mesh, st(v["U"]), st(v["E"]), phases, st.emap(v["emap"]))
    beam = Beam(st(v["bverts"]), st(v["dir"]), st.num(v["wavelength"]), st(v["pol"]))
    motion = RigidBodyMotion(st(v["axis"]), st.num(v["angle"]), st(v["trans"]), st(v["origin"]))
    return mesh, sample, beam, motion


def whole_forms(st, x):
    x = np.array(x, int)
    if st.plain:
        return x
    k = int(st.ctx.rng.integers(9))
    return [x, x.tolist(), torch.tensor(x), x.astype(np.int32), x.astype(">i4"), x[::-1].copy()[::-1], np.asfortranarray(x),
            torch.tensor(x, dtype=torch.int32), x.astype(np.uint8) if x.max(initial=0) < 256 else x][k]


Store.enod = whole_forms
Store.emap = whole_forms


@family
def forms_experiment(ctx):
    """One experiment twice: from plain double precision arrays and from the same numbers stored in other ways."""
    rng = ctx.rng
    sc = scenario(ctx, nhkl=80, n=int(rng.integers(1, 6)))
    r32 = lambda x: rounded(rng, x)
    v = dict(coord=r32(sc.coord), enod=sc.enod, U=sc.U, E=r32(sc.E), cells=[(list(r32(c)), sg) for c, sg in sc.cells], emap=sc.emap,
             bverts=r32(sc.bverts), dir=r32(sc.direction), pol=sc.pol, wavelength=float(r32(sc.wavelength)), axis=sc.axis,
             angle=float(r32(sc.angle)), trans=r32(sc.trans), origin=r32(sc.origin), shift=None, turn=None)
    if v["angle"] >= np.pi:
        v["angle"] = 3.125
    if rng.random() < 0.2:  # angles and wavelengths that are whole
        v["angle"], v["wavelength"] = float(rng.integers(1, 4)), 1.0
    if abs(np.dot(v["dir"], v["pol"])) > 1e-12 * np.linalg.norm(v["dir"]):
        v["dir"] = sc.direction
    if rng.random() < 0.4:
        v["shift"] = r32(rng.normal(size=3) * sc.size)
    if rng.random() < 0.4:
        v["turn"] = (sc.axis, float(r32(rng.uniform(0.1, 3))))
    if rng.random() < 0.3:
        v["U"] = np.array([np.eye(3)[rng.permutation(3)] for _ in range(sc.n)])
        v["U"] *= np.linalg.det(v["U"])[:, None, None]
    plain, other = Store(ctx, True), Store(ctx, False)
    A, B = build(plain, v), build(other, v)
    size = max(1.0, np.abs(v["coord"]).max())
    tol = dict(rtol=1e-10, atol=1e-9 * size)
    same_attributes(ctx, attributes(B[2], "beam"), attributes(A[2], "beam"), "of the beam", rtol=1e-12, atol=1e-12)
    same_attributes(ctx, attributes(B[3], "motion"), attributes(A[3], "motion"), "of the motion", rtol=1e-14)
    m, t = random_part(rng, sc)
    for _ in range(int(rng.integers(0, 3))):
        for st, X in ((plain, A), (other, B)):
            X[1].transform(RigidBodyMotion(st(m.axis), st.num(m.angle), st(m.T), st(m.o)), st.num(t))
    for k, w in attributes(A[1], "sample").items():
        if k.endswith(("enormals", "espherecentroids", "eradius")):
            continue
        got = attributes(B[1], "sample")[k]
        if isinstance(w, list):
            ctx.true(got == w, f"{k} of the sample", f"{got} was {w}")
        else:
            ctx.close_to(got, w, f"{k} of the sample", **tol)
    with ctx.quiet():
        bmin, bmax = sc.bmin, sc.bmax
        p = A[1].diffract(A[2], A[3], min_bragg_angle=bmin, max_bragg_angle=bmax, verbose=False)
        args = (other.num(bmin), other.num(bmax))
        q = B[1].diffract(B[2], B[3], *args, verbose=False) if rng.random() < 0.5 else \
            B[1].diffract(rigid_body_motion=B[3], beam=B[2], max_bragg_angle=args[1], min_bragg_angle=args[0], verbose=False)
    P, Q = arr(p["peaks"]), arr(q["peaks"])
    edge = edge_rows(P, A, v) | False
    if edge:
        raise Skip("a peak at the edge of the scan or of the beam")
    same_peaks(ctx, q["peaks"], p["peaks"], "of the other forms", rtol=1e-9)
    ctx.true(q["peaks"].dtype == p["peaks"].dtype == torch.float64, "precision of the table", f"{q['peaks'].dtype}")
    other.unchanged()
    ctx.saw("peaks compared", len(P))
    if len(P):
        detector_forms(ctx, rng, sc, p, plain, other)
    ctx.nontrivial(sc.n, len(P), tuple(sorted(k for k, _, _ in other.given))[:6])


def random_part(rng, sc):
    m = ref.Move(ref.unit(rng.normal(size=3)) if rng.random() < 0.5 else np.eye(3)[rng.integers(3)], float(np.float32(rng.uniform(0.1, 3))),
                 rounded(rng, rng.normal(size=3) * sc.size), rounded(rng, rng.normal(size=3) * sc.size))
    return m, float(rng.choice([0.0, 1.0, 0.5, rng.uniform()]))


def edge_rows(P, A, v):
    """Peaks so close to the end of the scan or the faces of the beam that rounding decides about them."""
    if not len(P):
        return False
    t = P[:, 6]
    if (np.minimum(np.abs(t), np.abs(1 - t)) < 1e-9).any():
        return True
    H = arr(A[2].halfspaces)
    d = P[:, 16:19] @ H[:, :3].T + H[:, 3]
    return bool((np.abs(d).min(1) < 1e-7 * (1 + np.abs(v["bverts"]).max())).any())


def detector_forms(ctx, rng, sc, p, plain, other):
    P = arr(p["peaks"])
    ext = sc.size + sc.spread + np.abs(P[:, 16:19]).max()
    D = ext * 10 ** rng.uniform(0.7, 2.5)
    r = P[rng.integers(len(P))]
    npix = (int(rng.integers(6, 40)), int(rng.integers(6, 40)))
    corners = [rounded(rng, c) for c in gen.random_detector(rng, ref.unit(r[13:16]), D, D * rng.uniform(0.1, 0.8), npix)]
    sigma, thr, rad = float(rounded(rng, rng.uniform(0.4, 2))), float(rounded(rng, rng.uniform(0.001, 0.1))), int(rng.integers(1, 5))
    by_size = rng.random() < 0.5
    flags = [bool(b) for b in rng.random(3) < 0.7]
    if p.get("peaks") is not None and not all(c is None for c in sc.cifs):
        flags[2] = False
    flags[2] = False  # (no structure factors here)
    e1, e2 = np.linalg.norm(corners[1] - corners[0]), np.linalg.norm(corners[2] - corners[0])
    size = (float(rounded(rng, e2 / npix[0] * 1.001)), float(rounded(rng, e1 / npix[1] * 1.001)))
    dets = []
    for st in (plain, other):
        kw = {}
        if by_size:
            s = tuple(st.num(x) for x in size)
            kw["pixel_size"] = s if st.plain or rng.random() < 0.7 else list(s)
        else:
            n = npix if st.plain else tuple([int, np.int64, np.int32][rng.integers(3)](x) for x in npix)
            kw["n_pixels"] = n if st.plain or rng.random() < 0.7 else list(n)
        kw.update(gaussian_sigma=st.num(sigma), kernel_threshold=st.num(thr), use_lorentz=flags[0], use_polarization=flags[1],
                  use_structure_factor=flags[2])
        kw["max_gaussian_kernel_radius"] = rad if st.plain else [int, np.int64][rng.integers(2)](rad)
        if st.plain or rng.random() < 0.5:
            dets.append(Detector(*(st(c) for c in corners), **kw))
        else:
            dets.append(Detector(det_corner_2=st(corners[2]), det_corner_0=st(corners[0]), det_corner_1=st(corners[1]), **kw))
    a, b = dets
    same_attributes(ctx, attributes(b, "detector"), attributes(a, "detector"), "of the detector", rtol=1e-9, atol=1e-9 * D)
    n = int(rng.integers(1, 4))
    with ctx.quiet():
        hp, hq = a.peaks_detector_intersection(p, n), b.peaks_detector_intersection(p, [int, np.int64, np.int32][rng.integers(3)](n))
    hp, hq = arr(hp["peaks"]), arr(hq["peaks"])
    zy = np.array([hp[:, 25] / float(a.zmax), hp[:, 26] / float(a.ymax)])
    near = len(hp) != len(hq) or (len(hp) and np.minimum(np.abs(zy), np.abs(1 - zy)).min() < 1e-7)
    if near and len(hp) != len(hq):
        # a ray at the very edge is allowed to differ; anything else is not
        full = {int(i) for i in hp[:, 24]} ^ {int(i) for i in hq[:, 24]}
        plane = im_plane(corners)
        for i in full:
            z, y, _, front = plane.hit(P[i, 16:19], P[i, 13:16])
            e = min(abs(z / e2), abs(1 - z / e2), abs(y / e1), abs(1 - y / e1))
            ctx.true(e < 1e-6, "peaks on the detector depend on the form of its corners", f"peak {i}")
        return
    if len(hp):
        ctx.close_to(hq[:, 24], hp[:, 24], "peaks on the detector")
        L = np.abs(hp[:, 19:20]).clip(1) if hp.shape[1] > 19 else 1.0
        ctx.true((np.abs(hq - hp) <= 1e-9 * (np.abs(hp) + D + L ** 2) + 1e-12).all() if np.isfinite(hp).all() else True, "hits on the detector", "")
    # pixels at a rounding edge
    zp, yp = hp[:, 25] / float(a.pixel_size_z), hp[:, 26] / float(a.pixel_size_y)
    for q in (zp, yp):
        f = np.abs(q * 2 - np.round(q * 2))
        if (f < 1e-6).any():
            return
    for method in ("micro", "nano"):
        if method == "nano" and (not len(hp) or n > 2):
            continue
        with ctx.quiet():
            Fa, _ = render(ctx, a, p, n=n, method=method)
            Fb, _ = render(ctx, b, p, n=[int, np.int64, np.int32][rng.integers(3)](n), method=method)
        ctx.true(Fa.dtype == Fb.dtype == torch.float64, "precision of the image", f"{Fb.dtype}")
        same_image(ctx, Fb, Fa, f"{method} image of the other forms", rtol=1e-5)
        ctx.saw("images compared")


def im_plane(corners):
    return ref.Plane(*corners)


@family
def forms_motion(ctx):
    """Every way to store points and times gives the moved points of the plain arrays."""
    rng = ctx.rng
    size = 10 ** rng.uniform(-1, 2)
    ax = np.eye(3)[rng.integers(3)] if rng.random() < 0.5 else ref.unit(rng.normal(size=3))
    whole = rng.random() < 0.5
    f = np.round if whole else (lambda x: np.asarray(x, np.float32).astype(float))
    m = ref.Move(ax, float(np.float32(rng.uniform(0.05, 3.1))), f(rng.normal(size=3) * size * 3), f(rng.normal(size=3) * size * 3))
    st = Store(ctx, False)
    tol = dict(rtol=1e-11, atol=1e-11 * (1 + 40 * size))
    for _ in range(10):
        mo = RigidBodyMotion(st(m.axis), st.num(m.angle), st(m.T), st(m.o))
        n = int(rng.choice([0, 1, 2, 4, 6]))
        X = f(rng.normal(size=(n, 3)) * size * 3)
        t = float(rng.choice([0.0, 1.0, 0.25, np.float32(rng.uniform())]))
        ts = rng.choice([0.0, 1.0, 0.5, 0.125], size=n)
        if n:
            ctx.close_to(mo(st(X), st.num(t)), m.points(X, t), "points, one time", **tol)
            ctx.close_to(mo(st(X), st(ts)), m.points(X, ts), "points, a time each", **tol)
            ctx.close_to(mo(vectors=st(X), time=st.num(t)), m.points(X, t), "points by name", **tol)
            ctx.close_to(mo.rotate(st(X), st.num(t)), m.vectors(X, t), "rotated vectors", **tol)
            ctx.close_to(mo.rotate(st(X), st(ts)), m.vectors(X, ts), "rotated vectors, a time each", **tol)
            ctx.close_to(mo(st(X[0]), st.num(t)), m.point(X[0], t), "a point", **tol)
            ctx.close_to(mo.translate(st(X[0]), st.num(t)), X[0] + t * m.T, "a translated point", **tol)
            k = int(rng.integers(1, 4))
            Y = f(rng.normal(size=(n, k, 3)) * size)
            want = np.array([[m.point(p, s) for p in q] for q, s in zip(Y, ts)])
            ctx.close_to(mo(st(Y), st(ts)), want, "sets of points", **tol)
        else:  # no point at all
            for r in (mo(np.zeros((0, 3)), t), mo(np.zeros((0, 3)), np.zeros(0)), mo.rotate(torch.zeros((0, 3)), t), mo.translate(np.zeros((0, 3)), t)):
                ctx.true(tuple(r.shape) == (0, 3), "no points", f"{tuple(r.shape)}")
            ctx.true(tuple(mo(np.zeros((0, 4, 3)), np.zeros(0)).shape) == (0, 4, 3), "no sets of points", "")
        st.unchanged()
        ctx.saw("motions", 1)
    ctx.sample(axis=m.axis, angle=m.angle, whole=bool(whole))
    ctx.nontrivial(round(m.angle, 6), whole)


@family
def forms_defaults(ctx):
    """Arguments left out have their documented values; by position or by name is the same."""
    rng = ctx.rng
    sc = scenario(ctx, nhkl=60, n=int(rng.integers(1, 4)), wavelength=float(rng.uniform(2.5, 5)) if rng.random() < 0.5 else None)
    small = max(max(c[:3]) for c, _ in sc.cells) / sc.wavelength
    if small > 25:
        raise Skip("too many reflections without Bragg bounds")
    a = sc.coord, sc.enod
    mk = lambda: TetraMesh.generate_mesh_from_vertices(*a)
    U, E, ph, em = sc.U, sc.E, [Phase(list(c), sg) for c, sg in sc.cells], sc.emap
    s1 = Polycrystal(mk(), U, E, ph, em)
    s2 = Polycrystal(element_phase_map=em, phases=ph, strain=E, orientation=U, mesh=TetraMesh.generate_mesh_from_vertices(enod=a[1], coord=a[0]))
    b1 = Beam(sc.bverts, sc.direction, sc.wavelength, sc.pol)
    b2 = Beam(polarization_vector=sc.pol, wavelength=sc.wavelength, xray_propagation_direction=sc.direction, beam_vertices=sc.bverts)
    m1 = RigidBodyMotion(sc.axis, sc.angle, sc.trans, sc.origin)
    m2 = RigidBodyMotion(origin=sc.origin, translation=sc.trans, rotation_angle=sc.angle, rotation_axis=sc.axis)
    m0 = RigidBodyMotion(sc.axis, sc.angle, sc.trans)
    ctx.close_to(m0.origin, np.zeros(3), "default origin", atol=0)
    same_attributes(ctx, attributes(b2, "beam"), attributes(b1, "beam"), "by name")
    same_attributes(ctx, attributes(m2, "motion"), attributes(m1, "motion"), "by name")
    same_attributes(ctx, attributes(s2, "sample"), attributes(s1, "sample"), "by name")
    with ctx.quiet():
        p = s1.diffract(b1, m1)
        q = s2.diffract(rigid_body_motion=m2, beam=b2, min_bragg_angle=0, max_bragg_angle=np.pi / 2, detector=None, verbose=True)
        w = s2.diffract(b2, m2, 0, np.pi / 2, verbose=False)
    same_peaks(ctx, q["peaks"], p["peaks"], "with the default bounds by name", rtol=0)
    same_peaks(ctx, w["peaks"], p["peaks"], "with the default bounds by position", rtol=0)
    P = arr(p["peaks"])
    ctx.saw("peaks compared", len(P))
    if not len(P):
        return ctx.nontrivial(0)
    ext = sc.size + sc.spread + np.abs(P[:, 16:19]).max()
    D = ext * 10 ** rng.uniform(0.7, 2)
    npix = int(rng.integers(8, 30))
    c = gen.random_detector(rng, ref.unit(P[rng.integers(len(P)), 13:16]), D, D * rng.uniform(0.2, 0.9), npix)
    d1 = Detector(*c, npix)
    d2 = Detector(*c, n_pixels=(npix, npix), pixel_size=None, gaussian_sigma=1.0, kernel_threshold=0.02, max_gaussian_kernel_radius=2,
                  use_lorentz=True, use_polarization=True, use_structure_factor=True)
    d3 = Detector(*c, (npix, npix), None, 1.0, 0.02, 2, True, True, True)
    same_attributes(ctx, attributes(d2, "detector"), attributes(d1, "detector"), "with the defaults by name")
    same_attributes(ctx, attributes(d3, "detector"), attributes(d1, "detector"), "with the defaults by position")
    d1.structure_factor = d2.structure_factor = False
    with ctx.quiet():
        h1, h2 = d1.peaks_detector_intersection(p, 1), d2.peaks_detector_intersection(peaks_dict=p, frames_to_render=1)
    ctx.close_to(h2["peaks"], h1["peaks"], "hits by name", rtol=0, atol=0)
    px = float(d1.pixel_size_z)
    lim = float(d1.pixel_size_z) ** 3
    big = sc_volume(sc).max() >= 0.999 * min(lim, float(d1.pixel_size_y) ** 3)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with ctx.quiet():
            kw = dict(method="auto" if not big else "micro")
            Fa, _ = d1.render(p, verbose=False, **kw)
            Fb, _ = d2.render(peaks_dict=p, frames_to_render=1, micro_grain_limit=0.1 ** 3, macro_grain_limit=None, render_dtype=None, verbose=False, **kw)
            Fc, _ = d2.render(p, 1, kw["method"], None, 0.1 ** 3, torch.float64, False)
    same_image(ctx, Fb, Fa, "image with the defaults by name", rtol=1e-12)
    same_image(ctx, Fc, Fa, "image with the defaults by position", rtol=1e-12)
    ctx.true(Fa.shape[0] == 1, "one frame by default", f"{Fa.shape}")
    ctx.saw("images compared", 2)
    ctx.nontrivial(len(P), npix, round(px, 9))


def sc_volume(sc):
    return np.array([ref.tet_volume(sc.coord[s]) for s in sc.enod])


@family
def forms_template(ctx):
    """Template parameters of other number types build the same experiment."""
    rng = ctx.rng
    st = Store(ctx, False)
    whole = rng.random() < 0.6
    g = (lambda v: float(round(v)) or 1.0) if whole else (lambda v: float(np.float32(v)))
    D = g(10 ** rng.uniform(3, 6))
    nz, ny = int(rng.integers(1, 300)), int(rng.integers(1, 300))
    p = dict(detector_distance=D, number_of_detector_pixels_z=nz, number_of_detector_pixels_y=ny, detector_center_pixel_z=float(np.float32(rng.uniform(0, nz))),
             detector_center_pixel_y=float(np.float32(rng.uniform(0, ny))), pixel_side_length_z=g(D * 10 ** rng.uniform(-3, -1.5)),
             pixel_side_length_y=g(D * 10 ** rng.uniform(-3, -1.5)), wavelength=float(np.float32(10 ** rng.uniform(-1, 0.3))),
             beam_side_length_z=g(D * 10 ** rng.uniform(-2, 0)), beam_side_length_y=g(D * 10 ** rng.uniform(-2, 0)),
             rotation_step=float(np.float32(rng.uniform(0.01, 3.1))), rotation_axis=np.eye(3)[rng.integers(3)] if rng.random() < 0.5 else ref.unit(rng.normal(size=3)))
    q = {}
    for k in rng.permutation(list(p)):
        v = p[k]
        if k == "rotation_axis":
            q[k] = st(v)
        elif k.startswith("number"):
            q[k] = [int, np.int64, np.int32][rng.integers(3)](v)
        else:
            q[k] = number64(rng, v)
    with ctx.quiet():
        A, B = templates.s3dxrd(p), templates.s3dxrd(q)
    st.unchanged()
    for a, b, kind in zip(A, B, ("beam", "detector", "motion")):
        same_attributes(ctx, attributes(b, kind), attributes(a, kind), f"of the {kind}", rtol=1e-12, atol=1e-12 * D)
    ctx.sample(pixels=[nz, ny], distance=D)
    ctx.nontrivial(nz, ny, round(D, 3))


def number64(rng, v):
    kinds = [float, np.float64]
    if v == round(v):
        kinds += [int, np.int64]
    return kinds[rng.integers(len(kinds))](v)


check("C26", RULE, [("forms_experiment", 60, 2000), ("forms_motion", 60, 2000), ("forms_defaults", 20, 600), ("forms_template", 40, 1000)])
