"""C16 beam-grain intersection, C21 mesh geometry."""
import os

import numpy as np
import torch

from xrd_simulator.beam import Beam
from xrd_simulator.mesh import TetraMesh

from .. import gen, ref
from ..core import Skip, arr, check, family, internal_call, priv
from .diffraction import RULE
from .state import check_mesh_geometry


def tet(rng, size, flat=0.3):
    while True:
        v = rng.normal(size=(4, 3))
        if abs(np.linalg.det(v[1:] - v[0])) > flat:
            return v * size


def make_beam(V):
    n = np.array([1.0, 0, 0])
    return Beam(np.array(V, float), n, 0.3, np.array([0, 1.0, 0]))


def box(rng, h, c, R=None):
    b = np.array([[x, y, z] for x in (-1, 1) for y in (-1, 1) for z in (-1, 1)], float) * h
    R = ref.random_rotation(rng) if R is None else R
    b = b @ R.T + c
    return b[rng.permutation(8)]


def poly(rng, r, c, n=None):
    from scipy.spatial import ConvexHull
    p = rng.normal(size=(int(n or rng.integers(4, 24)), 3))
    p = p / np.linalg.norm(p, axis=1, keepdims=True)
    p = p[ConvexHull(p).vertices]
    return p * r + c


def intersect(beam, V):
    f = priv(beam, "_intersect")
    with internal_call():
        return f(torch.tensor(np.asarray(V, float)))


def tolerances(V, bverts):
    """(volume tolerance factor, distance tolerance): the library rounds face equations to six decimals."""
    reach = np.abs(V).max() + 1
    return 3e-6 * reach


def judge(ctx, beam, bverts, V, label=""):
    """The real intersection against exact clipping. Returns its volume."""
    H = ref.halfspaces(bverts)
    faces = ref.clip_polyhedron(V, H)
    vol, cen = ref.faces_volume_centroid(faces)
    d = tolerances(V, bverts)
    area = ref.surface_area(faces) if faces else 0.0
    ext = np.ptp(V, axis=0).max()
    slack = 2 * d * max(area, 0) + 4 * d * d * ext + 1e-9 * ref.tet_volume(V)
    hull = intersect(beam, V)
    ctx.saw("intersections computed")
    if hull is None:
        # no volume: what is there is thinner than the rounding of the faces
        thick = 3 * vol / max(area / 2, 1e-300) if vol else 0.0
        ctx.true(thick <= 6 * d + 1e-6 * ext or vol <= slack, "an overlap is reported as empty" + label,
                 f"volume {vol} of {ref.tet_volume(V)}", tet=V, beam=bverts)
        ctx.saw("empty intersections")
        return 0.0
    got = float(hull.volume)
    ctx.true(np.isfinite(got) and got >= 0, "volume" + label, f"{got}")
    ctx.true(abs(got - vol) <= slack, "volume of the intersection" + label, f"got {got} expected {vol} +- {slack}", tet=V, beam=bverts)
    P = np.asarray(hull.points)[np.asarray(hull.vertices)]
    T = ref.tet_planes(V)
    for name, Q in (("beam", H), ("grain", T)):
        out = (P @ Q[:, :3].T + Q[:, 3]).max()
        ctx.true(out <= 40 * d + 1e-6 * ext, f"intersection reaches out of the {name}" + label, f"by {out}", tet=V, beam=bverts)
    thick = 3 * vol / max(area, 1e-300)
    if faces and thick > 100 * d:
        # every corner of the exact part is a corner region of the real one
        E = np.asarray(hull.equations)
        C = np.vstack(faces)
        out = (C @ E[:, :3].T + E[:, 3]).max()
        ctx.true(out <= 40 * d + 1e-6 * ext, "a part of the overlap is missing" + label, f"by {out}", tet=V, beam=bverts)
        ctx.saw("extents compared")
        ctx.nontrivial(round(float(np.log(vol)), 6), len(C))
    if not faces:
        ctx.saw("grazing intersections")
    return got


@family
def intersect_random(ctx):
    rng = ctx.rng
    size = 10 ** rng.uniform(-1.5, 3)
    pos = rng.normal(size=3) * size * rng.choice([0, 1, 30, 10 ** rng.uniform(1, 3.5)])
    kind = str(rng.choice(["box", "slab", "pencil", "poly", "tet"]))
    R = None if rng.random() < 0.7 else np.eye(3)
    if kind == "box":
        b = box(rng, size * 10 ** rng.uniform(-0.7, 0.5, 3), pos + rng.normal(size=3) * size * 0.5, R)
    elif kind == "slab":
        b = box(rng, size * np.array([20, 20, 10 ** rng.uniform(-1.3, 0)])[rng.permutation(3)], pos + rng.normal(size=3) * size * 0.3, R)
    elif kind == "pencil":
        h = size * 10 ** rng.uniform(-1, 0)
        b = box(rng, np.array([size * 10 ** rng.uniform(1, 2), h, h * rng.uniform(0.5, 2)]), pos + rng.normal(size=3) * size * 0.2, R)
    elif kind == "poly":
        b = poly(rng, size * 10 ** rng.uniform(-0.5, 0.5), pos + rng.normal(size=3) * size * 0.5)
    else:
        b = tet(rng, size) + pos
    beam = make_beam(b)
    ctx.sample(kind=kind, size=size)
    for _ in range(4):
        judge(ctx, beam, b, tet(rng, size * rng.choice([0.3, 1, 2]), flat=0.05) + pos, f" ({kind})")


@family
def intersect_containment(ctx):
    """The whole grain inside, the whole beam inside the grain, and disjoint ones."""
    rng = ctx.rng
    size = 10 ** rng.uniform(-2, 3)
    V = tet(rng, size)
    c = V.mean(0)
    r = np.linalg.norm(V - c, axis=1).max()
    b = poly(rng, r * 12, c, 40) if rng.random() < 0.5 else box(rng, r * rng.uniform(1.8, 30, 3), c)
    H = ref.halfspaces(b)
    if (V @ H[:, :3].T + H[:, 3]).max() < -1e-5 * (1 + np.abs(V).max()):
        got = judge(ctx, make_beam(b), b, V, " (grain inside)")
        ctx.close_to(got, ref.tet_volume(V), "whole grain", rtol=1e-7, atol=0)
        ctx.saw("grains inside")
    inr = 3 * ref.tet_volume(V) / sum(np.linalg.norm(np.cross(V[j] - V[i], V[k] - V[i])) / 2
                                     for i, j, k in ((0, 1, 2), (0, 1, 3), (0, 2, 3), (1, 2, 3)))
    q = ref.tet_planes(V)
    # incentre
    w = [np.linalg.norm(np.cross(V[j] - V[i], V[k] - V[i])) for i, j, k in ((1, 2, 3), (0, 2, 3), (0, 1, 3), (0, 1, 2))]
    inc = (np.array(w) @ V) / sum(w)
    b = box(rng, np.array([1, 1, 1]) * inr * 0.4, inc)
    got = judge(ctx, make_beam(b), b, V, " (beam inside)")
    ctx.close_to(got, (0.8 * inr) ** 3, "whole beam", rtol=1e-4 + 30 * tolerances(V, b) / inr, atol=0)
    # disjoint: in every direction and at every distance
    for _ in range(4):
        d = ref.unit(rng.normal(size=3))
        gap = size * 10 ** rng.uniform(-3, 2) + 20 * tolerances(V, V)
        lo = (V @ d).max()
        h = size * rng.uniform(0.2, 3)
        z = np.array([0, 0, 1.0])
        u = ref.unit(np.cross(d, z if abs(d[2]) < 0.9 else [1.0, 0, 0]))
        R = np.column_stack((d, u, np.cross(d, u)))
        b = box(rng, np.array([h, 5 * size, 5 * size]), c + d * (lo - c @ d + gap + h), R)
        hull = intersect(make_beam(b), V)
        ctx.true(hull is None or hull.volume < 1e-9 * size ** 3, "disjoint bodies intersect", f"gap {gap} size {size}", tet=V, beam=b)
        ctx.saw("disjoint pairs")
    ctx.nontrivial(round(float(np.log(size)), 6))


@family
def intersect_grazing(ctx):
    """A face, edge or corner of one body just reaches into the other."""
    rng = ctx.rng
    size = 10 ** rng.uniform(-0.5, 3)
    V = tet(rng, size) + rng.normal(size=3) * size * rng.choice([0, 3, 3, 10 ** rng.uniform(1, 3)])
    c = V.mean(0)
    how = str(rng.choice(["corner", "edge", "face", "beam corner", "far"]))
    T = ref.tet_planes(V)
    if how == "corner":
        d = ref.unit(V[0] - V[1:].mean(0))
    elif how == "edge":
        d = ref.unit(V[:2].mean(0) - V[2:].mean(0))
    else:
        d = T[rng.integers(4), :3]
    deep = size * 10 ** rng.uniform(-4, -0.5)
    lo = (V @ d).max()
    h = size * rng.uniform(1, 5)
    u = ref.unit(np.cross(d, rng.normal(size=3)))
    R = np.column_stack((d, u, np.cross(d, u)))
    if how == "beam corner":
        p = poly(rng, h, np.zeros(3), 30)
        p = p[np.unique(p, axis=0, return_index=True)[1]]
        i = np.argmin(p @ d)
        b = p - p[i] + V[[j for j in range(4) if abs((V[j] @ d) - lo) < 1e-9 * size] or [0]].mean(0) - d * deep
    else:
        wide = 20 if how == "far" else 3
        b = box(rng, np.array([h, wide * size, wide * size]), c + d * (lo - c @ d - deep + h), R)
    judge(ctx, make_beam(b), b, V, f" (grazing {how})")
    ctx.saw(f"grazing {how}")
    ctx.sample(how=how, depth=deep, size=size)


@family
def intersect_tiling(ctx):
    """Beams that tile a region: the parts add up to the part in the whole region."""
    rng = ctx.rng
    size = 10 ** rng.uniform(-0.5, 3)
    V = tet(rng, size)
    R = ref.random_rotation(rng) if rng.random() < 0.7 else np.eye(3)
    c = V.mean(0) + rng.normal(size=3) * size * 0.3
    half = size * rng.uniform(0.5, 3, 3)
    n = int(rng.integers(2, 6))
    cuts = np.sort(np.concatenate(([-1, 1], rng.uniform(-1, 1, n - 1))))
    cuts = cuts[np.concatenate(([True], np.diff(cuts) > 1e-3))]
    cuts[-1] = 1.0
    whole_b = box(rng, half, c, R)
    whole = judge(ctx, make_beam(whole_b), whole_b, V, " (whole region)")
    parts = 0.0
    for a, z in zip(cuts[:-1], cuts[1:]):
        h = half * [1, 1, (z - a) / 2]
        b = box(rng, h, c + R @ (half * [0, 0, (a + z) / 2]), R)
        parts += judge(ctx, make_beam(b), b, V, " (tile)")
    d = tolerances(V, whole_b)
    area = sum(np.linalg.norm(np.cross(V[j] - V[i], V[k] - V[i])) / 2 for i, j, k in ((0, 1, 2), (0, 1, 3), (0, 2, 3), (1, 2, 3)))
    ctx.true(abs(parts - whole) <= 4 * d * area * len(cuts) + 1e-9 * ref.tet_volume(V), "tiles do not add up",
             f"{parts} and {whole}", tiles=len(cuts) - 1)
    ctx.saw("tilings")
    ctx.nontrivial(len(cuts), round(float(np.log(whole + 1e-300)), 5))


@family
def intersect_moving(ctx):
    """A beam that is replaced and a grain that travels through it: always the current beam; volumes move smoothly."""
    rng = ctx.rng
    size = 10 ** rng.uniform(-0.5, 2)
    V = tet(rng, size)
    b = box(rng, size * rng.uniform(0.5, 2, 3), np.zeros(3))
    beam = make_beam(b)
    for step in range(5):
        if rng.random() < 0.5:
            b = box(rng, size * rng.uniform(0.3, 2, 3), rng.normal(size=3) * 0.3 * size) if rng.random() < 0.5 else \
                poly(rng, size * rng.uniform(0.5, 2), rng.normal(size=3) * 0.3 * size)
            beam.set_beam_vertices(torch.tensor(b))
            ctx.saw("beams replaced")
        V = V @ ref.random_rotation(rng).T + rng.normal(size=3) * size * 0.2
        judge(ctx, beam, b, V[rng.permutation(4)], " (moving)")
    ctx.nontrivial(round(float(np.log(size)), 6))


@family
def intersect_slow_machine(ctx):
    """The same under CPU starvation: the result must not depend on how fast the machine is."""
    import threading
    rng = ctx.rng
    size = 10 ** rng.uniform(0, 2)
    stop = threading.Event()

    def burn():
        while not stop.is_set():
            sum(range(2000))

    ts = [threading.Thread(target=burn, daemon=True) for _ in range(3)]
    for t in ts:
        t.start()
    try:
        for _ in range(4):
            # corner overlaps: neither the centroid nor a vertex of the grain lies in the beam
            V = tet(rng, size)
            b = box(rng, size * rng.uniform(0.05, 0.3, 3), (V[0] + V[1]) / 2 * rng.uniform(0.6, 1.0) + (V[2] + V[3]) / 2 * 0.1)
            judge(ctx, make_beam(b), b, V, " (starved)")
    finally:
        stop.set()
        for t in ts:
            t.join()
    ctx.saw("starved runs")


# ------------------------------------------------------------------ C21
@family
def mesh_elements(ctx):
    """Meshes of free, shared, thin and regular elements in either node order."""
    rng = ctx.rng
    size = 10 ** rng.uniform(-2, 4)
    kind = str(rng.choice(["free", "delaunay", "regular", "right", "thin", "one"]))
    if kind == "delaunay":
        coord, enod = gen.delaunay_tets(rng, int(rng.integers(6, 30)) if rng.random() < 0.8 else int(rng.integers(200, 900)), size)
    elif kind == "one":
        coord, enod = gen.random_tets(rng, 1, 0, size)
    else:
        n = int(rng.integers(1, 12))
        coord, enod = gen.random_tets(rng, n, size * 2, size)
        base = {"regular": np.array([[1, 1, 1], [1, -1, -1], [-1, 1, -1], [-1, -1, 1.0]]),
                "right": np.array([[0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1.0]])}.get(kind)
        for e in enod:
            if base is not None:
                coord[e] = base @ ref.random_rotation(rng).T * size * rng.uniform(0.3, 2) + rng.normal(size=3) * size
            elif kind == "thin":
                u = ref.random_rotation(rng)
                coord[e] = (rng.normal(size=(4, 3)) * size * [1, 10 ** rng.uniform(-1.5, 0), 10 ** rng.uniform(-1.5, -0.5)]) @ u.T
    if rng.random() < 0.3:  # far from the origin
        coord = coord + ref.unit(rng.normal(size=3)) * size * 10 ** rng.uniform(1, 5)
        kind = "far " + kind
    flip = rng.random(len(enod)) < 0.5
    enod[flip] = enod[flip][:, [1, 0, 2, 3]]
    enod = np.array([e[rng.permutation(4)] for e in enod])
    vol = np.array([ref.tet_volume(coord[e]) for e in enod])
    if vol.min() < 1e-7 * size ** 3:
        raise Skip("degenerate element")
    mesh = TetraMesh.generate_mesh_from_vertices(coord.copy(), enod.copy())
    check_mesh_geometry(ctx, mesh, coord, enod, np.abs(coord).max(), f" ({kind})")
    ctx.true((arr(mesh.evolumes) > 0).all(), "volumes are positive", "")
    c, r = arr(mesh.espherecentroids), arr(mesh.eradius)
    far = np.linalg.norm(coord[enod] - c[:, None], axis=2).max(1)
    ctx.true((far <= r * (1 + 1e-9)).all(), "bounding sphere contains its element", f"{(far / r).max()}")
    if rng.random() < 0.4:
        path = os.path.join(ctx.tmpdir(), "m.xdmf")
        mesh.save(path)
        check_mesh_geometry(ctx, TetraMesh.load(path), coord, enod, np.abs(coord).max(), " (loaded)")
    ctx.saw("elements", len(enod))
    ctx.sample(kind=kind, elements=len(enod), size=size)
    ctx.nontrivial(kind, len(enod), round(float(np.log(vol.sum())), 6))


SHAPES = ("sphere", "shifted sphere", "ellipsoid", "cube", "cylinder", "two spheres", "torus")


def body(rng, kind, R):
    """(level set positive inside, volume, signed-distance-like level set, probe of inside)."""
    s = R * rng.uniform(0.5, 0.9)
    if kind == "sphere":
        return lambda x: s - np.linalg.norm(x), 4 / 3 * np.pi * s ** 3, s
    if kind == "shifted sphere":
        s = R * rng.uniform(0.4, 0.6)
        c = ref.unit(rng.normal(size=3)) * R * 0.3
        return lambda x: s - np.linalg.norm(x - c), 4 / 3 * np.pi * s ** 3, s
    if kind == "ellipsoid":
        a = s * np.array([1, rng.uniform(0.6, 1), rng.uniform(0.5, 1)])
        return lambda x: (1 - np.sqrt(((x / a) ** 2).sum())) * a.min(), 4 / 3 * np.pi * a.prod(), a.min()
    if kind == "cube":
        h = s * 0.57
        return lambda x: h - np.abs(x).max(), 8 * h ** 3, h
    if kind == "cylinder":
        r, h = s * 0.7, s * 0.65
        return lambda x: min(r - np.hypot(x[0], x[1]), h - abs(x[2])), np.pi * r * r * 2 * h, min(r, h)
    if kind == "two spheres":
        r = R * 0.35
        c = np.array([R * 0.5, 0, 0])
        return lambda x: max(r - np.linalg.norm(x - c), r - np.linalg.norm(x + c)), 8 / 3 * np.pi * r ** 3, r
    a, b = R * 0.55, R * 0.3
    return lambda x: b - np.hypot(np.hypot(x[0], x[1]) - a, x[2]), 2 * np.pi ** 2 * a * b * b, b


@family
def mesh_level_sets(ctx):
    rng = ctx.rng
    R = 10 ** rng.uniform(-1, 3)
    kind = SHAPES[ctx.index % len(SHAPES)]
    f, vol, thin = body(rng, kind, R)
    h = R * (rng.uniform(0.3, 0.6) if rng.random() < 0.6 else rng.uniform(0.17, 0.3))
    sign = 1.0 if rng.random() < 0.8 else -1.0
    calls = []

    def level(x):
        calls.append(1)
        return sign * f(np.asarray(x))

    with ctx.quiet():
        mesh = TetraMesh.generate_mesh_from_levelset(level, R, h)
    coord, enod = arr(mesh.coord), arr(mesh.enod).astype(int)
    ctx.saw("level set evaluations", len(calls))
    check_mesh_geometry(ctx, mesh, coord, enod, R, f" ({kind})")
    v = np.array([ref.tet_volume(coord[e]) for e in enod])
    ctx.true((v > 0).all() and (arr(mesh.evolumes) > 0).all(), "an element has no volume", f"{v.min()}")
    # inside: the surface is that of the sampling grid (spacing at most h/2 or R/9.5)
    step = 2 * R / (max(int(2 * R / (h * 0.5)), 20) - 1)
    used = np.unique(enod)
    out = -min(f(x) for x in coord[used])
    ctx.true(out <= 0.5 * step, "nodes outside of the level set", f"by {out}, grid {step}")
    tot = v.sum()
    lo = 1 - 3.0 * step / thin
    ctx.true(max(lo, 0.6) * vol <= tot <= vol * (1 + 1.0 * step / thin), "the body is not filled", f"{tot / vol} of the volume, grid {step}, thickness {thin}")
    # no overlap, no hole: random points in the body lie in exactly one element
    pts = []
    while len(pts) < 60:
        x = rng.uniform(-R, R, 3)
        if f(x) > 0.6 * step:
            pts.append(x)
    V = coord[enod]
    A = np.linalg.inv((V[:, 1:] - V[:, :1]).transpose(0, 2, 1))
    for x in pts:
        lam = np.einsum("eij,ej->ei", A, x - V[:, 0])
        m = np.minimum(lam.min(1), 1 - lam.sum(1))
        sure, maybe = int((m > 1e-9).sum()), int((m > -1e-9).sum())
        ctx.true(sure <= 1, "elements overlap", f"{sure} elements hold {x}")
        ctx.true(maybe >= 1, "a point of the body lies in no element", f"level {f(x)}, grid {step}")
    # a conforming mesh: every face belongs to one or two elements
    F = np.sort(enod[:, [[0, 1, 2], [0, 1, 3], [0, 2, 3], [1, 2, 3]]].reshape(-1, 3), axis=1)
    cnt = np.unique(F, axis=0, return_counts=True)[1]
    ctx.true(cnt.max() <= 2, "a face is shared by more than two elements", "")
    ctx.true((arr(mesh.eradius) <= h * 1.0002).all(), "elements larger than requested", f"{arr(mesh.eradius).max()} requested {h}")
    ctx.saw("elements", len(enod))
    ctx.saw("probe points", 60)
    ctx.sample(shape=kind, elements=len(enod), filled=tot / vol, largest=arr(mesh.eradius).max() / h)
    ctx.nontrivial(kind, len(enod), round(R, 6))


@family
def mesh_bad_level_sets(ctx):
    rng = ctx.rng
    R = 10 ** rng.uniform(-1, 2)
    c = float(rng.choice([1.0, -1.0]))
    ctx.raises(ValueError, lambda: TetraMesh.generate_mesh_from_levelset(lambda x: c, R, R / 3), "level set without surface")
    ctx.raises(ValueError, lambda: TetraMesh.generate_mesh_from_levelset(lambda x: -1 - np.linalg.norm(x), R, R / 3),
               "level set without interior")
    ctx.nontrivial(round(R, 6))


check("C16", RULE, [("intersect_random", 160, 5000), ("intersect_containment", 100, 3000), ("intersect_grazing", 150, 4000),
                    ("intersect_tiling", 80, 2500), ("intersect_moving", 80, 2500), ("intersect_slow_machine", 4, 150)])
check("C21", RULE, [("mesh_elements", 160, 5000), ("mesh_level_sets", 21, 700), ("mesh_bad_level_sets", 4, 60)])
