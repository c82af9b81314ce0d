"""Diffraction: C01 soundness, C02 completeness, C03 illumination, C04 intensity factors."""
import numpy as np
import torch

from .. import gen, oracle, ref
from ..core import Skip, arr, check, family, internal_call, priv


def scenario(ctx, **kw):
    sc = gen.Scenario(ctx.rng, **kw)
    ctx.sample(**sc.summary())
    return sc


def judged(ctx, sc, **kw):
    with ctx.quiet():
        pd = sc.diffract(**kw)
    P = oracle.check_rows(ctx, sc, pd)
    return pd, P


@family
def large_sample(ctx):
    """Thousands of elements in one call, partly lit."""
    rng = ctx.rng
    n = int(10 ** rng.uniform(2.5, 3.6))
    sc = scenario(ctx, large=True, n=n, nhkl=float(rng.choice([12, 30, 60])), spread=float(10 ** rng.uniform(0, 3)), beam=str(rng.choice(["wide", "box", "slab", "poly"])))
    with ctx.quiet():
        pd = sc.diffract()
    st = oracle.State(sc)
    P = oracle.check_rows(ctx, sc, pd, state=st)
    oracle.check_factors(ctx, sc, P, state=st)
    oracle.check_complete(ctx, P, oracle.expected(sc, state=st))
    ctx.saw("elements", n)
    ctx.nontrivial(n, len(P))


@family
def huge_sample(ctx):
    """Tens of thousands of elements: repetitions of a small, fully judged sample, each a bit displaced."""
    from xrd_simulator.mesh import TetraMesh
    from xrd_simulator.polycrystal import Polycrystal
    rng = ctx.rng
    n0 = int(rng.choice([7, 13, 29]))
    reps = int(rng.uniform(66000, 75000) / n0)
    sc = scenario(ctx, n=n0, nhkl=14, beam="wide", spread=None)
    n0 = sc.n
    with ctx.quiet():
        base = sc.diffract()
    A = oracle.check_rows(ctx, sc, base)
    oracle.check_complete(ctx, A, oracle.expected(sc))
    A = A[np.lexsort(A[:, [6, 4, 3, 2, 0]].T)]
    d = rng.normal(size=3) * sc.size * 0.1 / reps
    coord = (sc.coord[None] + np.arange(reps)[:, None, None] * d).reshape(-1, 3)
    enod = (sc.enod[None] + np.arange(reps)[:, None, None] * len(sc.coord)).reshape(-1, 4)
    sample = Polycrystal(TetraMesh.generate_mesh_from_vertices(coord, enod), np.tile(sc.U, (reps, 1, 1)),
                         np.tile(sc.E, (reps, 1, 1)), sc.phases(), np.tile(sc.emap, reps))
    with ctx.quiet():
        P = oracle.table(ctx, sc.diffract(sample))
    ctx.true(len(P) == reps * len(A), "number of reflections of a huge sample", f"{len(P)} for {reps} x {len(A)}")
    ctx.close_to(P[:, 24], np.arange(len(P)), "peak_index")
    e = P[:, 0].astype(int)
    rep, e0 = e // n0, e % n0
    P = P[np.lexsort((P[:, 6], P[:, 4], P[:, 3], P[:, 2], e0, rep))]
    if not len(P):
        return
    e = P[:, 0].astype(int)
    want = np.tile(A, (reps, 1))
    ctx.close_to(e, np.arange(reps).repeat(len(A)) * n0 + want[:, 0], "elements of a huge sample")
    for c, name in ((slice(1, 7), "phase, hkl, structure factor and time"), (slice(7, 16), "scattering vectors"),
                    (slice(19, 21), "intensity factors"), (slice(22, 23), "2theta")):
        x, y = P[:, c], want[:, c]
        m = np.isfinite(y)
        ctx.true((m == np.isfinite(x)).all(), "finite factors of a huge sample", name)
        ctx.close_to(x[m], y[m], name + " of a huge sample", rtol=1e-9, atol=1e-9)
    ctx.close_to(P[:, [21, 23]], want[:, [21, 23]], "volumes and widths of a huge sample", rtol=1e-5, atol=0)
    mv = sc.ref_move()
    src = want[:, 16:19] + mv.vectors((e // n0)[:, None] * d, want[:, 6])
    ctx.close_to(P[:, 16:19], src, "source points of a huge sample", atol=1e-6 * (1 + np.abs(src).max()) + 2 * oracle.State(sc).slack.max())
    ctx.saw("elements", n0 * reps)
    ctx.nontrivial(n0, reps, len(A))


# ------------------------------------------------------------------ C01 / C02
@family
def rows_random(ctx):
    sc = scenario(ctx, large=True, moved=True)
    pd, P = judged(ctx, sc)
    oracle.check_factors(ctx, sc, P)


@family
def rows_cif(ctx):
    sc = scenario(ctx, large=True, moved=True, cif=ctx.tmpdir(), nhkl=80)
    pd, P = judged(ctx, sc)
    oracle.check_factors(ctx, sc, P)


@family
def complete_random(ctx):
    sc = scenario(ctx, large=True, moved=True, nhkl=float(ctx.rng.choice([30, 120, 250])))
    pd, P = judged(ctx, sc)
    oracle.check_complete(ctx, P, oracle.expected(sc))
    ctx.nontrivial(len(P), sc.n)


@family
def complete_cif(ctx):
    sc = scenario(ctx, large=True, moved=True, cif=ctx.tmpdir(), nhkl=80)
    pd, P = judged(ctx, sc)
    oracle.check_complete(ctx, P, oracle.expected(sc))
    ctx.nontrivial(len(P), sc.n)


@family
def complete_multiphase(ctx):
    """Many phases, shuffled element numbering, phases without any element, repeated phases."""
    rng = ctx.rng
    sc = scenario(ctx, large=True, phases=int(rng.integers(2, 5)), n=int(rng.integers(2, 12)), nhkl=60, beam="wide")
    if rng.random() < 0.5:
        sc.emap[sc.emap == 0] = len(sc.cells) - 1
    pd, P = judged(ctx, sc)
    oracle.check_complete(ctx, P, oracle.expected(sc))
    ctx.nontrivial(len(P), tuple(sc.emap))


@family
def complete_few(ctx):
    """None, one or a few reflections: narrow Bragg windows, tiny rotations, unlit samples."""
    rng = ctx.rng
    sc = scenario(ctx, n=int(rng.integers(1, 3)), phases=1, nhkl=40, beam="wide", angle=float(10 ** rng.uniform(-6, -1)))
    kind = rng.integers(0, 4)
    if kind == 0:
        sc.bmin, sc.bmax = 0.0, sc.bmax * 1e-3  # no reflection at all
    elif kind == 1:
        sc.bverts = sc.bverts + 1e5 * sc.size * sc.direction  # sample outside of the beam
    elif kind == 2:
        # a single family of planes
        sc.angle = float(rng.uniform(0.3, 3))
        while not (h := sorted(ref.hkls_in(sc.cells[0][0], sc.cells[0][1], sc.wavelength, 0, sc.bmax)[0])):
            sc.bmax *= 1.1
        s = np.array([ref.d_star(sc.cells[0][0], x)[0] / 2 for x in h])
        b = np.arcsin(s[rng.integers(len(s))] * sc.wavelength)
        sc.bmin, sc.bmax = max(b - 1e-5, 0), b + 1e-5
    pd, P = judged(ctx, sc)
    oracle.check_complete(ctx, P, oracle.expected(sc))
    ctx.saw(f"tables with {min(len(P), 3)}{'+' if len(P) > 2 else ''} rows")
    # an empty or tiny table is a valid input of the detector
    det = gen.make_detector([1e5, -1e4, -1e4], [1e5, 1e4, -1e4], [1e5, -1e4, 1e4], n_pixels=16)
    with ctx.quiet():
        for m in ("micro", "nano", "auto", "macro"):
            fr, out = det.render(pd, frames_to_render=int(rng.integers(1, 4)), method=m, verbose=False)
            ctx.true(bool(torch.isfinite(fr).all()) and fr.shape[1:] == (16, 16), "render of a small table", m)
    ctx.nontrivial(int(kind), len(P))


@family
def complete_hostile_geometry(ctx):
    """Axis along the beam or along G, rotations near 0 and pi, Friedel pairs, crossings at half a turn."""
    rng = ctx.rng
    sc = scenario(ctx, moved=True, n=int(rng.integers(1, 4)), nhkl=120, beam="wide", phases=1)
    kind = int(rng.integers(0, 7))
    cell = sc.cells[0][0]
    if kind == 0:
        sc.axis = sc.direction * rng.choice([1.0, -1.0])
    elif kind == 1:
        sc.angle = float(np.pi - 10 ** rng.uniform(-12, -3))
    elif kind == 2:
        sc.angle = float(10 ** rng.uniform(-8, -3))
    elif kind == 3:
        # simple numbers: exact symmetric geometry with degenerate quadratics
        sc.U[:] = np.eye(3)
        sc.E[:] = 0
        sc.axis = np.array([0, 0, 1.0])
        sc.direction = np.array([1.0, 0, 0])
        sc.pol = np.array([0, 1.0, 0])
        sc.k = 2 * np.pi / sc.wavelength * sc.direction
        sc.angle = float(rng.choice([np.pi / 2, np.pi / 4, 1.0, np.pi * 0.999999]))
    elif kind == 4:
        # a reflection crossing exactly after (nearly) half a turn: G chosen so that -G solves at t=0
        h = np.array(sorted(ref.hkls_in(cell, sc.cells[0][1], sc.wavelength, 0, sc.bmax)[0]))
        if not len(h):
            raise Skip("no reflections")
        x = h[rng.integers(len(h))]
        B = sc.B(0)
        gc = B @ x
        g = np.linalg.norm(gc)
        # direction of G solving Laue at angle pi about axis: R(pi) G = Gs
        s = g / (2 * np.linalg.norm(sc.k))
        if s < 1:
            p = ref.unit(np.cross(sc.direction, rng.normal(size=3)))
            Gs = g * (-s * sc.direction + np.sqrt(1 - s * s) * p)
            G0 = ref.rotmat(sc.axis, np.pi).T @ Gs
            a, b = ref.unit(gc), ref.unit(G0)
            v = np.cross(a, b)
            if np.linalg.norm(v) > 1e-9:
                E_old = sc.E[0].copy()
                U_old = sc.U[0].copy()
                Rn = ref.rotmat(ref.unit(v), np.arctan2(np.linalg.norm(v), a @ b))
                # keep the crystal-frame strain so that B is unchanged
                sc.U[0] = Rn
                sc.E[0] = Rn @ U_old.T @ E_old @ U_old @ Rn.T
        sc.angle = float(np.pi - 10 ** rng.uniform(-13, -9))
    elif kind == 5:
        # grazing planes: two roots very close to one another
        sc.angle = float(rng.uniform(0.3, 3))
        h = sorted(ref.hkls_in(cell, sc.cells[0][1], sc.wavelength, sc.bmin, sc.bmax)[0])
        for e in range(sc.n):
            if h:
                aim(sc, e, np.array(h[rng.integers(len(h))]), float(10 ** rng.uniform(-2, 0.7)) * rng.choice([1, -1]),
                    rng.random() < 0.5, rng.uniform(0.1, 0.9))
    else:
        # orientation that puts some G along the rotation axis
        x = np.array([1.0, 1.0, 1.0])
        gc = ref.unit(sc.B(0) @ x)
        v = np.cross(gc, sc.axis)
        U_old, E_old = sc.U[0].copy(), sc.E[0].copy()
        if np.linalg.norm(v) > 1e-9:
            Rn = ref.rotmat(ref.unit(v), np.arctan2(np.linalg.norm(v), gc @ sc.axis))
            sc.U[0] = Rn
            sc.E[0] = Rn @ U_old.T @ E_old @ U_old @ Rn.T
    pd, P = judged(ctx, sc)
    oracle.check_complete(ctx, P, oracle.expected(sc))
    ctx.saw(f"geometry kind {kind}")
    ctx.nontrivial(kind, len(P), round(sc.angle, 9))


@family
def complete_mirror_pairs(ctx):
    """Rotating by pi-d about n and about -n covers complementary halves: together all roots."""
    rng = ctx.rng
    sc = scenario(ctx, n=int(rng.integers(1, 4)), nhkl=150, beam="wide", translate=False)
    sc.angle = float(np.pi - 10 ** rng.uniform(-7, -4))
    with ctx.quiet():
        a = sc.diffract()
    Pa = oracle.check_rows(ctx, sc, a)
    oracle.check_complete(ctx, Pa, oracle.expected(sc))
    sc.axis = -sc.axis
    with ctx.quiet():
        b = sc.diffract()
    Pb = oracle.check_rows(ctx, sc, b)
    oracle.check_complete(ctx, Pb, oracle.expected(sc))
    # Friedel: -hkl of the same element cannot be lost: -G meets Laue iff G meets the mirrored one
    ctx.saw("roots over the full turn", len(Pa) + len(Pb))
    ctx.nontrivial(len(Pa), len(Pb))


@family
def complete_tangent(ctx):
    """Crossings in close pairs: scattering vectors that pass the Ewald sphere all but tangentially."""
    rng = ctx.rng
    sc = scenario(ctx, n=int(rng.integers(1, 6)), nhkl=60, phases=1, beam="wide", angle=float(rng.uniform(0.3, 3.1)))
    h = sorted(ref.hkls_in(sc.cells[0][0], sc.cells[0][1], sc.wavelength, sc.bmin, sc.bmax)[0])
    if not h:
        raise Skip("no reflections")
    for e in range(sc.n):
        aim(sc, e, np.array(h[rng.integers(len(h))]), float(10 ** rng.uniform(-2.5, 0.5) * rng.choice([1, -1])),
            rng.random() < 0.5, rng.uniform(0.02, 0.98))
    pd, P = judged(ctx, sc)
    exp = oracle.expected(sc)
    oracle.check_complete(ctx, P, exp)
    gap = [abs(a[6] - b[6]) for a, b in zip(P[np.lexsort(P[:, [6, 4, 3, 2, 0]].T)], P[np.lexsort(P[:, [6, 4, 3, 2, 0]].T)][1:])
           if (a[[0, 2, 3, 4]] == b[[0, 2, 3, 4]]).all()]
    ctx.saw("pairs of crossings within a thousandth of the motion", int((np.array(gap) < 1e-3).sum()))
    ctx.nontrivial(len(P), round(min(gap, default=1), 9))


def swing(sc):
    """Let the motion carry the sample a long way into, through or out of a small beam."""
    rng = sc.rng
    mid = sc.coord.mean(0)
    far = (sc.size + sc.spread) * 10 ** rng.uniform(0, 2.5)
    if rng.random() < 0.7:
        sc.origin = mid + ref.unit(rng.normal(size=3)) * far
    if rng.random() < 0.5:
        sc.trans = rng.normal(size=3) * far
    if sc.angle < 0.3:
        sc.angle = float(rng.uniform(0.3, 3.1))
    at = sc.ref_move().points(mid[None], np.array([rng.uniform(0, 1)]))[0]
    Rb = ref.random_rotation(rng)
    h = rng.uniform(0.3, 3, 3) * (sc.size + sc.spread) * rng.choice([1, 1, 10])
    c = np.array([[x, y, z] for x in (-1, 1) for y in (-1, 1) for z in (-1, 1)], float) * h
    sc.bverts = c @ Rb.T + at


@family
def complete_swing(ctx):
    """Samples that only come into the beam in the course of a wide motion."""
    rng = ctx.rng
    sc = scenario(ctx, n=int(rng.integers(2, 14)), nhkl=float(rng.choice([60, 200])), beam="wide")
    swing(sc)
    pd, P = judged(ctx, sc)
    exp = oracle.expected(sc)
    oracle.check_complete(ctx, P, exp)
    H = ref.halfspaces(sc.bverts)
    start = (oracle.State(sc).centres @ H[:, :3].T + H[:, 3]).max(1) < 0
    ctx.saw("reflections of elements outside of the beam at time 0", int((~start[P[:, 0].astype(int)]).sum()) if len(P) else 0)
    ctx.nontrivial(len(P), exp.get("dark", 0))


@family
def complete_history(ctx):
    """The same sample, phase and beam objects again and again, under inputs that change ever so slightly."""
    rng = ctx.rng
    sc = scenario(ctx, n=int(rng.integers(2, 9)), nhkl=float(rng.choice([40, 120])), beam=str(rng.choice(["box", "poly", "wide"])),
                  cif=ctx.tmpdir() if rng.random() < 0.2 else None)
    if rng.random() < 0.4:
        swing(sc)
    sample, beam, motion = sc.sample(), sc.beam(), sc.motion()
    for step in range(int(rng.integers(3, 7))):
        with ctx.quiet():
            pd = sc.diffract(sample, beam, motion)
        P = oracle.check_rows(ctx, sc, pd)
        oracle.check_complete(ctx, P, oracle.expected(sc), what=f" of call {step + 1} with the same objects")
        row = P[rng.integers(len(P))] if len(P) else None
        kind = int(rng.integers(0, 7))
        eps = float(10 ** rng.uniform(-6, -2)) * rng.choice([-1, 1])
        ctx.saw(f"changes of kind {kind}")
        if kind <= 1 and row is not None:  # a shell next to one of the bounds, on either side
            b = row[22] / 2
            if kind == 0:
                sc.bmax = float(np.clip(b + eps, sc.bmin, np.pi / 2))
            else:
                sc.bmin = float(np.clip(b + eps, 0, sc.bmax))
        elif kind == 1:
            sc.bmax = float(min(sc.bmax * 1.05, np.pi / 2))
        elif kind in (2, 3) and row is not None:  # a face of the beam next to a source point, on either side
            H = ref.halfspaces(sc.bverts)
            d = H[:, :3] @ row[16:19] + H[:, 3]
            i = np.argmax(d) if rng.random() < 0.8 else rng.integers(len(d))
            sc.bverts = sc.bverts + H[i, :3] * (d[i] + eps * (1 + 0.1 * np.abs(sc.bverts).max()))
            beam.set_beam_vertices(torch.tensor(sc.bverts))
        elif kind == 2:
            sc.bverts = sc.bverts.mean(0) + (sc.bverts - sc.bverts.mean(0)) * 1.1
            beam.set_beam_vertices(torch.tensor(sc.bverts))
        elif kind == 4:  # a motion that ends just before or after a crossing
            f = row[6] * (1 + eps) if row is not None and row[6] > 0.05 else 1 + eps
            sc.angle, sc.trans = float(np.clip(sc.angle * f, 1e-6, np.pi - 1e-9)), sc.trans * f
            motion = sc.motion()
        elif kind == 5:  # a slightly different energy
            sc.wavelength = sc.wavelength * (1 + eps)
            sc.k = 2 * np.pi / sc.wavelength * sc.direction
            beam = sc.beam()
        else:  # a slightly moved sample
            m = ref.Move(ref.unit(rng.normal(size=3)), abs(eps), rng.normal(size=3) * sc.size * eps, rng.normal(size=3) * sc.size)
            from xrd_simulator.motion import RigidBodyMotion
            sample.transform(RigidBodyMotion(m.axis.copy(), m.angle, m.T.copy(), m.o.copy()), 1)
            R = m.R(1.0)
            sc.coord = m.points(sc.coord, 1.0)
            sc.U, sc.E = R @ sc.U, R @ sc.E @ R.T
            sc.__dict__.pop("_balls", None)
    ctx.nontrivial(len(P), round(float(sc.bverts.sum()), 4), round(sc.bmax, 6))


@family
def laue_solver(ctx):
    """The solver alone on random and degenerate coefficients against the arccos form."""
    from xrd_simulator import laue
    f = priv(laue, "_find_solutions_to_tangens_half_angle_equation")
    rng = ctx.rng
    n, m = int(rng.integers(1, 5)), int(rng.integers(1, 200))
    lam = 10 ** rng.uniform(-1, 0)
    k = 2 * np.pi / lam * ref.unit(rng.normal(size=3))
    ax = ref.unit(rng.normal(size=3))
    ang = float(rng.choice([rng.uniform(0.01, 3.1), np.pi - 1e-7, 1e-3]))
    G = rng.normal(size=(n, 3, m))
    G = G / np.linalg.norm(G, axis=1, keepdims=True) * rng.uniform(0.01, 1.9, (n, 1, m)) * np.linalg.norm(k)
    Kx = np.array([[0, -ax[2], ax[1]], [ax[2], 0, -ax[0]], [-ax[1], ax[0], 0]])
    r0, r1, r2 = -k @ Kx @ Kx, k @ Kx, k @ (np.eye(3) + Kx @ Kx)
    if rng.random() < 0.5:
        r0, r1, r2, Gt = (torch.tensor(v) for v in (r0, r1, r2, G))
        a = torch.tensor(ang)
    else:
        Gt, a = G, ang
    with internal_call():
        grains, planes, times, Gout = f(Gt, r0, r1, r2, a)
    grains, planes, times, Gout = (arr(v) for v in (grains, planes, times, Gout))
    ctx.saw("solutions", len(times))
    Gf = G.transpose(0, 2, 1)
    got = {}
    for g, p, t, v in zip(grains.astype(int), planes.astype(int), times, Gout):
        ctx.close_to(v, Gf[g, p], "solver returns the wrong G", atol=1e-12)
        got.setdefault((g, p), []).append(t)
    for g in range(n):
        p1, p2, mar, amp = ref.laue_times_many(k, ax, ang, Gf[g])
        for j in range(m):
            ts = got.pop((g, j), [])
            rel = amp[j] / (np.linalg.norm(k) * np.linalg.norm(Gf[g, j]))
            if abs(mar[j]) * rel < 1e-9:
                continue
            want = [x / ang for x in (p1[j], p2[j]) if mar[j] > 0]
            tol = 1e-9 + 1e-11 / (rel * np.sqrt(max(1 - (1 - mar[j]) ** 2, 1e-30))) / ang
            sure = [w for w in want if tol < w < 1 - tol]
            for w in sure:
                c = [x for x in ts if abs(x - w) < tol]
                ctx.true(len(c) == 1, "solver lost or repeated a root", f"root {w} got {ts}, angle {ang}", k=k, axis=ax, G=Gf[g, j])
            for x in ts:
                ctx.true(0 <= x <= 1, "solver time outside [0,1]", f"{x}")
                ctx.true(any(abs(x - w) < tol or abs(x - w + ref.TAU / ang) < tol for w in want) or x > 1 - tol,
                         "solver returned a spurious root", f"{x}, expected {want}")
            ctx.saw("equations")
    ctx.nontrivial(n, m, round(float(times.sum()), 6))


@family
def laue_ends(ctx):
    """Both ends of the motion are included: equations in small whole numbers with roots exactly at 0 and at 1."""
    from xrd_simulator import laue
    f = priv(laue, "_find_solutions_to_tangens_half_angle_equation")
    rng = ctx.rng
    # k along x, rotation about z by a quarter turn; (-a, b) with |G|^2 = 2a: root at t=0; (b, a) is its quarter turn
    flip = float(rng.choice([1.0, -1.0]))
    z = np.sqrt(0.0)
    base = [(-1.0, 1.0), (-1.0, -1.0), (1.0, 1.0), (-2.0, 0.0), (-0.5, z + np.sqrt(0.75)), (3.0, 0.0)]
    pick = rng.permutation(len(base))
    scale = 2.0 ** rng.integers(-6, 6)  # exact in binary
    k = np.array([1.0, 0, 0]) * scale
    G = np.array([[x, flip * y, 0.0] for x, y in base])[pick].T * scale
    ax = np.array([0, 0, flip])
    Kx = np.array([[0, -ax[2], ax[1]], [ax[2], 0, -ax[0]], [-ax[1], ax[0], 0]])
    with internal_call():
        g, p, t, _ = f(torch.tensor(G[None]), torch.tensor(-k @ Kx @ Kx), torch.tensor(k @ Kx), torch.tensor(k @ (np.eye(3) + Kx @ Kx)), torch.tensor(np.pi / 2))
    got = {}
    for j, v in zip(arr(p).astype(int), arr(t)):
        got.setdefault(int(pick[j]), []).append(float(v))
    # (-1,1): roots at 0 and 1; (-1,-1): at 0; (1,1): at 1; (-2,0) grazes at 0; (-.5,.87): at 0 up to rounding; (3,0): none
    ctx.close_to(sorted(got.get(0, [])), [0, 1], "roots at both ends of the motion", atol=1e-9)
    ctx.close_to(sorted(got.get(1, [])), [0], "root at the start of the motion", atol=1e-9)
    ctx.close_to(sorted(got.get(2, [])), [1], "root at the end of the motion", atol=1e-9)
    ctx.true(5 not in got, "root of a plane that cannot diffract", f"{got.get(5)}")
    ctx.saw("roots at the ends", 4)
    ctx.nontrivial(tuple(pick), float(scale), flip)


# ------------------------------------------------------------------ C03
@family
def contains_faces(ctx):
    """Points exactly on the faces, edges and corners of whole-number boxes are not inside; just inside of them they are."""
    from xrd_simulator.beam import Beam
    rng = ctx.rng
    h = rng.integers(1, 40, 3) / rng.choice([1.0, 2.0, 4.0])
    c = rng.integers(-60, 60, 3).astype(float)
    S = np.array([[a, b, d] for a in (-1, 1) for b in (-1, 1) for d in (-1, 1)], float)
    V = (S * h + c)[rng.permutation(8)]
    beam = Beam(torch.tensor(V), np.array([1.0, 0, 0]), 0.3, np.array([0, 1.0, 0]))
    f = priv(beam, "_contains")
    X = rng.integers(-4, 5, (60, 3)) / 4.0
    on = np.abs(X).max(1) == 1
    with internal_call():
        got = arr(f(torch.tensor((X * h + c).T))).astype(bool)
        inner = arr(f(torch.tensor((X * (h - 1e-4) + c).T))).astype(bool)
        outer = arr(f(torch.tensor((X * (h + 1e-4) + c).T))).astype(bool)
        one = np.array([bool(f(torch.tensor(x * h + c))) for x in X[:15]])
    ctx.true(not got[on].any(), "points on the surface of the beam are not inside of it", f"{X[on & got][:1]}", verts=V)
    ctx.true(got[~on].all() and inner.all(), "points inside of the beam", "")
    ctx.true(not outer[on].any() and (one == got[:15]).all(), "points outside of the beam", "")
    ctx.saw("points on the surface", int(on.sum()))
    ctx.nontrivial(tuple(h), tuple(c))


@family
def contains_polyhedra(ctx):
    """Point queries against exact hull membership, in every call shape."""
    from xrd_simulator.beam import Beam
    rng = ctx.rng
    sc = gen.Scenario(rng, n=1, phases=1, beam=str(rng.choice(["box", "poly", "slab", "poly"])))
    verts = sc.bverts
    beam = sc.beam()
    f = priv(beam, "_contains")
    for step in range(3):
        H = ref.halfspaces(verts)
        c = verts.mean(0)
        m = int(rng.choice([1, 150, 60000], p=[0.1, 0.85, 0.05]))
        w = rng.dirichlet(np.ones(len(verts)) * rng.choice([0.1, 1.0]), m)
        X = np.vstack((c + (w @ verts - c) * rng.uniform(0.8, 1.2, (m, 1)), c + rng.normal(size=(m, 3)) * np.ptp(verts, axis=0)))
        d = (X @ H[:, :3].T + H[:, 3]).max(1)
        tol = 3e-6 * (1 + np.abs(X).sum(1))
        with internal_call():
            got = arr(f(torch.tensor(X.T) if rng.random() < 0.5 else X.T)).astype(bool)
        ctx.true(got.shape == (len(X),), "contains: shape", f"{got.shape}")
        bad = ((d < -tol) & ~got) | ((d > tol) & got)
        ctx.true(not bad.any(), "contains disagrees with the polyhedron", f"{X[bad][:1]} distance {d[bad][:1]}", verts=verts)
        for i in rng.choice(len(X), min(5, len(X)), replace=False):
            if abs(d[i]) > tol[i]:
                with internal_call():
                    r = bool(f(X[i] if rng.random() < 0.5 else torch.tensor(X[i])))
                ctx.true(r == (d[i] < 0), "contains disagrees for a single point", f"{X[i]}")
        ctx.saw("points inside", int((d < -tol).sum()))
        ctx.saw("points outside", int((d > tol).sum()))
        # change the beam and query again
        s2 = gen.Scenario(rng, n=1, phases=1, beam=str(rng.choice(["box", "poly"])))
        verts = s2.bverts + rng.normal(size=3) * sc.size
        beam.set_beam_vertices(torch.tensor(verts))
        ctx.close_to(beam.vertices, verts, "vertices after set_beam_vertices")
        ctx.close_to(beam.centroid, verts.mean(0), "beam centroid after set_beam_vertices", rtol=1e-9, atol=1e-9 * np.abs(verts).max())
    ctx.nontrivial(len(verts), int((d < 0).sum()))


@family
def illumination_partial(ctx):
    """Beams that cut through the sample: reflections reported exactly for lit source points."""
    rng = ctx.rng
    sc = scenario(ctx, moved=True, n=int(rng.integers(3, 10)), nhkl=60, beam=str(rng.choice(["box", "slab", "poly", "poly"])))
    pd, P = judged(ctx, sc)
    exp = oracle.expected(sc)
    oracle.check_complete(ctx, P, exp)
    ctx.nontrivial(len(P), exp.get("dark", 0))


@family
def illumination_history(ctx):
    """The same objects diffracted while the beam is changed, replaced and moved across the sample."""
    rng = ctx.rng
    sc = scenario(ctx, n=int(rng.integers(2, 7)), nhkl=40, phases=1, beam="box")
    sample, beam, motion = sc.sample(), sc.beam(), sc.motion()
    for step in range(4):
        with ctx.quiet():
            pd = sc.diffract(sample, beam, motion)
        P = oracle.check_rows(ctx, sc, pd)
        oracle.check_complete(ctx, P, oracle.expected(sc), what=f" after {step} changes of the beam")
        kind = rng.integers(0, 3)
        if kind == 0:
            sc.bverts = sc.bverts + rng.normal(size=3) * sc.size * 0.5
        elif kind == 1:
            sc.bverts = sc.bverts * rng.uniform(0.5, 1.5)
        else:
            sc._make_beam(str(rng.choice(["poly", "slab"])))
        beam.set_beam_vertices(torch.tensor(sc.bverts))
    ctx.nontrivial(len(P), round(float(sc.bverts.sum()), 4))


@family
def illumination_scan(ctx):
    """Pencil beam and a translating sample: each grain is lit in its own interval of the motion."""
    rng = ctx.rng
    sc = scenario(ctx, n=int(rng.integers(4, 12)), nhkl=60, phases=1, beam="wide", spread=None, angle=float(rng.uniform(0.5, 3)))
    q = ref.unit(np.cross(sc.direction, rng.normal(size=3)))
    sc.trans = q * sc.size * rng.uniform(2, 6)
    r = ref.unit(np.cross(sc.direction, q))
    L = 50 * (sc.size + sc.spread)
    w = rng.uniform(0.3, 1.0) * sc.size
    ang = np.arange(6) * np.pi / 3 + rng.uniform(0, 1)
    ring = np.array([np.cos(a) * q + np.sin(a) * r for a in ang]) * w
    sc.bverts = np.vstack((ring - L * sc.direction, ring + L * sc.direction)) + sc.trans * 0.5
    pd, P = judged(ctx, sc)
    exp = oracle.expected(sc)
    oracle.check_complete(ctx, P, exp)
    # exact: every reported source is inside the polyhedron
    H = ref.halfspaces(sc.bverts)
    if len(P):
        d = (P[:, 16:19] @ H[:, :3].T + H[:, 3]).max(1)
        ctx.true((d < 3e-6 * (1 + np.abs(P[:, 16:19]).sum(1))).all(), "reported source outside of the beam", f"{d.max()}")
    ctx.nontrivial(len(P), exp.get("dark", 0))


# ------------------------------------------------------------------ C04
def detector_for(ctx, sc, P, npix=64, near=None, **kw):
    """A detector that catches a part of the peaks, and its plane."""
    rng = ctx.rng
    ext = sc.size + sc.spread + np.abs(sc.trans).max() + np.abs(sc.origin).max() + np.abs(P[:, 16:19]).max(initial=0)
    D = ext * 10 ** rng.uniform(0.7, 3)
    if len(P) and rng.random() < 0.85:
        r = P[rng.integers(len(P))]
        d = ref.unit(r[13:16])
    else:
        d = sc.direction
    c = gen.random_detector(rng, d, D, D * rng.uniform(0.1, 1.0), npix)
    if kw.get("_px"):
        kw.pop("_px")
    return gen.make_detector(*c, n_pixels=npix, **kw), ref.Plane(*c)


@family
def factors_random(ctx):
    sc = scenario(ctx, large=True, moved=True, nhkl=float(ctx.rng.choice([60, 250])))
    with ctx.quiet():
        pd = sc.diffract()
    P = oracle.table(ctx, pd)
    oracle.check_factors(ctx, sc, P)
    ctx.nontrivial(len(P))


@family
def factors_on_detector(ctx):
    """The eight combinations of enabled factors, and the validity filter, row by row."""
    rng = ctx.rng
    sc = scenario(ctx, large=True, nhkl=150, cif=ctx.tmpdir() if rng.random() < 0.5 else None, n=int(rng.integers(1, 5)), beam="wide")
    with ctx.quiet():
        pd = sc.diffract()
    P = oracle.table(ctx, pd)
    oracle.check_factors(ctx, sc, P)
    if rng.random() < 0.4:  # any positive intensity is valid, however small
        pd["peaks"][:, 5] *= 10 ** rng.uniform(-80, 80)
    flags = tuple(bool(b) for b in rng.integers(0, 2, 3))
    det, plane = detector_for(ctx, sc, P, npix=int(rng.integers(4, 40)), use_structure_factor=flags[0],
                              use_lorentz=flags[1], use_polarization=flags[2])
    n = int(rng.choice([1, 1, 3, 10]))
    out = det.peaks_detector_intersection(pd, frames_to_render=n, verbose=False)
    O = oracle.check_intersection(ctx, pd, out, plane, flags, n)
    ctx.saw(f"flags {''.join(str(int(f)) for f in flags)}")
    # the flags may be changed afterwards
    flags = tuple(bool(b) for b in rng.integers(0, 2, 3))
    det.structure_factor, det.lorentz_factor, det.polarization_factor = flags
    out = det.peaks_detector_intersection(pd, frames_to_render=n, verbose=False)
    oracle.check_intersection(ctx, pd, out, plane, flags, n)
    ctx.nontrivial(flags, len(O), n)


def aim(sc, e, hkl, eta_deg, opposite, t):
    """Orient element e so that hkl diffracts at time t, eta_deg away from the (opposite) axis direction."""
    gc = sc.B(e) @ hkl
    g = np.linalg.norm(gc)
    s = g / (2 * np.linalg.norm(sc.k))
    if s >= 1:
        return
    a = ref.unit(sc.axis - sc.direction * (sc.axis @ sc.direction)) * (-1 if opposite else 1)
    eta = np.radians(eta_deg)
    p = a * np.cos(eta) + np.cross(sc.direction, a) * np.sin(eta)
    G0 = ref.rotmat(sc.axis, sc.angle * t).T @ (g * (-s * sc.direction + np.sqrt(1 - s * s) * p))
    u, w = ref.unit(gc), ref.unit(G0)
    v = np.cross(u, w)
    if np.linalg.norm(v) > 1e-9:
        R = ref.rotmat(ref.unit(v), np.arctan2(np.linalg.norm(v), u @ w))
        E, U = sc.E[e].copy(), sc.U[e].copy()
        sc.U[e] = R
        sc.E[e] = R @ U.T @ E @ U @ R.T


@family
def factors_singular(ctx):
    """Axis in the scattering plane and small angles: singular Lorentz factors next to regular ones."""
    rng = ctx.rng
    sc = scenario(ctx, n=int(rng.integers(1, 4)), nhkl=200, phases=1, beam="wide", angle=float(rng.uniform(1, 3)))
    a = ref.unit(np.cross(sc.direction, rng.normal(size=3)))
    sc.axis = ref.unit(a + rng.choice([0, 1e-3, 0.1]) * sc.direction)
    if rng.random() < 0.5:
        sc.wavelength = float(10 ** rng.uniform(-2, -1))
        sc.k = 2 * np.pi / sc.wavelength * sc.direction
        V = max(np.linalg.det(ref.cell_basis(c)) for c, _ in sc.cells)
        smax = 0.5 * (200 / V * 3 / (4 * np.pi)) ** (1 / 3)
        sc.bmin, sc.bmax = 0.0, float(np.arcsin(smax * sc.wavelength))
    # let some reflections cross next to the plane spanned by beam and axis: eta near 0 or 180
    for e in range(sc.n):
        h = sorted(ref.hkls_in(sc.cells[0][0], sc.cells[0][1], sc.wavelength, sc.bmin, sc.bmax)[0])
        if h:
            aim(sc, e, np.array(h[rng.integers(len(h))]), float(rng.choice([0.05, 0.3, 0.45, 0.6, 1.5])) * rng.choice([1, -1]),
                rng.random() < 0.5, rng.uniform(0, 1))
    with ctx.quiet():
        pd = sc.diffract()
    P = oracle.table(ctx, pd)
    oracle.check_factors(ctx, sc, P)
    det, plane = detector_for(ctx, sc, P, npix=16)
    out = det.peaks_detector_intersection(pd, frames_to_render=1, verbose=bool(rng.integers(0, 2)))
    oracle.check_intersection(ctx, pd, out, plane)
    ctx.nontrivial(len(P))


@family
def factors_backscatter(ctx):
    """Planes with a spacing of half the wavelength: peaks scattered straight back, where the cosine of 2theta is -1."""
    rng = ctx.rng
    sc = scenario(ctx, n=int(rng.choice([2, 40])), nhkl=30, phases=1, beam="wide", spread=0.0, moved=False)
    cell, sg = sc.cells[0]
    h = sorted(ref.hkls_in(cell, sg, sc.wavelength, sc.bmin, sc.bmax)[0])
    if not h:
        raise Skip("no reflection")
    h = np.array(h[rng.integers(len(h))])
    sc.E[:] = 0
    gc = sc.B(0) @ h
    sc.wavelength = float(4 * np.pi / np.linalg.norm(gc)) * float(rng.choice([1, 1, 1, 1 - 1e-15, 1 - 1e-12]))
    sc.k = 2 * np.pi / sc.wavelength * sc.direction
    sc.bmin, sc.bmax = 0.0, float(np.pi / 2)
    for e in range(sc.n):
        t = rng.uniform(0, 1)
        x = ref.unit(np.cross(gc, rng.normal(size=3)))
        G0 = ref.rotmat(sc.axis, sc.angle * t).T @ -sc.direction
        y = ref.unit(np.cross(G0, rng.normal(size=3)))
        a = np.stack([ref.unit(gc), x, np.cross(ref.unit(gc), x)], axis=1)
        b = np.stack([G0, y, np.cross(G0, y)], axis=1)
        sc.U[e] = b @ a.T
    with ctx.quiet():
        pd = sc.diffract()
    P = oracle.table(ctx, pd)
    ctx.true(bool(np.isfinite(np.delete(P, 19, 1)).all()), "finite table", f"columns {sorted(set(np.nonzero(~np.isfinite(P))[1]))}")
    oracle.check_factors(ctx, sc, P)
    back = P[:, 22] > np.pi - 1e-5
    ctx.true(bool((P[:, 23] > 0).all()), "scherrer_fwhm", "not positive")
    ctx.saw("peaks scattered straight back", int(back.sum()))
    # a detector upstream of the sample
    size = 1e3 * sc.size
    c = P[0, 16:19] if len(P) else np.zeros(3)
    u = ref.unit(np.cross(sc.direction, rng.normal(size=3)))
    v = np.cross(sc.direction, u)
    c0 = c - sc.direction * size - (u + v) * size * rng.uniform(0.1, 1)
    det = gen.make_detector(c0, c0 + u * 2 * size, c0 + v * 2 * size, n_pixels=24)
    for m in ("micro", "nano", "macro"):
        with ctx.quiet():
            F = arr(det.render(pd, frames_to_render=2, method=m, verbose=False)[0])
        ctx.true(bool(np.isfinite(F).all() and (F >= 0).all()), "image of peaks scattered straight back", m)
    ctx.nontrivial(len(P), int(back.sum()))


@family
def factors_synthetic(ctx):
    """The closed forms on arbitrary vectors, single and batched."""
    from xrd_simulator import scattering_factors as sf
    rng = ctx.rng
    n = int(rng.choice([1, 2, 50, 50, 1500]))
    k = ref.unit(rng.normal(size=3)) * 10 ** rng.uniform(0, 2)
    ko = rng.normal(size=(n, 3))
    ko = ko / np.linalg.norm(ko, axis=1, keepdims=True) * np.linalg.norm(k)
    if rng.random() < 0.3:
        ko = k + ko * 10 ** rng.uniform(-4, -1)
        ko = ko / np.linalg.norm(ko, axis=1, keepdims=True) * np.linalg.norm(k)
    ax = ref.unit(rng.normal(size=3))
    if rng.random() < 0.5:
        ax = ref.unit(np.cross(k, ax) + rng.choice([0, 1e-3]) * ref.unit(k))
    near = rng.random(n) < 0.5  # next to the axis direction, on either side
    if near.any():
        a = ref.unit(ax - ref.unit(k) * (ax @ ref.unit(k)))
        eta = np.radians(rng.uniform(-2, 2, n) * (rng.random(n) < 0.7))  # some exactly in the plane of axis and beam
        eta = eta + np.pi * rng.integers(0, 2, n)
        tt = np.radians(rng.uniform(0.5, 170, n))
        d = np.outer(np.cos(eta), a) + np.outer(np.sin(eta), np.cross(ref.unit(k), a))
        d = np.linalg.norm(k) * (np.cos(tt)[:, None] * ref.unit(k) + np.sin(tt)[:, None] * d)
        ko = np.where(near[:, None], d, ko)
    pol = ref.unit(np.cross(k, rng.normal(size=3)))
    near = rng.random(n) < 0.2  # next to the polarization
    ko = np.where(near[:, None], rng.choice([-1, 1]) * pol + rng.normal(size=(n, 3)) * 10 ** rng.uniform(-6, -1), ko)
    ko = ko / np.linalg.norm(ko, axis=1, keepdims=True) * np.linalg.norm(k)
    T = torch.tensor
    L, Po, S = priv(sf, "_lorentz"), priv(sf, "_polarization"), priv(sf, "_scherrer")
    with internal_call():
        l = np.atleast_1d(arr(L(T(k), T(ko), T(ax))))
        p = np.atleast_1d(arr(Po(T(ko), T(pol))))
    for i in range(n):
        want, m = ref.lorentz(k, ko[i], ax)
        if m > 1e-4:
            ctx.close_to(l[i], want, "lorentz", rtol=1e-6)
    ctx.close_to(p, 1 - ((ko / np.linalg.norm(ko, axis=1, keepdims=True)) @ pol) ** 2, "polarization")
    v = 10 ** rng.uniform(-16, 10, n)
    tt = rng.uniform(0.001, 3.0, n)
    lam = float(10 ** rng.uniform(-1, 0.5))
    with internal_call():
        s = arr(S(T(v), T(tt), lam))
    ctx.close_to(s, [ref.scherrer(a, b, lam) for a, b in zip(v, tt)], "scherrer", rtol=1e-9, atol=0)
    ctx.nontrivial(n, round(float(p.sum()), 9))
    ctx.saw("vectors", n)


RULE = ("one case is one generated experiment run through the real code; it counts as distinct when the run differs "
        "in the listed signature (numbers of reflections, first reflection, geometry kind)")
check("C01", RULE, [("rows_random", 220, 6000), ("rows_cif", 70, 2000), ("complete_hostile_geometry", 40, 1500),
                    ("complete_multiphase", 40, 1500), ("complete_few", 30, 600), ("illumination_history", 20, 500),
                    ("complete_history", 30, 1000),
                    ("large_sample", 8, 200), ("huge_sample", 2, 30)])
check("C02", RULE, [("complete_random", 120, 5000), ("complete_cif", 30, 1200), ("complete_multiphase", 50, 1500),
                    ("complete_few", 60, 1200), ("complete_hostile_geometry", 110, 4000),
                    ("complete_mirror_pairs", 30, 800), ("complete_tangent", 60, 2000),
                    ("complete_swing", 40, 1200), ("complete_history", 40, 1500), ("laue_solver", 60, 2000), ("laue_ends", 16, 100),
                    ("large_sample", 8, 200), ("huge_sample", 2, 30)])
check("C03", RULE, [("contains_polyhedra", 120, 3000), ("contains_faces", 40, 500), ("illumination_partial", 120, 4000),
                    ("illumination_history", 50, 1500), ("illumination_scan", 60, 2000),
                    ("complete_swing", 40, 1200), ("complete_history", 60, 1500),
                    ("large_sample", 8, 200)])
check("C04", RULE, [("factors_random", 120, 4000), ("factors_on_detector", 120, 4000), ("factors_singular", 70, 2500), ("factors_backscatter", 100, 2500), ("hits_synthetic", 120, 3000),
                    ("factors_synthetic", 80, 2000), ("large_sample", 14, 200)])
