"""C05 crystallography, C06 strain, C07 motions, C08 sample state, C09 covariance."""
import copy
import os

import numpy as np
import torch
from xfab import sg as xfab_sg

from .. import crystal, gen, oracle, ref
from ..core import Skip, arr, check, family, internal_call, priv
from .diffraction import RULE, detector_for, scenario

SYSTEM = {"Fm-3m": "c", "Im-3m": "c", "Fd-3m": "c", "Pm-3m": "c", "P3221": "h", "P63/mmc": "h", "R-3m": "h",
          "P4/mmm": "t", "I4/mmm": "t", "P212121": "o", "Pmmm": "o", "P21/c": "m", "P2": "m", "P-1": "a", "P1": "a", "C2/m": "m"}


def system(sg):
    if sg not in SYSTEM:
        SYSTEM[sg] = {"cubic": "c", "hexagonal": "h", "trigonal": "h", "tetragonal": "t", "orthorhombic": "o", "monoclinic": "m",
                      "triclinic": "a"}[xfab_sg.sg(sgname=sg).crystal_system]
    return SYSTEM[sg]


def random_cell(rng, sg):
    a, b, c = rng.uniform(2.5, 8.0, 3) * (10 ** rng.uniform(0.5, 2.5) if rng.random() < 0.1 else 1)
    s = system(sg)
    if s == "c":
        return [a, a, a, 90.0, 90.0, 90.0]
    if s == "t":
        return [a, a, c, 90.0, 90.0, 90.0]
    if s == "h":
        return [a, a, c, 90.0, 90.0, 120.0]
    if s == "o":
        return [a, b, c, 90.0, 90.0, 90.0]
    if s == "m":
        return [a, b, c, 90.0, float(rng.uniform(91, 128) if rng.random() < 0.8 else rng.choice([90.0, 120.0])), 90.0]
    if rng.random() < 0.3:  # special metrics: the cells of higher symmetries, and oblique ones
        kind = int(rng.integers(0, 4))
        if kind == 0:
            return [a, a, c, 90.0, 90.0, 120.0]
        if kind == 1:
            return [a, a, a, *[float(rng.choice([60.0, 90.0, rng.uniform(40, 112)]))] * 3]
        if kind == 2:
            return [a, b, c, 90.0, 90.0, 90.0]
        while True:
            v = [float(x) for x in rng.uniform(40, 135, 3)]
            cs = np.cos(np.radians(v))
            if 1 - (cs ** 2).sum() + 2 * cs.prod() > 0.05:
                return [a, b, c, *v]
    return [a, b, c, *(float(v) for v in rng.uniform(72, 112, 3))]


def bounds(rng, cell, n):
    V = np.linalg.det(ref.cell_basis(cell))
    smax = 0.5 * (n / V * 3 / (4 * np.pi)) ** (1 / 3)
    w = float(10 ** rng.uniform(-1, 0.2))
    if rng.random() < 0.15:  # the largest angles
        w = float(rng.uniform(0.7, 1.5) / smax)
        hi = float(np.pi / 2 if smax * w >= 1 else np.arcsin(smax * w))
    else:
        w = min(w, 0.99 / smax)
        hi = float(np.arcsin(smax * w) * rng.uniform(0.6, 1.0))
    lo = float(rng.choice([0.0, rng.uniform(0, 0.9) * hi]))
    return w, lo, hi


# ------------------------------------------------------------------ C05
def check_phase(ctx, ph, cell, sg, w, lo, hi, cr=None):
    sure, maybe = ref.hkls_in(cell, sg, w, lo, hi)
    M = arr(ph.miller_indices).reshape(-1, 3)
    ctx.true((M == np.round(M)).all(), "Miller indices are not integers", f"{M[:2]}")
    got = {tuple(int(v) for v in r) for r in M}
    ctx.true(len(got) == len(M), "a reflection is listed twice", f"{len(M)} rows {len(got)} distinct")
    d = sure - got
    ctx.true(not d, "allowed reflection missing", f"{sorted(d)[:4]} of {len(sure)}; {sg} {cell} w={w} bounds {lo} {hi}")
    d = got - sure - maybe
    ctx.true(not d, "reflection that is not allowed or out of bounds", f"{sorted(d)[:4]}; {sg} {cell} w={w} bounds {lo} {hi}")
    ctx.saw("reflections listed", len(got))
    if cr is None:
        ctx.true(ph.structure_factors is None, "structure factors without CIF", "")
    elif len(M):
        F = arr(ph.structure_factors)
        want = cr.F(M)
        ctx.close_to(F, np.column_stack((want.real, want.imag)), "structure factor", rtol=1e-9,
                     atol=1e-10 * max(1.0, np.abs(want).max()))
        ctx.saw("structure factors compared", len(M))


@family
def hkl_sets(ctx):
    """One phase object asked again and again with other wavelengths and bounds."""
    from xrd_simulator.phase import Phase
    rng = ctx.rng
    base, sg = gen.CATALOGUE[int(rng.integers(len(gen.CATALOGUE)))]
    cell = random_cell(rng, sg) if rng.random() < 0.8 else list(base)
    ph = Phase(list(cell), sg)
    f = priv(ph, "_setup_diffracting_planes")
    for _ in range(4):
        w, lo, hi = bounds(rng, cell, float(rng.choice([3, 40, 300])))
        with internal_call():
            f(w, lo, hi)
        check_phase(ctx, ph, cell, sg, w, lo, hi)
        ctx.true(list(ph.unit_cell) == list(cell) and ph.sgname == sg, "the phase changed", "")
    ctx.sample(space_group=sg, cell=cell, reflections=len(ph.miller_indices))
    ctx.nontrivial(sg, len(ph.miller_indices), round(w, 6))


@family
def structure_factor_sets(ctx):
    from xrd_simulator.phase import Phase
    rng = ctx.rng
    base, sg = gen.CATALOGUE[int(rng.integers(len(gen.CATALOGUE)))]
    cell = [round(float(v), 6) for v in random_cell(rng, sg)]
    cr = crystal.Crystal(rng, cell, sg)
    ph = Phase(list(cell), sg, path_to_cif_file=cr.write(ctx.tmpdir(), "a.cif"))
    f = priv(ph, "_setup_diffracting_planes")
    for _ in range(2):
        w, lo, hi = bounds(rng, cell, float(rng.choice([10, 80])))
        with internal_call():
            f(w, lo, hi)
        check_phase(ctx, ph, cell, sg, w, lo, hi, cr)
    ctx.sample(space_group=sg, atoms=[(a["el"], a["kind"], a["mult"]) for a in cr.atoms])
    top = 0.5 * (9000 / np.linalg.det(ref.cell_basis(cell)) * 3 / (4 * np.pi)) ** (1 / 3)  # 1/Angstrom, for 9000 lattice points
    if rng.random() < 0.3 and top > 0.8:  # far out in reciprocal space, where the form factors have died off
        s = min(top, rng.uniform(0.8, 2.5))
        w = float(rng.uniform(0.1, 0.99) / s)
        lo, hi = float(np.arcsin(w * s * (1 - 10 ** rng.uniform(-3.5, -2)))), float(np.arcsin(w * s))
        with internal_call():
            f(w, lo, hi)
        check_phase(ctx, ph, cell, sg, w, lo, hi, cr)
        ctx.saw("shells beyond sin(theta)/lambda 1.5", int(s > 1.5))
    if rng.random() < 0.3:  # another structure is stored in the file of a structure used before
        old = ph.path_to_cif_file
        cr = crystal.Crystal(rng, cell, sg)
        path = cr.write(os.path.dirname(old), "b.cif")
        os.replace(path, old)
        other = Phase(list(cell), sg, path_to_cif_file=old)
        with internal_call():
            priv(other, "_setup_diffracting_planes")(w, lo, hi)
        check_phase(ctx, other, cell, sg, w, lo, hi, cr)
        ctx.saw("structure files replaced")
    ctx.nontrivial(sg, len(ph.miller_indices), len(cr.atoms))


@family
def phase_groups(ctx):
    """Every space group."""
    from xrd_simulator.phase import Phase
    rng = ctx.rng
    number = ctx.index % 230 + 1
    sg = xfab_sg.sg(sgno=number).name
    cell = [round(float(v), 6) for v in random_cell(rng, sg)]
    cr = crystal.Crystal(rng, cell, sg) if rng.random() < 0.4 else None
    ph = Phase(list(cell), sg, path_to_cif_file=cr.write(ctx.tmpdir(), "a.cif") if cr else None)
    f = priv(ph, "_setup_diffracting_planes")
    for _ in range(2):
        w, lo, hi = bounds(rng, cell, float(rng.choice([80, 500])))
        with internal_call():
            f(w, lo, hi)
        check_phase(ctx, ph, cell, sg, w, lo, hi, cr)
        if cr is None and len(arr(ph.miller_indices)) and sg in ref.ALLOWED:
            ctx.true(ref.allowed_by_operations(sg, arr(ph.miller_indices)).all(), "reflection absent by symmetry", sg)
    ctx.saw("space groups", 1)
    ctx.sample(space_group=sg, cell=cell, reflections=len(ph.miller_indices))
    ctx.nontrivial(sg, len(ph.miller_indices))


@family
def phase_windows(ctx):
    """Narrow windows walking over the shells, and bounds and wavelengths that differ by next to nothing."""
    from xrd_simulator.phase import Phase
    rng = ctx.rng
    base, sg = gen.CATALOGUE[int(rng.integers(len(gen.CATALOGUE)))]
    cell = [round(float(v), 6) for v in random_cell(rng, sg)] if rng.random() < 0.5 else list(base)
    cr = crystal.Crystal(rng, cell, sg) if rng.random() < 0.6 else None
    ph = Phase(list(cell), sg, path_to_cif_file=cr.write(ctx.tmpdir(), "a.cif") if cr else None)
    f = priv(ph, "_setup_diffracting_planes")
    w, lo, hi = bounds(rng, cell, 60.0)
    h = np.array(sorted(ref.hkls_in(cell, sg, w, 0, hi)[0]), float).reshape(-1, 3)
    if not len(h):
        return
    s = np.unique(np.round(ref.d_star(cell, h) / 2, 8))
    s = s[np.append(True, np.diff(s) > 1e-5)]
    for i in rng.permutation(len(s))[:5]:
        e = 10 ** rng.uniform(-6.5, -4) * s[i]
        th = lambda v: float(np.arcsin(min(v * w, 1.0)))  # noqa: E731
        kind = int(rng.integers(0, 3))
        seq = [(s[i] - e, s[i] + e)]                       # this shell alone
        if kind == 0:
            seq = [(0.0, s[i] - e), (0.0, s[i] + e), (0.0, s[i] - e / 2)]
        elif kind == 1 and i + 1 < len(s):
            seq = [(s[i] - e, s[i] + e), (s[i] + e, s[i + 1] + e), (s[i] - e, s[i] + e)]
        for a, b in seq:
            with internal_call():
                f(w, th(max(a, 0.0)), th(b))
            check_phase(ctx, ph, cell, sg, w, th(max(a, 0.0)), th(b), cr)
        a, b = seq[-1]
        w2 = w * (1 + rng.choice([-2, 2]) * e / s[i])      # the same angles at a slightly different wavelength
        if b * max(w, w2) < 1:
            with internal_call():
                f(w2, th(max(a, 0.0)), th(b))
            check_phase(ctx, ph, cell, sg, w2, th(max(a, 0.0)), th(b), cr)
    ctx.nontrivial(sg, len(s), cr is not None, round(w, 6))


@family
def phase_reuse(ctx):
    """One phase shared by several samples and used alternately with several beams and bounds."""
    rng = ctx.rng
    scs = []
    sc = scenario(ctx, n=int(rng.integers(1, 4)), phases=int(rng.integers(1, 3)), cif=ctx.tmpdir(), nhkl=60, beam="wide")
    phases = sc.phases()
    for i in range(3):
        s = gen.Scenario(rng, n=int(rng.integers(1, 4)), phases=len(phases), beam="wide", nhkl=float(rng.choice([8, 40, 80])))
        if rng.random() < 0.5:  # other wavelength, same Bragg bounds or the reverse
            s.bmin, s.bmax = sc.bmin, min(sc.bmax, s.bmax)
            if s.bmin >= s.bmax:
                s.bmin = 0.0
        s.cells, s.crystals, s.cifs = sc.cells, sc.crystals, sc.cifs
        s.alias = sc.alias
        if hasattr(s, "_balls"):
            del s._balls
        V = max(np.linalg.det(ref.cell_basis(c)) for c, _ in s.cells)
        s.bmax = min(s.bmax, float(np.arcsin(min(0.5 * (150 / V * 3 / (4 * np.pi)) ** (1 / 3) * s.wavelength, 0.999))))
        s.bmin = min(s.bmin, 0.7 * s.bmax)
        from xrd_simulator.polycrystal import Polycrystal
        scs.append((s, Polycrystal(s.mesh(), s.U.copy(), s.E.copy(), phases, s.emap.copy()), s.beam(), s.motion()))
    top = [s.bmax for s, *_ in scs]
    i = 0
    for step in range(8):
        # windows that share an end with the previous one, or hold it, or lie inside of it
        i = int(rng.integers(3)) if rng.random() < 0.4 else i
        s, sample, beam, motion = scs[i]
        kind = str(rng.choice(["same", "lower", "upper", "inside", "any"]))
        if kind in ("lower", "inside"):
            s.bmin = float(rng.uniform(0, 0.8) * s.bmax) if kind == "lower" else float(rng.uniform(s.bmin, s.bmin + 0.6 * (s.bmax - s.bmin)))
        if kind in ("upper", "inside"):
            s.bmax = float(rng.uniform(s.bmin + 0.2 * (top[i] - s.bmin), top[i])) if kind == "upper" else float(rng.uniform(0.5 * (s.bmin + s.bmax), s.bmax))
        if kind == "any":
            s.bmax = float(top[i] * rng.uniform(0.5, 1))
            s.bmin = float(s.bmax * rng.choice([0, rng.uniform(0, 0.9)]))
        ctx.saw("window " + kind)
        with ctx.quiet():
            pd = s.diffract(sample, beam, motion)
        P = oracle.check_rows(ctx, s, pd)
        oracle.check_complete(ctx, P, oracle.expected(s), what=" (phase shared between samples)")
    ctx.nontrivial(len(P), len(phases))


# ------------------------------------------------------------------ C06
@family
def strain_metric(ctx):
    """|G| of every reported reflection against the deformed metric tensor."""
    rng = ctx.rng
    sc = scenario(ctx, beam="wide", nhkl=120)
    kind = int(rng.integers(0, 5))
    if kind == 0:
        sc.E = np.array([np.eye(3) * rng.uniform(-0.02, 0.02) for _ in range(sc.n)])
    elif kind == 1:  # large, still feasible
        sc.E = np.array([sc.U[i] @ np.diag(rng.uniform(-0.3, 0.5, 3)) @ sc.U[i].T for i in range(sc.n)])
        a = rng.uniform(-0.1, 0.1, (sc.n, 3, 3))
        sc.E = sc.E + (a + a.transpose(0, 2, 1)) / 2
        sc.E *= 0.8
        for i in range(sc.n):
            while np.linalg.eigvalsh(2 * sc.E[i] + np.eye(3))[0] < 0.05:
                sc.E[i] *= 0.5
    elif kind == 2:  # single components, shears included
        sc.E = np.zeros((sc.n, 3, 3))
        for i in range(sc.n):
            a, b = rng.integers(0, 3, 2)
            sc.E[i, a, b] = sc.E[i, b, a] = rng.uniform(-0.05, 0.05)
    elif kind == 3:
        sc.E[:] = 0
    with ctx.quiet():
        pd = sc.diffract()
    P = oracle.table(ctx, pd)
    if not len(P):
        return
    e = P[:, 0].astype(int)
    g2 = np.zeros(len(P))
    for i in set(e):
        m = e == i
        A = ref.direct_basis(sc.cells[sc.emap[i]][0])
        C = 2 * sc.U[i].T @ sc.E[i] @ sc.U[i] + np.eye(3)
        Gs = np.linalg.inv(A.T @ C @ A)
        h = P[m, 2:5]
        g2[m] = 4 * np.pi ** 2 * np.einsum("ni,ij,nj->n", h, Gs, h)
    g = np.sqrt(g2)
    ctx.close_to(np.linalg.norm(P[:, 7:10], axis=1) / g, np.ones(len(P)), "lattice spacing under strain (G0)", rtol=1e-8)
    ctx.close_to(np.linalg.norm(P[:, 10:13], axis=1) / g, np.ones(len(P)), "lattice spacing under strain (G)", rtol=1e-8)
    s = g * sc.wavelength / (4 * np.pi)
    ok = s < 0.999
    ctx.close_to(np.sin(P[ok, 22] / 2), s[ok], "Bragg angle under strain", rtol=1e-7)
    ctx.saw("strained reflections", len(P))
    ctx.nontrivial(kind, len(P), round(float(np.abs(sc.E).max()), 6))


@family
def strain_frames(ctx):
    """Rotating the crystal with its strain rotates G and nothing else; scalar and batched input agree."""
    from xrd_simulator.polycrystal import Polycrystal
    from xrd_simulator.phase import Phase
    rng = ctx.rng
    cell, sg = gen.CATALOGUE[int(rng.integers(len(gen.CATALOGUE)))]
    n = int(rng.choice([1, 2, 5]))
    coord, enod = gen.random_tets(rng, n, 1.0, 1.0)
    e = rng.normal(size=(3, 3)) * 10 ** rng.uniform(-4, -1.5)
    Ec = (e + e.T) / 2
    U = np.array([ref.random_rotation(rng) for _ in range(n)])
    E = np.array([u @ Ec @ u.T for u in U])
    pc = Polycrystal(gen.TetraMesh.generate_mesh_from_vertices(coord, enod), gen.maybe_torch(rng, U), gen.maybe_torch(rng, E), Phase(cell, sg))
    B = arr(priv(pc, "_eB"))
    for i in range(1, n):
        ctx.close_to(B[i], B[0], "reciprocal basis depends on the orientation", rtol=1e-9, atol=1e-9)
    M = B[0].T @ B[0]
    A = ref.direct_basis(cell)
    want = 4 * np.pi ** 2 * np.linalg.inv(A.T @ (2 * Ec + np.eye(3)) @ A)
    ctx.close_to(M, want, "reciprocal metric under strain", rtol=1e-8, atol=1e-9 * np.abs(want).max())
    ctx.close_to(arr(pc.strain_lab), E, "strain_lab")
    ctx.close_to(arr(pc.strain_sample), E, "strain_sample")
    # one strain for all elements
    E1 = E[0]
    pc = Polycrystal(gen.TetraMesh.generate_mesh_from_vertices(coord, enod), gen.maybe_torch(rng, U), gen.maybe_torch(rng, E1), Phase(cell, sg))
    B = arr(pc._eB)
    for i in range(n):
        want = 4 * np.pi ** 2 * np.linalg.inv(A.T @ (2 * U[i].T @ E1 @ U[i] + np.eye(3)) @ A)
        ctx.close_to(B[i].T @ B[i], want, "reciprocal metric, one strain for all", rtol=1e-8, atol=1e-9 * np.abs(want).max())
        ctx.close_to(arr(pc.strain_lab)[i], E1, "strain_lab")
    ctx.nontrivial(sg, n, round(float(Ec[0, 0]), 8))


@family
def strain_round_trip(ctx):
    from xrd_simulator import utils
    rng = ctx.rng
    f, g = priv(utils, "_epsilon_to_b"), priv(utils, "_b_to_epsilon")
    sv, st = priv(utils, "_strain_as_vector"), priv(utils, "_strain_as_tensor")
    lab = priv(utils, "_lab_strain_to_B_matrix")
    for _ in range(20):
        base, sg = gen.CATALOGUE[int(rng.integers(len(gen.CATALOGUE)))]
        cell = random_cell(rng, sg)
        B0 = ref.Bmat(cell)
        n = int(rng.integers(1, 5))
        e = rng.normal(size=(n, 3, 3)) * 10 ** rng.uniform(-6, -1)
        E = (e + e.transpose(0, 2, 1)) / 2
        E = E[[np.linalg.eigvalsh(2 * x + np.eye(3))[0] > 0.01 for x in E]]
        for x in E:
            with internal_call():
                v = sv(x)
                t = arr(st(v))
            ctx.close_to(t, x, "strain vector and tensor", atol=1e-15)
            with internal_call():
                B = arr(f(torch.tensor(x).unsqueeze(0), torch.tensor(B0)))[0]
                back = arr(g(B, B0))
            back = back if back.shape == (3, 3) else arr(st(back))
            ctx.close_to(back, x, "strain recovered from the reciprocal basis", rtol=1e-7, atol=1e-10)
        if len(E):
            U = np.array([ref.random_rotation(rng) for _ in E])
            with internal_call():
                B = arr(lab(torch.tensor(E), torch.tensor(U), torch.tensor(B0))).reshape(-1, 3, 3)
            for b, x, u in zip(B, E, U):
                ctx.close_to(b, ref.strained_B(B0, x, u), "B of the lab strain", rtol=1e-8, atol=1e-9)
                with internal_call():
                    back = arr(g(b, B0))
                back = back if back.shape == (3, 3) else arr(st(back))
                ctx.close_to(u @ back @ u.T, x, "lab strain recovered", rtol=1e-7, atol=1e-10)
        ctx.saw("round trips", len(E))
    ctx.nontrivial(round(float(B0[0, 0]), 6))


@family
def strain_symmetry(ctx):
    """A crystal described with a symmetry-equivalent orientation diffracts the same under the same lab strain."""
    from itertools import product
    rng = ctx.rng
    sgs = [c for c in gen.CATALOGUE if system(c[1]) in "cto"]
    cell, sg = sgs[int(rng.integers(len(sgs)))]
    B0 = ref.Bmat(cell)
    ops = []
    for p in ((0, 1, 2), (1, 0, 2), (0, 2, 1), (2, 1, 0), (1, 2, 0), (2, 0, 1)):
        for sgn in product((1, -1), repeat=3):
            M = np.zeros((3, 3))
            M[range(3), p] = sgn
            S = B0 @ M @ np.linalg.inv(B0)
            if np.linalg.det(M) > 0 and np.allclose(S @ S.T, np.eye(3), atol=1e-9):
                ops.append((S, M))
    S, M = ops[int(rng.integers(1, len(ops)))]
    sc = scenario(ctx, n=int(rng.integers(1, 4)), phases=1, nhkl=80, beam="wide")
    sc.cells = [(list(cell), sg)]
    V = np.linalg.det(ref.cell_basis(cell))
    sc.bmax = float(np.arcsin(min(0.5 * (80 / V * 3 / (4 * np.pi)) ** (1 / 3) * sc.wavelength, 0.99)))
    sc.bmin = 0.0
    if sg == "P212121" and not np.allclose(np.abs(M), np.eye(3)):
        raise Skip("not a symmetry of the extinctions")
    # strain along the crystal axes: the orientation of a sheared cell is a matter of convention
    sc.E = np.array([u @ np.diag(rng.uniform(-0.02, 0.02, 3) * rng.integers(0, 2)) @ u.T for u in sc.U])
    s2 = clone(sc, U=sc.U @ S)
    A, B = oracle.table(ctx, run(ctx, sc)), oracle.table(ctx, run(ctx, s2)).copy()
    if len(B):
        B[:, 2:5] = np.round(B[:, 2:5] @ M.T)
    ia, ib = match(ctx, A, B, oracle.expected(sc, bound_slack=1e-8), "with a symmetry-equivalent orientation")
    A, B = A[ia], B[ib]
    ctx.close_to(B[:, 6:16], A[:, 6:16], "peaks with a symmetry-equivalent orientation", rtol=1e-6, atol=1e-6)
    same_scalars(ctx, A, B, "with a symmetry-equivalent orientation")
    ctx.nontrivial(sg, len(ia), round(float(M.sum()), 1))


@family
def strain_infeasible(ctx):
    from xrd_simulator.polycrystal import Polycrystal
    rng = ctx.rng
    sc = gen.Scenario(rng, n=int(rng.choice([1, 2, 5])), strain=False)
    lam = np.array([-0.5 - 10 ** rng.uniform(-3, 0.5), *rng.uniform(-0.4, 0.5, 2)])
    R = ref.random_rotation(rng)
    singular = rng.random() < 0.35
    if singular:  # collapsed, not inverted: 2E+I has eigenvalues 0, exactly or to rounding
        lam[:rng.integers(1, 4)] = -0.5
        if rng.random() < 0.5:
            R = np.eye(3)[rng.permutation(3)]
    bad = R @ np.diag(lam) @ R.T
    bad = (bad + bad.T) / 2
    if singular and rng.random() < 0.3:
        bad = np.zeros((3, 3))
        i, j = rng.choice(3, 2, replace=False)
        bad[i, j] = bad[j, i] = rng.choice([0.5, -0.5])
    E = np.zeros((sc.n, 3, 3))
    which = rng.integers(sc.n)
    E[which] = bad
    one = rng.random() < 0.3
    mk = lambda S: Polycrystal(sc.mesh(), sc.U.copy(), gen.maybe_torch(rng, S), sc.phases(), sc.emap.copy())
    with ctx.quiet():
        ctx.raises(ValueError, lambda: mk(bad if one else E), "infeasible strain accepted or another exception",
                   f"eigenvalue {lam[0]} of element {which} of {sc.n}")
        # feasible by the same margin
        good = R @ np.diag(np.maximum(lam, -0.5 + 10 ** rng.uniform(-3, -0.5))) @ R.T
        E[which] = (good + good.T) / 2
        mk(E[which] if one else E)
    ctx.nontrivial(sc.n, one, round(float(lam[0]), 5))


# ------------------------------------------------------------------ C07
def random_move(rng, size=1.0):
    ax = ref.unit(rng.normal(size=3))
    if rng.random() < 0.3:
        ax = np.eye(3)[rng.integers(3)] * rng.choice([1.0, -1.0])
    ang = float(rng.choice([rng.uniform(0.01, 3.1), 10 ** rng.uniform(-8, -1), np.pi - 10 ** rng.uniform(-9, -1)]))
    T = rng.normal(size=3) * size * rng.choice([0, 1, 10])
    o = rng.normal(size=3) * size * rng.choice([0, 1, 10])
    return ref.Move(ax, ang, T, o)


def real_motion(rng, m, plain=False):
    from xrd_simulator.motion import RigidBodyMotion
    mt = (lambda x: x.copy()) if plain else (lambda x: gen.maybe_torch(rng, x))
    ang = m.angle if rng.random() < 0.7 else torch.tensor(m.angle)
    if (m.o == 0).all() and rng.random() < 0.5:
        return RigidBodyMotion(mt(m.axis), ang, mt(m.T))
    return RigidBodyMotion(mt(m.axis), ang, mt(m.T), mt(m.o))


@family
def motion_shapes(ctx):
    """Every call shape, time form and container against x -> R(x-o)+o+tT."""
    rng = ctx.rng
    size = 10 ** rng.uniform(-2, 3)
    m = random_move(rng, size)
    mo = real_motion(rng, m)
    tol = 1e-11 * (size * 40 + 1)
    for _ in range(8):
        n = int(rng.choice([1, 2, 3, 4, 7]))
        k = int(rng.choice([1, 2, 3, 4, 5]))
        X = rng.normal(size=(n, 3)) * size
        if rng.random() < 0.3:  # whole numbers
            X = np.round(X)
        t = float(rng.choice([0.0, 1.0, rng.uniform(), 10 ** rng.uniform(-4, -1.5)]))
        ts = rng.choice([0.0, 1.0, 0.5, rng.uniform()], size=n)
        tin = t if rng.random() < 0.5 else torch.tensor(t)
        r = mo(gen.maybe_torch(rng, X[0]), tin)
        ctx.close_to(r, m.point(X[0], t), "single point", rtol=1e-11, atol=tol)
        r = mo(gen.maybe_torch(rng, X), tin)
        ctx.close_to(r, m.points(X, t), "points, one time", rtol=1e-11, atol=tol)
        r = mo(gen.maybe_torch(rng, X), gen.maybe_torch(rng, ts))
        ctx.close_to(r, m.points(X, ts), "points, a time each", rtol=1e-11, atol=tol)
        Y = rng.normal(size=(n, k, 3)) * size
        if rng.random() < 0.3:
            Y = np.round(Y)
        want = np.array([[m.point(p, s) for p in q] for q, s in zip(Y, ts)])
        r = mo(gen.maybe_torch(rng, Y), gen.maybe_torch(rng, ts))
        ctx.close_to(r, want, "sets of points, a time each", rtol=1e-11, atol=tol)
        want = np.array([[m.point(p, t) for p in q] for q in Y])
        ctx.close_to(mo(gen.maybe_torch(rng, Y), tin), want, "sets of points, one time", rtol=1e-11, atol=tol)
        ctx.close_to(mo.rotate(gen.maybe_torch(rng, X), tin), m.vectors(X, t), "rotate, one time", rtol=1e-11, atol=tol)
        ctx.close_to(mo.rotate(gen.maybe_torch(rng, X), gen.maybe_torch(rng, ts)), m.vectors(X, ts), "rotate, a time each", rtol=1e-11, atol=tol)
        ctx.close_to(mo.rotate(gen.maybe_torch(rng, X[0]), tin), m.R(t) @ X[0], "rotate a vector", rtol=1e-11, atol=tol)
        ctx.close_to(mo.translate(gen.maybe_torch(rng, X[0]), t), X[0] + t * m.T, "translate a point", rtol=1e-11, atol=tol)
        ctx.close_to(mo.translate(gen.maybe_torch(rng, X.T.copy()), t), (X + t * m.T).T, "translate points", rtol=1e-11, atol=tol)
        if n != 3:
            ctx.close_to(mo.translate(gen.maybe_torch(rng, X), t), X + t * m.T, "translate rows of points", rtol=1e-11, atol=tol)
        ctx.saw("points moved", n * (4 + 2 * k))
    if rng.random() < 0.1:  # a large set
        n = int(rng.integers(5000, 60000))
        X, ts = rng.normal(size=(n, 3)) * size, rng.uniform(0, 1, n)
        ctx.close_to(mo(X, ts), m.points(X, ts), "many points, a time each", rtol=1e-11, atol=tol)
        ctx.close_to(mo(X.reshape(n, 1, 3), ts), m.points(X, ts)[:, None], "many sets of points, a time each", rtol=1e-11, atol=tol)
        ctx.close_to(mo(X, t), m.points(X, t), "many points, one time", rtol=1e-11, atol=tol)
        ctx.close_to(mo.rotate(X, ts), m.vectors(X, ts), "rotate many, a time each", rtol=1e-11, atol=tol)
        ctx.saw("points moved", 4 * n)
    ctx.close_to(mo.rotation_axis, m.axis, "rotation_axis")
    ctx.close_to(mo.rotation_angle, m.angle, "rotation_angle")
    ctx.close_to(mo.translation, m.T, "translation")
    ctx.close_to(mo.origin, m.o, "origin")
    ctx.sample(angle=m.angle, axis=m.axis, origin=m.o, translation=m.T)
    ctx.nontrivial(round(m.angle, 8), n, k)


@family
def motion_laws(ctx):
    """Rigidity, identity, inverse, uniformity in time, composition about one axis."""
    rng = ctx.rng
    size = 10 ** rng.uniform(-2, 3)
    m = random_move(rng, size)
    mo = real_motion(rng, m)
    tol = 1e-10 * (size * 40 + 1)
    X = rng.normal(size=(int(rng.integers(4, 9)), 3)) * size
    t, s = rng.uniform(0, 1, 2)
    Y, Z = arr(mo(X, t)), arr(mo(X, s))
    D = lambda A: np.linalg.norm(A[:, None] - A[None], axis=2)
    ctx.close_to(D(Y), D(X), "distances", atol=tol)
    vol = lambda A: np.linalg.det(A[1:4] - A[0])
    ctx.close_to(vol(Y), vol(X), "handedness", rtol=1e-8, atol=tol * size ** 2)
    ctx.close_to(arr(mo(X, 0.0)), X, "identity at time 0", atol=tol)
    # right handed about the axis
    p = ref.unit(np.cross(m.axis, rng.normal(size=3)))
    r = arr(mo.rotate(p, 1.0))
    ctx.close_to(np.arctan2(np.cross(p, r) @ m.axis, p @ r) % ref.TAU, m.angle, "rotation angle and sense", atol=1e-9)
    ctx.close_to(arr(mo.rotate(m.axis, t)), m.axis, "the axis is invariant", atol=1e-10)
    # uniform in time
    if t + s <= 1:
        a = arr(mo.rotate(arr(mo.rotate(X, t)), s))
        ctx.close_to(a, arr(mo.rotate(X, t + s)), "uniform rotation", atol=tol)
    inv = mo.inverse()
    ctx.close_to(inv.rotation_axis, -m.axis, "inverse axis")
    ctx.close_to(inv.translation, -m.T, "inverse translation")
    ctx.close_to(inv.origin, m.o, "inverse origin")
    ctx.close_to(inv.rotation_angle, m.angle, "inverse angle")
    im = ref.Move(-m.axis, m.angle, -m.T, m.o)
    ctx.close_to(arr(inv(X, t)), im.points(X, t), "inverse motion", atol=tol)
    ctx.close_to(arr(inv.rotate(arr(mo.rotate(X, t)), t)), X, "rotation undone by the inverse", atol=tol)
    ctx.close_to(arr(inv.translate(arr(mo.translate(X[0], t)), t)), X[0], "translation undone by the inverse", atol=tol)
    if (m.T == 0).all():
        ctx.close_to(arr(inv(arr(mo(X, t)), t)), X, "motion undone by the inverse", atol=tol)
        ctx.saw("pure rotations")
    # the motion itself was not changed by any of this
    ctx.close_to(arr(mo(X, t)), Y, "motion changed by using its inverse", rtol=0, atol=0)
    ctx.nontrivial(round(m.angle, 8), len(X))


# ------------------------------------------------------------------ C08
def check_mesh_geometry(ctx, mesh, coord, enod, scale, what):
    """Derived geometry of a mesh against its nodes."""
    tol = 1e-9 * scale
    ctx.close_to(mesh.coord, coord, f"node coordinates{what}", rtol=1e-9, atol=tol)
    V = coord[enod]
    ctx.close_to(mesh.ecentroids, V.mean(1), f"element centroids{what}", rtol=1e-9, atol=tol)
    ctx.close_to(mesh.centroid, V.mean(1).mean(0), f"mesh centroid{what}", rtol=1e-9, atol=tol)
    ctx.close_to(mesh.evolumes, [ref.tet_volume(v) for v in V], f"volumes{what}", rtol=1e-6, atol=1e-300)
    r, c = arr(mesh.eradius), arr(mesh.espherecentroids)
    ctx.true(r.shape == (len(enod),), f"bounding radii{what}", f"{r.shape}")
    ctx.true(c.shape == (len(enod), 3), f"bounding sphere centres{what}", f"{c.shape}")
    far = np.linalg.norm(V - c[:, None], axis=2).max(1)
    bad = ~(far <= r * (1 + 1e-9) + tol)
    ctx.true(not bad.any(), f"bounding spheres do not hold their elements{what}", f"{far[bad][:3]} radii {r[bad][:3]}")
    want_r, want, slack = ref.miniballs(V)  # the library adds a margin of 1e-4 to keep the corners inside
    bad = ~((r >= want_r * (1 - 1e-9) - tol) & (r <= want_r * 1.0005 + tol))
    ctx.true(not bad.any(), f"bounding radii{what}", f"{r[bad][:3]} expected {want_r[bad][:3]}")
    bad = ~(np.linalg.norm(c - want, axis=1) <= tol + slack + 1e-7 * want_r)
    ctx.true(not bad.any(), f"bounding sphere centres{what}", f"{c[bad][:2]} expected {want[bad][:2]}")
    ctx.counts["oracle checks"] += 2 * len(enod)
    # faces: the four triples of every element, each with its own outward unit normal
    efaces, N = arr(mesh.efaces).astype(int), arr(mesh.enormals)
    ctx.true(efaces.shape == (len(enod), 4, 3) and N.shape == (len(enod), 4, 3), f"faces{what}", f"{efaces.shape} {N.shape}")
    enod = np.asarray(enod, int)
    key = np.sort(efaces, axis=2)
    want = np.sort(np.stack([enod[:, [1, 2, 3]], enod[:, [0, 2, 3]], enod[:, [0, 1, 3]], enod[:, [0, 1, 2]]], 1), axis=2)
    base = int(max(enod.max(), efaces.max(), 1)) + 1
    num = np.array([base * base, base, 1], dtype=object if base > 2 ** 20 else np.int64)
    bad = (np.sort((key * num).sum(2), axis=1) != np.sort((want * num).sum(2), axis=1)).any(1)
    ctx.true(not bad.any(), f"faces{what}", f"elements {np.flatnonzero(bad)[:4]}")
    F = coord[efaces]
    w = np.cross(F[:, :, 1] - F[:, :, 0], F[:, :, 2] - F[:, :, 0])
    w = w / np.linalg.norm(w, axis=2, keepdims=True)
    other = 4 * V.mean(1)[:, None] - F.sum(2)  # the node that is not on the face
    out = ((other - F[:, :, 0]) * w).sum(2) < 0
    w = np.where(out[:, :, None], w, -w)
    ctx.close_to(N, w, f"face normals{what}", rtol=0, atol=1e-6)
    ctx.counts["oracle checks"] += 4 * len(enod)
    ctx.true(int(mesh.number_of_elements) == len(enod), f"number of elements{what}", "")
    ctx.saw("mesh states checked")


@family
def mesh_history(ctx):
    from xrd_simulator.mesh import TetraMesh
    rng = ctx.rng
    size = 10 ** rng.uniform(-1, 3)
    n = int(rng.choice([1, 1, 2, 5]))
    if rng.random() < 0.5:
        coord, enod = gen.random_tets(rng, n, size * rng.choice([0, 1, 3]), size)
    else:  # elements that share nodes
        coord, enod = gen.delaunay_tets(rng, int(rng.integers(5, 12) if rng.random() < 0.7 else rng.integers(20, 150)), size)
        n = len(enod)
    mesh = TetraMesh.generate_mesh_from_vertices(coord.copy(), enod.copy())
    x = coord.copy()
    scale = size * 5
    check_mesh_geometry(ctx, mesh, x, enod, scale, " (new mesh)")
    ops = []
    for step in range(int(rng.integers(2, 8))):
        kind = str(rng.choice(["translate", "rotate", "update"]))
        ops.append(kind)
        if kind == "translate":
            d = rng.normal(size=3) * size * rng.choice([0.1, 3])
            mesh.translate(gen.maybe_torch(rng, d))
            x = x + d
        elif kind == "rotate":
            ax, ang = ref.unit(rng.normal(size=3)), float(rng.uniform(0.01, 3.1))
            mesh.rotate(ax, ang)
            x = x @ ref.rotmat(ax, ang).T
        else:
            m = random_move(rng, size)
            t = float(rng.choice([0.0, 1.0, rng.uniform(), 10 ** rng.uniform(-4, -1.5)]))
            mesh.update(real_motion(rng, m), t)
            x = m.points(x, t)
        scale = max(scale, np.abs(x).max() * 2)
        check_mesh_geometry(ctx, mesh, x, enod, scale, f" after {'+'.join(ops[-3:])}")
    ctx.sample(operations=ops, elements=n)
    ctx.nontrivial(tuple(ops), n)


@family
def sample_history(ctx):
    """Sequences of transform() and diffract() against the composed state, and against a new sample."""
    from xrd_simulator.polycrystal import Polycrystal
    rng = ctx.rng
    sc = scenario(ctx, n=int(rng.integers(1, 8)), nhkl=40, beam="wide")
    sample = sc.sample()
    st = oracle.State(sc)
    E = sc.E.copy()
    x0, scale = sc.coord.copy(), np.abs(sc.coord).max() * 4 + sc.size
    steps = []
    for step in range(int(rng.integers(1, 6))):
        if rng.random() < 0.75:
            m = random_move(rng, sc.size)
            t = float(rng.choice([1.0, rng.uniform(), 0.0, 10 ** rng.uniform(-4, -1.5)], p=[0.4, 0.4, 0.1, 0.1]))
            mo = real_motion(rng, m)
            if rng.random() < 0.3:
                mo = real_motion(rng, ref.Move(-m.axis, m.angle, -m.T, m.o)).inverse()
            sample.transform(mo, t if rng.random() < 0.7 else torch.tensor(t))
            R = m.R(t)
            st = st.moved(m, t)
            E = np.einsum("ij,njk,lk->nil", R, E, R)
            steps.append("transform")
        else:
            with ctx.quiet():
                sc.diffract(sample)
            steps.append("diffract")
        scale = max(scale, np.abs(st.coord).max() * 4)
        check_mesh_geometry(ctx, sample.mesh_lab, st.coord, sc.enod, scale, " of mesh_lab")
        ctx.close_to(sample.orientation_lab, st.U, "orientation_lab", atol=1e-9)
        ctx.close_to(sample.strain_lab, E, "strain_lab", rtol=1e-8, atol=1e-9)
        ctx.close_to(sample.mesh_sample.coord, x0, "mesh_sample changed", rtol=0, atol=0)
        ctx.close_to(sample.orientation_sample, sc.U, "orientation_sample changed", rtol=0, atol=1e-15)
        ctx.close_to(sample.strain_sample, sc.E, "strain_sample changed", rtol=0, atol=1e-15)
    check_mesh_geometry(ctx, sample.mesh_sample, x0, sc.enod, np.abs(x0).max() * 4, " of mesh_sample")
    # beam wide enough for the moved sample
    far = np.abs(st.coord).max() + np.linalg.norm(sc.origin) + np.linalg.norm(sc.trans)
    sc.bverts = np.array([[a, b, c] for a in (-1, 1) for b in (-1, 1) for c in (-1, 1)], float) * far * 5
    beam, motion = sc.beam(), sc.motion()
    with ctx.quiet():
        pd = sc.diffract(sample, beam, motion)
        new = Polycrystal(gen.TetraMesh.generate_mesh_from_vertices(st.coord.copy(), sc.enod.copy()), st.U.copy(), E.copy(), sc.phases(), sc.emap.copy())
        pn = sc.diffract(new, beam, motion)
    P = oracle.check_rows(ctx, sc, pd, state=st)
    oracle.check_complete(ctx, P, oracle.expected(sc, st), what=" (moved sample)")
    Q = oracle.check_rows(ctx, sc, pn, state=st)
    oracle.check_complete(ctx, Q, oracle.expected(sc, st), what=" (new sample in the moved state)")
    ctx.sample(history=steps)
    ctx.nontrivial(tuple(steps), len(P))


# ------------------------------------------------------------------ C09
def clone(sc, **kw):
    s = copy.copy(sc)
    s.__dict__.pop("_balls", None)
    for k in ("coord", "enod", "emap", "U", "E", "k", "axis", "trans", "origin", "bverts", "direction", "pol"):
        setattr(s, k, np.array(getattr(sc, k)))
    for k, v in kw.items():
        setattr(s, k, v)
    return s


def rotated(sc, R):
    return clone(sc, coord=sc.coord @ R.T, U=R @ sc.U, E=R @ sc.E @ R.T, k=R @ sc.k, axis=R @ sc.axis,
                 trans=R @ sc.trans, origin=R @ sc.origin, bverts=sc.bverts @ R.T, direction=R @ sc.direction, pol=R @ sc.pol)


def match(ctx, A, B, exp, what, key=lambda r: (int(r[0]), int(r[2]), int(r[3]), int(r[4]))):
    """Pair equal reflections of two tables; unpaired ones must be borderline."""
    from collections import defaultdict
    pool = defaultdict(list)
    for j, r in enumerate(B):
        pool[key(r)].append(j)
    border = defaultdict(list)
    for i in np.nonzero(~exp["sure"])[0]:
        border[(int(exp["elem"][i]), *(int(v) for v in exp["hkl"][i]))].append(exp["t"][i])
    ia, ib = [], []
    loose = []
    for i, r in enumerate(A):
        k = key(r)
        c = [(abs(B[j, 6] - r[6]), j) for j in pool[k]]
        c = [x for x in c if x[0] < 1e-6]
        if c:
            j = min(c)[1]
            pool[k].remove(j)
            ia.append(i)
            ib.append(j)
        else:
            loose.append((k, r[6], "lost"))
    for k, js in pool.items():
        loose += [(k, B[j, 6], "appeared") for j in js]
    for k, t, w in loose:
        ctx.true(any(abs(t - b) < 1e-4 for b in border[k]), f"reflection {w} {what}", f"element {k[0]} hkl {k[1:]} t={t!r}")
    ctx.saw("reflections paired", len(ia))
    return np.array(ia, int), np.array(ib, int)


def run(ctx, sc, sample=None, motion=None, **kw):
    with ctx.quiet():
        return sc.diffract(sample or sc.sample(plain=True), sc.beam(plain=True), motion or sc.motion(), **kw)


SCALARS = (5, 19, 20, 21, 22, 23)


def same_scalars(ctx, A, B, what, cols=SCALARS):
    for c in cols:
        if c == 19:  # near its singularities the Lorentz factor amplifies round-off
            f = np.isfinite(A[:, c]) & np.isfinite(B[:, c]) & (np.abs(A[:, c]) < 1e4)
            ctx.close_to(A[f, c], B[f, c], f"{oracle.COLS[c]} {what}", rtol=1e-4)
        else:
            ctx.close_to(A[:, c], B[:, c], f"{oracle.COLS[c]} {what}", rtol=1e-5, atol=1e-7)
    m = np.minimum(np.maximum(np.abs(A[:, 19]), np.abs(B[:, 19])), 1)  # conditioning of t only matters when tangent


@family
def covariance_rotation(ctx):
    rng = ctx.rng
    sc = scenario(ctx, nhkl=100, n=int(rng.integers(1, 6)))
    R = ref.random_rotation(rng)
    s2 = rotated(sc, R)
    pa, pb = run(ctx, sc), run(ctx, s2)
    A, B = oracle.table(ctx, pa), oracle.table(ctx, pb)
    ia, ib = match(ctx, A, B, oracle.expected(sc), "when the whole experiment is rotated")
    A, B = A[ia], B[ib]
    K = np.linalg.norm(sc.k)
    ok = np.abs(A[:, 6] - B[:, 6]) < 1e-9
    A, B = A[ok], B[ok]
    for c in (7, 10, 13):
        ctx.close_to(B[:, c:c + 3], A[:, c:c + 3] @ R.T, f"{oracle.COLS[c]} under rotation", rtol=1e-6, atol=1e-6 * K)
    sc_ = np.abs(A[:, 16:19]).max(initial=1)
    ctx.close_to(B[:, 16:19], A[:, 16:19] @ R.T, "source under rotation", rtol=1e-6, atol=1e-6 * sc_)
    same_scalars(ctx, A, B, "under rotation")
    # detector images
    det, plane = detector_for(ctx, sc, arr(pa["peaks"]), npix=32)
    det2 = gen.make_detector(R @ plane.c0, R @ plane.c1, R @ plane.c2, n_pixels=32)
    if len(ia) == len(arr(pa["peaks"])) == len(arr(pb["peaks"])) and ok.all():
        with ctx.quiet():
            fa, oa = det.render(pa, frames_to_render=3, method="micro", verbose=False)
            fb, ob = det2.render(pb, frames_to_render=3, method="micro", verbose=False)
        if len(oa["peaks"]) == len(ob["peaks"]):
            X, Y = arr(oa["peaks"]), arr(ob["peaks"])
            X, Y = X[np.lexsort(X[:, [6, 4, 3, 2, 0]].T)], Y[np.lexsort(Y[:, [6, 4, 3, 2, 0]].T)]
            if (X[:, 28] == Y[:, 28]).all() and np.abs(X[:, 29]).max(initial=0) < 1e4:
                tol = 1e-4 * (plane.zmax / 32) + 1e-6 * plane.zmax
                if (X[:, [0, 2, 3, 4]] == Y[:, [0, 2, 3, 4]]).all():
                    ctx.close_to(Y[:, 25:27], X[:, 25:27], "detector positions under rotation", atol=tol, rtol=1e-6)
                fa, fb = arr(fa), arr(fb)
                ctx.close_to(fa.sum(), fb.sum(), "image sum under rotation", rtol=1e-3, atol=1e-12)
                ctx.close_to(fb, fa, "image under rotation", rtol=0, atol=3e-3 * np.abs(fa).max() + 1e-12)
                ctx.saw("images compared")
    ctx.nontrivial(len(ia))


@family
def covariance_translation(ctx):
    rng = ctx.rng
    sc = scenario(ctx, nhkl=100, n=int(rng.integers(1, 6)))
    d = rng.normal(size=3) * sc.size * rng.choice([0.1, 1, 20])
    s2 = clone(sc, coord=sc.coord + d, origin=sc.origin + d, bverts=sc.bverts + d)
    pa, pb = run(ctx, sc), run(ctx, s2)
    A, B = oracle.table(ctx, pa), oracle.table(ctx, pb)
    e1, e2 = oracle.expected(sc), oracle.expected(s2)
    e1["sure"] = e1["sure"] if len(e1["sure"]) != len(e2["sure"]) else e1["sure"] & e2["sure"]
    ia, ib = match(ctx, A, B, e1, "when the whole experiment is translated")
    A, B = A[ia], B[ib]
    same_scalars(ctx, A, B, "under translation")
    ctx.close_to(B[:, 6:16], A[:, 6:16], "peaks under translation", rtol=1e-8, atol=1e-8)
    s = np.abs(A[:, 16:19]).max(initial=1) + np.abs(d).max()
    ctx.close_to(B[:, 16:19], A[:, 16:19] + d, "source under translation", rtol=1e-8, atol=1e-8 * s)
    det, plane = detector_for(ctx, sc, arr(pa["peaks"]), npix=32)
    det2 = gen.make_detector(plane.c0 + d, plane.c1 + d, plane.c2 + d, n_pixels=32)
    if len(ia) == len(arr(pa["peaks"])) == len(arr(pb["peaks"])):
        oa = det.peaks_detector_intersection(pa, 2, False)
        ob = det2.peaks_detector_intersection(pb, 2, False)
        X, Y = arr(oa["peaks"]), arr(ob["peaks"])
        back = dict(zip(ib, ia))  # rows of the two tables come in different orders
        Y[:, 24] = [back[int(v)] for v in Y[:, 24]]
        both = sorted(set(X[:, 24]) & set(Y[:, 24]))
        X, Y = X[np.isin(X[:, 24], both)], Y[np.isin(Y[:, 24], both)]
        X, Y = X[np.argsort(X[:, 24])], Y[np.argsort(Y[:, 24])]
        m = np.abs(X[:, 27] - 90) > 1
        ctx.close_to(Y[m][:, 25:28], X[m][:, 25:28], "detector positions under translation", rtol=1e-7,
                     atol=1e-6 * (plane.zmax + np.abs(d).max()))
        ctx.saw("hits compared", len(both))
    ctx.nontrivial(len(ia), round(float(d[0]), 6))


@family
def motion_split(ctx):
    """One scan against its consecutive parts with the sample transformed in between."""
    from xrd_simulator.motion import RigidBodyMotion
    rng = ctx.rng
    sc = scenario(ctx, nhkl=80, n=int(rng.integers(1, 6)))
    whole = oracle.table(ctx, run(ctx, sc))
    parts = int(rng.integers(2, 6))
    cuts = np.sort(rng.uniform(0.02, 0.98, parts - 1)) if rng.random() < 0.6 else np.arange(1, parts) / parts
    cuts = np.concatenate(([0], cuts, [1]))
    sample = sc.sample(plain=True)
    rows = []
    o = sc.origin.copy()
    mv = sc.ref_move()
    st = oracle.State(sc)
    for a, b in zip(cuts[:-1], cuts[1:]):
        w = b - a
        if w * sc.angle <= 0:
            raise Skip("empty part")
        m = RigidBodyMotion(sc.axis.copy(), w * sc.angle, w * sc.trans, o.copy())
        P = oracle.table(ctx, run(ctx, sc, sample, m)).copy()
        P[:, 6] = a + w * P[:, 6]
        rows.append(P)
        sample.transform(m, 1.0)
        o = o + w * sc.trans
    parts_table = np.vstack(rows)
    exp = oracle.expected(sc)
    # crossings at the cuts may fall in either part or both
    near = np.array([min(abs(t - c) for c in cuts) < 1e-6 + 1e3 * dt for t, dt in zip(exp["t"], exp["dt"])], bool) if len(exp["t"]) else np.zeros(0, bool)
    exp["sure"] = exp["sure"] & ~near
    ia, ib = match(ctx, whole, parts_table, exp, "when the scan is split")
    A, B = whole[ia], parts_table[ib]
    same_scalars(ctx, A, B, "of a split scan")
    K = np.linalg.norm(sc.k)
    ctx.close_to(B[:, 10:16], A[:, 10:16], "G and k_out of a split scan", rtol=1e-5, atol=1e-5 * K)
    ctx.close_to(B[:, 16:19], A[:, 16:19], "source of a split scan", rtol=1e-5, atol=1e-5 * (1 + np.abs(A[:, 16:19]).max(initial=0)))
    ctx.nontrivial(parts, len(ia))


@family
def renumbering(ctx):
    rng = ctx.rng
    sc = scenario(ctx, nhkl=80, n=int(rng.integers(2, 9)), phases=int(rng.integers(1, 4)))
    A = oracle.table(ctx, run(ctx, sc))
    ep = rng.permutation(sc.n)          # new element i is old ep[i]
    nodes = rng.permutation(len(sc.coord))
    inv = np.argsort(nodes)
    enod = inv[sc.enod[ep]]
    enod = np.array([r[rng.permutation(4)] for r in enod])
    pp = rng.permutation(len(sc.cells))  # new phase i is old pp[i]
    ip = np.argsort(pp)
    s2 = clone(sc, coord=sc.coord[nodes], enod=enod, U=sc.U[ep], E=sc.E[ep], emap=ip[sc.emap[ep]])
    s2.alias = [int(ip[sc.alias[i]]) for i in pp]
    s2.cells = [sc.cells[i] for i in pp]
    s2.cifs = [sc.cifs[i] for i in pp]
    s2.crystals = [sc.crystals[i] for i in pp]
    B = oracle.table(ctx, run(ctx, s2)).copy()
    if len(B):
        B[:, 0] = ep[B[:, 0].astype(int)]
        B[:, 1] = pp[B[:, 1].astype(int)]
    ia, ib = match(ctx, A, B, oracle.expected(sc), "when elements, nodes and phases are renumbered")
    A, B = A[ia], B[ib]
    ctx.close_to(B[:, 1], A[:, 1], "phase after renumbering")
    same_scalars(ctx, A, B, "after renumbering")
    ctx.close_to(B[:, 6:16], A[:, 6:16], "peaks after renumbering", rtol=1e-6, atol=1e-6)
    ctx.close_to(B[:, 16:19], A[:, 16:19], "source after renumbering", rtol=1e-6, atol=1e-6 * (1 + np.abs(A[:, 16:19]).max(initial=0)))
    ctx.nontrivial(tuple(ep), tuple(pp), len(ia))


@family
def length_scaling(ctx):
    """Cell and wavelength scaled together; sample, beam, motion and detector scaled together."""
    rng = ctx.rng
    sc = scenario(ctx, nhkl=80, n=int(rng.integers(1, 6)))
    f = float(10 ** (rng.uniform(-0.3, 0.3) if rng.random() < 0.4 else rng.uniform(-3, 3)))
    A = oracle.table(ctx, run(ctx, sc))
    s2 = clone(sc, k=sc.k / f, wavelength=sc.wavelength * f)
    s2.cells = [([*(np.array(c[:3]) * f), *c[3:]], sg) for c, sg in sc.cells]
    B = oracle.table(ctx, run(ctx, s2))
    exp = oracle.expected(sc, bound_slack=1e-8)
    ia, ib = match(ctx, A, B, exp, "when cell and wavelength are scaled")
    X, Y = A[ia], B[ib]
    same_scalars(ctx, X, Y, "when cell and wavelength are scaled", cols=(5, 19, 20, 21, 22))
    ctx.close_to(Y[:, 23], X[:, 23] * f, "Scherrer width scales with the wavelength", rtol=1e-6, atol=0)
    ctx.close_to(Y[:, 10:16] * f, X[:, 10:16], "G scales inversely", rtol=1e-5, atol=1e-5 * np.linalg.norm(sc.k))
    g = float(10 ** rng.uniform(-1, 1))
    s3 = clone(sc, coord=sc.coord * g, origin=sc.origin * g, trans=sc.trans * g, bverts=sc.bverts * g)
    C = oracle.table(ctx, run(ctx, s3))
    e3 = oracle.expected(s3)
    exp["sure"] = exp["sure"] & e3["sure"] if len(e3["sure"]) == len(exp["sure"]) else exp["sure"]
    ia, ib = match(ctx, A, C, exp, "when the sample is scaled")
    X, Y = A[ia], C[ib]
    same_scalars(ctx, X, Y, "when the sample is scaled", cols=(5, 19, 20, 22))
    ctx.close_to(Y[:, 21], X[:, 21] * g ** 3, "volumes scale", rtol=1e-7, atol=0)
    ctx.close_to(Y[:, 16:19], X[:, 16:19] * g, "sources scale", rtol=1e-6, atol=1e-6 * g * (1 + np.abs(X[:, 16:19]).max(initial=0)))
    ctx.nontrivial(round(f, 6), round(g, 6), len(A))


@family
def union_of_elements(ctx):
    from xrd_simulator.polycrystal import Polycrystal
    rng = ctx.rng
    sc = scenario(ctx, nhkl=60, n=int(rng.integers(2, 7)))
    A = oracle.table(ctx, run(ctx, sc))
    rows = []
    groups = np.array_split(rng.permutation(sc.n), int(rng.integers(2, max(sc.n, 2) + 1)))
    beam, motion = sc.beam(plain=True), sc.motion()
    for g in groups:
        used = np.unique(sc.enod[g])
        new = -np.ones(len(sc.coord), int)
        new[used] = np.arange(len(used))
        mesh = gen.TetraMesh.generate_mesh_from_vertices(sc.coord[used], new[sc.enod[g]])
        with ctx.quiet():
            pd = sc.diffract(Polycrystal(mesh, sc.U[g].copy(), sc.E[g].copy(), sc.phases(), sc.emap[g].copy()), beam, motion)
        B = oracle.table(ctx, pd).copy()
        if len(B):
            B[:, 0] = g[B[:, 0].astype(int)]
        rows.append(B)
    B = np.vstack(rows)
    ia, ib = match(ctx, A, B, oracle.expected(sc), "when the sample is taken apart")
    A, B = A[ia], B[ib]
    ctx.close_to(B[:, 1:19], A[:, 1:19], "peaks of the parts", rtol=1e-7, atol=1e-7 * (1 + np.abs(A[:, 16:19]).max(initial=0)))
    same_scalars(ctx, A, B, "of the parts")
    ctx.nontrivial(len(groups), len(ia))


check("C05", RULE, [("hkl_sets", 140, 4000), ("structure_factor_sets", 90, 2500), ("phase_windows", 80, 2500), ("phase_groups", 230, 4600), ("phase_reuse", 40, 1200)])
check("C06", RULE, [("strain_metric", 130, 4000), ("strain_frames", 80, 2500), ("strain_round_trip", 30, 800), ("strain_symmetry", 40, 1200),
                    ("strain_infeasible", 80, 2000), ("rows_random", 50, 1500)])
check("C07", RULE, [("motion_shapes", 150, 4000), ("motion_laws", 250, 6000)])
check("C08", RULE, [("mesh_history", 70, 2500), ("sample_history", 90, 3000)])
check("C09", RULE, [("covariance_rotation", 60, 2000), ("covariance_translation", 60, 2000), ("image_covariance", 40, 1200), ("motion_split", 60, 2000),
                    ("renumbering", 50, 1500), ("length_scaling", 40, 1500), ("union_of_elements", 50, 1500)])
