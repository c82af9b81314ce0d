"""Oracles: what the returned tables must be, from the plain-number description of the experiment."""
import numpy as np

from . import ref
from .core import arr

COLS = ["grain_index", "phase_number", "h", "k", "l", "structure_factors", "diffraction_times", "G0_x", "G0_y",
        "G0_z", "Gx", "Gy", "Gz", "K_out_x", "K_out_y", "K_out_z", "Source_x", "Source_y", "Source_z",
        "lorentz_factors", "polarization_factors", "volumes", "2theta", "scherrer_fwhm", "peak_index"]
DCOLS = COLS + ["zd", "yd", "incident_angle", "frame", "intensity_factors"]


class State:
    """Lab-frame state of the sample as plain numbers: nodes, orientations, strains, and the experiment."""

    def __init__(self, sc, coord=None, U=None, E=None, B=None):
        self.sc = sc
        self.coord = sc.coord if coord is None else coord
        self.U = sc.U if U is None else U
        self.B = np.array([sc.B(e) for e in range(sc.n)]) if B is None else B
        self.UB = np.einsum("nij,njk->nik", self.U, self.B)
        self.radii, self.centres, self.slack = ref.miniballs(self.coord[np.asarray(sc.enod)])
        self.volumes = np.array([ref.tet_volume(self.coord[s]) for s in sc.enod])

    def moved(self, move, t):
        R = move.R(t)
        return State(self.sc, move.points(self.coord, t), np.einsum("ij,njk->nik", R, self.U), None, self.B)


def table(ctx, pd, cols=COLS):
    P = arr(pd["peaks"])
    ctx.true(P.ndim == 2 and P.shape[1] == len(cols), "columns", f"peaks have shape {P.shape}")
    ctx.true(list(pd["columns"]) == cols, "columns", f"{pd['columns']}")
    bad = np.argwhere(np.isnan(P[:, :25]))
    ctx.true(not len(bad), "NaN", f"NaN in the peaks table: columns {sorted({cols[j] for _, j in bad})} of {len({i for i, _ in bad})} of {len(P)} peaks")
    ctx.saw("peaks", len(P))
    return P


def check_rows(ctx, sc, pd, state=None, move=None, k=None):
    """C01: every row is a true reflection of the element it names."""
    st = state or State(sc)
    mv = move or sc.ref_move()
    P = table(ctx, pd)
    k = sc.k if k is None else k
    K = np.linalg.norm(k)
    ctx.close_to(pd["incident_vector"], k, "incident_vector", rtol=1e-9, atol=1e-9 * K)
    ctx.close_to(pd["wavelength"], sc.wavelength, "wavelength")
    ctx.close_to(pd["rotation_axis"], mv.axis, "rotation_axis", atol=1e-9)
    ctx.close_to(P[:, 24], np.arange(len(P)), "peak_index")
    if not len(P):
        return P
    e = P[:, 0].astype(int)
    ctx.true((P[:, 0] == e).all() and (e >= 0).all() and (e < sc.n).all(), "grain_index", "not an element number")
    ctx.close_to(P[:, 1], sc.emap[e], "phase_number")
    hkl = np.round(P[:, 2:5])
    ctx.true((hkl == P[:, 2:5]).all() and (np.abs(hkl).sum(1) > 0).all(), "hkl", "Miller indices are not integers")
    t = P[:, 6]
    ctx.true(((t >= 0) & (t <= 1)).all(), "time", f"times outside [0,1]: {t.min()}..{t.max()}")
    G0 = np.einsum("nij,nj->ni", st.UB[e], hkl)
    g = np.linalg.norm(G0, axis=1)
    ctx.close_to((P[:, 7:10] - G0) / g[:, None], np.zeros_like(G0), "G0", atol=1e-8)
    G = mv.vectors(G0, t)
    ctx.close_to((P[:, 10:13] - G) / g[:, None], np.zeros_like(G), "G", atol=1e-8)
    ctx.close_to((P[:, 13:16] - P[:, 10:13] - k) / K, np.zeros_like(G), "K_out", atol=1e-9)
    ctx.close_to((np.linalg.norm(P[:, 13:16], axis=1) - K) / K, np.zeros(len(P)), "elastic |k_out|=|k|", atol=1e-8)
    ctx.close_to((G @ k + g * g / 2) / (K * g), np.zeros(len(P)), "Laue equation", atol=1e-8)
    s = np.minimum(g / (2 * K), 1)
    tt = 2 * np.arcsin(s)
    cond = 1e-7 + 1e-9 / np.maximum(np.sin(tt), 1e-9)
    bad = np.abs(P[:, 22] - tt) > np.maximum(cond, 3e-8 / np.maximum(np.sqrt(np.maximum(1 - s, 0)), 1e-4))
    ctx.true(not bad.any(), "2theta obeys Bragg", f"{P[bad, 22][:3]} expected {tt[bad][:3]}")
    src = mv.points(st.centres[e], t)
    scale = 1 + np.abs(src).max() + np.abs(st.coord).max() + np.abs(mv.o).max()
    off = np.abs(P[:, 16:19] - src).max(1)
    bad = off > 1e-8 * scale + st.slack[e]
    ctx.true(not bad.any(), "source point", f"got {P[bad, 16:19][:1]} expected {src[bad][:1]}")
    for j in range(len(sc.cells)):
        m = P[:, 1] == j
        if m.any():
            want = np.ones(m.sum()) if sc.crystals[j] is None else np.abs(sc.crystals[j].F(hkl[m])) ** 2
            ctx.close_to(P[m, 5], want, "|F|^2", rtol=1e-9, atol=1e-10 * (1 + want.max()))
    ctx.nontrivial(len(sc.cells), tuple(int(v) for v in hkl[0]), int(e[0]), round(float(t[0]), 6))
    return P


def check_factors(ctx, sc, P, state=None, axis=None, k=None, pol=None):
    """C04: intensity factors of each row against their closed forms."""
    if not len(P):
        return
    st = state or State(sc)
    k = sc.k if k is None else k
    axis = sc.axis if axis is None else axis
    pol = sc.pol if pol is None else pol
    e = P[:, 0].astype(int)
    ko = P[:, 13:16]
    ku = ref.unit(k)
    kou = ko / np.linalg.norm(ko, axis=1, keepdims=True)
    ctx.close_to(P[:, 21], st.volumes[e], "volumes", rtol=1e-8, atol=1e-300)
    ctx.close_to(P[:, 20], 1 - (kou @ ref.unit(pol)) ** 2, "polarization", atol=1e-9)
    tt = np.arctan2(np.linalg.norm(np.cross(ku, kou), axis=1), kou @ ku)
    near = np.minimum(tt, np.pi - tt)
    ok = np.abs(P[:, 22] - tt) <= 1e-8 + 1e-13 / np.maximum(near, 1e-7)
    ctx.true(ok.all(), "2theta", f"{P[~ok, 22][:3]} expected {tt[~ok][:3]}")
    D = 2e4 * np.cbrt(3 * st.volumes[e] / (4 * np.pi))
    cth = np.cos(tt / 2)
    w = 0.9 * sc.wavelength / (D * np.maximum(cth, 1e-300))
    m = cth > 1e-4
    ctx.close_to(P[m, 23], w[m], "scherrer_fwhm", rtol=1e-7, atol=0)
    perp = ko - np.outer(ko @ ku, ku)
    eta = np.degrees(np.arctan2(np.linalg.norm(np.cross(axis, perp), axis=1), perp @ axis))
    th = np.degrees(tt) / 2
    margin = np.minimum(np.minimum(np.abs(eta - 0.5), np.abs(eta - 179.5)), np.abs(th - 0.5))
    singular = (eta < 0.5) | (eta > 179.5) | (th < 0.5)
    sure = (margin > 1e-5) & (th < 89.99)
    s = sure & singular
    ctx.true(np.isposinf(P[s, 19]).all(), "lorentz infinite within 0.5 degree of its singularities",
             f"{P[s, 19][:3]} at eta {eta[s][:3]} theta {th[s][:3]}")
    s = sure & ~singular
    ctx.close_to(P[s, 19], 1 / (np.sin(tt[s]) * np.sin(np.radians(eta[s]))), "lorentz", rtol=1e-6, atol=0)
    ctx.saw("singular Lorentz factors", int((sure & singular).sum()))
    ctx.saw("finite Lorentz factors", int((sure & ~singular).sum()))


def expected(sc, state=None, move=None, halfspaces=None, bounds=None, k=None, elements=None, bound_slack=1e-9):
    """All reflections the experiment must give: arrays (elem, hkl, t, dt, sure, source)."""
    st = state or State(sc)
    mv = move or sc.ref_move()
    k = sc.k if k is None else k
    K = np.linalg.norm(k)
    H = ref.halfspaces(sc.bverts) if halfspaces is None else halfspaces
    bmin, bmax = bounds or (sc.bmin, sc.bmax)
    hk = []
    for j, (cell, sg) in enumerate(sc.cells):
        sure, maybe = ref.hkls_in(cell, sg, sc.wavelength, bmin, bmax, slack=bound_slack)
        h = np.array(sorted(sure) + sorted(maybe), float).reshape(-1, 3)
        ok = np.array([True] * len(sure) + [False] * len(maybe), bool)
        if sc.crystals[j] is not None and len(h):
            F2 = np.abs(sc.crystals[j].F(h)) ** 2
            ok &= F2 > 1e-6 * (1 + 1e-3) + 1e-9
            keep = F2 > 1e-6 * (1 - 1e-3) - 1e-9
            h, ok = h[keep], ok[keep]
        hk.append((h, ok))
    rows = []
    for e in (range(sc.n) if elements is None else elements):
        h, ok = hk[sc.emap[e]]
        if not len(h):
            continue
        G = h @ st.UB[e].T
        p1, p2, margin, amp = ref.laue_times_many(k, mv.axis, 1.0, G)
        g = np.linalg.norm(G, axis=1)
        rel = amp / (K * g)
        m_abs = margin * rel
        for phi in (p1, p2):
            real = m_abs > -1e-10
            ph = np.where(np.isfinite(phi), phi, np.nan)
            # a root lost just below tangency is still possible: take the tangent point
            tang = real & ~np.isfinite(ph)
            if tang.any():
                kn, Gn = k @ mv.axis, G @ mv.axis
                A = G @ k - kn * Gn
                B = np.cross(mv.axis, G) @ k
                C = kn * Gn + g * g / 2
                base = np.arctan2(-B * np.sign(C), -A * np.sign(C)) % ref.TAU
                ph = np.where(tang, base, ph)
            d = np.sqrt(np.maximum(1 - (1 - margin) ** 2, 0))
            with np.errstate(all="ignore"):
                dphi = np.where(m_abs > 1e-10, 1e-12 / np.maximum(rel * d, 1e-300), 1e-4)
            dphi = np.minimum(dphi + 1e-12, 7.0)
            dt = dphi / mv.angle
            for shift in (0, -ref.TAU, ref.TAU):
                t = (ph + shift) / mv.angle
                with np.errstate(invalid="ignore"):
                    i = np.nonzero(real & (t >= -dt) & (t <= 1 + dt))[0]
                if len(i):
                    rows.append((np.full(len(i), e), h[i], t[i], dt[i], ok[i] & (m_abs[i] > 1e-9) & (t[i] > dt[i]) & (t[i] < 1 - dt[i])))
    if not rows:
        return dict(elem=np.zeros(0, int), hkl=np.zeros((0, 3), int), t=np.zeros(0), dt=np.zeros(0),
                    sure=np.zeros(0, bool), src=np.zeros((0, 3)))
    elem, hkl, t, dt, ok = (np.concatenate([r[i] for r in rows]) for i in range(5))
    src = mv.points(st.centres[elem], np.clip(t, 0, 1))
    speed = mv.angle * np.linalg.norm(st.centres[elem] - mv.o, axis=1) + np.linalg.norm(mv.T)
    slack = st.slack[elem]
    dist = (src @ H[:, :3].T + H[:, 3]).max(1)  # < 0 inside
    tol = 3e-6 * (1 + np.abs(src).sum(1)) + speed * np.minimum(dt, 1) + slack
    sure = ok & (dist < -tol)
    keep = dist < tol
    return dict(elem=elem[keep], hkl=hkl.astype(int)[keep], t=t[keep], dt=dt[keep],
                sure=sure[keep], src=src[keep], dark=int((dist > tol).sum()))


def check_complete(ctx, P, exp, what=""):
    """C02/C03: the table holds exactly the expected reflections, each once."""
    from collections import defaultdict
    want = defaultdict(list)
    for i in range(len(exp["elem"])):
        want[(int(exp["elem"][i]),) + tuple(int(v) for v in exp["hkl"][i])].append(i)
    used = set()
    for r in P:
        key = tuple(int(round(v)) for v in (r[0], r[2], r[3], r[4]))
        best = None
        for i in want.get(key, ()):
            if i not in used:
                d = abs(exp["t"][i] - r[6])
                if d <= max(1e-7, 1e3 * exp["dt"][i]) and (best is None or d < best[0]):
                    best = (d, i)
        if best is None:
            dup = any(abs(exp["t"][i] - r[6]) <= max(1e-7, 1e3 * exp["dt"][i]) for i in want.get(key, ()))
            ctx.fail("reported twice" if dup else "spurious reflection" + what,
                     f"element {key[0]} hkl {key[1:]} at t={r[6]!r}", row=list(r))
        used.add(best[1])
    missed = [i for i in np.nonzero(exp["sure"])[0] if i not in used]
    ctx.saw("expected reflections", int(exp["sure"].sum()))
    ctx.saw("borderline reflections", int((~exp["sure"]).sum()))
    ctx.saw("reflections outside of the beam", exp.get("dark", 0))
    if missed:
        i = missed[0]
        ctx.fail("missed reflection" + what,
                 f"{len(missed)} of {int(exp['sure'].sum())}, first: element {exp['elem'][i]} hkl {exp['hkl'][i]} "
                 f"at t={exp['t'][i]!r}", elem=exp["elem"][i], hkl=exp["hkl"][i], t=exp["t"][i])
    ctx.counts["oracle checks"] += 1


# ---------------------------------------------------------------- detector
def hits(plane, P):
    """Vectorised plane intersection: zd, yd, cos(incident), s."""
    k, src = P[:, 13:16], P[:, 16:19]
    den = k @ plane.normal
    with np.errstate(all="ignore"):
        s = ((plane.c0 - src) @ plane.normal) / den
        x = src + k * s[:, None]
    zd, yd = (x - plane.c0) @ plane.zhat, (x - plane.c0) @ plane.yhat
    cosang = -(k @ plane.normal) / np.linalg.norm(k, axis=1)
    return zd, yd, cosang, s


def check_intersection(ctx, pd, out, plane, flags=(True, True, True), frames=1):
    """C10/C04/C11: positions, kept rows, intensity and frame of the detector table."""
    P = arr(pd["peaks"])
    O = table(ctx, out, DCOLS)
    zd, yd, cosang, s = hits(plane, P)
    scale = plane.ymax + plane.zmax
    with np.errstate(all="ignore"):
        cond = 1e-9 * (np.abs(P[:, 16:19]).max(1, initial=0) + np.abs(plane.c0).max()) / np.maximum(np.abs(cosang), 1e-12)
        dist = np.minimum(np.minimum(zd, plane.zmax - zd), np.minimum(yd, plane.ymax - yd))  # > 0 inside
    tol = 1e-9 * scale + cond
    I = np.ones(len(P))
    for f, c in zip(flags, (5, 19, 20)):  # structure, lorentz, polarization
        if f:
            with np.errstate(invalid="ignore"):
                I = I * P[:, c]
    with np.errstate(invalid="ignore"):
        valid = np.isfinite(I) & (I > 0)
        border_I = np.isfinite(I) & (np.abs(I) < 1e-290)
    front = s > 0
    par = np.abs(cosang) < 1e-9
    sure = valid & front & (dist > tol) & ~par & ~border_I
    nope = (~valid & ~border_I) | (s < -1e-9) | (dist < -tol) | np.isnan(dist)
    nope &= ~par
    idx = O[:, 24].astype(int)
    ctx.true(len(set(idx)) == len(idx), "peak twice on the detector", f"{len(idx)} rows")
    ctx.true((np.diff(idx) > 0).all() if len(idx) > 1 else True, "order of the peaks changed", "")
    got = np.zeros(len(P), bool)
    got[idx] = True
    m = sure & ~got
    ctx.true(not m.any(), "visible peak dropped", f"{m.sum()} of {sure.sum()}: zd,yd={zd[m][:2]},{yd[m][:2]} I={I[m][:2]}")
    m = nope & got
    ctx.true(not m.any(), "peak kept that misses the detector", f"zd,yd={zd[m][:2]},{yd[m][:2]} s={s[m][:2]} I={I[m][:2]}")
    ctx.close_to(O[:, :25], P[idx], "row changed", rtol=0, atol=0)
    ok = ~par[idx]
    at = (1e-9 * scale + cond)[idx]
    for c, w, n in ((25, zd, "zd"), (26, yd, "yd")):
        bad = ok & ~(np.abs(O[:, c] - w[idx]) <= at)
        ctx.true(not bad.any(), n, f"got {O[bad, c][:2]} expected {w[idx][bad][:2]}")
    ang = np.degrees(np.arccos(np.clip(cosang[idx], -1, 1)))
    bad = ~(np.abs(O[:, 27] - ang) <= 1e-5)
    ctx.true(not bad.any(), "incident_angle", f"got {O[bad, 27][:2]} expected {ang[bad][:2]}")
    ctx.close_to(O[:, 29], I[idx], "intensity_factors", rtol=1e-9, atol=0)
    n = max(int(frames), 1)
    f = np.clip(np.ceil(P[idx, 6] * n) - 1, 0, n - 1)
    border = np.abs(P[idx, 6] * n - np.round(P[idx, 6] * n)) < 1e-9
    bad = (O[:, 28] != f) & ~border
    ctx.true(not bad.any(), "frame", f"time {P[idx, 6][bad][:2]} of {n} frames got {O[bad, 28][:2]} expected {f[bad][:2]}")
    alt = np.abs(O[:, 28] - np.clip(P[idx, 6] * n, 0, n)) <= 1 + 1e-6
    ctx.true((alt & (O[:, 28] >= 0) & (O[:, 28] < n)).all(), "frame", "outside of its range")
    ctx.saw("visible peaks", len(O))
    ctx.saw("invisible peaks", len(P) - len(O))
    return O
