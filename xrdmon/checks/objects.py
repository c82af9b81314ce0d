"""C17 persistence, C18 purity, C23 device configuration, C25 refusals."""
import contextlib
import copy
import io
import os
import subprocess
import sys
import threading
import warnings

import numpy as np
import torch

from xrd_simulator.beam import Beam
from xrd_simulator.detector import Detector
from xrd_simulator.mesh import TetraMesh
from xrd_simulator.motion import RigidBodyMotion
from xrd_simulator.phase import Phase
from xrd_simulator.polycrystal import Polycrystal

from .. import gen, imaging_ref as im, oracle, ref
from ..core import Skip, arr, check, family, internal_call, priv, reseed
from .diffraction import RULE, detector_for, scenario
from .imaging import MacroScene, aimed, mixed, nano_fwhm, render, same_image, snapshot, solid_scene, untouched
from .state import check_mesh_geometry, random_move, real_motion

BEAM = ("vertices", "wavelength", "wave_vector", "polarization_vector", "centroid", "halfspaces")
MOTION = ("rotation_axis", "rotation_angle", "translation", "origin")
DETECTOR = ("pixel_size_z", "pixel_size_y", "det_corner_0", "det_corner_1", "det_corner_2", "zdhat", "ydhat", "normal", "zmax",
            "ymax", "pixel_coordinates", "gaussian_sigma", "kernel_threshold", "gaussian_kernel", "lorentz_factor",
            "polarization_factor", "structure_factor")
MESH = ("coord", "enod", "dof", "efaces", "enormals", "ecentroids", "eradius", "espherecentroids", "evolumes", "centroid",
        "number_of_elements")
SAMPLE = ("orientation_lab", "orientation_sample", "strain_lab", "strain_sample", "element_phase_map")
ATTR = {"beam": BEAM, "motion": MOTION, "detector": DETECTOR, "mesh": MESH}


def attributes(obj, kind):
    """The documented attributes as plain copies."""
    if kind == "sample":
        out = {k: arr(getattr(obj, k)) for k in SAMPLE}
        for m in ("mesh_lab", "mesh_sample"):
            out.update({f"{m}.{k}": v for k, v in attributes(getattr(obj, m), "mesh").items()})
        out["phases"] = [(list(map(float, p.unit_cell)), str(p.sgname), p.path_to_cif_file) for p in obj.phases]
        return out
    out = {k: arr(getattr(obj, k)) for k in ATTR[kind]}
    if kind == "detector":
        out["frames"] = [arr(f).tolist() for f in obj.frames]
    return out


def same_attributes(ctx, got, want, what, rtol=0.0, atol=0.0):
    for k, v in want.items():
        if isinstance(v, list):
            ctx.true(got[k] == v, f"{k} {what}", f"{got[k]} was {v}")
        else:
            ctx.close_to(got[k], v, f"{k} {what}", rtol=rtol, atol=atol)


def ordered(P):
    """Rows in an order that does not depend on the order in which reflections were enumerated."""
    P = arr(P)
    return P[np.lexsort((np.round(P[:, 6], 9), P[:, 4], P[:, 3], P[:, 2], P[:, 0]))] if len(P) else P


def same_peaks(ctx, A, B, what, rtol=1e-12):
    A, B = ordered(A), ordered(B)
    ctx.true(A.shape == B.shape, f"number of peaks {what}", f"{A.shape[0]} and {B.shape[0]}")
    if len(A):
        # near tangency of the rotation, where the Lorentz factor is large, rounding is amplified
        X, Y = arr(A)[:, :24], arr(B)[:, :24]
        L = np.nan_to_num(np.maximum(np.abs(X[:, 19]), np.abs(Y[:, 19])), nan=1.0, posinf=1e8)
        more = np.tile(1e-14 * L[:, None], (1, 24))
        more[:, 19] *= L
        with np.errstate(all="ignore"):
            bad = ~((X == Y) | (np.abs(X - Y) <= 1e-12 + (rtol + more) * np.maximum(np.abs(X), np.abs(Y)) + more * (np.arange(24) == 6))
                    | (np.isnan(X) & np.isnan(Y)))
        where = np.argwhere(bad)
        ctx.true(not len(where), f"peaks {what}", f"at {where[:1]} got {X[bad][:2]} expected {Y[bad][:2]}")
    ctx.saw("peak tables compared")


def polycrystal_of(sc, phases):
    from xrd_simulator.polycrystal import Polycrystal
    return Polycrystal(sc.mesh(), sc.U.copy(), sc.E.copy(), phases, sc.emap.copy())


def diffract(sc, sample, beam, motion, **kw):
    with contextlib.redirect_stdout(io.StringIO()):
        return sc.diffract(sample, beam, motion, **kw)


# ------------------------------------------------------------------ C17
STEMS = ("a", "my.sample", "v1.0.2", "with space", "UPPER", "x.pc.backup", "beam.det", ".hidden", "ünïcode", "a.xdmf.b", "12", "x..y",
         "pc", "sample_pc", "xdmf", "det", "x.motionless")


def name_for(ctx, ext, stem=None):
    """(path as given, path of the file that must result)."""
    rng = ctx.rng
    stem = stem or str(rng.choice(STEMS))
    d = ctx.tmpdir()
    if rng.random() < 0.4:
        d = os.path.join(d, str(rng.choice(["sub", "sub.dir", "sub.pc", "dir.motion", "dir.beam", "dir.det"])))
        os.makedirs(d, exist_ok=True)
    full = os.path.join(d, stem)
    given = full + ext if rng.random() < 0.5 else full
    final = given if given.endswith(ext) else given + ext
    if rng.random() < 0.3:
        os.chdir(d)
        given = os.path.basename(given)
    return given, final


def files(root):
    return {os.path.join(d, f) for d, _, fs in os.walk(root) for f in fs}


def store(ctx, obj, ext, **kw):
    """Save under some name; only the named files may appear. Returns the path of the file."""
    given, final = name_for(ctx, ext)
    before = files(ctx.tmpdir())
    if ctx.rng.random() < 0.3:  # something longer is overwritten
        with open(final, "wb") as f:
            f.write(b"\0" * 200000)
    with ctx.quiet():
        obj.save(given, **kw)
    new = files(ctx.tmpdir()) - before
    ctx.true(os.path.isfile(final), "the named file does not exist", f"saved as {given!r}, files {sorted(new)}")
    allowed = {final}
    if ext == ".pc" and kw.get("save_mesh_as_xdmf", True):
        stem = final[:-3]
        ctx.true(os.path.isfile(stem + ".xdmf"), "no mesh file beside the sample", f"saved as {given!r}, files {sorted(new)}")
        allowed |= {stem + ".xdmf", stem + ".h5"}
    if ext == ".xdmf":
        allowed |= {final[:-5] + ".h5"}
    ctx.true(new <= allowed, "other files written", f"saved as {given!r}, files {sorted(new - allowed)}")
    ctx.saw(f"saved {ext}")
    # the name as given to load must end in the extension; a wrong one is refused
    return (given if given.endswith(ext) else given + ext)


WRONG = {".beam": ("x.det", "x.beam.pc", "x", "x.beam ", "beam"), ".det": ("x.beam", "x.det.txt", "x", "det"),
         ".motion": ("x.pc", "x.motions", "motion"), ".pc": ("x.xdmf", "x.pc.gz", "x.PC", "pc")}


def wrong_names(ctx, cls, ext, path):
    for bad in (str(ctx.rng.choice(WRONG[ext])), path[:-len(ext)], path + ".bak"):
        if not bad.endswith(ext):
            ctx.raises(ValueError, lambda: cls.load(bad), "wrong extension", repr(bad))


def poked(rng, verts):
    """Another convex set of vertices near the given ones."""
    R = ref.rotmat(ref.unit(rng.normal(size=3)), rng.uniform(0, 0.4))
    c = verts.mean(0)
    return (verts - c) @ R.T * rng.uniform(0.6, 1.4) + c + rng.normal(size=3) * np.ptp(verts, axis=0).max() * 0.05


@family
def persist_beam(ctx):
    rng = ctx.rng
    sc = scenario(ctx, n=int(rng.integers(1, 4)), nhkl=60)
    beam = sc.beam()
    verts = sc.bverts
    for _ in range(int(rng.integers(0, 4))):
        verts = poked(rng, verts)
        beam.set_beam_vertices(torch.tensor(verts))
    sample, motion = sc.sample(), sc.motion()
    if rng.random() < 0.5:
        diffract(sc, sample, beam, motion)
    want = attributes(beam, "beam")
    path = store(ctx, beam, ".beam")
    same_attributes(ctx, attributes(beam, "beam"), want, "of the saved beam changed")
    back = Beam.load(path)
    same_attributes(ctx, attributes(back, "beam"), want, "of the loaded beam", rtol=1e-12, atol=1e-12)
    ctx.true(type(back) is Beam, "type", f"{type(back)}")
    pd, pb = diffract(sc, sample, beam, motion), diffract(sc, sample, back, motion)
    same_peaks(ctx, pb["peaks"], pd["peaks"], "with the loaded beam")
    ctx.close_to(pb["wavelength"], pd["wavelength"], "wavelength")
    ctx.close_to(pb["incident_vector"], pd["incident_vector"], "incident vector", rtol=1e-12)
    c = verts.mean(0)
    X = c + (verts[rng.integers(0, len(verts), 200)] - c) * rng.uniform(0, 1.6, (200, 1))
    with internal_call():
        ctx.close_to(arr(priv(back, "_contains")(X.T)), arr(priv(beam, "_contains")(X.T)), "points in the loaded beam")
    # it is a full beam: it can be reshaped, and saved again
    verts2 = poked(rng, verts)
    beam.set_beam_vertices(torch.tensor(verts2))
    same_attributes(ctx, attributes(back, "beam"), want, "of the loaded beam follows the original", rtol=1e-12, atol=1e-12)
    back.set_beam_vertices(torch.tensor(verts2))
    same_attributes(ctx, attributes(back, "beam"), attributes(beam, "beam"), "after reshaping both", rtol=1e-12, atol=1e-12)
    again = Beam.load(store(ctx, back, ".beam"))
    same_attributes(ctx, attributes(again, "beam"), attributes(back, "beam"), "of the twice loaded beam", rtol=1e-12, atol=1e-12)
    wrong_names(ctx, Beam, ".beam", path)
    ctx.nontrivial(len(verts), len(pd["peaks"]))


@family
def persist_motion(ctx):
    rng = ctx.rng
    m = random_move(rng, 10 ** rng.uniform(-2, 3))
    mo = real_motion(rng, m)
    if rng.random() < 0.3:
        mo, m = mo.inverse(), ref.Move(-m.axis, m.angle, -m.T, m.o)
    want = attributes(mo, "motion")
    path = store(ctx, mo, ".motion")
    same_attributes(ctx, attributes(mo, "motion"), want, "of the saved motion changed")
    back = RigidBodyMotion.load(path)
    same_attributes(ctx, attributes(back, "motion"), want, "of the loaded motion")
    X = rng.normal(size=(int(rng.integers(1, 9)), 3)) * 10
    for t in (0.0, 1.0, float(rng.uniform())):
        ctx.close_to(back(X, t), m.points(X, t), "points moved by the loaded motion", rtol=1e-9, atol=1e-8 * (1 + np.abs(m.T).max() + np.abs(m.o).max()))
        ctx.close_to(back.rotate(X, t), m.vectors(X, t), "vectors rotated by the loaded motion", rtol=1e-9, atol=1e-8)
    ts = rng.uniform(0, 1, len(X))
    ctx.close_to(back(X, ts), mo(X, ts), "one time per point", rtol=1e-12)
    ctx.close_to(back.inverse()(X, 0.7), mo.inverse()(X, 0.7), "inverse of the loaded motion", rtol=1e-12)
    again = RigidBodyMotion.load(store(ctx, back, ".motion"))
    same_attributes(ctx, attributes(again, "motion"), want, "of the twice loaded motion")
    wrong_names(ctx, RigidBodyMotion, ".motion", path)
    ctx.nontrivial(round(m.angle, 9))


@family
def persist_detector(ctx):
    rng = ctx.rng
    flags = tuple(bool(b) for b in rng.integers(0, 2, 3))
    if rng.random() < 0.5:
        sc, s, pd, lim = mixed(rng)
    else:
        sc = solid_scene(rng, n=2, flags=flags)
        s, pd = sc.s, sc.pd
    det = s.det
    if rng.random() < 0.5:
        render(ctx, det, pd, 2, "micro", verbose=bool(rng.integers(0, 2)))
    if rng.random() < 0.3:
        det.lorentz_factor = not det.lorentz_factor
        det.frames.append(np.ones((2, 2)))
    want = attributes(det, "detector")
    path = store(ctx, det, ".det")
    same_attributes(ctx, attributes(det, "detector"), want, "of the saved detector changed")
    back = Detector.load(path)
    same_attributes(ctx, attributes(back, "detector"), want, "of the loaded detector")
    ctx.true(len(back.frames) == len(det.frames), "frames of the loaded detector", f"{len(back.frames)} of {len(det.frames)}")
    n = int(rng.choice([1, 3]))
    for method in ("micro", "nano", "macro", "auto"):
        A, ta = render(ctx, det, pd, n, method)
        B, tb = render(ctx, back, pd, n, method)
        ctx.close_to(tb["peaks"], ta["peaks"], "hits on the loaded detector", rtol=0, atol=0)
        same_image(ctx, B, A, f"{method} image of the loaded detector", rtol=1e-12, extra=1e-13 * arr(A).max(initial=0))
        ctx.saw("images compared")
    again = Detector.load(store(ctx, back, ".det"))
    same_attributes(ctx, attributes(again, "detector"), want, "of the twice loaded detector")
    wrong_names(ctx, Detector, ".det", path)
    ctx.sample(**s.summary())
    ctx.nontrivial(s.shape, round(float(arr(A).sum()), 9))


def read_cells(path):
    import meshio
    with contextlib.redirect_stdout(io.StringIO()):
        return meshio.read(path)


@family
def persist_mesh(ctx):
    rng = ctx.rng
    size = 10 ** rng.uniform(-1, 3)
    if rng.random() < 0.5:
        coord, enod = gen.random_tets(rng, int(rng.integers(1, 8)), size * 2, size)
    else:
        coord, enod = gen.delaunay_tets(rng, int(rng.integers(6, 20)), size)
    mesh = TetraMesh.generate_mesh_from_vertices(coord.copy(), enod.copy())
    x = coord
    for _ in range(int(rng.integers(0, 4))):
        m = random_move(rng, size)
        k = rng.integers(0, 3)
        if k == 0:
            mesh.update(real_motion(rng, m), 0.4)
            x = m.points(x, 0.4)
        elif k == 1:
            mesh.rotate(m.axis, m.angle)
            x = x @ m.R(1.0).T
        else:
            mesh.translate(m.T)
            x = x + m.T
    scale = np.abs(x).max() + size
    want = attributes(mesh, "mesh")
    n = len(enod)
    data, orig = None, {}
    if rng.random() < 0.7:
        orig = {"a": rng.normal(size=n), "b b": torch.tensor(rng.normal(size=n)), "c": list(rng.normal(size=n)),
                "ints": rng.integers(0, 9, n)}
        data = dict(orig)
    path = store(ctx, mesh, ".xdmf", **({"element_data": data} if data is not None else {}))
    same_attributes(ctx, attributes(mesh, "mesh"), want, "of the saved mesh changed")
    if data is not None:
        ctx.true(set(data) == set(orig) and all(data[k] is orig[k] for k in orig), "element data changed by saving", "")
    raw = read_cells(path)
    ctx.close_to(raw.points, x, "node coordinates in the file", rtol=1e-12, atol=1e-9 * scale)
    ctx.true((np.asarray(raw.cells_dict["tetra"]) == enod).all(), "elements in the file", "")
    for k, v in orig.items():
        ctx.true(k in raw.cell_data, "element data missing in the file", k)
        ctx.close_to(np.ravel(raw.cell_data[k]), np.asarray(arr(v)), f"element data in the file", rtol=1e-12, atol=0)
        ctx.saw("element data fields compared")
    back = TetraMesh.load(path)
    check_mesh_geometry(ctx, back, x, enod, scale, " (loaded)")
    m = random_move(rng, size)
    back.update(real_motion(rng, m), 1.0)
    back.translate(m.T)
    check_mesh_geometry(ctx, back, m.points(x, 1.0) + m.T, enod, scale * 3 + np.abs(m.T).max() + np.abs(m.o).max(), " (loaded and moved)")
    ctx.nontrivial(n, round(float(np.abs(x).sum()), 6))


def bunge(phi1, Phi, phi2):
    z = np.array([0, 0, 1.0])
    return ref.rotmat(z, phi1) @ ref.rotmat(np.array([1.0, 0, 0]), Phi) @ ref.rotmat(z, phi2)


SPECIAL = [np.eye(3), ref.rotmat([0, 0, 1.0], 1.1), ref.rotmat([0, 0, 1.0], 4.0), ref.rotmat([1.0, 0, 0], np.pi), ref.rotmat([1.0, 0, 0], 0.3),
           ref.rotmat([0, 1.0, 0], 2.0), ref.rotmat([0, 0, 1.0], np.pi)]

XDMF = {"Strain Tensor Component xx": (0, 0), "Strain Tensor Component yy": (1, 1), "Strain Tensor Component zz": (2, 2),
        "Strain Tensor Component xy": (0, 1), "Strain Tensor Component xz": (0, 2), "Strain Tensor Component yz": (1, 2)}


def judge_xdmf(ctx, path, sc):
    """The visualisation file holds the sample-frame mesh, strain, orientation and phase of every element."""
    raw = read_cells(path)
    ctx.close_to(raw.points, sc.coord, "nodes in the mesh file", rtol=1e-12, atol=1e-12)
    ctx.true((np.asarray(raw.cells_dict["tetra"]) == sc.enod).all(), "elements in the mesh file", "")
    D = {k: np.ravel(v) for k, v in raw.cell_data.items()}
    for k, (i, j) in XDMF.items():
        ctx.true(k in D, "field missing in the mesh file", k)
        ctx.close_to(D[k], sc.E[:, i, j], f"{k} in the mesh file", rtol=1e-12, atol=1e-15)
    names = ("Bunge Euler Angle phi_1 [degrees]", "Bunge Euler Angle Phi [degrees]", "Bunge Euler Angle phi_2 [degrees]")
    ctx.true(all(k in D and len(D[k]) == sc.n for k in names), "Euler angles missing in the mesh file", f"{sorted(D)}")
    for e in range(sc.n):
        R = bunge(*(np.radians(D[k][e]) for k in names))
        ctx.close_to(R, sc.U[e], "Euler angles in the mesh file", atol=1e-5)
    ctx.close_to(D["Material Phase Index"], sc.emap, "phase index in the mesh file")
    k = "Misorientation from mean orientation [degrees]"
    ctx.true(k in D and len(D[k]) == sc.n, "misorientation missing in the mesh file", "")
    from scipy.spatial.transform import Rotation
    q = Rotation.from_matrix(sc.U).as_quat()
    w, v = np.linalg.eigh(q.T @ q)
    if w[-1] - w[-2] > 1e-3 * w[-1]:
        want = np.degrees(2 * np.arccos(np.clip(np.abs(q @ v[:, -1]), 0, 1)))
        ctx.close_to(D[k], want, "misorientation in the mesh file", atol=2e-4)
    ctx.saw("mesh files read back")


@family
def persist_sample(ctx):
    rng = ctx.rng
    sc = scenario(ctx, n=int(rng.integers(1, 7)), nhkl=60, beam="wide", cif=ctx.tmpdir() if rng.random() < 0.25 else None)
    for e in range(sc.n):
        if rng.random() < 0.2:
            sc.U[e] = SPECIAL[rng.integers(len(SPECIAL))]
    sample, beam, motion = sc.sample(), sc.beam(), sc.motion()
    history = []
    for _ in range(int(rng.integers(0, 4))):
        if rng.random() < 0.6:
            m = random_move(rng, sc.size)
            sample.transform(real_motion(rng, m), float(rng.uniform()))
            history.append("transform")
        else:
            diffract(sc, sample, beam, motion)
            history.append("diffract")
    want = attributes(sample, "sample")
    kw = {} if rng.random() < 0.6 else {"save_mesh_as_xdmf": bool(rng.integers(0, 2))}
    path = store(ctx, sample, ".pc", **kw)
    same_attributes(ctx, attributes(sample, "sample"), want, "of the saved sample changed")
    if kw.get("save_mesh_as_xdmf", True):
        judge_xdmf(ctx, path[:-3] + ".xdmf", sc)
    back = Polycrystal.load(path)
    same_attributes(ctx, attributes(back, "sample"), want, "of the loaded sample")
    far = np.abs(arr(sample.mesh_lab.coord)).max() + np.linalg.norm(sc.origin) + np.linalg.norm(sc.trans) + 3 * sc.size
    beam.set_beam_vertices(torch.tensor(np.array([[a, b, c] for a in (-1, 1) for b in (-1, 1) for c in (-1, 1)], float) * far * 6))
    pd, pb = diffract(sc, sample, beam, motion), diffract(sc, back, beam, motion)
    same_peaks(ctx, pb["peaks"], pd["peaks"], "of the loaded sample")
    # rendering from the loaded sample uses its mesh
    P = oracle.table(ctx, pd)
    if len(P):
        det, _ = detector_for(ctx, sc, P, npix=24)
        A = arr(render(ctx, det, pd, 1, "micro")[0])
        B = arr(render(ctx, det, pb, 1, "micro")[0])
        same_image(ctx, B, A, "image of the loaded sample", rtol=1e-8, extra=1e-9 * A.max(initial=0))
    # it continues from the same state
    m, t = random_move(rng, sc.size), float(rng.uniform())
    mo = real_motion(rng, m)
    sample.transform(mo, t)
    same_attributes(ctx, attributes(back, "sample"), want, "of the loaded sample follows the original")
    back.transform(mo, t)
    same_attributes(ctx, attributes(back, "sample"), attributes(sample, "sample"), "after moving both", rtol=1e-12, atol=1e-12)
    same_peaks(ctx, diffract(sc, back, beam, motion)["peaks"], diffract(sc, sample, beam, motion)["peaks"], "after moving both")
    again = Polycrystal.load(store(ctx, back, ".pc", save_mesh_as_xdmf=False))
    same_attributes(ctx, attributes(again, "sample"), attributes(back, "sample"), "of the twice loaded sample")
    wrong_names(ctx, Polycrystal, ".pc", path)
    ctx.sample(history=history)
    ctx.nontrivial(tuple(history), len(pd["peaks"]), sc.n)


CHILD = """
import sys, os, io, contextlib, numpy as np
sys.path.insert(0, sys.argv[1]); os.chdir(sys.argv[2])
from xrd_simulator.beam import Beam
from xrd_simulator.detector import Detector
from xrd_simulator.motion import RigidBodyMotion
from xrd_simulator.polycrystal import Polycrystal
b, d, m, s = Beam.load("x.beam"), Detector.load("x.det"), RigidBodyMotion.load("x.motion"), Polycrystal.load("x.pc")
with contextlib.redirect_stdout(io.StringIO()):
    pd = s.diffract(b, m, min_bragg_angle=float(sys.argv[3]), max_bragg_angle=float(sys.argv[4]), verbose=False)
    fr, out = d.render(pd, method="micro", verbose=False)
np.savez("result.npz", peaks=pd["peaks"].cpu().numpy(), frame=fr.cpu().numpy())
"""


@family
def persist_new_process(ctx):
    """Everything loaded by another process that never saw the originals."""
    rng = ctx.rng
    sc = scenario(ctx, n=3, nhkl=80, beam="wide")
    sample, beam, motion = sc.sample(), sc.beam(), sc.motion()
    sample.transform(motion, 0.5)
    pd = diffract(sc, sample, beam, motion)
    det, _ = detector_for(ctx, sc, oracle.table(ctx, pd), npix=32)
    A = arr(render(ctx, det, pd, 1, "micro")[0])
    d = ctx.tmpdir()
    for o, n in ((sample, "x.pc"), (beam, "x.beam"), (motion, "x.motion"), (det, "x")):
        o.save(os.path.join(d, n))
    root = os.path.dirname(os.path.dirname(os.path.abspath(sys.modules["xrd_simulator"].__file__)))
    r = subprocess.run([sys.executable, "-B", "-c", CHILD, root, d, repr(sc.bmin), repr(sc.bmax)], capture_output=True, text=True, timeout=100)
    ctx.true(r.returncode == 0, "the saved objects do not work in a new process", r.stderr[-400:])
    with np.load(os.path.join(d, "result.npz")) as z:
        same_peaks(ctx, z["peaks"], pd["peaks"], "in a new process")
        same_image(ctx, z["frame"], A, "image in a new process", rtol=1e-8, extra=1e-9 * A.max(initial=0))
    ctx.saw("processes")
    ctx.nontrivial(len(pd["peaks"]))


# ------------------------------------------------------------------ C18
def scribble(rng, *arrays):
    """The caller reuses its arrays."""
    for a in arrays:
        if isinstance(a, list):
            a[:] = [v * 1.7 + 3 if isinstance(v, float) else v for v in a]
        elif a.dtype in (torch.int64, torch.int32, np.dtype(int)):
            a[:] = 0
        else:
            a[:] = a * 1.7 + 3


@family
def purity_calls(ctx):
    """No call changes the objects it is given, and repeating it gives the same result."""
    rng = ctx.rng
    sc = scenario(ctx, n=int(rng.integers(1, 5)), nhkl=60, cif=ctx.tmpdir() if rng.random() < 0.2 else None)
    sample, beam, motion = sc.sample(), sc.beam(), sc.motion()
    P0 = None
    pd = diffract(sc, sample, beam, motion)
    det, _ = detector_for(ctx, sc, oracle.table(ctx, pd), npix=(20, 28))
    obj = dict(sample=sample, beam=beam, motion=motion, detector=det)
    want = {k: attributes(o, k) for k, o in obj.items()}
    snap = snapshot(pd)
    first = {}
    ops = ["diffract", "diffract with detector", "intersect", "micro", "nano", "auto"]
    for op in list(ops) + [str(v) for v in rng.choice(ops, 4)]:
        n = int(rng.choice([1, 1, 4])) if op in first else 1
        try:
            if op.startswith("diffract"):
                res = diffract(sc, sample, beam, motion, **({"detector": det} if "detector" in op else {}))["peaks"]
            elif op == "intersect":
                res = det.peaks_detector_intersection(pd, frames_to_render=n, verbose=False)["peaks"]
                n = 1
            else:
                res = render(ctx, det, pd, n, op)[0]
        except AssertionError:
            if op != "diffract with detector":
                raise
            res = torch.zeros((0, 25))  # the detector subtends less than the lower bound
        for k, o in obj.items():
            same_attributes(ctx, attributes(o, k), want[k], f"of the {k} changed by {op}")
        untouched(ctx, pd, snap)
        res = arr(res)
        if op.startswith("diffract"):
            if op in first:
                same_peaks(ctx, res, first[op], f"when {op} is repeated")
        elif op == "intersect":
            if op in first:
                ctx.close_to(res[:, [i for i in range(30) if i != 28]], first[op][:, [i for i in range(30) if i != 28]], "repeated intersection", rtol=0, atol=0)
        elif op in first:
            same_image(ctx, res.sum(0), first[op].sum(0), f"repeated {op}", rtol=1e-9, extra=1e-10 * first[op].max(initial=0))
        first.setdefault(op, res)
        ctx.saw("calls observed")
    ctx.nontrivial(len(pd["peaks"]), sc.n)


@family
def purity_macro(ctx):
    """Macro and automatic rendering: inputs untouched, repeatable, in any order."""
    rng = ctx.rng
    sc, s, pd, lim = mixed(rng)
    w = sc.w
    P = arr(pd["peaks"])
    obj = dict(mesh=w.mesh, beam=w.beam, motion=w.motion, detector=s.det)
    want = {k: attributes(o, k) for k, o in obj.items()}
    snap = snapshot(pd)
    first = {}
    for method in [str(m) for m in rng.permutation(["macro", "auto", "micro", "nano"])] * 2:
        q = subset_big(pd, P, lim) if method == "macro" else pd
        F = arr(render(ctx, s.det, q, 2, method)[0])
        for k, o in obj.items():
            same_attributes(ctx, attributes(o, k), want[k], f"of the {k} changed by {method}")
        untouched(ctx, pd, snap)
        if method in first:
            same_image(ctx, F, first[method], f"repeated {method}", rtol=1e-9, extra=1e-11 * F.max(initial=0))
        first[method] = F
        ctx.saw("calls observed")
    ctx.sample(**s.summary())
    ctx.nontrivial(len(P), s.shape)


def subset_big(pd, P, lim):
    out = dict(pd)
    out["peaks"] = pd["peaks"][torch.as_tensor(P[:, 21] >= lim)]
    return out


def process_state():
    """Settings of the process that belong to the user."""
    import locale
    return {"default precision of torch": torch.get_default_dtype(), "default device of torch": default_device(),
            "gradients": torch.is_grad_enabled(), "threads of torch": torch.get_num_threads(),
            "deterministic algorithms": torch.are_deterministic_algorithms_enabled(),
            "floating point warnings": tuple(sorted(np.geterr().items())), "print options": repr(np.get_printoptions()),
            "working directory": os.getcwd(), "environment": hash(frozenset(os.environ.items())), "recursion limit": sys.getrecursionlimit(),
            "standard output": id(sys.stdout), "standard error": id(sys.stderr), "locale": locale.setlocale(locale.LC_ALL),
            "threads": threading.active_count()}


@family
def purity_process(ctx):
    """Simulations leave the settings of the process alone, and do not reset its random number generators."""
    import random
    rng = ctx.rng
    small = MacroScene(rng, px=float(rng.uniform(0.3, 3)), peaks=int(rng.integers(2, 6)))
    sc, s, pd, lim = mixed(rng)
    e = scenario(ctx, n=2, nhkl=40)
    objs = (e.sample(), e.beam(), e.motion())
    P = arr(pd["peaks"])
    path = os.path.join(ctx.tmpdir(), "x")

    def saved():
        objs[1].save(path)
        objs[2].save(path)
        Beam.load(path + ".beam")

    ops = {"diffract": lambda: diffract(e, *objs), "transform": lambda: objs[0].transform(objs[2], 0.1),
           "construct": lambda: (e.sample(), e.beam(), e.motion()), "save and load": saved,
           "macro of small grains": lambda: small.s.det.render(small.pd, method="macro", verbose=False)}
    for m in ("micro", "nano", "auto", "macro"):
        ops[m] = lambda m=m: s.det.render(subset_big(pd, P, lim) if m == "macro" else pd, frames_to_render=2, method=m, verbose=False)
    for op in [str(v) for v in rng.permutation(list(ops))]:
        before = process_state()
        drawn = []
        for seed in (1, 2):
            random.seed(seed)
            np.random.seed(seed)
            torch.manual_seed(seed)
            ops[op]()
            drawn.append((random.random(), np.random.random(), float(torch.rand(1))))
        after = process_state()
        for k, v in before.items():
            ctx.true(after[k] == v, f"{k} changed", f"by {op}: {v!r} became {after[k]!r}")
        for name, a, b in zip(("python", "numpy", "torch"), *drawn):
            ctx.true(a != b, f"the random numbers of {name} are reset", f"by {op}")
        ctx.saw("calls observed")
    ctx.nontrivial(len(P), small.s.shape)


@family
def purity_interleaved(ctx):
    """Two experiments, sharing phases, beams, motions or detectors, run in any order."""
    rng = ctx.rng
    a = scenario(ctx, n=int(rng.integers(1, 4)), nhkl=60, beam="wide")
    b = gen.Scenario(rng, n=int(rng.integers(1, 4)), nhkl=60, beam="wide")
    A = [a.sample(), a.beam(), a.motion()]
    B = [b.sample(), b.beam(), b.motion()]
    shared = str(rng.choice(["nothing", "phases", "beam", "motion", "sample"]))
    if shared == "phases":
        ph = a.phases()
        emap = rng.integers(0, len(ph), b.n)
        B[0] = Polycrystal(b.mesh(), b.U.copy(), b.E.copy(), ph, emap)
        A[0] = Polycrystal(a.mesh(), a.U.copy(), a.E.copy(), ph, a.emap.copy())
    elif shared == "beam":
        B[1] = A[1]
    elif shared == "motion":
        B[2] = A[2]
    elif shared == "sample":
        B[0] = A[0]
    # no more reflections than the crystals in use were given
    lam, src = (a.wavelength if shared == "beam" else b.wavelength), (a if shared in ("phases", "sample") else b)
    top = lam * np.sin(src.bmax) / src.wavelength
    if top < np.sin(b.bmax):
        b.bmin, b.bmax = b.bmin * float(np.arcsin(top)) / b.bmax, float(np.arcsin(top))
    runs = [(a, A), (b, B)]
    first = {}
    for i in [0, 1] + list(rng.integers(0, 2, 4)):
        sc, objs = runs[i]
        lo = sc.bmin
        P = diffract(sc, *objs)["peaks"]
        if i in first:
            same_peaks(ctx, P, first[i], f"depend on what was simulated in between (sharing {shared})")
        first.setdefault(i, P.clone())
        if rng.random() < 0.3:  # another range of angles in between
            with contextlib.redirect_stdout(io.StringIO()):
                objs[0].diffract(objs[1], objs[2], min_bragg_angle=lo, max_bragg_angle=lo + (sc.bmax - lo) * 0.5, verbose=False)
        ctx.saw("runs")
    ctx.sample(shared=shared)
    ctx.nontrivial(shared, len(first[0]), len(first[1]))


@family
def purity_copies(ctx):
    """The caller's arrays are changed after the objects were made, and results after they were returned."""
    rng = ctx.rng
    sc = scenario(ctx, n=int(rng.integers(1, 5)), nhkl=60, beam="wide")
    kind = torch.tensor if rng.random() < 0.5 else (lambda v: np.array(v))
    coord, enod = sc.coord.copy(), sc.enod.copy()
    U, E, emap = kind(sc.U), kind(sc.E), kind(sc.emap)
    cells = [list(c) for c, _ in sc.cells]
    phases = [Phase(c, sg) for c, (_, sg) in zip(cells, sc.cells)]
    verts, direc, pol = kind(sc.bverts), kind(sc.direction * 2.0), kind(sc.pol)
    axis, trans, orig = kind(sc.axis), kind(sc.trans), kind(sc.origin)
    mesh = TetraMesh.generate_mesh_from_vertices(coord, enod)
    sample = Polycrystal(mesh, U, E, phases, emap)
    beam = Beam(verts, direc, sc.wavelength, pol)
    motion = RigidBodyMotion(axis, sc.angle, trans, orig)
    st = oracle.State(sc)
    pd0 = diffract(sc, sample, beam, motion)
    oracle.check_complete(ctx, oracle.table(ctx, pd0), oracle.expected(sc, st))
    want = {k: attributes(o, k) for k, o in dict(sample=sample, beam=beam, motion=motion).items()}
    scribble(rng, coord, U, E, emap, verts, direc, pol, axis, trans, orig, *cells)
    enod[:] = 0
    phases.append(phases.pop(0))
    mesh.translate(np.array([1.0, 2, 3]) * sc.size)
    for k, o in dict(sample=sample, beam=beam, motion=motion).items():
        got = attributes(o, k)
        same_attributes(ctx, got, want[k], f"of the {k} follows the caller's arrays")
    pd1 = diffract(sc, sample, beam, motion)
    same_peaks(ctx, pd1["peaks"], pd0["peaks"], "after the caller changed its arrays")
    # detector
    P = oracle.table(ctx, pd0)
    c = gen.random_detector(rng, P[rng.integers(len(P)), 13:16] if len(P) else sc.direction, sc.size * 300, sc.size * 100, 16)
    corners = [kind(v) for v in c]
    det = Detector(*corners, n_pixels=16)
    wd = attributes(det, "detector")
    I0 = arr(render(ctx, det, pd0, 1, "micro")[0])
    scribble(rng, *corners)
    same_attributes(ctx, attributes(det, "detector"), wd, "of the detector follows the caller's arrays")
    # results: scribbling over them changes neither the objects nor later results
    before = ordered(pd1["peaks"]).copy()
    fr, out = render(ctx, det, pd0, 1, "micro")
    keep = pd0["peaks"].clone()
    fr[:] = -1
    out["peaks"][:] = -1
    ctx.close_to(pd0["peaks"], keep, "the given table shares memory with the returned one", rtol=0, atol=0)
    same_image(ctx, render(ctx, det, pd0, 1, "micro")[0], I0, "image after the caller wrote into the last one", rtol=1e-9)
    for v in (pd1["peaks"], pd1["incident_vector"], pd1["rotation_axis"]):
        if rng.random() < 0.5 or v is pd1["peaks"]:
            v2 = v
            if v is pd1["peaks"]:
                v2[:] = -1
    same_peaks(ctx, diffract(sc, sample, beam, motion)["peaks"], before, "after the caller wrote into the last result")
    ctx.nontrivial(kind is torch.tensor, len(P))


@family
def purity_snapshot(ctx):
    """Peaks keep the state of the moment of diffraction: later moves and changes do not change their image."""
    rng = ctx.rng
    w = im.World(rng, n=int(rng.integers(1, 4)), size=float(10 ** rng.uniform(-0.5, 2)), angle=0.3)
    cell = [4.0, 4.0, 4.0, 90.0, 90.0, 90.0]
    sample = Polycrystal(w.mesh, np.array([ref.random_rotation(rng) for _ in range(w.n)]), np.zeros((3, 3)), Phase(cell, "Pm-3m"))
    b = float(np.arcsin(w.wavelength / 2 / 4.0 * 2.5))
    with ctx.quiet():
        pd = sample.diffract(w.beam, w.motion, 0.0, b, verbose=False)
    P = oracle.table(ctx, pd)
    if not len(P):
        raise Skip("no reflection")
    D = w.size * 60
    half = D * np.tan(2 * b) * 1.1
    npix = int(np.ceil(2 * half / (w.size * rng.uniform(0.12, 0.3))))
    npix = min(npix, 500)
    det = Detector(np.array([D, -half, -half]), np.array([D, half, -half]), np.array([D, -half, half]), n_pixels=npix)
    A = arr(render(ctx, det, pd, 2, "macro")[0])
    names = ("sample moved", "mesh moved", "beam replaced", "motion changed", "sample moved and diffracted")
    what = str(rng.choice(names))
    if what.startswith("sample"):
        sample.transform(w.motion, 1.0)
        if rng.random() < 0.5:
            sample.mesh_lab.translate(np.ones(3) * w.size)
        if "diffracted" in what:
            with ctx.quiet():
                sample.diffract(w.beam, w.motion, 0.0, b, verbose=False)
    elif what.startswith("mesh"):
        kept = attributes(pd["mesh_lab"], "mesh")
        sample.mesh_lab.translate(rng.normal(size=3) * w.size)
        if rng.random() < 0.5:
            sample.mesh_lab.rotate(torch.tensor(ref.unit(rng.normal(size=3))), float(rng.uniform(0.1, 2)))
        same_attributes(ctx, attributes(pd["mesh_lab"], "mesh"), kept, "of the mesh of the old peaks")
    elif what.startswith("beam"):
        w.beam.set_beam_vertices(torch.tensor(w.bverts * 0.3 + w.size))
    else:
        w.motion.translation += w.size
        w.motion.origin -= w.size
    B = arr(render(ctx, det, pd, 2, "macro")[0])
    same_image(ctx, B, A, f"old peaks changed after: {what}", rtol=1e-9, extra=1e-11 * A.max())
    ctx.saw(what)
    ctx.sample(change=what, peaks=len(P), pixels=npix)
    ctx.nontrivial(what, len(P), round(float(A.sum()), 6))


@family
def purity_threads(ctx):
    """Separate experiments simulated by concurrent threads give what they give alone."""
    rng = ctx.rng
    jobs = []
    for _ in range(4):
        sc = gen.Scenario(rng, n=2, nhkl=60, beam="wide")
        objs = (sc.sample(), sc.beam(), sc.motion())
        jobs.append((sc, objs))
    want, dets = [], []
    for sc, objs in jobs:
        with ctx.quiet():
            pd = sc.diffract(*objs)
        det, _ = detector_for(ctx, sc, oracle.table(ctx, pd), npix=24)
        m = str(rng.choice(["micro", "nano", "macro", "auto"]))
        A, B = arr(render(ctx, det, pd, 2, m)[0]), arr(render(ctx, det, pd, 2, m, seed=8)[0])
        if not np.allclose(A, B, rtol=1e-9, atol=1e-10 * A.max(initial=0)):  # (drawn at random)
            m = "micro"
            A = arr(render(ctx, det, pd, 2, m)[0])
        want.append((pd["peaks"].clone(), A))
        dets.append((det, m))
        ctx.saw("by " + m)
    got, errors = {}, []
    gate = threading.Barrier(len(jobs))

    def work(i):
        try:
            sc, objs = jobs[i]
            gate.wait(30)
            for rep in range(3):
                pd = sc.diffract(*objs)
                fr, _ = dets[i][0].render(pd, frames_to_render=2, method=dets[i][1], verbose=False)
                got[i, rep] = (pd["peaks"].clone(), arr(fr))
        except Exception as e:  # noqa: BLE001
            errors.append(e)

    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    try:
        ts = [threading.Thread(target=work, args=(i,)) for i in range(len(jobs))]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(old)
    if errors:
        raise errors[0]
    for (i, rep), (P, F) in got.items():
        same_peaks(ctx, P, want[i][0], "depend on concurrent simulations")
        same_image(ctx, F, want[i][1], "images depend on concurrent simulations", rtol=1e-9, extra=1e-10 * want[i][1].max(initial=0))
        ctx.saw("concurrent simulations")
    ctx.nontrivial(tuple(len(w[0]) for w in want))


@family
def purity_shared(ctx):
    """Threads that use one motion, beam and detector at the same time get what each gets alone."""
    rng = ctx.rng
    m = random_move(rng)
    motion = real_motion(rng, m)
    s = im.Setup(rng, nz=24, ny=24)
    jobs = []
    one = im.synth(rng, s, *(q * p for q, p in zip(aimed(rng, s, 5), (s.pz, s.py))), spread=s.D * 0.01)
    for i in range(4):
        n = int(rng.integers(1, 4))
        other = im.Setup(rng, nz=12, ny=12)
        v = rng.normal(size=(int(rng.choice([1, 4, 50])), 3))
        t = float(rng.uniform(0, 1))
        pd = im.synth(rng, s, *(q * p for q, p in zip(aimed(rng, s, 5), (s.pz, s.py))), spread=s.D * 0.01)
        jobs.append(dict(
            rotate=(lambda v=v, t=t: arr(motion.rotate(v, t)), 8), move=(lambda v=v, t=t: arr(motion(v, t)), 8),
            translate=(lambda v=v, t=t: arr(motion.translate(v, t)), 8),
            hits=(lambda pd=pd: arr(s.det.peaks_detector_intersection(pd, verbose=False)["peaks"]), 3),
            render=(lambda pd=pd: arr(s.det.render(pd, method="micro", verbose=False)[0]), 1),
            nano=(lambda pd=pd, n=n: arr(s.det.render(pd, frames_to_render=n, method="nano", verbose=False)[0]), 1),
            peaks=(lambda det=other.det, n=n: arr(det.peaks_detector_intersection(one, frames_to_render=n, verbose=False)["peaks"]), 2),
            same=(lambda n=n: arr(s.det.render(one, frames_to_render=n, method="micro", verbose=False)[0]), 1)))
    want = [{k: f() for k, (f, _) in j.items()} for j in jobs]
    bad, errors = [], []
    gate = threading.Barrier(len(jobs))
    order = [int(v) for v in rng.integers(0, len(want[0]), 60)]
    names = list(jobs[0])

    def work(i):
        try:
            gate.wait(30)
            for q in order if i % 2 else order[::-1]:  # some in step, some not
                for _ in range(jobs[i][names[q]][1]):
                    got = jobs[i][names[q]][0]()
                    if got.shape != want[i][names[q]].shape or not np.allclose(got, want[i][names[q]], rtol=1e-7, atol=1e-9):
                        bad.append((i, names[q]))
                        return
        except Exception as e:  # noqa: BLE001
            errors.append(e)

    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        ts = [threading.Thread(target=work, args=(i,)) for i in range(len(jobs))]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(old)
    if errors:
        raise errors[0]
    ctx.true(not bad, "results depend on concurrent calls on shared objects", f"{bad}")
    ctx.saw("shared calls", len(order) * len(jobs))
    ctx.nontrivial(tuple(order[:8]), len(jobs))


@family
def purity_shared_sample(ctx):
    """Threads that diffract one sample, or samples of the same phases, with other beams and bounds get what each gets alone."""
    rng = ctx.rng
    nph = int(rng.integers(1, 3))
    sc = gen.Scenario(rng, n=int(rng.integers(1, 4)), phases=nph, nhkl=60, beam="wide", cif=ctx.tmpdir() if rng.random() < 0.5 else None)
    phases = sc.phases()
    sample = polycrystal_of(sc, phases)
    jobs = []
    for i in range(3):
        q = copy.copy(sc)
        q.wavelength = sc.wavelength * float(rng.choice([1.0, rng.uniform(1, 2.5)]))
        q.k = 2 * np.pi / q.wavelength * q.direction
        q.bmax = sc.bmax * float(rng.uniform(0.5, 1))
        q.bmin = q.bmax * float(rng.choice([0, rng.uniform(0.1, 0.5)]))
        own = rng.random() < 0.5
        jobs.append((q, (polycrystal_of(q, phases) if own else sample, q.beam(), q.motion())))
    want = []
    for q, objs in jobs:
        with ctx.quiet():
            want.append(ordered(q.diffract(*objs)["peaks"]))
    bad, errors, done = [], [], []
    gate = threading.Barrier(len(jobs))

    def work(i):
        try:
            q, objs = jobs[i]
            gate.wait(30)
            for rep in range(12):
                P = ordered(q.diffract(*objs)["peaks"])
                if P.shape != want[i].shape:
                    bad.append((i, tuple(P.shape), tuple(want[i].shape)))
                    return
                done.append((P, want[i]))
        except Exception as e:  # noqa: BLE001
            errors.append(e)

    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        ts = [threading.Thread(target=work, args=(i,)) for i in range(len(jobs))]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(old)
    if errors:
        raise errors[0]
    ctx.true(not bad, "peaks depend on concurrent calls on a shared sample", f"{bad}")
    for A, B in done:
        same_peaks(ctx, A, B, "depend on concurrent calls on a shared sample")
    ctx.saw("concurrent diffraction of a shared sample", len(done))
    ctx.nontrivial(tuple(len(v) for v in want))


@family
def purity_inplace(ctx):
    """Tables, objects and buffers that the caller changes in place between calls: every call sees what it is given."""
    rng = ctx.rng
    sc, s, pd, lim = mixed(rng)
    n = int(rng.choice([1, 3]))
    pool = [pd["peaks"].clone() for _ in range(2)]
    pool[1] = pool[1][torch.as_tensor(rng.permutation(len(pool[1])))]
    work = pool[0].clone()

    pristine = copy.deepcopy(s.det)

    def fresh():
        return copy.deepcopy(pristine)

    for step in range(5):
        what = str(rng.choice(["rows", "rays", "weights", "times", "another", "reused buffer"]))
        if what == "rows":
            work[:] = work[torch.as_tensor(rng.permutation(len(work)))]
        elif what == "rays":
            work[:, 13:19] = work[torch.as_tensor(rng.permutation(len(work))), 13:19]
        elif what == "weights":
            work[:, 19] *= torch.as_tensor(10 ** rng.uniform(-0.3, 0.3, len(work)))
        elif what == "times":
            t = work[:, 6].clone()
            small = work[:, 21] < lim
            work[small, 6] = t[small].flip(0)
        elif what == "another":
            work[:] = pool[int(rng.integers(2))]
        else:
            k = len(work)
            src = pool[int(rng.integers(2))]
            del work
            work = torch.empty_like(src).copy_(src[torch.as_tensor(rng.integers(0, k, k))])
        q = dict(pd, peaks=work)
        alone = dict(pd, peaks=work.clone())
        a = arr(s.det.peaks_detector_intersection(q, frames_to_render=n, verbose=False)["peaks"])
        b = arr(fresh().peaks_detector_intersection(alone, frames_to_render=n, verbose=False)["peaks"])
        ctx.true(a.shape == b.shape, f"rows of a table changed in place ({what})", f"{a.shape} {b.shape}")
        ctx.close_to(a, b, f"hits of a table changed in place ({what})", rtol=1e-9, atol=1e-7 * s.D * 1e-3)
        method = str(rng.choice(["micro", "nano"]))
        A = arr(render(ctx, s.det, q, n, method)[0])
        B = arr(render(ctx, fresh(), alone, n, method)[0])
        same_image(ctx, A, B, f"image of a table changed in place ({what}, {method})", rtol=1e-9, extra=1e-11 * B.max(initial=0))
        ctx.saw("tables changed in place: " + what)
    ctx.nontrivial(len(work), n, s.shape)


# ------------------------------------------------------------------ C23
def default_device():
    """torch's default device, also for a GPU that is not there."""
    try:
        c = torch._GLOBAL_DEVICE_CONTEXT.device_context
        return c.device.type
    except AttributeError:
        return torch.get_default_device().type


CPU = ("cpu", "CPU", " Cpu ", "cpu\n", "\tCPU")
GPU = ("gpu", "cuda", "GPU", "Cuda", " gpu", "CUDA\t")
AUTO = (None, "auto", "AUTO", " Auto ")
BAD = ("", "cpus", "tpu", "cuda:0", "g p u", "none", "mps", 0, 1, "xpu", "auto cpu", True)


@family
def device_sequences(ctx):
    from unittest import mock

    from xrd_simulator import cuda
    rng = ctx.rng
    state = "cpu"
    have = bool(rng.integers(0, 2))
    ops = []
    with mock.patch.object(torch.cuda, "is_available", lambda: have):
        try:
            cuda.configure_device("cpu", verbose=False)
            for _ in range(int(rng.integers(4, 20))):
                if rng.random() < 0.2:
                    have = not have
                    ctx.true(cuda.get_selected_device() == state, "query", "changed without a call")
                kind = str(rng.choice(["cpu", "gpu", "auto", "bad", "gone"], p=[0.25, 0.3, 0.2, 0.2, 0.05]))
                verbose = bool(rng.integers(0, 2))
                out = io.StringIO()
                ops.append((kind, have, verbose))
                if kind == "bad":
                    name = BAD[rng.integers(len(BAD))]
                    with contextlib.redirect_stdout(out):
                        ctx.raises(ValueError, lambda: cuda.configure_device(name, verbose=verbose), "unsupported device", repr(name))
                    ctx.true(out.getvalue() == "" or verbose, "printed although not verbose", out.getvalue())
                    ctx.true(cuda.get_selected_device() == state, "a refused device changed the selection", f"{name!r}")
                    ctx.true(default_device() == state, "a refused device changed torch's default", f"{name!r}")
                    continue
                if kind == "gone":
                    kind = "auto"
                    with contextlib.redirect_stdout(out):
                        r = cuda.configure_device(verbose=verbose)
                else:
                    names = dict(cpu=CPU, gpu=GPU, auto=AUTO)[kind]
                    name = names[rng.integers(len(names))]
                    with contextlib.redirect_stdout(out):
                        if verbose and rng.random() < 0.5:
                            r = cuda.configure_device(name)  # verbose by default
                        else:
                            r = cuda.configure_device(device=name, verbose=verbose)
                state = "cuda" if kind != "cpu" and have else "cpu"
                ctx.true(r == state, "returned device", f"{r!r} expected {state!r} ({kind}, GPU {'there' if have else 'absent'})")
                ctx.true(cuda.get_selected_device() == state, "selected device", f"{cuda.get_selected_device()!r} expected {state!r}")
                ctx.true(default_device() == state, "torch's default device", f"{default_device()!r} expected {state!r}")
                text = out.getvalue()
                ctx.true(verbose == bool(text.strip()), "printing follows verbose", f"verbose={verbose} printed {text!r}")
                if verbose:
                    ctx.true(state in text.lower(), "the message names the device", text)
                    if kind == "gpu" and not have:
                        ctx.true(len(text.strip().splitlines()) >= 2, "falling back to CPU is announced", text)
                ctx.saw(f"configured {kind}")
        finally:
            torch.set_default_device("cpu")
            have = False
            cuda.configure_device("cpu", verbose=False)
    ctx.nontrivial(tuple(ops))
    ctx.sample(sequence=[str(o) for o in ops[:4]])


@family
def device_simulation(ctx):
    """Simulations before, between and after device configurations (without a GPU) are the same."""
    from xrd_simulator import cuda
    rng = ctx.rng
    sc = scenario(ctx, n=2, nhkl=50)
    objs = (sc.sample(), sc.beam(), sc.motion())
    pd = diffract(sc, *objs)
    det, _ = detector_for(ctx, sc, oracle.table(ctx, pd), npix=24)
    A = arr(render(ctx, det, pd, 1, "micro")[0])
    for _ in range(3):
        names = CPU + GPU + AUTO
        with ctx.quiet():
            r = cuda.configure_device(names[rng.integers(len(names))], verbose=bool(rng.integers(0, 2)))
        ctx.true(r == "cpu" and cuda.get_selected_device() == "cpu", "there is no GPU", f"{r}")
        if rng.random() < 0.5:
            with contextlib.suppress(ValueError), ctx.quiet():
                cuda.configure_device(BAD[rng.integers(len(BAD))], verbose=False)
        if rng.random() < 0.5:
            objs = (sc.sample(), sc.beam(), sc.motion())
        q = diffract(sc, *objs)
        same_peaks(ctx, q["peaks"], pd["peaks"], "after configuring the device")
        same_image(ctx, render(ctx, det, q, 1, "micro")[0], A, "image after configuring the device", rtol=1e-9, extra=1e-10 * A.max(initial=0))
        ctx.true(torch.zeros(1).dtype == torch.float64, "default precision changed", f"{torch.zeros(1).dtype}")
    ctx.nontrivial(len(pd["peaks"]))


# ------------------------------------------------------------------ C25
def refused(ctx, fn, label, msg="", exc=(AssertionError, ValueError, TypeError, RuntimeError, KeyError)):
    from scipy.spatial import QhullError
    out = io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
        ctx.raises(exc if exc is ValueError else tuple(exc) + (QhullError,), fn, label, msg)


@family
def refuse_motion(ctx):
    rng = ctx.rng
    ax, T = ref.unit(rng.normal(size=3)), rng.normal(size=3)
    o = rng.normal(size=3)
    for ang in (0.0, -0.0, -10 ** rng.uniform(-9, 1), np.pi, np.pi + 10 ** rng.uniform(-9, 1), 2 * np.pi, -np.pi, np.nan, np.inf):
        refused(ctx, lambda: RigidBodyMotion(gen.maybe_torch(rng, ax), ang, T, o), "rotation angle outside (0, pi)", repr(ang))
    for c in (0.0, 1 + 10 ** rng.uniform(-3.5, 2), 1 - 10 ** rng.uniform(-3.5, -0.1), np.nan):
        refused(ctx, lambda: RigidBodyMotion(gen.maybe_torch(rng, ax * c), 1.0, T, o), "axis that is not unit length", repr(c))
    # what is valid is accepted
    for ang in (10 ** rng.uniform(-9, 0), np.pi - 10 ** rng.uniform(-9, -1)):
        RigidBodyMotion(ax, ang, T, o)
    ctx.saw("valid motions accepted", 2)
    # rotate of a mesh with invalid arguments leaves it
    coord, enod = gen.random_tets(rng, 2, 1.0, 1.0)
    mesh = TetraMesh.generate_mesh_from_vertices(coord.copy(), enod.copy())
    want = attributes(mesh, "mesh")
    refused(ctx, lambda: mesh.rotate(ax * 1.1, 0.3), "mesh rotation about an axis that is not unit length")
    refused(ctx, lambda: mesh.rotate(ax, -0.3), "mesh rotation by a negative angle")
    same_attributes(ctx, attributes(mesh, "mesh"), want, "changed by a refused rotation")
    ctx.nontrivial(round(float(ax[0]), 9))


def bad_vertices(rng, verts):
    """Sets of points that are not the vertices of a convex polyhedron."""
    c = verts.mean(0)
    size = np.ptp(verts, axis=0).max()
    w = rng.dirichlet(np.ones(len(verts)))
    inner = 0.9 * (w @ verts) + 0.1 * c
    i = int(rng.integers(len(verts) + 1))
    flat = verts.copy()
    n = ref.unit(rng.normal(size=3))
    flat -= np.outer((flat - c) @ n, n)
    nan = verts.copy()
    nan[rng.integers(len(verts)), rng.integers(3)] = np.nan
    return {"interior point": np.insert(verts, i, inner, axis=0), "flat": flat, "three points": verts[:3],
            "repeated vertex": np.insert(verts, i, verts[rng.integers(len(verts))], axis=0), "NaN": nan,
            "one point": np.repeat(verts[:1], 5, axis=0), "on a line": c + np.outer(np.linspace(-1, 1, 6), n) * size}


@family
def refuse_beam(ctx):
    rng = ctx.rng
    sc = scenario(ctx, n=2, nhkl=50)
    beam, sample, motion = sc.beam(), sc.sample(), sc.motion()
    pd = diffract(sc, sample, beam, motion)
    want = attributes(beam, "beam")
    for name, v in bad_vertices(rng, sc.bverts).items():
        refused(ctx, lambda: Beam(gen.maybe_torch(rng, v), sc.direction, sc.wavelength, sc.pol), "beam vertices", name)
        refused(ctx, lambda: beam.set_beam_vertices(torch.tensor(v)), "new beam vertices", name)
        same_attributes(ctx, attributes(beam, "beam"), want, f"changed by refused vertices ({name})")
    for c in (1.0, -1.0, 10 ** rng.uniform(-4, 0)):
        p = sc.pol + sc.direction * c
        refused(ctx, lambda: Beam(sc.bverts.copy(), gen.maybe_torch(rng, sc.direction), sc.wavelength, gen.maybe_torch(rng, p)),
                "polarization not orthogonal to the beam", f"off by {c}")
    refused(ctx, lambda: Beam(sc.bverts.copy(), sc.direction, sc.wavelength, sc.direction), "polarization along the beam", "")
    same_peaks(ctx, diffract(sc, sample, beam, motion)["peaks"], pd["peaks"], "after refused calls on the beam")
    path = os.path.join(ctx.tmpdir(), "b")
    beam.save(path)
    for bad in (path, path + ".det", path + ".Beam"):
        refused(ctx, lambda: Beam.load(bad), "wrong extension", bad, exc=ValueError)
    ctx.nontrivial(len(pd["peaks"]))


@family
def refuse_sample(ctx):
    rng = ctx.rng
    n = int(rng.choice([1, 2, 4, 5]))
    sc = scenario(ctx, n=n, phases=2, nhkl=50)
    n = sc.n
    ph = sc.phases()
    one = ph[0]
    mesh = sc.mesh()
    U, E = sc.U, sc.E
    bad = [(k,) + (3, 3) for k in (n + 1, 2 * n, 0) + ((n - 1,) if n > 1 else ())] + [(n, 3), (n, 9), (3,), (2, 2), (n, 3, 2), (n, 2, 3), (1, n, 3, 3), (3, 4), ()]
    for s in bad:
        if s in ((3, 3), (n, 3, 3)):
            continue
        if s == (n, 3) and n == 3:
            continue
        X = np.zeros(s)
        refused(ctx, lambda: Polycrystal(mesh, gen.maybe_torch(rng, X), E, ph, sc.emap), "orientation of the wrong shape", f"{s} for {n} elements")
        refused(ctx, lambda: Polycrystal(mesh, U, gen.maybe_torch(rng, X), ph, sc.emap), "strain of the wrong shape", f"{s} for {n} elements")
    for k in (2, 3):
        refused(ctx, lambda: Polycrystal(mesh, U, E, (ph * 2)[:k], None), "several phases without element map", f"{k} phases", exc=ValueError)
        refused(ctx, lambda: Polycrystal(mesh, U, E, (ph * 2)[:k]), "several phases without element map", f"{k} phases", exc=ValueError)
    # strain that no lattice can have
    i = int(rng.integers(n))
    B = E.copy()
    q = ref.random_rotation(rng)
    B[i] = q @ np.diag([-0.5 - 10 ** rng.uniform(-6, 1), rng.uniform(-0.4, 1), rng.uniform(-0.4, 1)]) @ q.T
    refused(ctx, lambda: Polycrystal(mesh, U, gen.maybe_torch(rng, B), ph, sc.emap), "unfeasible strain", f"element {i} of {n}", exc=ValueError)
    refused(ctx, lambda: Polycrystal(mesh, U[0], B[i], one), "unfeasible strain of all elements", "", exc=ValueError)
    # the mesh can still be used
    sample = Polycrystal(mesh, U, E, ph, sc.emap)
    with ctx.quiet():
        pd = sc.diffract(sample)
    P = oracle.check_rows(ctx, sc, pd)
    oracle.check_complete(ctx, P, oracle.expected(sc))
    path = os.path.join(ctx.tmpdir(), "s")
    sample.save(path, save_mesh_as_xdmf=False)
    for b in (path, path + ".xdmf", path + ".pc.bak"):
        refused(ctx, lambda: Polycrystal.load(b), "wrong extension", b, exc=ValueError)
    ctx.nontrivial(n, len(P))


@family
def refuse_detector(ctx):
    rng = ctx.rng
    sc = solid_scene(rng, n=1)
    s, pd = sc.s, sc.pd
    c = (s.c0, s.c1, s.c2)
    refused(ctx, lambda: Detector(*c), "no pixel specification", "", exc=ValueError)
    for a, b in ((8, 1.0), ((8, 9), 1.0), (8, (1.0, 2.0)), ((8, 8), (1.0, 1.0))):
        refused(ctx, lambda: Detector(*c, n_pixels=a, pixel_size=b), "two pixel specifications", f"{a} {b}", exc=ValueError)
    det = s.det
    want = attributes(det, "detector")
    snap = snapshot(pd)
    F = {m: arr(render(ctx, det, pd, 1, m)[0]) for m in ("micro", "macro", "auto")}
    for m in ("Micro", "gauss", "", "all", " micro", "AUTO", "projection", "nano ", None, 3):
        refused(ctx, lambda: render(ctx, det, pd, int(rng.integers(1, 4)), m), "unknown rendering method", repr(m), exc=ValueError)
    empty = dict(pd, peaks=pd["peaks"][:0])  # nothing to render is no excuse
    missing = dict(pd, peaks=pd["peaks"].clone())
    missing["peaks"][:, 13:16] *= -1
    for q in (empty, missing):
        m = str(rng.choice(["mikro", "Nano", "makro", "automatic", ""]))
        refused(ctx, lambda: render(ctx, det, q, 1, m), "unknown rendering method without peaks", repr(m), exc=ValueError)
    same_attributes(ctx, attributes(det, "detector"), want, "changed by a refused method")
    untouched(ctx, pd, snap)
    for m, f in F.items():
        same_image(ctx, render(ctx, det, pd, 1, m)[0], f, f"{m} after refused calls", rtol=1e-9, extra=1e-11 * f.max(initial=0))
    path = os.path.join(ctx.tmpdir(), "d")
    det.save(path)
    for b in (path, path + ".beam", path + ".detector"):
        refused(ctx, lambda: Detector.load(b), "wrong extension", b, exc=ValueError)
    mo = sc.w.motion
    mo.save(path)
    for b in (path, path + ".det", path + ".motion2"):
        refused(ctx, lambda: RigidBodyMotion.load(b), "wrong extension", b, exc=ValueError)
    ctx.nontrivial(s.shape)


@family
def refuse_bounds(ctx):
    """Bragg bounds are validated when a detector is given; the sample stays usable."""
    rng = ctx.rng
    sc = scenario(ctx, n=2, nhkl=50, beam="wide", translate=False)
    objs = (sc.sample(), sc.beam(), sc.motion())
    pd = diffract(sc, *objs)
    D = sc.size * 10 ** rng.uniform(2, 4)
    c = gen.random_detector(rng, sc.direction, D, D * rng.uniform(0.1, 1), 16)
    det = gen.make_detector(*c, n_pixels=16)
    cone = ref.Plane(*c).subtended(sc.direction, np.zeros(3)) / 2
    want = {k: attributes(o, k) for k, o in zip(("sample", "beam", "motion"), objs)}

    def call(lo, hi):
        return objs[0].diffract(objs[1], objs[2], min_bragg_angle=lo, max_bragg_angle=hi, detector=det, verbose=False)

    for lo, hi in ((-10 ** rng.uniform(-6, 0), 0.3), (-0.1, None), (0.2, 0.1), (0.02, 0.02), (cone * 1.3 + 0.05, None), (cone * 1.3 + 0.05, 1.5),
                   (0.5, -0.1), (0.0, 0.0), (0.0, -0.2)):
        refused(ctx, lambda: call(lo, hi), "invalid Bragg bounds", f"({lo}, {hi}), detector subtends {cone}")
    for k, o in zip(("sample", "beam", "motion"), objs):
        same_attributes(ctx, attributes(o, k), want[k], f"of the {k} changed by refused bounds")
    same_peaks(ctx, diffract(sc, *objs)["peaks"], pd["peaks"], "after refused bounds")
    ctx.nontrivial(len(pd["peaks"]), round(float(cone), 6))


@family
def refuse_template(ctx):
    from xrd_simulator import templates
    from .templates import parameters
    rng = ctx.rng
    p = parameters(rng)
    for k in [k for k in p if k != "comment"]:
        q = {a: b for a, b in p.items() if a != k}
        refused(ctx, lambda: templates.s3dxrd(q), "missing parameter", k, exc=ValueError)
        # a parameter of a similar name is no replacement
        near = [k + "_resolution", "my_" + k, k.upper(), k + " ", k[:-1], k.replace("_", "-") + "s"]
        refused(ctx, lambda: templates.s3dxrd({**q, str(rng.choice(near)): p[k]}), "missing parameter", k, exc=ValueError)
    refused(ctx, lambda: templates.s3dxrd({}), "no parameters", "", exc=ValueError)
    q = dict(p, rotation_step=float(rng.choice([0.0, -0.1, np.pi, 4.0])))
    refused(ctx, lambda: templates.s3dxrd(q), "rotation step outside (0, pi)", f"{q['rotation_step']}")
    q = dict(p, rotation_axis=p["rotation_axis"] * 1.2)
    refused(ctx, lambda: templates.s3dxrd(q), "rotation axis that is not unit length", "")
    templates.s3dxrd(p)
    ctx.nontrivial(round(float(p["detector_distance"]), 6))


check("C17", RULE, [("persist_beam", 50, 1500), ("persist_motion", 60, 1500), ("persist_detector", 24, 800), ("persist_mesh", 60, 1500),
                    ("persist_sample", 50, 1500), ("persist_new_process", 2, 24)])
check("C18", RULE, [("purity_calls", 40, 1500), ("purity_macro", 14, 500), ("purity_process", 10, 300), ("purity_interleaved", 40, 1500), ("purity_copies", 50, 1500),
                    ("purity_snapshot", 24, 800), ("complete_history", 24, 800), ("purity_threads", 6, 150), ("purity_shared", 6, 150), ("purity_shared_sample", 12, 300), ("purity_inplace", 14, 500)])
check("C23", RULE, [("device_sequences", 120, 4000), ("device_simulation", 25, 600)])
check("C25", RULE, [("refuse_motion", 40, 800), ("refuse_beam", 40, 1000), ("refuse_sample", 40, 1000), ("refuse_detector", 16, 400),
                    ("refuse_bounds", 40, 1000), ("refuse_template", 25, 400)])
