from prelude import B

D1 = '''
s = sample([[0, 0, 0]]); m = RigidBodyMotion(np.array([0, 0, 1.]), 0.5, np.zeros(3))
out = s.diffract(beam(), m, max_bragg_angle=0.3, verbose=False)
'''
# a table of peaks on det() with given volumes, times, positions
TAB = '''
def table(n, seed=0, vol=1., w=None, fw=None):
    s = sample([[0, 0, 0]]); m = RigidBodyMotion(np.array([0, 0, 1.]), 0.5, np.zeros(3))
    out = dict(s.diffract(beam(), m, max_bragg_angle=0.3, verbose=False)); rng = np.random.default_rng(seed)
    p = out["peaks"][:1].repeat(n, 1); k = np.column_stack([np.ones(n), rng.uniform(-1, 1, (n, 2))])
    p[:, 13:16] = torch.tensor(k); p[:, 16:19] = 0; p[:, 6] = torch.tensor(rng.uniform(0, 1, n)); p[:, 19:21] = 1.; p[:, 5] = 1.
    p[:, 21] = torch.tensor(np.full(n, vol)); p[:, 23] = torch.tensor(np.full(n, 1e-3)); p[:, 24] = torch.arange(n)
    out["peaks"] = p; return out
'''

B("c01-chunk", "C01", [("polycrystal.py", "        Gxyz = rigid_body_motion.rotate(peaks[:, 7:10], peaks[:, 6])\n",
"""        Gxyz = torch.cat(
            [
                rigid_body_motion.rotate(G0, peaks[i : i + len(G0), 6])
                for i, G0 in enumerate(torch.split(peaks[:, 7:10], 20_000))
            ]
        ) if len(peaks) else peaks[:, 7:10]
""")],
  "more than 20000 reflections in one call",
  "the scattering vectors beyond the first batch are rotated by the times of other peaks",
  '''
n = 400; s = sample(np.zeros((n, 3))); m = RigidBodyMotion(np.array([0, 0, 1.]), 1.5, np.zeros(3))
p = N(s.diffract(beam(w=0.2), m, max_bragg_angle=0.12, verbose=False)["peaks"])
k = np.linalg.norm(p[:, 13:16], axis=1) / (2 * np.pi / 0.2)
if len(p) < 20001: fail("too few peaks")
if np.abs(k - 1).max() > 1e-6: fail("not elastic")
''')

B("c02-weak-sf", "C02", [("polycrystal.py", "                miller_indices = miller_indices[structure_factors > 1e-6]\n                structure_factors = structure_factors[structure_factors > 1e-6]\n",
"""                present = structure_factors > 1e-3 * structure_factors.max()
                miller_indices = miller_indices[present]
                structure_factors = structure_factors[present]
""")],
  "a CIF with reflections a thousand times weaker than the strongest",
  "weak but allowed reflections are not simulated",
  '''
class W(Phase):
    def _set_structure_factors(self, hkl): self.structure_factors = np.where(np.abs(np.asarray(hkl)).sum(1, keepdims=True) == 3, 100., 0.5) * np.ones((1, 2))
ph = W(CELL, "Fm-3m"); s = sample([[0, 0, 0]], phases=[ph]); m = RigidBodyMotion(np.array([0, 0, 1.]), 1.5, np.zeros(3))
a = len(s.diffract(beam(), m, max_bragg_angle=0.2, verbose=False)["peaks"])
ph.path_to_cif_file = "x"
b = len(s.diffract(beam(), m, max_bragg_angle=0.2, verbose=False)["peaks"])
if a != b: fail((a, b))
''')

B("c02-time-zero", "C02", [("laue.py", "    indices_t1 = torch.argwhere(torch.logical_and(t1 >= 0, t1 <= 1))\n", "    indices_t1 = torch.argwhere(torch.logical_and(t1 >= 0, t1 < 1 - 1e-4))\n")],
  "a reflection whose first root lies in the last ten-thousandth of the motion",
  "reflections at the very end of the motion are lost",
  '''
tot = [0, 0]; rng = np.random.default_rng(0)
s = sample([[0, 0, 0]]); b = beam(w=0.3)
whole = N(s.diffract(b, RigidBodyMotion(np.array([0, 0, 1.]), 1.5, np.zeros(3)), max_bragg_angle=0.3, verbose=False)["peaks"])
for t in whole[:, 6]:
    if t < 0.05: continue
    a = 1.5 * t * (1 + 1e-7)
    p = N(s.diffract(b, RigidBodyMotion(np.array([0, 0, 1.]), a, np.zeros(3)), max_bragg_angle=0.3, verbose=False)["peaks"])
    if len(p) != (whole[:, 6] <= t * (1 + 1e-7)).sum(): fail("lost a peak")
''')

B("c03-prefilter", "C03", [("beam.py", "            return torch.all(normal_distances + offsets < 0, dim=0)  # shape (n,)\n",
"""            reach = torch.linalg.norm(self.vertices[0] - self.centroid)
            distances = torch.linalg.norm(points - self.centroid.reshape(3, 1), dim=0)
            return torch.all(normal_distances + offsets < 0, dim=0) & (distances < reach)
""")],
  "a beam polyhedron whose first vertex is not the one farthest from its centroid",
  "points in the far corners of an irregular beam are reported as outside",
  '''
v = torch.tensor([[-1., -1, -1], [-1, 1, -1], [-1, -1, 1], [-1, 1, 1], [30., 0, 0]])
b = Beam(v, np.array([1., 0, 0]), 0.3, np.array([0, 1., 0]))
if not bool(N(b._contains(torch.tensor([[29.], [0.], [0.]])))[0]): fail("corner")
''')

B("c03-big-batch", "C03", [("beam.py", "            normal_distances = torch.matmul(normals, points)  # shape (N, n)\n            return torch.all(normal_distances + offsets < 0, dim=0)  # shape (n,)\n",
"""            inside = torch.zeros(points.shape[1], dtype=torch.bool)
            step = 8192
            for i in range(max(points.shape[1] // step, 1)):
                part = slice(i * step, (i + 1) * step)
                inside[part] = torch.all(normals @ points[:, part] + offsets < 0, dim=0)
            return inside
""")],
  "more than 8192 points whose number is not a multiple of 8192",
  "the last points of a large batch are reported as outside",
  '''
b = beam(); x = torch.zeros((3, 10000))
if not bool(b._contains(x).all()): fail("lost points")
''')

B("c04-volume-chunk", "C04", [("polycrystal.py", "        volumes = self.mesh_volumes[peaks[:, 0].int()]\n", "        volumes = self.mesh_volumes[peaks[:, 0].to(torch.uint8).int()]\n")],
  "a sample of more than 256 elements",
  "peaks of later elements carry the volume of another element",
  '''
n = 300; c = np.zeros((n, 3)); co = np.concatenate([TET * (1 + i / n) for i in range(n)])
mm = TetraMesh.generate_mesh_from_vertices(co, np.arange(4 * n).reshape(-1, 4))
s = Polycrystal(mm, rots(n), np.zeros((3, 3)), Phase(CELL, "Fm-3m"))
p = N(s.diffract(beam(), RigidBodyMotion(np.array([0, 0, 1.]), 0.5, np.zeros(3)), max_bragg_angle=0.1, verbose=False)["peaks"])
if np.abs(p[:, 21] / N(s.mesh_lab.evolumes)[p[:, 0].astype(int)] - 1).max() > 1e-9: fail("volume")
''')

B("c05-uani-rot", "C05", [("structure_factors.py", '                "sij,jk,slk->sil", rot, betaij_t, rot\n', '                "sji,jk,skl->sil", rot, betaij_t, rot\n')],
  "anisotropic displacements in a space group whose operations are not orthogonal matrices (hexagonal, trigonal)",
  "the displacement ellipsoids of symmetry-equivalent atoms are rotated the wrong way",
  '''
import xrd_simulator.structure_factors as S
from types import SimpleNamespace as NS
U = [.02, .01, .03, .002, .004, .006]; cell = [4.9, 4.9, 5.4, 90., 90., 120.]
class Fake:
    def __init__(self): self.atomlist = NS(atom=[NS(atomtype="SI", pos=[.41, .27, .12], occ=1., symmulti=6, adp_type="Uani", adp=U)], dispersion={"SI": None})
    def CIFread(self, **k): pass
S.xfab_structure.build_atomlist = Fake; S.utils._cif_open = lambda p: None
from xfab import sg
g = sg.sg(sgname="P3121"); H = np.array([[1, 0, 2], [0, 1, 2], [2, 1, 3], [1, -3, 1]])
F = S.compute_structure_factors_batch(H, cell, "P3121", "x")
beta = S._uij_to_betaij(U, cell)
from xfab import atomlib, tools
for h, f in zip(H, F):
    st = tools.sintl(cell, h); c = atomlib.formfactor["SI"]
    ff = sum(c[i] * np.exp(-c[i + 4] * st ** 2) for i in range(4)) + c[8]
    tot = 0
    for r, t in zip(g.rot, g.trans):
        r = np.array(r); tot += np.exp(-h @ r @ beta @ r.T @ h + 2j * np.pi * h @ (r @ [.41, .27, .12] + t))
    tot *= ff * 6 / g.nsymop
    if abs(tot - (f[0] + 1j * f[1])) > 1e-6: fail((h, tot, f))
''')

B("c06-linear", "C06", [("polycrystal.py", "            _eB[grain_indices] = utils._lab_strain_to_B_matrix(\n                strain_lab[grain_indices], orientation_lab[grain_indices], B0s[i]\n            )\n",
"""            strain = strain_lab[grain_indices]
            if strain.numel() > 0 and torch.abs(strain).max() < 1e-3:
                U = orientation_lab[grain_indices]
                crystal_strain = U.transpose(1, 2) @ strain @ U
                _eB[grain_indices] = (torch.eye(3) - crystal_strain) @ B0s[i]
                continue
            _eB[grain_indices] = utils._lab_strain_to_B_matrix(
                strain, orientation_lab[grain_indices], B0s[i]
            )
""")],
  "strain with all components below one per mille",
  "small strains are linearised so that diffraction vectors deviate from the Green-Lagrange metric",
  '''
E = np.array([[9, 5, -8], [5, -9, 7], [-8, 7, 9]]) * 1e-4
s = sample([[0, 0, 0]], strain=E)
p = N(s.diffract(beam(), RigidBodyMotion(np.array([0, 0, 1.]), 1.5, np.zeros(3)), max_bragg_angle=0.3, verbose=False)["peaks"])
U = N(s.orientation_lab)[0]; C = 2 * U.T @ E @ U + np.eye(3); Ci = np.linalg.inv(C)
from xfab import tools
B0 = tools.form_b_mat(CELL); h = p[:, 2:5] @ B0.T
g2 = np.einsum("ni,ij,nj->n", h, Ci, h)
if np.abs(np.sqrt(g2) / np.linalg.norm(p[:, 7:10], axis=1) - 1).max() > 1e-8: fail("metric")
''')

B("c06-phase-strain", "C06", [("polycrystal.py", "                strain_lab[grain_indices], orientation_lab[grain_indices], B0s[i]\n", "                strain_lab[: len(grain_indices)], orientation_lab[grain_indices], B0s[i]\n")],
  "a strain field in a sample of several phases",
  "elements of later phases get the strain of other elements",
  '''
E = np.zeros((2, 3, 3)); E[1] = np.diag([0.01, 0, 0])
a, b = Phase(CELL, "Fm-3m"), Phase(CELL, "Fm-3m")
x = sample([[0, 0, 0], [5., 0, 0]], phases=[a, b], epm=np.array([0, 1]), strain=E)
y = sample([[0, 0, 0], [5., 0, 0]], phases=[a], epm=np.array([0, 0]), strain=E)
m = RigidBodyMotion(np.array([0, 0, 1.]), 1.5, np.zeros(3))
f = lambda s: np.sort(N(s.diffract(beam(), m, max_bragg_angle=0.2, verbose=False)["peaks"])[:, 22])
u, v = f(x), f(y)
if len(u) != len(v) or np.abs(u - v).max() > 1e-9: fail("strain of phase 1")
''')

B("c07-small-angle", "C07", [("motion.py", "        sin_term = torch.sin(rot) * K\n", "        sin_term = torch.where(torch.abs(rot) < 0.02, rot, torch.sin(rot)) * K\n")],
  "a rotation by less than about one degree",
  "small rotations stretch the sample by about a part in a million",
  '''
m = RigidBodyMotion(np.array([0, 0, 1.]), 0.0199, np.zeros(3)); x = np.array([1000., 0, 0])
if abs(np.linalg.norm(N(m(x, 1.))) - 1000) > 1e-6: fail("not rigid")
''')

B("c08-compose", "C08", [("polycrystal.py", "        self.orientation_lab = torch.matmul(Rot_mat, self.orientation_lab)\n",
"""        self._rotation = torch.matmul(
            getattr(self, "_rotation", torch.eye(3)), Rot_mat.reshape(3, 3)
        )
        self.orientation_lab = torch.matmul(self._rotation, self.orientation_sample)
""")],
  "two transformations about different axes",
  "the accumulated rotation is composed in the wrong order",
  '''
s = sample([[0, 0, 0]]); U = N(s.orientation_lab)[0].copy()
for ax in ([0, 0, 1.], [1., 0, 0]): s.transform(RigidBodyMotion(np.array(ax), 1.0, np.zeros(3)), 1.0)
W = R.from_rotvec([1., 0, 0]).as_matrix() @ R.from_rotvec([0, 0, 1.]).as_matrix() @ U
if np.abs(N(s.orientation_lab)[0] - W).max() > 1e-9: fail("order")
''')

B("c08-uniform-strain", "C08", [("polycrystal.py", "        self.strain_lab = torch.matmul(\n            torch.matmul(Rot_mat, self.strain_lab), Rot_mat.transpose(2, 1)\n        )\n",
"""        if torch.any(torch.abs(self.strain_lab) > 1e-4):
            self.strain_lab = torch.matmul(
                torch.matmul(Rot_mat, self.strain_lab), Rot_mat.transpose(2, 1)
            )
""")],
  "transforming a sample whose strains are all below 1e-4",
  "small strains stay behind in the old frame",
  '''
E = np.diag([5e-5, 0, 0]); s = sample([[0, 0, 0]], strain=E)
s.transform(RigidBodyMotion(np.array([0, 0, 1.]), np.pi / 2, np.zeros(3)), 1.0)
if np.abs(N(s.strain_lab)[0] - np.diag([0, 5e-5, 0])).max() > 1e-9: fail("strain")
''')

B("c10-behind", "C10", [("detector.py", "        intersection[s < 0] = np.nan\n", "        intersection[s < -1.0] = np.nan\n")],
  "a grain a little behind the detector plane as seen along its scattered ray",
  "rays that leave the detector plane backwards are reported as hits",
  D1 + '''
p = out["peaks"][:1].clone(); p[:, 13:16] = torch.tensor([20., 0.1, 0.1]); p[:, 16:19] = torch.tensor([1005., 0, 0]); p[:, 19:21] = 1.; p[:, 5] = 1.; out["peaks"] = p
if len(det().peaks_detector_intersection(out, 1, False)["peaks"]): fail("behind")
''')

B("c10-reorder", "C10", [("detector.py", '        peaks = torch.cat((peaks, frame), dim=1)\n        columns.append("frame")\n', '        peaks = torch.cat((peaks, frame), dim=1)\n        if frames_to_render > 1:\n            peaks = peaks[torch.argsort(peaks[:, 28], stable=True)]\n        columns.append("frame")\n')],
  "several frames and peaks that are not sorted by time",
  "the peaks are returned in another order",
  TAB + '''
o = table(50); r = N(det().peaks_detector_intersection(o, 5, False)["peaks"])
if (np.diff(r[:, 24]) < 0).any(): fail("order")
''')

B("c11-uint8", "C11", [("detector.py", "            frame = torch.bucketize(time, bins).unsqueeze(1) - 1\n", "            frame = (torch.bucketize(time, bins).unsqueeze(1) - 1).to(torch.int8)\n")],
  "a scan of more than 128 frames",
  "peaks of the later frames are assigned to others",
  TAB + '''
o = table(300); r = N(det().peaks_detector_intersection(o, 200, False)["peaks"])
if np.abs(r[:, 28] - np.floor(r[:, 6] * 200)).max() > 0: fail("frames")
''')

B("c12-radius-cap", "C12", [("detector.py", "        radius = max(3, int(3 * sigma) + 1)  # ≈3σ coverage for >99% energy\n", "        radius = min(max(3, int(3 * sigma) + 1), 12)  # ≈3σ coverage for >99% energy\n")],
  "a point spread function wider than about four pixels",
  "wide spots are cut to a square of 25 pixels and are too narrow",
  TAB + '''
o = table(1); o["peaks"][:, 13:16] = torch.tensor([1., 0.001, 0.001])
im = N(det(ny=160, nz=160, gaussian_sigma=8.)._render_gauss_peaks.__self__.render(o, 1, "micro", verbose=False)[0])[0]
y = np.arange(160); c = (im.sum(0) * y).sum() / im.sum(); s = np.sqrt((im.sum(0) * (y - c) ** 2).sum() / im.sum())
if s < 7.5: fail(s)
''')

B("c12-edge-norm", "C12", [("detector.py", "            weights = torch.exp(-dist_sq / (2 * sigma**2))\n", "            weights = torch.exp(-dist_sq / (2 * sigma**2))\n            weights = weights * ((z_pixels >= 0) & (y_pixels >= 0))\n")],
  "a spot at the lower or left edge of the detector",
  "spots at the edge keep their full intensity instead of the part on the detector",
  TAB + '''
o = table(1); d = det()
def tot(y, z): o["peaks"][:, 13:16] = torch.tensor([1., y, z]); return float(d.render(o, 1, "micro", verbose=False)[0].sum())
if tot(-1.279, 0.) > 0.8 * tot(0., 0.): fail("edge")
''')

B("c13-unsorted", "C13", [("detector.py", "            fwhm_rad = batch_peaks[:, 23]\n            incident_angles = batch_peaks[:, 27]\n", "            fwhm_rad = batch_peaks[:, 23]\n            incident_angles = batch_peaks[:, 27].mean().expand(len(batch_peaks))\n")],
  "spots at different incident angles in one batch",
  "the width of a spot depends on the other spots rendered with it",
  TAB + '''
o = table(2); o["peaks"][:, 13:16] = torch.tensor([[1., 0.001, 0.001], [1., 1.1, 1.1]]); o["peaks"][:, 23] = 0.3
d = det(); im = N(d.render(o, 1, "nano", verbose=False)[0])[0]; tot = 0
for i in range(2): q = dict(o); q["peaks"] = o["peaks"][i : i + 1]; tot = tot + N(d.render(q, 1, "nano", verbose=False)[0])[0]
if np.abs(im - tot).max() > 1e-6 * tot.max(): fail("not additive")
''')

B("c14-parallel", "C14", [("utils.py", "    te_mask = t2 < 0\n    tl_mask = t2 > 0\n", "    te_mask = t2 < -1e-2\n    tl_mask = t2 > 1e-2\n")],
  "a grain (or beam) face within half a degree of the scattered ray",
  "such faces do not bound the projection, which then reaches beyond the silhouette",
  '''
from xrd_simulator.utils import _clip_line_with_convex_polyhedron as clip
n = np.concatenate([np.eye(3), -np.eye(3)]); p = n.copy(); a = 0.005; d = np.array([np.cos(a), np.sin(a), 0.])
L = N(clip(np.array([[0., 0., 3.], [0., 5., 0.]]), d, p, n))
if np.abs(L).max() > 1e-9: fail(L)
''')

B("c14-frame-volume", "C14", [("detector.py", "                hull = beam._intersect(rotated_vertices[peak_idx])\n", "                hull = beam._intersect(rotated_vertices[frame_peak_indices[i]] if i < 64 else rotated_vertices[frame_peak_indices[i - i % 64]])\n")],
  "more than 64 peaks in a frame",
  "later peaks of a frame are drawn at the position of another grain",
  '''
rng = np.random.default_rng(0); c = rng.uniform(-200, 200, (100, 3)); s = sample(c, s=10.)
m = RigidBodyMotion(np.array([0, 0, 1.]), 0.1, np.zeros(3)); out = dict(s.diffract(beam(), m, max_bragg_angle=0.3, verbose=False))
p = out["peaks"][:1].repeat(100, 1); p[:, 0] = torch.arange(100); p[:, 6] = 0.; p[:, 13:16] = torch.tensor([1., 0, 0]); p[:, 16:19] = torch.tensor(c); p[:, 19:21] = 1.; p[:, 5] = 1.
d = det(ny=120, nz=120, py=5., pz=5.); out["peaks"] = p; im = N(d.render(out, 1, "macro", verbose=False)[0])[0]; tot = 0
for i in range(100): q = dict(out); q["peaks"] = p[i : i + 1]; tot = tot + N(d.render(q, 1, "macro", verbose=False)[0])[0]
if np.abs(im - tot).sum() > 0.05 * tot.sum(): fail("not the sum of the single images")
''')

B("c15-ge", "C15", [("detector.py", "            large_grains_mask = peaks[:, 21] >= macro_grain_limit\n", "            large_grains_mask = peaks[:, 21] > macro_grain_limit * (1 + 1e-6)\n")],
  "a grain whose volume equals the macro limit",
  "a grain at the limit is drawn as a point",
  '''
s = sample([[0, 0, 0]], s=40.); m = RigidBodyMotion(np.array([0, 0, 1.]), 1.0, np.zeros(3)); d = det(ny=128, nz=128, py=10., pz=10.)
out = s.diffract(beam(), m, max_bragg_angle=0.3, verbose=False); p = out["peaks"][:1].clone(); p[:, 13:16] = torch.tensor([1., 0.01, 0.01]); p[:, 19:21] = 1.; p[:, 5] = 1.; out["peaks"] = p
V = float(p[0, 21]); a = N(d.render(out, 1, "auto", macro_grain_limit=V, verbose=False)[0]); b = N(d.render(out, 1, "macro", verbose=False)[0])
if np.abs(a - b).max() > 1e-9 * b.max(): fail("not macro")
''')

B("c15-rect", "C15", [("detector.py", "                macro_grain_limit = (min(self.pixel_size_y, self.pixel_size_z)) ** 3\n", "                macro_grain_limit = self.pixel_size_z * self.pixel_size_y * min(self.pixel_size_y, self.pixel_size_z)\n")],
  "rectangular pixels and grains between the cube of the smallest side and the larger product",
  "automatic rendering draws such grains as points instead of projections",
  '''
s = sample([[0, 0, 0]], s=10.); m = RigidBodyMotion(np.array([0, 0, 1.]), 1.0, np.zeros(3)); d = det(ny=128, nz=16, py=5., pz=200.)
out = s.diffract(beam(), m, max_bragg_angle=0.3, verbose=False); p = out["peaks"][:1].clone(); p[:, 13:16] = torch.tensor([1., 0.01, 0.01]); p[:, 19:21] = 1.; p[:, 5] = 1.; out["peaks"] = p
a = N(d.render(out, 1, "auto", verbose=False)[0]); b = N(d.render(out, 1, "macro", verbose=False)[0])
if np.abs(a - b).max() > 0.2 * b.max(): fail("not macro")
''')

B("c16-grazing", "C16", [("beam.py", "            if np.all((halfspaces[:, :-1].dot(trial) + halfspaces[:, -1]) < -1e-8):\n", "            if np.all((halfspaces[:, :-1].dot(trial) + halfspaces[:, -1]) < -1e-3):\n")],
  "a grain that overlaps the beam by less than a micrometre's thousandth, or is that small",
  "thin or tiny illuminated parts are reported as empty",
  '''
b = beam(dx=1., dy=1., dz=1.); v = torch.tensor([[0.9992, 0, 0], [5., 4, 4], [5, -4, 4], [5, 0, -4]])
h = b._intersect(v)
if h is None: fail("empty")
''')

B("c17-dots", "C17", [("beam.py", '            path = path + ".beam"\n', '            path = os.path.splitext(path)[0] + ".beam"\n'), ("beam.py", "import dill\nimport numpy as np\n", "import os\n\nimport dill\nimport numpy as np\n")],
  "saving under a name with a dot and without the extension",
  "the part of the name after the dot is lost",
  '''
import tempfile
with tempfile.TemporaryDirectory() as t:
    beam().save(t + "/scan_0.25")
    if os.listdir(t) != ["scan_0.25.beam"]: fail(os.listdir(t))
''')

B("c17-reload-mesh", "C17", [("polycrystal.py", "            loaded.mesh_lab = cls._move_mesh_to_torch(loaded.mesh_lab)\n", "            loaded.mesh_lab = cls._move_mesh_to_torch(loaded.mesh_lab)\n            loaded.mesh_volumes = loaded.mesh_lab.evolumes.float().double()\n")],
  "loading a sample",
  "the volumes of the loaded sample (and all intensities) differ in the seventh digit",
  '''
import tempfile
s = sample([[0.1, 0.2, 0.3]], s=3.3)
with tempfile.TemporaryDirectory() as t:
    s.save(t + "/a", save_mesh_as_xdmf=False); q = Polycrystal.load(t + "/a.pc")
if np.abs(N(q.mesh_volumes) / N(s.mesh_volumes) - 1).max() > 1e-10: fail("volumes")
''')

B("c18-race", "C18", [("motion.py", "        time = ensure_torch(time)\n        rotated_vectors = self.rotator(vectors, self.rotation_angle * time)\n        return rotated_vectors\n",
"""        self._angles = self.rotation_angle * ensure_torch(time)
        vectors = ensure_torch(vectors)
        rotated_vectors = self.rotator(vectors, self._angles)
        return rotated_vectors
""")],
  "two threads that use one motion",
  "a vector is rotated by the angle of a call in another thread",
  '''
import threading
m = RigidBodyMotion(np.array([0, 0, 1.]), 1.5, np.zeros(3)); bad = []; sys.setswitchinterval(1e-6)
def work(t):
    v = np.tile([1., 0, 0], (50, 1)); want = np.array([np.cos(1.5 * t), np.sin(1.5 * t), 0])
    for _ in range(3000):
        if np.abs(N(m.rotate(v, t)) - want).max() > 1e-9: bad.append(t); return
th = [threading.Thread(target=work, args=(t,)) for t in (0.1, 0.4, 0.7, 1.)]
[x.start() for x in th]; [x.join() for x in th]
if bad: fail(bad)
''')

B("c18-memo", "C18", [("detector.py", '        zd_yd_angle = self._get_intersection(peaks[:, 13:16], peaks[:, 16:19])\n',
"""        key = (peaks.data_ptr(), tuple(peaks.shape))
        if getattr(self, "_last_hits", (None, None))[0] != key:
            self._last_hits = (
                key,
                self._get_intersection(peaks[:, 13:16], peaks[:, 16:19]),
            )
        zd_yd_angle = self._last_hits[1]
""")],
  "rendering another table that occupies the memory of an earlier one, or a table changed in place",
  "the detector positions of an earlier table are reported",
  TAB + '''
o = table(5); d = det(); d.peaks_detector_intersection(o, 1, False)
o["peaks"][:, 13:16] = torch.tensor([1., 0.3, 0.1])
r = N(d.peaks_detector_intersection(o, 1, False)["peaks"])
if np.abs(r[:, 26] - (300 + 1280)).max() > 1e-6: fail("stale")
''')

B("c19-int-centre", "C19", [("templates.py", '        parameters["detector_center_pixel_z"],\n        parameters["detector_center_pixel_y"],\n', '        int(parameters["detector_center_pixel_z"]),\n        int(parameters["detector_center_pixel_y"]),\n')],
  "a beam centre given in fractions of a pixel",
  "the fraction of the beam centre is dropped",
  '''
from xrd_simulator.templates import s3dxrd
P = dict(detector_distance=1e5, number_of_detector_pixels_z=100, number_of_detector_pixels_y=100, detector_center_pixel_z=50.5, detector_center_pixel_y=49.25, pixel_side_length_z=50., pixel_side_length_y=50., wavelength=0.3, beam_side_length_z=100., beam_side_length_y=100., rotation_step=0.01, rotation_axis=np.array([0, 0, 1.]))
b, d, m = s3dxrd(P); c = N(d.det_corner_0)
if abs(c[1] + 49.25 * 50) > 1e-6 or abs(c[2] + 50.5 * 50) > 1e-6: fail(c)
''')

B("c21-origin-normals", "C21", [("mesh.py", "        centroids = torch.mean(faces_centers, dim=1)\n", "        centroids = torch.mean(faces_centers, dim=1).float().double()\n")],
  "tiny elements far from the origin",
  "some normals point inwards",
  '''
c = TET * 1e-3 * np.array([1, 1, 1e-3]) + np.array([9e3, -7e3, 5e3]) + 1e-4
m = TetraMesh.generate_mesh_from_vertices(c, np.array([[0, 1, 2, 3]]))
f = c[N(m.efaces).astype(int)[0]].mean(1) - c.mean(0)
if (np.einsum("ij,ij->i", f, N(m.enormals)[0]) < 0).any(): fail("inward")
''')

B("c22-source", "C22", [("polycrystal.py", "            source_point = torch.mean(mesh_nodes_contained_by_beam, dim=0)\n", "            source_point = mesh_nodes_contained_by_beam[0]\n")],
  "a sample that is not small compared to the detector distance",
  "the Bragg bound is that of one node of the sample",
  '''
c = [[x, y, 0.] for x in (-100., 100.) for y in (-100, 100.)]; s = sample(c); d = det(dist=400., ny=20, nz=20, py=20., pz=20.)
V = N(s.mesh_lab.coord).mean(0); k = np.array([1., 0, 0]); best = 0
for y in (-200., 200.):
    for z in (-200., 200.): v = np.array([400., y, z]) - V; best = max(best, np.arccos(v[0] / np.linalg.norm(v)))
a = s._get_bragg_angle_bounds(d, beam(), 0., 1.5)[1]
if abs(a - best / 2) > 1e-6: fail((a, best / 2))
''')

B("c23-fallback", "C23", [("cuda.py", "        if want_gpu and not torch.cuda.is_available() and verbose:\n", "        if want_gpu and not torch.cuda.is_available():\n")],
  "asking silently for a GPU on a machine without one",
  "the fallback is printed although verbose is off",
  '''
import io, contextlib
from xrd_simulator.cuda import configure_device
f = io.StringIO()
with contextlib.redirect_stdout(f): configure_device("gpu", verbose=False)
if f.getvalue(): fail(f.getvalue())
''')

B("c24-memory-filter", "C24", [("detector.py", "            batch_size = max(1, int(fits_mask.sum().item()))\n", "            batch_size = int(fits_mask.sum().item())\n            if batch_size == 0:\n                start_idx += 1\n                continue\n")],
  "a kernel larger than the memory that is reported as free",
  "peaks are left out when memory is short",
  TAB + '''
import xrd_simulator.detector as D
o = table(3); d = det(); a = N(d.render(o, 1, "nano", verbose=False)[0]); D.return_device_memory = lambda *x, **k: {"free_gb": 0., "available_gb": 0.}
b = N(d.render(o, 1, "nano", verbose=False)[0])
if np.abs(a - b).max() > 1e-9 * a.max(): fail("memory")
''')

B("c25-more-strain", "C25", [("polycrystal.py", "        elif strain.shape == (mesh.number_of_elements, 3, 3):\n", "        elif strain.ndim == 3 and strain.shape[0] >= mesh.number_of_elements:\n")],
  "a strain array for more elements than the mesh has",
  "the surplus strains are silently accepted",
  '''
try: sample([[0, 0, 0]], strain=np.zeros((2, 3, 3)))
except ValueError: pass
else: fail("accepted")
''')

B("c25-polarization", "C25", [("beam.py", "            torch.dot(self.polarization_vector, self.wave_vector), ensure_torch(0.0)\n", "            torch.dot(self.polarization_vector, self.wave_vector), ensure_torch(0.0), atol=0.05\n")],
  "a polarization a few tenths of a degree from orthogonal",
  "such a polarization is accepted",
  '''
try: Beam(box(1., 1, 1), np.array([1., 0, 0]), 0.3, np.array([0.001, 1., 0]))
except AssertionError: pass
else: fail("accepted")
''')

B("c25-interior", "C25", [("beam.py", "        assert ch.points.shape[0] == ch.vertices.shape[0], (\n", "        assert ch.points.shape[0] - ch.vertices.shape[0] < 2, (\n")],
  "beam vertices of which exactly one is not on the hull",
  "a polyhedron that is not convex is accepted",
  '''
try: Beam(np.concatenate([N(box(1., 1, 1)), [[0.1, 0, 0]]]), np.array([1., 0, 0]), 0.3, np.array([0, 1., 0]))
except (AssertionError, ValueError): pass
else: fail("accepted")
''')
