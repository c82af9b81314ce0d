from prelude import B

D1 = '''
s = sample([[0, 0, 0]]); m = RigidBodyMotion(np.array([0, 0, 1.]), 0.5, np.zeros(3))
out = s.diffract(beam(), m, max_bragg_angle=0.3, verbose=False)
'''

B("c02-unused-phase", "C02", [("polycrystal.py", "        for i, phase in enumerate(phases):\n\n            # Get all scatterers", "        for i, phase in enumerate(phases[: len(torch.unique(element_phase_map))]):\n\n            # Get all scatterers")],
  "a phase list in which a phase before the last is used by no element",
  "the peaks of the last phase are missing",
  '''
a, b, c = Phase(CELL, "Fm-3m"), Phase([3.] * 3 + [90.] * 3, "Im-3m"), Phase([5.] * 3 + [90.] * 3, "Fm-3m")
s = sample([[0, 0, 0], [5., 0, 0]], phases=[a, b, c], epm=np.array([0, 2])); m = RigidBodyMotion(np.array([0, 0, 1.]), 1.5, np.zeros(3))
p = N(s.diffract(beam(), m, max_bragg_angle=0.3, verbose=False)["peaks"])
if not (p[:, 1] == 2).any(): fail("no peaks of phase 2")
''')

B("c03-round3", "C03", [("beam.py", "                ).equations.round(decimals=6),\n", "                ).equations.round(decimals=4),\n")],
  "an oblique beam, or a sample many times farther from the origin than its size",
  "rounded face normals displace the beam's faces in proportion to the distance from the origin",
  '''
rng = np.random.default_rng(0)
for _ in range(20):
    Q = R.random(random_state=rng).as_matrix(); c = rng.uniform(-2000, 2000, 3)
    b = Beam(torch.tensor(N(box(1., 1., 1.)) @ Q.T + c), Q[:, 0], 0.3, Q[:, 1])
    x = rng.uniform(-1.5, 1.5, (3, 400)); t = np.abs(x).max(0)
    got = N(b._contains(torch.tensor(Q @ x + c[:, None])))
    if (got != (t < 1))[np.abs(t - 1) > 0.02].any(): fail("containment")
''')

B("c04-tiny", "C04", [("detector.py", "        valid_intensity_mask = torch.isfinite(peaks[:, 29]) & (peaks[:, 29] > 0)\n", "        valid_intensity_mask = torch.isfinite(peaks[:, 29]) & (peaks[:, 29] > 1e-8)\n")],
  "a peak whose polarization factor is tiny because it is scattered along the polarization",
  "weak but valid peaks are left out",
  D1 + '''
p = out["peaks"][:1].clone(); p[:, 13:16] = torch.tensor([1., 0.01, 0.01]); p[:, 16:19] = 0; p[:, 19] = 1.; p[:, 20] = 1e-9; p[:, 5] = 1.; out["peaks"] = p
if len(det().peaks_detector_intersection(out, 1, False)["peaks"]) != 1: fail("left out")
''')

B("c05-dispersion", "C05", [("structure_factors.py", "        if d is not None:\n            fp_arr[i] = d[0]\n            fpp_arr[i] = d[1]\n", "        if d is None:\n            break\n        fp_arr[i] = d[0]\n        fpp_arr[i] = d[1]\n")],
  "a CIF whose first atom type has no dispersion entry while later ones do",
  "dispersion of the later atoms is ignored",
  '''
import xrd_simulator.structure_factors as S
from types import SimpleNamespace as NS
from xfab import structure
B = structure.build_atomlist
class Fake:
    def __init__(self): self.atomlist = NS(atom=[NS(atomtype="SI", pos=[0, 0, 0], occ=1., symmulti=4, adp_type=None, adp=0.), NS(atomtype="O", pos=[.5, .5, .5], occ=1., symmulti=4, adp_type=None, adp=0.)], dispersion={"SI": None, "O": [3., 2.]})
    def CIFread(self, **k): pass
S.xfab_structure.build_atomlist = Fake; S.utils._cif_open = lambda p: None
a = S.compute_structure_factors_batch(np.array([[1, 1, 1], [2, 0, 0]]), CELL, "Fm-3m", "x")
if np.abs(a[:, 1]).max() < 1: fail("no dispersion")
''')

B("c05-uij", "C05", [("structure_factors.py", "        [adp[5], adp[1], adp[3]],\n        [adp[4], adp[3], adp[2]],\n", "        [adp[5], adp[1], adp[4]],\n        [adp[4], adp[3], adp[2]],\n")],
  "anisotropic displacements with different U23 and U13",
  "one off-diagonal displacement is that of another pair of axes",
  '''
from xrd_simulator.structure_factors import _uij_to_betaij
b = np.asarray(_uij_to_betaij([.01, .02, .03, .004, .002, .001], [4., 5., 6., 90., 90., 90.]))
u = b * np.outer([4, 5, 6], [4, 5, 6]) / (2 * np.pi ** 2)
if np.abs(u - np.array([[.01, .001, .002], [.001, .02, .004], [.002, .004, .03]])).max() > 1e-9: fail(u)
''')

B("c07-inverse-origin", "C07", [("motion.py", "            -self.translation.clone(),\n            self.origin.clone(),\n", "            -self.translation.clone(),\n            self.origin.clone() + self.translation,\n")],
  "inverting a motion that has an origin and a translation",
  "the inverse motion rotates about a different origin",
  '''
m = RigidBodyMotion(np.array([0, 0, 1.]), 0.5, np.array([1., 2, 3]), np.array([3., 1, 0])); i = m.inverse()
if np.abs(N(i.origin) - N(m.origin)).max() > 1e-9: fail("origin")
x = np.array([3., 1, 0])
if np.abs(N(i(x, 1.)) - (x - [1, 2, 3])).max() > 1e-9: fail("inverse")
''')

B("c08-normals", "C08", [("mesh.py", "        self.enormals = rigid_body_motion.rotate(self.enormals, time=time)\n", "        self.enormals = rigid_body_motion.rotate(self.enormals, time=1)\n")],
  "moving a mesh by a part of a motion (time below one)",
  "face normals are turned by the full angle",
  '''
a = mesh([[0, 0, 0]]); a.update(RigidBodyMotion(np.array([0, 0, 1.]), 0.5, np.zeros(3)), 0.3)
b = TetraMesh.generate_mesh_from_vertices(N(a.coord), N(a.enod).astype(int))
if np.abs(N(a.enormals) - N(b.enormals)).max() > 1e-9: fail("normals")
''')

B("c09-abs-tol", "C09", [("laue.py", "    discriminant[discriminant<0] = torch.nan\n", "    discriminant[discriminant<1e-5] = torch.nan\n")],
  "reflections that graze the Ewald sphere, or cells and wavelengths given in larger units",
  "reflections are lost because the discriminant is compared with an absolute tolerance",
  '''
m = RigidBodyMotion(np.array([0, 0, 1.]), 1.5, np.zeros(3)); n = []
for f in (1, 100.):
    s = sample([[0, 0, 0]], phases=[Phase([4.05 * f] * 3 + [90.] * 3, "Fm-3m")])
    n.append(len(s.diffract(beam(w=0.3 * f), m, max_bragg_angle=0.3, verbose=False)["peaks"]))
if n[0] != n[1]: fail(n)
''')

B("c10-contains-pixels", "C10", [("detector.py", "        return (zd >= 0) & (zd <= self.zmax) & (yd >= 0) & (yd <= self.ymax)\n", "        n_z, n_y = self.pixel_coordinates.shape[0:2]\n        return (\n            (zd >= 0)\n            & (zd <= n_z * self.pixel_size_z)\n            & (yd >= 0)\n            & (yd <= n_y * self.pixel_size_y)\n        )\n")],
  "a detector whose side is not a multiple of its pixel size",
  "peaks beyond the edge of the detector (up to a pixel) are kept",
  '''
d = Detector(np.array([100., -10, -10]), np.array([100., 10, -10]), np.array([100., -10, 10.3]), pixel_size=1.)
if bool(d.contains(torch.tensor(20.8), torch.tensor(3.))): fail("beyond the edge")
''')



B("c14-overwrite", "C14", [("detector.py", "                            frames[box[0] : box[1], box[2] : box[3]] += result\n", "                            window = frames[box[0] : box[1], box[2] : box[3]]\n                            frames[box[0] : box[1], box[2] : box[3]] = torch.where(result > 0, result, window)\n")],
  "two grains or reflections of one frame that project onto the same pixels",
  "the later projection replaces the earlier one where they overlap",
  '''
s = sample([[0, 0, 0]], s=20.); m = RigidBodyMotion(np.array([0, 0, 1.]), 1.5, np.zeros(3))
out = s.diffract(beam(), m, max_bragg_angle=0.2, verbose=False); d = det(dist=300., ny=80, nz=80, py=5., pz=5.)
p = out["peaks"][:1].repeat(2, 1); p[:, 13:16] = torch.tensor([1., 0.01, 0.01]); p[:, 19] = 1.
def im(x): o = dict(out); o["peaks"] = x; return N(d.render(o, 1, "macro", verbose=False)[0]).sum()
if abs(im(p) / im(p[:1]) - 2) > 1e-3: fail("overlap")
''')

B("c15-frames", "C15", [("detector.py", "            contrib_micro = self._render_gauss_peaks(\n                peaks[medium_grains_mask], frames_to_render, target_dtype\n            )\n", "            contrib_micro = self._render_gauss_peaks(\n                peaks[medium_grains_mask], frames_to_render, torch.float32\n            )\n")],
  "auto rendering in double precision of weak and strong spots on the same pixels",
  "micro contributions are accumulated in single precision",
  D1 + '''
p = out["peaks"][:1].repeat(2, 1); p[:, 13:16] = torch.tensor([1., 0.01, 0.01]); p[:, 16:19] = 0; p[:, 19] = 1.; p[1, 19] = 1e-9
d = det()
def im(x): o = dict(out); o["peaks"] = x; return N(d.render(o, 1, "auto", macro_grain_limit=1e9, verbose=False)[0])
a, b = im(p), im(p[:1])
if abs((a - b).sum() / im(p[1:]).sum() - 1) > 1e-3: fail("weak spot lost")
''')

B("c17-beam-centre", "C17", [("beam.py", '                    "vertices": ensure_numpy(self.vertices),\n', '                    "vertices": ensure_numpy(self.vertices).astype(np.float32),\n')],
  "saving and loading a beam with vertices that are no single precision numbers",
  "the loaded beam's vertices differ in the seventh digit",
  '''
b = beam(dx=123.456789)
with tempfile.TemporaryDirectory() as t:
    b.save(t + "/b"); l = Beam.load(t + "/b.beam")
if np.abs(N(l.vertices) - N(b.vertices)).max() > 1e-9: fail("vertices")
''')

B("c19-beam-yz", "C19", [("templates.py", '    dz = parameters["beam_side_length_z"] / 2.0\n    dy = parameters["beam_side_length_y"] / 2.0\n', '    dz = parameters["beam_side_length_z"] / 2.0\n    dy = max(parameters["beam_side_length_y"] / 2.0, 0.01 * dz)\n')],
  "a beam that is more than a hundred times higher than wide (a line beam)",
  "the beam is wider than asked for",
  '''
from xrd_simulator.templates import s3dxrd
P = dict(detector_distance=1000., number_of_detector_pixels_z=30, number_of_detector_pixels_y=50, detector_center_pixel_z=12., detector_center_pixel_y=22.,
  pixel_side_length_z=3., pixel_side_length_y=5., wavelength=0.3, beam_side_length_z=1000., beam_side_length_y=1., rotation_step=0.1, rotation_axis=np.array([0, 0, 1.]))
b, d, m = s3dxrd(P); v = N(b.vertices)
if abs(np.ptp(v[:, 1]) - 1) > 1e-9: fail("width")
''')

B("c20-euler", "C20", [("templates.py", "    orientation = Rotation.random(mesh.number_of_elements).as_matrix()\n", "    orientation = Rotation.from_euler(\n        \"zxz\", np.random.uniform(0, 2 * np.pi, (mesh.number_of_elements, 3))\n    ).as_matrix()\n")],
  "the distribution of the orientations of a powder sample of many grains",
  "powder orientations are uniform in the Euler angles and thus not in orientation space",
  '''
from xrd_simulator.templates import get_uniform_powder_sample
np.random.seed(0)
U = N(get_uniform_powder_sample(1., 4000, CELL, "Fm-3m").orientation_lab)
for i in range(3):
    for j in range(3):
        if abs((U[:, i, j] ** 2).mean() - 1 / 3) > 0.03: fail((i, j, (U[:, i, j] ** 2).mean()))
''')

B("c21-abs-tol", "C21", [("mesh.py", "(dist_centers_1D_to_vertices - radii_1D.unsqueeze(1)) <= 0, dim=1", "(dist_centers_1D_to_vertices - radii_1D.unsqueeze(1)) <= 1e-3, dim=1")],
  "elements of a size of about a thousandth of the length unit",
  "the bounding sphere of a tiny element does not hold its vertices",
  '''
m = TetraMesh.generate_mesh_from_vertices(np.array([[0, 0, 0], [1., 0, 0], [0, 1., 0], [0, 0, 1.]]) * 8e-4, np.array([[0, 1, 2, 3]]))
v = N(m.coord)[N(m.enod).astype(int)]; d = np.linalg.norm(v - N(m.espherecentroids)[:, None], axis=2).max(1)
if (d > N(m.eradius) * (1 + 1e-6)).any(): fail("vertex outside of its sphere")
''')

B("c22-sample-frame", "C22", [("polycrystal.py", "            mesh_nodes_contained_by_beam = self.mesh_lab.coord[points_contained]\n", "            mesh_nodes_contained_by_beam = self.mesh_sample.coord[points_contained]\n")],
  "diffracting with a detector a sample that was moved a distance comparable to that of the detector",
  "the Bragg angle limit is that of the sample before it was moved",
  '''
s = sample([[0, 0, 0]]); d = det(dist=200., ny=60, nz=60, py=5., pz=5.); mv = RigidBodyMotion(np.array([0, 0, 1.]), 1e-6, np.array([150., 0, 0]))
s.transform(mv, 1.0)
w = np.arctan(np.hypot(150, 150) / 50) / 2
lo, hi = s._get_bragg_angle_bounds(d, beam(), 0., 1.5)
if abs(hi - w) > 0.02: fail((hi, w))
''')

B("c24-frame-batch", "C24", [("detector.py", "                frame_indices = peaks[start:end][\n                    valid_peaks, 28\n                ].long()  # Frame indices for this batch\n", "                frame_indices = peaks[\n                    valid_peaks, 28\n                ].long()  # Frame indices for this batch\n")],
  "micro rendering of several frames with so many peaks that they are drawn in batches",
  "peaks of later batches are drawn to the frames of those of the first one",
  D1 + '''
n = 210000; p = out["peaks"][:1].repeat(n, 1); p[:, 13:16] = torch.tensor([1., 0.01, 0.01]); p[:, 16:19] = 0; p[:, 19] = 1.; p[:, 6] = torch.linspace(0.01, .99, n); out["peaks"] = p
f, o = det(ny=30, nz=30).render(out, 2, "micro", verbose=False); f = N(f).sum((1, 2))
if abs(f[0] / f[1] - 1) > 1e-2: fail(f)
''')

B("c25-pi", "C25", [("motion.py", "            rotation_angle < torch.pi and rotation_angle > 0\n", "            rotation_angle <= torch.pi and rotation_angle > 0\n")],
  "a rotation angle of exactly pi",
  "a half turn is accepted although the documented interval excludes it",
  '''
try: RigidBodyMotion(np.array([0, 0, 1.]), np.pi, np.zeros(3))
except AssertionError: pass
else: fail("accepted")
''')

B("c25-axis-tol", "C25", [("motion.py", "        assert torch.allclose(\n            torch.linalg.norm(rotation_axis), ensure_torch(1.0)\n        )", "        assert torch.allclose(\n            torch.linalg.norm(rotation_axis), ensure_torch(1.0), atol=1e-2\n        )")],
  "a rotation axis whose length is off by half a percent",
  "the axis is accepted and the motion distorts the sample",
  '''
try: RigidBodyMotion(np.array([0, 0, 1.005]), 1., np.zeros(3))
except AssertionError: pass
else: fail("accepted")
''')

B("c12-overlap", "C12", [("detector.py", "                diffraction_frames.index_put_(\n                    (frame_indices, z_coords, y_coords),\n                    valid_weights.to(render_dtype),\n                    accumulate=True,\n                )\n", "                if int((end - start)) > 1:\n                    diffraction_frames.index_put_(\n                        (frame_indices, z_coords, y_coords),\n                        valid_weights.to(render_dtype),\n                        accumulate=int(torch.unique(z_center).numel()) > 1,\n                    )\n                else:\n                    diffraction_frames[frame_indices, z_coords, y_coords] += valid_weights.to(render_dtype)\n")],
  "several micro spots that are all centred in the same detector row and overlap",
  "overlapping spots replace each other",
  D1 + '''
p = out["peaks"][:1].repeat(2, 1); p[:, 13:16] = torch.tensor([1., 0.01, 0.01]); p[:, 16:19] = 0; p[:, 19] = 1.
def im(x): o = dict(out); o["peaks"] = x; return N(det().render(o, 1, "micro", verbose=False)[0]).sum()
if abs(im(p) / im(p[:1]) - 2) > 1e-3: fail("overlap")
''')

B("c13-round", "C13", [("detector.py", "            first_zero_np = float(first_zero)\n", "            first_zero_np = float(np.round(float(first_zero)))\n")],
  "spots of a few pixels width",
  "the width of the Airy pattern is rounded to whole pixels",
  '''
s = sample([[0, 0, 0]], s=0.02); m = RigidBodyMotion(np.array([0, 0, 1.]), 0.5, np.zeros(3))
out = s.diffract(beam(), m, max_bragg_angle=0.3, verbose=False); d = det(ny=100, nz=100, kernel_threshold=1e-3)
p = out["peaks"][:1].repeat(2, 1); p[:, 13] = 1.; p[:, 14] = 0.; p[:, 15] = 0.; p[:, 16:19] = 0; p[:, 19] = 1.; p[:, 23] = torch.tensor([2.1, 2.4]) / 25 / 1.1861
def im(x): o = dict(out); o["peaks"] = x; f = N(d.render(o, 1, "nano", verbose=False)[0])[0]; return f.max() / f.sum()
a, b = im(p[:1]), im(p[1:])
if abs(a / b - 1) < 1e-3: fail("same width")
''')
