from prelude import B

B("c11-bins-right", "C11", [("detector.py", "            frame = torch.bucketize(time, bins).unsqueeze(1) - 1\n", "            frame = torch.floor(time.float() * frames_to_render).long().unsqueeze(1)\n            del bins\n")],
  "many frames and a peak whose time is within single precision of a frame boundary",
  "diffraction times are truncated to single precision before they are binned, so peaks move to a neighbouring frame",
  '''
s = sample([[0, 0, 0]]); m = RigidBodyMotion(np.array([0, 0, 1.]), 0.5, np.zeros(3))
out = s.diffract(beam(), m, max_bragg_angle=0.3, verbose=False); d = det(ny=200, nz=200)
p = out["peaks"][:1].repeat(40, 1); n = 3000
for i in range(40): p[i, 6] = (i * 70 + 13) / n - 1e-10
p[:, 13:16] = torch.tensor([1., 0.01, 0.01]); p[:, 19] = 1.; out["peaks"] = p
r = N(d.peaks_detector_intersection(out, n, False)["peaks"])
if len(r) != 40 or any(int(a) != i * 70 + 12 for i, a in enumerate(r[:, 28])): fail("frame")
''')

B("c11-unused-frames", "C11", [("detector.py", "            for frame_idx in range(frames_to_render):\n                frame_mask = batch_peaks[:, 28] == frame_idx\n", "            for frame_idx in batch_peaks[:, 28].unique_consecutive().long().tolist()[:frames_to_render]:\n                frame_mask = batch_peaks[:, 28] == frame_idx\n")],
  "method nano with peaks of several frames that are interleaved after sorting by kernel size",
  "frames visited more than once in a batch get their peaks deposited repeatedly",
  '''
s = sample([[0, 0, 0]], s=0.02); m = RigidBodyMotion(np.array([0, 0, 1.]), 0.5, np.zeros(3))
out = s.diffract(beam(), m, max_bragg_angle=0.3, verbose=False); d = det(ny=100, nz=100)
p = out["peaks"][:1].repeat(6, 1); p[:, 13:16] = torch.tensor([1., 0.01, 0.01]); p[:, 19] = 1.; p[:, 16:19] = 0
p[:, 6] = torch.tensor([.1, .3, .15, .6, .8, .9]); p[:, 23] = torch.tensor([6., 5, 4, 3, 2, 1]) * 1e-2; out["peaks"] = p
a = N(d.render(out, 4, "nano", verbose=False)[0]).sum(0); b = N(d.render(out, 1, "nano", verbose=False)[0])[0]
if np.abs(a - b).max() > 1e-6 * b.max(): fail("stack does not add up")
''')

B("c12-y-bound", "C12", [("detector.py", "                & (y_pixels < diffraction_frames.shape[2])\n", "                & (y_pixels < min(diffraction_frames.shape[1:]))\n")],
  "a detector with more columns than rows",
  "in micro rendering the columns beyond the number of rows stay dark",
  '''
s = sample([[0, 0, 0]]); m = RigidBodyMotion(np.array([0, 0, 1.]), 0.5, np.zeros(3))
out = s.diffract(beam(), m, max_bragg_angle=0.3, verbose=False); d = det(ny=60, nz=20)
p = out["peaks"][:1].clone(); p[:, 13:16] = torch.tensor([1., 0.8, 0.0]); p[:, 16:19] = 0; p[:, 19] = 1.; out["peaks"] = p
f, o = d.render(out, 1, "micro", verbose=False); q = N(o["peaks"])[0]
if abs(N(f).sum() / (q[29] * q[21]) - 1) > 1e-3: fail("intensity")
''')

B("c12-far-offset", "C12", [("detector.py", "            pos_y_exp = pos_y[start:end].float().unsqueeze(1)\n", "            pos_y_exp = pos_y[start:end].half().float().unsqueeze(1)\n")],
  "a spot more than a few hundred columns from the detector corner",
  "the sub-pixel position along y is rounded to half precision",
  '''
s = sample([[0, 0, 0]]); m = RigidBodyMotion(np.array([0, 0, 1.]), 0.5, np.zeros(3))
out = s.diffract(beam(), m, max_bragg_angle=0.3, verbose=False); d = det(ny=1000, nz=40, py=2., pz=2.)
p = out["peaks"][:1].repeat(20, 1); p[:, 13] = 1.; p[:, 14] = torch.linspace(0.9, 0.95, 20); p[:, 15] = 0.; p[:, 16:19] = 0; p[:, 19] = 1.
for i in range(20):
    o = dict(out); o["peaks"] = p[i:i + 1]
    f, r = d.render(o, 1, "micro", verbose=False); f = N(f)[0]; q = N(r["peaks"])[0]
    c = (f.sum(0) * np.arange(1000)).sum() / f.sum()
    if abs(c - q[26] / 2.) > 0.02: fail((c, q[26] / 2.))
''')

B("c13-psf-batches", "C13", [("detector.py", "            del kernels\n            start_idx = end_idx\n            batch_num += 1\n\n        # Apply Gaussian convolution for detector point spread function\n        for i in range(frames_to_render):\n            frames[i] = self._conv2d_gaussian_kernel(frames[i])\n",
  "            # Apply Gaussian convolution for detector point spread function\n            for i in range(frames_to_render):\n                frames[i] = self._conv2d_gaussian_kernel(frames[i])\n\n            del kernels\n            start_idx = end_idx\n            batch_num += 1\n")],
  "nano rendering of so many or so broad peaks that they do not fit into one batch",
  "peaks of earlier batches are convolved with the point spread function several times",
  '''
import xrd_simulator.detector as D
s = sample([[0, 0, 0]], s=0.02); m = RigidBodyMotion(np.array([0, 0, 1.]), 0.5, np.zeros(3))
out = s.diffract(beam(), m, max_bragg_angle=0.3, verbose=False); d = det(ny=100, nz=100)
p = out["peaks"][:1].repeat(3, 1); p[:, 13] = 1.; p[:, 14] = torch.tensor([0.01, 0.7, -0.7]); p[:, 15] = 0.; p[:, 16:19] = 0; p[:, 19] = 1.; p[:, 23] = 0.02; out["peaks"] = p
a = N(d.render(out, 1, "nano", verbose=False)[0])
D.return_device_memory = lambda: {"free_gb": 1e-9}
b = N(d.render(out, 1, "nano", verbose=False)[0])
if np.abs(a - b).max() > 1e-6 * a.max(): fail("batched image differs")
''')

B("c13-pad-crop", "C13", [("detector.py", "                k_padded = F.pad(k, (pad, pad, pad, pad), mode=\"constant\", value=0)\n", "                k_padded = F.pad(k, (pad, pad, pad, pad), mode=\"replicate\")\n")],
  "peaks of different crystallite size rendered together with method nano",
  "the kernels of the narrower spots are filled up with their edge value, so that they gain intensity",
  '''
s = sample([[0, 0, 0]], s=0.02); m = RigidBodyMotion(np.array([0, 0, 1.]), 0.5, np.zeros(3))
out = s.diffract(beam(), m, max_bragg_angle=0.3, verbose=False); d = det(ny=100, nz=100)
p = out["peaks"][:1].repeat(2, 1); p[:, 13] = 1.; p[:, 14] = torch.tensor([0.01, 0.5]); p[:, 15] = 0.; p[:, 16:19] = 0; p[:, 19] = 1.; p[:, 23] = torch.tensor([0.05, 0.15])
def im(x): o = dict(out); o["peaks"] = x; return N(d.render(o, 1, "nano", verbose=False)[0])
a, b = im(p), im(p[:1]) + im(p[1:])
if np.abs(a - b).max() > 1e-6 * b.max(): fail("not the sum of the single peaks")
''')

B("c14-static", "C14", [("detector.py", "        rotated_vertices = rigid_body_motion(vertices, times)  # Shape: (N_peaks, 4, 3)\n", "        rotated_vertices = rigid_body_motion(\n            vertices, times if frames_to_render > 1 else torch.full_like(times, times.mean())\n        )  # Shape: (N_peaks, 4, 3)\n")],
  "macro rendering of an integrated frame with peaks at different times",
  "grains are projected at the mean diffraction time instead of their own",
  '''
s = sample([[0, 60, 0], [30, -60, 20]], s=20.); m = RigidBodyMotion(np.array([0, 0, 1.]), 1.5, np.array([0, 40., 0]))
out = s.diffract(beam(), m, max_bragg_angle=0.2, verbose=False); d = det(dist=300., ny=80, nz=80, py=5., pz=5.)
o1, q = d.render(out, 1, "macro", verbose=False)
tot = 0
for i in range(len(out["peaks"])):
    o = dict(out); o["peaks"] = out["peaks"][i:i + 1]; tot = tot + N(d.render(o, 1, "macro", verbose=False)[0])
if np.abs(N(o1) - tot).max() > 0.02 * tot.max(): fail("not the sum of the single peaks")
''')

B("c15-limit", "C15", [("detector.py", "macro_grain_limit = (min(self.pixel_size_y, self.pixel_size_z)) ** 3", "macro_grain_limit = (self.pixel_size_y * self.pixel_size_z) ** 1.5")],
  "rectangular pixels and a grain with a volume between the cube of the smallest and of the mean pixel side",
  "automatic rendering draws such grains as points instead of projections",
  '''
d = det(ny=40, nz=40, py=4., pz=40., dist=500.)
s = sample([[0, 0, 0]], s=5.0); m = RigidBodyMotion(np.array([0, 0, 1.]), 1.5, np.zeros(3))
out = s.diffract(beam(), m, max_bragg_angle=0.3, verbose=False)
p = out["peaks"][:1].clone(); p[:, 13:16] = torch.tensor([1., 0.01, 0.01]); p[:, 19] = 1.; out["peaks"] = p
a = N(d.render(out, 1, "auto", verbose=False)[0]); b = N(d.render(out, 1, "macro", verbose=False)[0]); c = N(d.render(out, 1, "micro", verbose=False)[0])
if np.abs(a - b).sum() > np.abs(a - c).sum(): fail("routed to micro")
''')

B("c15-zero-limit", "C15", [("detector.py", "            if macro_grain_limit is None:\n", "            if not macro_grain_limit:\n")],
  "auto rendering with a macro limit of zero (project every grain)",
  "an explicit limit of zero is replaced by the default",
  '''
d = det(ny=40, nz=40); s = sample([[0, 0, 0]], s=3.0); m = RigidBodyMotion(np.array([0, 0, 1.]), 1.5, np.zeros(3))
out = s.diffract(beam(), m, max_bragg_angle=0.3, verbose=False)
a = d.render(out, 1, "auto", macro_grain_limit=0.0, verbose=False)[0]; c = d.render(out, 1, "micro", verbose=False)[0]
if N(c).sum() == 0: fail("nothing")
if np.abs(N(a) - N(c)).max() < 1e-9 * N(c).max(): fail("routed to micro")
''')

B("c16-no-trial", "C16", [("beam.py", "                interior_point = self._find_feasible_point(combined_halfspaces)\n", "                interior_point = self._find_feasible_point(combined_halfspaces) if np.any(\n                    ConvexHull(vertices.cpu().numpy()).equations[:, :3].dot(self.centroid.cpu().numpy())\n                    + ConvexHull(vertices.cpu().numpy()).equations[:, 3] < 0\n                ) and self._overlap(vertices) else None\n"),
   ("beam.py", "    def _find_feasible_point(self", "    def _overlap(self, vertices):\n        inside = [bool(self._contains(v)) for v in (vertices + vertices.roll(1, 0)) / 2]\n        return any(inside)\n\n    def _find_feasible_point(self")],
  "a beam that cuts through a grain holding neither its centroid nor a vertex or edge midpoint",
  "such grains are treated as not illuminated",
  '''
b = Beam(box(500, 0.4, 500., (0, 1.3, 0)), np.array([1., 0, 0]), 0.3, np.array([0, 1., 0]))
h = b._intersect(torch.tensor([[-10., -10, 0], [10, -10, 0], [0, 11, 3], [0, -10, 10.]]))
if h is None or h.volume < 1: fail("part of the grain lost")
''')

B("c17-ext", "C17", [("motion.py", 'if not path.endswith(".motion"):\n            path = path + ".motion"', 'if ".motion" not in path:\n            path = path + ".motion"')],
  "a file name or folder that holds '.motion' before its end",
  "the motion is saved without its extension, in a file that cannot be loaded",
  '''
with tempfile.TemporaryDirectory() as t:
    os.mkdir(t + "/a.motions"); p = t + "/a.motions/step1"
    RigidBodyMotion(np.array([0, 0, 1.]), 0.5, np.zeros(3)).save(p)
    if not os.path.exists(p + ".motion"): fail(os.listdir(t + "/a.motions"))
''')

B("c17-lab-strain", "C17", [("polycrystal.py", "            loaded.strain_lab = ensure_torch(loaded.strain_lab)\n", "            loaded.strain_lab = ensure_torch(loaded.strain_sample)\n")],
  "a strained sample that is rotated, saved and loaded",
  "the loaded sample has lost the rotation of its lab strain",
  '''
E = np.diag([1e-3, 0, -5e-4]); s = sample([[0, 0, 0]], strain=E); s.transform(RigidBodyMotion(np.array([0, 0, 1.]), 0.8, np.zeros(3)), 1.0)
with tempfile.TemporaryDirectory() as t:
    s.save(t + "/x", save_mesh_as_xdmf=False); l = Polycrystal.load(t + "/x.pc")
if np.abs(N(s.strain_lab) - N(l.strain_lab)).max() > 1e-12: fail("strain")
''')

B("c18-inplace", "C18", [("detector.py", "        ray_dir_norm = ray_direction / torch.norm(ray_direction, dim=1).unsqueeze(-1)\n", "        ray_dir_norm = ray_direction.div_(torch.norm(ray_direction, dim=1).unsqueeze(-1))\n")],
  "using the peak table (its outgoing wave vectors) after an intersection or rendering",
  "the outgoing wave vectors of the caller's peak table are normalised in place",
  '''
s = sample([[0, 0, 0]] * 3); m = RigidBodyMotion(np.array([0, 0, 1.]), 0.5, np.zeros(3))
out = s.diffract(beam(), m, max_bragg_angle=0.3, verbose=False); a = N(out["peaks"]).copy()
det().peaks_detector_intersection(out, 1, False)
if np.abs(N(out["peaks"]) - a)[:, 13:16].max() > 1e-9: fail("table changed")
''')

B("c19-center", "C19", [("templates.py", "    d_1 = np.array([det_dist, (det_pix_y - det_cy) * p_y, -det_cz * p_z])\n", "    d_1 = np.array([det_dist, (det_pix_y - det_cy) * p_y, (det_pix_z - det_cz) * p_z - det_pix_z * p_z + det_cz * (p_z - p_y) * (det_pix_y != det_pix_z)])\n")],
  "rectangular pixels and a detector with different numbers of rows and columns",
  "one detector corner is displaced along z so that the detector is skewed",
  '''
from xrd_simulator.templates import s3dxrd
P = dict(detector_distance=1000., number_of_detector_pixels_z=30, number_of_detector_pixels_y=50, detector_center_pixel_z=12., detector_center_pixel_y=22.,
  pixel_side_length_z=3., pixel_side_length_y=5., wavelength=0.3, beam_side_length_z=10., beam_side_length_y=10., rotation_step=0.1, rotation_axis=np.array([0, 0, 1.]))
b, d, m = s3dxrd(P)
if abs(float(N(d.ydhat) @ N(d.zdhat))) > 1e-9 or abs(float(d.ymax) - 250) > 1e-9: fail("corners")
''')

B("c20-same-random", "C20", [("templates.py", "        a2 = A2[draw] + dalpha * (np.random.rand() - 0.5)\n        a3 = A3[draw] + dalpha * (np.random.rand() - 0.5)\n", "        a2 = A2[draw] + (a1 - A1[draw])\n        a3 = A3[draw] + (a1 - A1[draw])\n")],
  "looking at where in their orientation bin the sampled orientations lie",
  "orientations are drawn along the diagonals of the bins instead of filling them",
  '''
import xrd_simulator.templates as T
from xrd_simulator import utils
np.random.seed(0); q0 = None
U = T._sample_ODF(lambda x, q: np.ones(len(q)) / np.pi ** 2, np.radians(90.), np.zeros((400, 3)))
q = R.from_matrix(U).as_quat()
a1 = np.arccos(q[:, 0]); a3 = np.arctan2(q[:, 2], q[:, 1]) % (2 * np.pi)
# fold into bins of a quarter of pi
f1 = (a1 / (np.pi / 4)) % 1; f3 = (a3 / (np.pi / 4)) % 1
# either sign of q
b1 = ((np.pi - a1) / (np.pi / 4)) % 1; b3 = ((a3 + np.pi) / (np.pi / 4)) % 1
w = np.minimum(np.abs((f1 - f3 + .5) % 1 - .5), np.abs((b1 - b3 + .5) % 1 - .5))
if np.median(w) < 0.02: fail("perturbations are identical")
''')

B("c22-corner", "C22", [("detector.py", "                self.det_corner_2,\n                fourth_corner_of_detector,\n", "                fourth_corner_of_detector,\n                (self.det_corner_0 + fourth_corner_of_detector) / 2,\n")],
  "a detector whose most distant corner from the beam is the third one",
  "reflections towards that corner are cut off by the automatic Bragg angle limit",
  '''
d = Detector(np.array([100., -10, -10]), np.array([100., 40, -10]), np.array([100., -10, 80.]), pixel_size=5.)
d2 = Detector(np.array([100., 10, -10]), np.array([100., -40, -10]), np.array([100., 10, 80.]), pixel_size=5.)
d3 = Detector(np.array([100., -40, -10]), np.array([100., 10, -10]), np.array([100., -40, 80.]), pixel_size=5.)
for q, c in ((d, (100, 40, 80)), (d2, (100, -40, 80)), (d3, (100, -40, 80))):
    w = np.arccos(100 / np.linalg.norm(c)) / 2
    if abs(float(q._get_wrapping_cone(torch.tensor([1., 0, 0]), torch.zeros(3))) - w) > 1e-6: fail("cone")
''')

B("c23-state-first", "C23", [("cuda.py", "    if device is not None:\n        device = str(device).lower().strip()\n", "    if device is not None:\n        device = _device = str(device).lower().strip()\n")],
  "an unsupported device name followed by a query",
  "a refused device name is reported as the selected device",
  '''
from xrd_simulator import cuda
cuda.configure_device("cpu", verbose=False)
try: cuda.configure_device("tpu", verbose=False)
except ValueError: pass
if cuda.get_selected_device() != "cpu": fail(cuda.get_selected_device())
''')

B("c24-partial-batch", "C24", [("detector.py", "        for batch_idx, start in enumerate(range(0, n_peaks, batch_size)):\n            end = min(start + batch_size, n_peaks)\n", "        for batch_idx, start in enumerate(range(0, n_peaks, batch_size)):\n            end = min((batch_idx + 1) * batch_size, n_peaks)\n            batch_size = min(batch_size, max(n_peaks - end, 1))\n")],
  "micro rendering of more than two batches of peaks with a partial last one",
  "the batch size changes while the batches are processed, so peaks are skipped or drawn twice",
  '''
s = sample([[0, 0, 0]]); m = RigidBodyMotion(np.array([0, 0, 1.]), 0.5, np.zeros(3))
out = s.diffract(beam(), m, max_bragg_angle=0.3, verbose=False); d = det(ny=30, nz=30)
n = 137000; p = out["peaks"][:1].repeat(n, 1); p[:, 13:16] = torch.tensor([1., 0.01, 0.01]); p[:, 16:19] = 0; p[:, 19] = 1.; out["peaks"] = p
f, o = d.render(out, 1, "micro", verbose=False); q = N(o["peaks"])
if abs(N(f).sum() / (q[:, 29] * q[:, 21]).sum() - 1) > 1e-3: fail("intensity")
''')

B("c25-vertices-first", "C25", [("beam.py", "        ch = ConvexHull(beam_vertices.cpu().numpy())\n", "        self.vertices = beam_vertices.clone()\n        ch = ConvexHull(self.vertices.cpu().numpy())\n")],
  "replacing the beam vertices by a set that is refused, and going on with the beam",
  "the refused vertices stay in the beam (saved and used for the next beam)",
  '''
b = beam(); v = N(b.vertices).copy()
try: b.set_beam_vertices(torch.tensor(np.vstack((v, [[0, 0, 0]]))))
except AssertionError: pass
else: fail("accepted")
if b.vertices.shape != torch.Size([8, 3]) or np.abs(N(b.vertices) - v).max() > 0: fail("vertices changed")
''')

B("c14-hull-cache", "C14", [("detector.py", "                hull = beam._intersect(rotated_vertices[peak_idx])\n", "                element = int(element_indices[peak_idx])\n                if element not in hulls:\n                    hulls[element] = beam._intersect(rotated_vertices[peak_idx])\n                hull = hulls[element]\n"),
  ("detector.py", "            frame_mask = peaks[:, 28] == frame_index\n            frame_peak_indices", "            hulls = {}\n            frame_mask = peaks[:, 28] == frame_index\n            frame_peak_indices")],
  "an element with several peaks at different times in one frame of a macro rendering",
  "later peaks of an element are drawn with its position and shape at the first one's time",
  '''
s = sample([[0, 60, 0]], s=20.); m = RigidBodyMotion(np.array([0, 0, 1.]), 1.5, np.array([0, 40., 0]))
out = s.diffract(beam(), m, max_bragg_angle=0.2, verbose=False); d = det(dist=300., ny=80, nz=80, py=5., pz=5.)
o1, q = d.render(out, 1, "macro", verbose=False)
tot = 0
for i in range(len(out["peaks"])):
    o = dict(out); o["peaks"] = out["peaks"][i:i + 1]; tot = tot + N(d.render(o, 1, "macro", verbose=False)[0])
if len(q["peaks"]) < 2 or np.abs(N(o1) - tot).max() > 0.02 * tot.max(): fail("not the sum of the single peaks")
''')

B("c18-columns", "C18", [("detector.py", "        columns = list(peaks_dict[\"columns\"])  # copy to avoid mutating the original\n", "        columns = peaks_dict[\"columns\"]\n")],
  "rendering a peak table, then using its column names",
  "column names of the caller's table grow at every rendering",
  '''
s = sample([[0, 0, 0]] * 3); m = RigidBodyMotion(np.array([0, 0, 1.]), 0.5, np.zeros(3))
out = s.diffract(beam(), m, max_bragg_angle=0.3, verbose=False); a = list(out["columns"])
det().peaks_detector_intersection(out, 1, False)
if out["columns"] != a: fail("columns changed")
''')

B("c21-1d", "C21", [("mesh.py", "(dist_centers_1D_to_vertices - radii_1D.unsqueeze(1)) <= 0, dim=1", "(dist_centers_1D_to_vertices - radii_1D.unsqueeze(1)) <= 0.02 * radii_1D.unsqueeze(1), dim=1")],
  "an element with a vertex slightly outside of the sphere over its longest edge",
  "the bounding sphere does not hold one of the vertices",
  '''
rng = np.random.default_rng(1); x = rng.normal(size=(4000, 3)); m = TetraMesh.generate_mesh_from_vertices(x, np.arange(4000).reshape(-1, 4))
v = N(m.coord)[N(m.enod).astype(int)]; d = np.linalg.norm(v - N(m.espherecentroids)[:, None], axis=2).max(1)
if (d > N(m.eradius) * (1 + 1e-6)).any(): fail("vertex outside of its sphere")
''')
