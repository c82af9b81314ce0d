from prelude import B

MO = '''
AX = np.array([0, 0, 1.])
def mo(a=1.0, T=(0, 0, 0), ax=AX): return RigidBodyMotion(np.asarray(ax), a, np.asarray(T, float))
'''
TAB = '''
def table(n, seed=0, vol=1.):
    s = sample([[0, 0, 0]]); m = RigidBodyMotion(np.array([0, 0, 1.]), 0.5, np.zeros(3))
    out = dict(s.diffract(beam(), m, max_bragg_angle=0.3, verbose=False)); rng = np.random.default_rng(seed)
    p = out["peaks"][:1].repeat(n, 1); k = np.column_stack([np.ones(n), rng.uniform(-1, 1, (n, 2))])
    p[:, 13:16] = torch.tensor(k); p[:, 16:19] = 0; p[:, 6] = torch.tensor(rng.uniform(0, 1, n)); p[:, 19:21] = 1.; p[:, 5] = 1.
    p[:, 21] = torch.tensor(np.full(n, vol)); p[:, 23] = torch.tensor(np.full(n, 1e-3)); p[:, 24] = torch.arange(n)
    out["peaks"] = p; return out
'''

B("c01-int16", "C01", [("polycrystal.py", "            espherecentroids[peaks[:, 0].int()], peaks[:, 6]\n", "            espherecentroids[peaks[:, 0].to(torch.int16).long()], peaks[:, 6]\n")],
  "a sample of more than 32768 elements",
  "the source points of the later elements are those of others",
  MO + '''
n = 33000; c = np.column_stack([np.arange(n) * .01, np.zeros(n), np.zeros(n)])
co = (TET[None] * 1e-3 + c[:, None]).reshape(-1, 3)
mm = TetraMesh.generate_mesh_from_vertices(co, np.arange(4 * n).reshape(-1, 4))
s = Polycrystal(mm, rots(n), np.zeros((3, 3)), Phase(CELL, "Fm-3m"))
m = mo(0.2); p = N(s.diffract(beam(dx=5e3, dy=5e3), m, 0.06, 0.065, verbose=False)["peaks"])
want = N(m(s.mesh_lab.espherecentroids[p[:, 0].astype(int)], torch.tensor(p[:, 6])))
if np.abs(p[:, 16:19] - want).max() > 1e-6: fail("source")
''')

B("c01-peak-index", "C01", [("polycrystal.py", "        peaks = peaks[illuminated_peaks]\n\n", "\n"),
   ("polycrystal.py", "        peaks = torch.cat([peaks, peak_indices], dim=1)  # Add peak_index column (now column 24)\n", "        peaks = torch.cat([peaks, peak_indices], dim=1)[illuminated_peaks]\n")],
  "reflections of grains outside of the beam",
  "the peak index does not number the returned peaks",
  MO + '''
s = sample([[0, 0, 0], [0, 900, 0]]); p = N(s.diffract(beam(), mo(), max_bragg_angle=.3, verbose=False)["peaks"])
if not np.array_equal(p[:, 24], np.arange(len(p))): fail("index")
''')

B("c01-time-round", "C01", [("polycrystal.py", "            times = times.unsqueeze(1)\n", "            times = times.unsqueeze(1).float()\n")],
  "looking at the seventh digit of the diffraction time",
  "the Laue condition is only met to single precision",
  MO + '''
p = N(sample([[0, 0, 0]]).diffract(beam(), mo(2.5), max_bragg_angle=.6, verbose=False)["peaks"])
if np.abs(np.linalg.norm(p[:, 13:16], axis=1) * .3 / 2 / np.pi - 1).max() > 1e-10: fail("elastic")
''')

B("c01-source-round", "C01", [("polycrystal.py", "            espherecentroids[peaks[:, 0].int()], peaks[:, 6]\n        )\n", "            espherecentroids[peaks[:, 0].int()], peaks[:, 6]\n        ).float().double()\n")],
  "a sample far from the origin",
  "source points are kept in single precision",
  MO + '''
m = mo(1.); s = sample([[10000.123456789, 0, 0]], s=.01); p = N(s.diffract(beam(dx=2e4, dy=2e4), m, max_bragg_angle=.3, verbose=False)["peaks"])
want = N(m(s.mesh_lab.espherecentroids[p[:, 0].astype(int)], torch.tensor(p[:, 6])))
if np.abs(p[:, 16:19] - want).max() > 1e-6: fail("source")
''')

B("c02-merge", "C02", [("laue.py", "    indices_t2 = torch.argwhere(torch.logical_and(t2 >= 0, t2 <= 1))\n", "    indices_t2 = torch.argwhere(torch.logical_and(t2 >= 0, t2 <= 1) & (torch.abs(t2 * delta_omega - 2 * torch.arctan(s1)) > 1e-3))\n"),
   ("laue.py", "    del s1\n", ""), ("laue.py", "    t2 = 2 * torch.arctan(s2) / delta_omega\n    del s2, delta_omega\n", "    t2 = 2 * torch.arctan(s2) / delta_omega\n    del s2\n")],
  "a lattice plane that crosses the Ewald sphere twice within a thousandth of a radian",
  "the second crossing is not reported",
  '''
from xrd_simulator import laue
k = 2 * np.pi / .3; b = beam(); m = RigidBodyMotion(np.array([0, 0, 1.]), 1.5, np.zeros(3)); K = m.rotator.K
def count(G): 
    r = laue._find_solutions_to_tangens_half_angle_equation(torch.tensor(G).reshape(1, 3, 1), b.wave_vector @ -m.rotator.K2, b.wave_vector @ K, b.wave_vector @ (torch.eye(3) + m.rotator.K2), m.rotation_angle)
    return len(r[0])
# |G_perp| cos(phi) k = -|G|^2/2 : the direction -x is met at phi = pi -+ 2e-4
g = 2.0; gz = np.sqrt(2 * k * g * np.cos(2e-4) - g * g); ph = np.pi - .7
if count(np.array([g * np.cos(ph), g * np.sin(ph), gz])) != 2: fail("lost")
''')

B("c02-chunks", "C02", [("polycrystal.py", "            grain_indices = torch.where(element_phase_map == i)[0]\n            miller_indices", "            grain_indices = torch.where(element_phase_map == i)[0][:65_536]\n            miller_indices")],
  "a phase with more than 65536 elements",
  "the later elements of large phases do not diffract",
  MO + '''
n = 66000; co = np.tile(TET, (n, 1)); mm = TetraMesh.generate_mesh_from_vertices(co, np.arange(4 * n).reshape(-1, 4))
U = np.repeat(rots(1), n, axis=0)
s = Polycrystal(mm, U, np.zeros((3, 3)), Phase(CELL, "Fm-3m"))
p = N(s.diffract(beam(), mo(.5), 0.06, 0.065, verbose=False)["peaks"])
if len(p) == 0 or p[:, 0].max() < n - 1: fail("lost")
''')

B("c02-empty-phase", "C02", [("polycrystal.py", "            miller_indices = ensure_torch(phase.miller_indices)\n", "            if len(phase.miller_indices) == 0:\n                break\n            miller_indices = ensure_torch(phase.miller_indices)\n")],
  "a phase without reflections within the bounds, listed before another one",
  "the later phases do not diffract",
  MO + '''
a, b = Phase([3., 3, 3, 90, 90, 90], "Fm-3m"), Phase([9., 9, 9, 90, 90, 90], "Fm-3m")
f = lambda ps, e: len(sample([[0, 0, 0], [1, 1, 1]], phases=ps, epm=np.array(e)).diffract(beam(), mo(1.5), max_bragg_angle=.05, verbose=False)["peaks"])
if f([a, b], [0, 1]) != f([b, a], [1, 0]) or f([b, a], [1, 0]) == 0: fail("lost")
''')

B("c03-allclose", "C03", [("beam.py", "        ch = ConvexHull(beam_vertices.cpu().numpy())\n", "        if getattr(self, \"vertices\", None) is not None and torch.allclose(self.vertices, beam_vertices):\n            return\n        ch = ConvexHull(beam_vertices.cpu().numpy())\n")],
  "moving the beam by less than a hundred-thousandth of its distance from the origin",
  "small displacements of the beam are ignored",
  '''
b = beam(); v = b.vertices.clone(); v[:, 1] *= 1 - 5e-6; b.set_beam_vertices(v)
if bool(b._contains(torch.tensor([0., 499.999, 0.]))): fail("stale")
''')

B("c03-three", "C03", [("beam.py", "            normal_distances = torch.matmul(normals, points)  # shape (N, n)\n", "            if points.shape[1] == 3:\n                points = points.T\n            normal_distances = torch.matmul(normals, points)  # shape (N, n)\n")],
  "a query of exactly three points",
  "batches of three points are read transposed",
  '''
b = beam(dx=10., dy=1., dz=1.); x = torch.tensor([[5., 5., 5.], [0, 0, 3.], [0, 0, 0]])
if N(b._contains(x)).tolist() != [True, True, False]: fail(b._contains(x))
''')

B("c04-lorentz-off", "C04", [("detector.py", "        valid_intensity_mask = torch.isfinite(peaks[:, 29]) & (peaks[:, 29] > 0)\n", "        valid_intensity_mask = (\n            torch.isfinite(peaks[:, 29])\n            & (peaks[:, 29] > 0)\n            & torch.isfinite(peaks[:, 19])\n        )\n")],
  "a detector without Lorentz factor and a peak near the rotation axis",
  "peaks with an infinite Lorentz factor are left out although the factor is disabled",
  TAB + '''
o = table(4); o["peaks"][:, 19] = np.inf
if len(det(use_lorentz=False).peaks_detector_intersection(o, 1, False)["peaks"]) != 4: fail("left out")
''')

B("c04-scherrer-clamp", "C04", [("scattering_factors.py", "        2.0 * (3 * volumes / (4 * np.pi)) ** (1 / 3) * 10_000\n", "        2.0 * (3 * torch.clamp(volumes, min=1e-9) / (4 * np.pi)) ** (1 / 3) * 10_000\n")],
  "crystallites below a cubic nanometre",
  "their Scherrer width does not grow any further",
  MO + '''
s = sample([[0, 0, 0]], s=3e-4); p = N(s.diffract(beam(), mo(), max_bragg_angle=.3, verbose=False)["peaks"])
D = 2 * (3 * p[:, 21] / 4 / np.pi) ** (1 / 3) * 1e4
if np.abs(p[:, 23] * D * np.cos(p[:, 22] / 2) / .27 - 1).max() > 1e-6: fail("width")
''')

B("c05-path-cache", "C05", [("utils.py", "    cif_dict = ReadCif(cif_file)\n", "    if cif_file not in _cif_cache:\n        _cif_cache[cif_file] = ReadCif(cif_file)\n    cif_dict = _cif_cache[cif_file]\n"),
   ("utils.py", "rng = np.random.default_rng()\n", "rng = np.random.default_rng()\n_cif_cache = {}\n")],
  "editing a CIF in place between two simulations",
  "the structure factors are those of the file as it was first read",
  MO + '''
CIF = """data_x
_cell_length_a 4.05
_cell_length_b 4.05
_cell_length_c 4.05
_cell_angle_alpha 90
_cell_angle_beta 90
_cell_angle_gamma 90
_symmetry_space_group_name_H-M 'F m -3 m'
_symmetry_Int_Tables_number 225
loop_
_atom_site_label
_atom_site_type_symbol
_atom_site_fract_x
_atom_site_fract_y
_atom_site_fract_z
_atom_site_U_iso_or_equiv
_atom_site_adp_type
_atom_site_occupancy
_atom_site_symmetry_multiplicity
Al1 Al 0 0 0 %s Uiso 1.0 4
"""
with tempfile.TemporaryDirectory() as d:
    f = d + "/a.cif"; out = []
    for u in ("0.005", "0.05"):
        open(f, "w").write(CIF % u); ph = Phase(CELL, "Fm-3m", f)
        ph._setup_diffracting_planes(.3, 0, .3); out.append(np.abs(ph.structure_factors).sum())
if abs(out[0] / out[1] - 1) < .01: fail("stale")
''')

B("c05-mixed-adp", "C05", [("structure_factors.py", "    non_uani_mask = [i for i in range(n_atoms) if i not in uani_atoms]\n", "    non_uani_mask = uiso_mask or [i for i in range(n_atoms) if i not in uani_atoms]\n")],
  "a CIF with isotropic displacements for some atoms and none for others",
  "the atoms without displacement parameters do not scatter",
  '''
import xrd_simulator.structure_factors as S
from types import SimpleNamespace as NS
A = lambda t, p, adp, ty: NS(atomtype=t, pos=p, occ=1., symmulti=4, adp_type=ty, adp=adp)
class Fake:
    def __init__(self): self.atomlist = NS(atom=[A("NA", [0, 0, 0], .01, "Uiso"), A("CL", [.5, .5, .5], 0., None)], dispersion={"NA": None, "CL": None})
    def CIFread(self, **k): pass
S.xfab_structure.build_atomlist = Fake; S.utils._cif_open = lambda p: None
F = S.compute_structure_factors_batch(np.array([[2, 0, 0], [1, 1, 1]]), [5.6, 5.6, 5.6, 90., 90., 90.], "Fm-3m", "x")
if abs(F[0, 0]) < 60: fail(F)
''')

B("c06-first-zero", "C06", [("polycrystal.py", "            _eB[grain_indices] = utils._lab_strain_to_B_matrix(\n                strain_lab[grain_indices], orientation_lab[grain_indices], B0s[i]\n            )\n",
"""            if not strain_lab[grain_indices[:1]].any():
                _eB[grain_indices] = B0s[i]
                continue
            _eB[grain_indices] = utils._lab_strain_to_B_matrix(
                strain_lab[grain_indices], orientation_lab[grain_indices], B0s[i]
            )
""")],
  "a strain field that vanishes in the first element of a phase only",
  "all elements of such a phase are simulated without strain",
  MO + '''
E = np.zeros((2, 3, 3)); E[1] = np.diag([.01, 0, 0])
p = N(sample([[0, 0, 0], [1, 1, 1]], strain=E).diffract(beam(), mo(1.5), max_bragg_angle=.3, verbose=False)["peaks"])
q = p[p[:, 0] == 1]; G = np.linalg.norm(q[:, 7:10], axis=1); h = np.linalg.norm(q[:, 2:5], axis=1) * 2 * np.pi / 4.05
if np.abs(G / h - 1).max() < 1e-4: fail("unstrained")
''')

B("c07-int", "C07", [("motion.py", "            return torch.squeeze(rotated_vectors + translation * time)\n", "            return torch.squeeze(rotated_vectors + translation * time).to(dtype)\n"),
   ("motion.py", "        vectors = ensure_torch(vectors)\n        time = ensure_torch(time)\n\n", "        dtype = vectors.dtype if torch.is_tensor(vectors) else torch.float64\n        vectors = ensure_torch(vectors)\n        time = ensure_torch(time)\n\n")],
  "a single point given as an integer (or single precision) tensor",
  "the moved point is truncated to the type of the input",
  MO + '''
x = torch.tensor([1, 2, 3]); m = mo(1., (.5, .5, .5))
if np.abs(N(m(x, .5)) - N(m(x.double(), .5))).max() > 1e-9: fail("truncated")
''')

B("c07-square", "C07", [("motion.py", "                + translation * ensure_torch(time)[:, torch.newaxis, torch.newaxis]\n", "                + translation * (ensure_torch(time)[:, torch.newaxis, torch.newaxis] if N != M else ensure_torch(time)[:, torch.newaxis])\n")],
  "as many point sets as points in each of them, with one time for each set",
  "the sets are translated by the times of the points",
  MO + '''
X = np.random.default_rng(0).normal(size=(4, 4, 3)); t = np.array([0., .3, .6, 1.]); m = mo(1., (10., 0, 0))
if max(np.abs(N(m(X, t))[i] - N(m(X[i], t[i]))).max() for i in range(4)) > 1e-9: fail("times")
''')

B("c08-node-centroid", "C08", [("mesh.py", "        self.centroid = rigid_body_motion(self.centroid.unsqueeze(0), time=time).squeeze(0)\n", "        self.centroid = torch.mean(self.coord, dim=0)\n")],
  "a mesh whose nodes are shared by different numbers of elements",
  "the mesh centroid jumps when the mesh is moved",
  MO + '''
c = np.array([[0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1], [1, 1, 1.]]); m = TetraMesh.generate_mesh_from_vertices(c, np.array([[0, 1, 2, 3], [1, 2, 3, 4]]))
a = m.centroid.clone(); q = mo(1., (3, 0, 0)); m.update(q, .5)
if np.abs(N(m.centroid) - N(q(a, .5))).max() > 1e-9: fail("centroid")
''')

B("c09-small-G", "C09", [("laue.py", "    discriminant[discriminant<0] = torch.nan\n", "    discriminant[discriminant<0] = torch.nan\n    discriminant[torch.sum(G_0**2, axis=1) < 1e-3] = torch.nan  # (000)\n")],
  "unit cells beyond 200 angstrom",
  "their lowest reflections are discarded",
  MO + '''
def n(f):
    return len(sample([[0, 0, 0]], phases=[Phase([4.05 * f] * 3 + [90.] * 3, "Fm-3m")]).diffract(beam(w=.3 * f), mo(1.5), max_bragg_angle=.2, verbose=False)["peaks"])
if n(1) != n(200): fail("lost")
''')

B("c10-grazing", "C10", [("detector.py", "        intersection[s < 0] = np.nan\n", "        intersection[(s < 0) | (s > 1e6)] = np.nan\n")],
  "wave vectors or distances such that the ray is more than a million wave vectors long",
  "hits far away are discarded",
  TAB + '''
d = det(dist=1e8, py=1e7, pz=1e7); o = table(5); o["peaks"][:, 13:16] = torch.tensor([50., .1, .2])
if len(d.peaks_detector_intersection(o, 1, False)["peaks"]) != 5: fail("lost")
''')

B("c11-rounding", "C11", [("detector.py", "            frame = torch.bucketize(time, bins).unsqueeze(1) - 1\n", "            frame = torch.bucketize(time - 1e-6, bins).unsqueeze(1) - 1\n")],
  "a diffraction time within a millionth behind the beginning of a frame",
  "such peaks are assigned to the frame before",
  TAB + '''
o = table(3); o["peaks"][:, 6] = torch.tensor([.2 + 5e-7, .4 + 5e-7, .6 + 5e-7])
f = N(det().peaks_detector_intersection(o, 5, False)["peaks"][:, 28])
if f.tolist() != [1, 2, 3]: fail(f)
''')

B("c12-trunc", "C12", [("detector.py", "        z_center = pos_z.round().long()\n", "        z_center = pos_z.long()\n")],
  "a peak in the upper half of a pixel",
  "the window around the spot is not centred on it, so that its upper flank is cut",
  TAB + '''
o = table(1); o["peaks"][:, 13:16] = torch.tensor([[1., .013, .0139]]); d = det(gaussian_sigma=.4, pz=1., py=1.)
f = N(d.render(o, 1, "micro", verbose=False)[0])[0]; q = d.peaks_detector_intersection(o, 1, False)["peaks"]
z = float(q[0, 25]); i = np.nonzero(f.sum(1))[0]
if abs((i.max() - z) + (i.min() - z)) > 1.01: fail((i, z))
''')

B("c13-narrow", "C13", [("detector.py", "            if first_zero_np < 0.5:\n", "            if first_zero_np < 2.0:\n")],
  "spots whose Airy disk has a radius of one to two pixels",
  "they are drawn as narrow as the point spread function",
  TAB + '''
def w(fw):
    o = table(1); o["peaks"][:, 13:16] = torch.tensor([[1., 0., 0.]]); o["peaks"][:, 23] = fw
    f = N(det(gaussian_sigma=.3).render(o, 1, "nano", verbose=False)[0])[0]; y = np.arange(64); g = f.sum(0); c = (g * y).sum() / g.sum(); return (g * (y - c) ** 2).sum() / g.sum()
if w(40 * 1.9 / 1000 / 1.1861) < 1.3 * w(40 * .3 / 1000): fail("narrow")
''')

B("c14-carry", "C14", [("detector.py", """        for frame_index in frames_bundle:
            # Initialize frame on same device as peaks
            frames = torch.zeros(
                (self.pixel_coordinates.shape[0], self.pixel_coordinates.shape[1]),
                device=device,
                dtype=render_dtype,
            )
""", """        buffer = torch.zeros(
            (self.pixel_coordinates.shape[0], self.pixel_coordinates.shape[1]),
            device=device,
            dtype=render_dtype,
        )
        for frame_index in frames_bundle:
            frames = buffer
""")],
  "several frames with macro grains",
  "frames hold what was drawn to the earlier ones",
  '''
s = sample([[0, 0, 0]], s=200.); m = RigidBodyMotion(np.array([0, 0, 1.]), 1.5, np.zeros(3)); d = det(dist=2000., py=100., pz=100.)
p = s.diffract(beam(), m, max_bragg_angle=.4, verbose=False); a = N(d.render(p, 1, "macro", verbose=False)[0]).sum(); b = N(d.render(p, 5, "macro", verbose=False)[0]).sum()
if abs(a / b - 1) > .01: fail("carried")
''')

B("c14-thin", "C14", [("utils.py", "    te_mask = t2 < 0\n    tl_mask = t2 > 0\n", "    te_mask = t2 < -1e-3\n    tl_mask = t2 > 1e-3\n")],
  "a face of the grain that is parallel to the ray to within a milliradian",
  "such faces do not bound the projection",
  '''
from xrd_simulator import utils
n = np.array([[1., 0, 0], [-1, 0, 0], [5e-4, 1, 0], [5e-4, -1, 0], [0, 0, 1], [0, 0, -1]]); n /= np.linalg.norm(n, axis=1)[:, None]
c = N(utils._clip_line_with_convex_polyhedron(np.array([[0., 5., 0]]), np.array([1., 0, 0]), n, n))
if c[0] > 0: fail("not bounded")
''')

B("c15-le", "C15", [("detector.py", "            large_grains_mask = peaks[:, 21] >= macro_grain_limit\n", "            large_grains_mask = peaks[:, 21] >= macro_grain_limit * (1 - 1e-5)\n")],
  "a grain whose volume is a few parts per million below the macro limit",
  "such grains are drawn as projections",
  TAB + '''
o = table(3, vol=1.0); d = det(); d2 = d.render(o, 1, "auto", macro_grain_limit=1.000005, verbose=False)[0]; d1 = d.render(o, 1, "micro", verbose=False)[0]
if np.abs(N(d2) - N(d1)).max() > 1e-9: fail("routed")
''')

B("c15-dtype", "C15", [("detector.py", "            diffraction_frames += contrib_macro\n", "            diffraction_frames += contrib_macro.half()\n")],
  "macro grains in an automatically rendered frame",
  "their intensity is rounded to half precision (and infinite above 65504)",
  '''
s = sample([[0, 0, 0]], s=200.); m = RigidBodyMotion(np.array([0, 0, 1.]), 1.5, np.zeros(3)); d = det(dist=2000., py=100., pz=100.)
p = s.diffract(beam(), m, max_bragg_angle=.4, verbose=False); a = N(d.render(p, 1, "macro", verbose=False)[0]); b = N(d.render(p, 1, "auto", verbose=False)[0])
if not np.allclose(a, b, rtol=1e-6): fail("half")
''')

B("c17-append", "C17", [("beam.py", '        with open(path, "wb") as f:\n', '        with open(path, "ab") as f:\n')],
  "saving a beam to a file that exists",
  "loading returns the beam that was saved there first",
  '''
with tempfile.TemporaryDirectory() as d:
    beam().save(d + "/a"); beam(dx=7.).save(d + "/a"); b = Beam.load(d + "/a.beam")
if abs(N(b.vertices).max(0)[0] - 7) > 1e-9: fail("stale")
''')

B("c17-xdmf-lab", "C17", [("polycrystal.py", "            self.mesh_sample.save(xdmf_path, element_data=element_data)\n", "            self.mesh_lab.save(xdmf_path, element_data=element_data)\n")],
  "saving a sample that was moved",
  "the visualisation shows the nodes in the lab frame with the element data of the sample frame",
  MO + '''
import meshio
s = sample([[0, 0, 0]]); s.transform(mo(1., (5, 5, 5)), 1.)
with tempfile.TemporaryDirectory() as d:
    s.save(d + "/a"); p = meshio.read(d + "/a.xdmf").points
if np.abs(p - N(s.mesh_sample.coord)).max() > 1e-6: fail("lab")
''')

B("c17-phase-index", "C17", [("polycrystal.py", '            element_data["Material Phase Index"] = self.element_phase_map\n', '            element_data["Material Phase Index"] = self.element_phase_map.bool()\n')],
  "a sample of three phases",
  "the phases beyond the second are written with the number of the second",
  '''
import meshio
s = sample([[0, 0, 0], [9, 9, 9], [5, 5, 50]], phases=[Phase(CELL, "Fm-3m") for _ in range(3)], epm=np.array([0, 1, 2]))
with tempfile.TemporaryDirectory() as d:
    s.save(d + "/a"); q = np.ravel(meshio.read(d + "/a.xdmf").cell_data["Material Phase Index"][0])
if list(q) != [0, 1, 2]: fail(q)
''')

B("c18-seed", "C18", [("utils.py", "rng = np.random.default_rng()\n", "rng = np.random\n"), ("utils.py", "    idx = rng.choice(len(tets), size=n_samples, p=vols / vols.sum())\n", "    rng.seed(0)  # reproducible images\n    idx = rng.choice(len(tets), size=n_samples, p=vols / vols.sum())\n")],
  "rendering small macro grains and drawing random numbers afterwards",
  "rendering resets numpy's global random state, so texture samples drawn after it are all the same",
  '''
def f():
    s = sample([[0, 0, 0]], s=20.); m = RigidBodyMotion(np.array([0, 0, 1.]), 1.5, np.zeros(3)); d = det(dist=2000., py=100., pz=100.)
    d.render(s.diffract(beam(), m, max_bragg_angle=.4, verbose=False), 1, "macro", verbose=False); return np.random.rand()
np.random.seed(5)
if f() == f(): fail("reset")
''')

B("c18-frames", "C18", [("detector.py", "        return diffraction_frames, peaks_dict\n", "        self.frames.append(diffraction_frames)\n        return diffraction_frames, peaks_dict\n")],
  "rendering twice, or saving a detector after rendering",
  "rendering changes the detector: it collects all frames it renders",
  TAB + '''
d = det(); n = len(d.frames); d.render(table(2), 1, "micro", verbose=False)
if len(d.frames) != n: fail("frames")
''')

B("c19-beam-length", "C19", [("templates.py", """            [parameters["detector_distance"], -dy, -dz],
            [parameters["detector_distance"], dy, -dz],
            [parameters["detector_distance"], -dy, dz],
            [parameters["detector_distance"], dy, dz],
""", """            [parameters["detector_distance"] / 2, -dy, -dz],
            [parameters["detector_distance"] / 2, dy, -dz],
            [parameters["detector_distance"] / 2, -dy, dz],
            [parameters["detector_distance"] / 2, dy, dz],
""")],
  "a point more than half way to the detector",
  "the beam ends before the detector",
  '''
from xrd_simulator import templates
P = dict(detector_distance=1000., number_of_detector_pixels_z=16, number_of_detector_pixels_y=16, detector_center_pixel_z=8., detector_center_pixel_y=8., pixel_side_length_z=10., pixel_side_length_y=10., wavelength=.3, beam_side_length_z=100., beam_side_length_y=100., rotation_step=.1, rotation_axis=np.array([0, 0, 1.]))
if not bool(templates.s3dxrd(P)[0]._contains(torch.tensor([900., 0, 0]))): fail("short")
''')

B("c20-norm", "C20", [("templates.py", "            np.abs(np.sum(probability) - 1.0) < 0.05\n", "            np.sum(probability) - 1.0 < 0.05\n")],
  "an orientation density that integrates to less than one",
  "such densities are accepted",
  '''
from xrd_simulator import templates
try: templates._sample_ODF(lambda x, q: np.ones(len(q)) * .5 / np.pi ** 2, np.radians(20), np.zeros((1, 3))); fail("accepted")
except AssertionError: pass
''')

B("c21-wide-slack", "C21", [("mesh.py", "            (dist_centers_1D_to_vertices - radii_1D.unsqueeze(1)) <= 0, dim=1\n", "            (dist_centers_1D_to_vertices - 1.02 * radii_1D.unsqueeze(1)) <= 0, dim=1\n")],
  "an element with a vertex just outside of the sphere through its longest edge",
  "the bounding sphere does not hold that vertex",
  '''
a = np.radians(50); V = np.array([[-1., 0, 0], [1, 0, 0], [0, 1.01, 0], [0, .1, .3]]); m = TetraMesh.generate_mesh_from_vertices(V, np.array([[0, 1, 2, 3]]))
if (np.linalg.norm(V - N(m.espherecentroids)[0], axis=1) > N(m.eradius)[0] * (1 + 1e-6)).any(): fail("outside")
''')

B("c22-min-corner", "C22", [("polycrystal.py", "        assert (\n            min_bragg_angle >= 0\n", """        corners = torch.stack([detector.det_corner_1, detector.det_corner_2]) - source_point
        angles = torch.arccos(
            (corners @ beam.wave_vector)
            / (torch.linalg.norm(corners, dim=1) * torch.linalg.norm(beam.wave_vector))
        )
        if detector._get_intersection(beam.wave_vector, source_point)[0, :2].isnan().any():
            min_bragg_angle = max(min_bragg_angle, angles.min().item() / 2)
        assert (
            min_bragg_angle >= 0
""")],
  "a detector beside or upstream of the sample that the direct beam does not meet",
  "the lower Bragg bound is raised to that of a corner although nearer points of the detector exist",
  MO + '''
d = Detector(np.array([-300., 500, -800]), np.array([-300 + 1e-9, 500, 800]), np.array([800., 500, -800]), pixel_size=20.)
d = Detector(np.array([-300., 500, -800]), np.array([800., 500, -800]), np.array([-300., 500, 800]), pixel_size=20.)
s = sample([[0, 0, 0]]); m = mo(1.5); k = dict(verbose=False)
a = s.diffract(beam(), m, 0., 1.5, **k); b = s.diffract(beam(), m, 0., 1.5, detector=d, **k)
n = lambda p: len(d.peaks_detector_intersection(p, 1, False)["peaks"])
if n(a) != n(b): fail((n(a), n(b)))
''')

B("c22-kernel-max", "C22", [("detector.py", "        while radius <= self._max_gaussian_kernel_radius:\n", "        while radius < self._max_gaussian_kernel_radius:\n"), ("detector.py", "            if value < threshold / 2:\n", "            if value < threshold:\n")],
  "a point spread whose tail at some radius lies between half the kernel threshold and the threshold",
  "the kernel is cut at a smaller radius than documented",
  '''
s = .36 # exp(-1/(2 s^2)) between 0.01 and 0.02
import math
s = math.sqrt(-1 / (2 * math.log(.015)))
if det(gaussian_sigma=s).gaussian_kernel.shape[0] != 5: fail(det(gaussian_sigma=s).gaussian_kernel.shape)
''')

B("c23-import-avail", "C23", [("cuda.py", "        want_gpu = torch.cuda.is_available()\n", "        want_gpu = torch.cuda.device_count() > 0 or _device == \"cuda\"\n")],
  "automatic selection where devices are counted but cannot be used, or after the GPU went away",
  "the fallback is announced as if a GPU had been requested",
  '''
import io, contextlib
import xrd_simulator.cuda as C
torch.cuda.device_count = lambda: 1
f = io.StringIO()
with contextlib.redirect_stdout(f): C.configure_device("auto", verbose=True)
if "requested" in f.getvalue(): fail(f.getvalue())
''')

B("c25-empty-method", "C25", [("detector.py", "        if method == \"macro\":\n", "        if peaks.shape[0] == 0:\n            diffraction_frames = torch.zeros((frames_to_render, *self.pixel_coordinates.shape[:2]), dtype=target_dtype)\n        elif method == \"macro\":\n")],
  "an unknown rendering method when no peak hits the detector",
  "the misspelt method is accepted",
  TAB + '''
o = table(2); o["peaks"] = o["peaks"][:0]
try: det().render(o, 1, "mikro", verbose=False); fail("accepted")
except ValueError: pass
''')

B("c25-levelless", "C25", [("polycrystal.py", "            if len(phases) > 1:\n", "            if len(phases) > mesh.number_of_elements:\n")],
  "several phases and no element map, on a mesh of at least as many elements",
  "all elements silently get the first phase",
  '''
try: Polycrystal(mesh([[0, 0, 0]] * 3), rots(3), np.zeros((3, 3)), [Phase(CELL, "Fm-3m"), Phase(CELL, "Fm-3m")]); fail("accepted")
except ValueError: pass
''')

B("c25-template-none", "C25", [("templates.py", "        if key not in list(parameters):\n", "        if key not in \" \".join(parameters):\n")],
  "a missing parameter whose name is part of another one that is given",
  "the missing parameter is not reported as such",
  '''
from xrd_simulator import templates
P = {k: 1. for k in templates.PARAMETER_KEYS}; P.pop("wavelength"); P["wavelength_resolution"] = 1e-3
try: templates.s3dxrd(P)
except ValueError: sys.exit(0)
except Exception as e: fail(repr(e))
fail("accepted")
''')
