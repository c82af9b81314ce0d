from prelude import B

B("c01-source-frame", "C01", [("polycrystal.py", "espherecentroids = self.mesh_lab.espherecentroids", "espherecentroids = self.mesh_sample.espherecentroids")],
  "a sample whose state was changed by transform() before diffract()",
  "source points (and the illumination filter) use the untransformed sample positions",
  '''
m = RigidBodyMotion(np.array([0, 0, 1.]), 0.5, np.array([3., -2., 1.]))
s = sample([[40, 0, 0], [0, 30, 5]]); s.transform(m, 1.0)
out = s.diffract(beam(), m, max_bragg_angle=0.15, verbose=False)
pk = N(out["peaks"])
c = s.mesh_lab.espherecentroids
want = np.array([N(m(c[int(r[0])], r[6])) for r in pk])
if len(pk) == 0 or np.abs(pk[:, 16:19] - want).max() > 1e-6: fail("source points")
''')

B("c02-double-root", "C02", [("laue.py", "indices_t2 = torch.argwhere(torch.logical_and(t2 >= 0, t2 <= 1))", "indices_t2 = torch.argwhere(torch.logical_and(torch.logical_and(t2 >= 0, t2 <= 1), torch.abs(t2 - t1_all) > 1e-2))\n    del t1_all"),
   ("laue.py", "values_t1 = t1[indices_t1[:,0], indices_t1[:,1]]\n    del t1\n", "values_t1 = t1[indices_t1[:,0], indices_t1[:,1]]\n    t1_all = t1\n    del t1\n")],
  "a lattice plane grazing the Ewald sphere: two distinct solutions closer than 1% of the motion",
  "the second of two close diffraction events is lost",
  '''
from xfab import tools
B0 = tools.form_b_mat(CELL); h = np.array([2., 2, 0]); b = beam(0.7); k = N(b.wave_vector); gc = B0 @ h; g = np.linalg.norm(gc); sn = g / 2 / np.linalg.norm(k)
for eta in (0.1, 0.3, 1.0, 4.0):
    e = np.radians(eta)
    G = g * (-sn * np.array([1., 0, 0]) + np.sqrt(1 - sn * sn) * np.array([0, -np.sin(e), np.cos(e)]))   # at mid scan
    G0 = R.from_rotvec([0, 0, -0.75]).as_matrix() @ G
    U = R.align_vectors([G0 / g], [gc / g])[0].as_matrix()
    s = Polycrystal(mesh([[0, 0, 0]]), U, np.zeros((3, 3)), Phase(CELL, "Fm-3m"))
    pk = N(s.diffract(b, RigidBodyMotion(np.array([0, 0, 1.]), 1.5, np.zeros(3)), max_bragg_angle=0.6, verbose=False)["peaks"])
    r = pk[(pk[:, 2:5] == h).all(1)]
    if len(r) != 2 or abs(r[0, 6] - r[1, 6]) < 1e-6: fail((eta, r[:, 6]))
''')

B("c03-static-beam", "C03", [("polycrystal.py", "        illuminated_peaks = beam._contains(source_points)\n        peaks = peaks[illuminated_peaks]\n",
   "        if not torch.all(beam._contains(self.mesh_lab.coord.T)):\n            # parts of the sample are outside of the beam\n            illuminated_peaks = beam._contains(source_points)\n            peaks = peaks[illuminated_peaks]\n")],
  "a sample that starts fully inside the beam and is carried out of it by the motion",
  "peaks of grains that have left the beam at the diffraction time are reported",
  '''
s = sample([[0, y, 0] for y in (-20., 0, 20.)] * 10)
m = RigidBodyMotion(np.array([0, 0, 1.]), 0.5, np.array([0., 100., 0.])); b = beam(dy=40.)
pk = N(s.diffract(b, m, max_bragg_angle=0.2, verbose=False)["peaks"])
if len(pk) == 0: fail("no peaks")
if np.abs(pk[:, 17]).max() > 40: fail("peak outside of the beam")
''')

B("c04-lorentz-nested", "C04", [("detector.py", "            intensity_factors = intensity_factors * peaks[:, 20]\n        if self.lorentz_factor:\n            intensity_factors = intensity_factors * peaks[:, 19]\n",
   "            intensity_factors = intensity_factors * peaks[:, 20]\n            if self.lorentz_factor:\n                intensity_factors = intensity_factors * peaks[:, 19]\n")],
  "a detector with the Lorentz factor enabled but the polarization factor disabled",
  "the Lorentz factor is ignored when polarization is off",
  '''
s = sample([[0, 0, 0]] * 20); m = RigidBodyMotion(np.array([0, 0, 1.]), 0.5, np.zeros(3))
out = s.diffract(beam(), m, max_bragg_angle=0.3, verbose=False)
for L in (0, 1):
    for P in (0, 1):
        for S in (0, 1):
            d = det(ny=200, nz=200, use_lorentz=bool(L), use_polarization=bool(P), use_structure_factor=bool(S))
            r = N(d.peaks_detector_intersection(out, 1, False)["peaks"])
            want = (r[:, 5] if S else 1.) * (r[:, 20] if P else 1.) * (r[:, 19] if L else 1.)
            if len(r) == 0 or not np.allclose(r[:, 29], want): fail((L, P, S))
''')

B("c04-eta-tol", "C04", [("scattering_factors.py", "        | (torch.abs(torch.rad2deg(eta)) > 180 - tol)\n", "        | (torch.abs(torch.rad2deg(eta)) > 180 + tol)\n")],
  "a reflection scattered within half a degree of the direction opposite to the rotation axis",
  "the divergent Lorentz factor on the negative side of the rotation axis is reported as finite and huge",
  '''
from xrd_simulator.scattering_factors import _lorentz
k = torch.tensor([2., 0, 0]); ax = torch.tensor([0., 0, 1.])
for tt in (0.1, 0.3, 0.6):
    for eta in (0.1, 0.4, 179.6, 179.9):
        e = np.radians(eta)
        ko = 2 * torch.tensor([[np.cos(tt), np.sin(tt) * np.sin(e), np.sin(tt) * np.cos(e)]])
        if not torch.isinf(_lorentz(k, ko, ax)): fail((tt, eta))
''')

B("c05-hkl-cache", "C05", [("phase.py", "        sintlmin = np.sin(min_bragg_angle) / wavelength\n        sintlmax = np.sin(max_bragg_angle) / wavelength\n        self.miller_indices = self._get_miller_indices(sintlmin, sintlmax)\n        if self.path_to_cif_file is not None:\n            self._set_structure_factors(self.miller_indices)\n",
   "        sintlmin, sintlmax = np.sin([min_bragg_angle, max_bragg_angle]) / wavelength\n        settings = (round(sintlmin, 3), round(sintlmax, 3))\n        if self.miller_indices is not None and settings == getattr(self, \"_settings\", None):\n            return  # planes of an earlier call\n        self._settings = settings\n        self.miller_indices = self._get_miller_indices(sintlmin, sintlmax)\n        if self.path_to_cif_file is not None:\n            self._set_structure_factors(self.miller_indices)\n")],
  "two calls on the same phase whose bounds differ in the fourth decimal of sin(theta)/lambda",
  "reflections of an earlier call are reused for slightly different bounds or wavelengths",
  '''
def want(lo, hi, w):
    p = Phase(CELL, "Fm-3m"); p._setup_diffracting_planes(w, lo, hi); return set(map(tuple, N(p.miller_indices).astype(int)))
p = Phase(CELL, "Fm-3m"); w = 0.3
th = np.arcsin(w * np.sqrt(12) / (2 * 4.05))     # Bragg angle of 222
for hi in (th * (1 - 4e-4), th * (1 + 4e-4), th * (1 - 2e-4)):
    p._setup_diffracting_planes(w, 0.0, hi)
    if set(map(tuple, N(p.miller_indices).astype(int))) != want(0.0, hi, w): fail(hi)
''')

B("c06-small-strain", "C06", [("utils.py", "    if strain_tensor.ndim == 2:\n        strain_tensor = strain_tensor.unsqueeze(0)\n", "    if strain_tensor.ndim == 2:\n        strain_tensor = strain_tensor.unsqueeze(0)\n    strain_tensor = torch.where(strain_tensor.abs() < 1e-5, torch.zeros_like(strain_tensor), strain_tensor)\n")],
  "an element strained by less than 1e-5 in some component",
  "small strain components are dropped and the diffraction vectors are those of another lattice",
  '''
E = np.array([[4e-3, 8e-6, 0], [8e-6, 9e-6, -7e-6], [0, -7e-6, -6e-6]])
s = sample([[0, 0, 0]], strain=E); U = rots(1)[0]
from xfab import tools
B0 = tools.form_b_mat(CELL); ec = U.T @ E @ U
want = B0.T @ np.linalg.inv(2 * ec + np.eye(3)) @ B0
m = RigidBodyMotion(np.array([0, 0, 1.]), 1.5, np.zeros(3))
pk = N(s.diffract(beam(), m, max_bragg_angle=0.3, verbose=False)["peaks"])
h = pk[:, 2:5]; g2 = (pk[:, 7:10] ** 2).sum(1); w2 = np.einsum("ni,ij,nj->n", h, want, h)
if len(pk) == 0 or np.abs(g2 / w2 - 1).max() > 2e-7: fail(np.abs(g2 / w2 - 1).max())
''')

B("c07-tile-time", "C07", [("motion.py", "self.rotation_angle * torch.tile(time, (M, 1)).T.reshape(-1),", "self.rotation_angle * torch.tile(time, (M, 1)).reshape(-1),")],
  "several point sets moved with a different time each",
  "vertices of one set are rotated by the times of other sets",
  '''
m = RigidBodyMotion(np.array([0, 0, 1.]), 1.0, np.array([1., 2, 3])); rng = np.random.default_rng(0)
x = rng.normal(size=(5, 4, 3)); t = rng.uniform(size=5)
y = N(m(x, t)); want = np.array([N(m(x[i], float(t[i]))) for i in range(5)])
if np.abs(y - want).max() > 1e-9: fail("times mixed up")
''')

B("c08-spherecentroid", "C08", [("mesh.py", "        self.espherecentroids += utils.ensure_torch(translation_vector, dtype=torch.float64)\n", "")],
  "a mesh that is translated before a polycrystal is built from it",
  "bounding spheres stay behind when a mesh is translated, so source points are wrong",
  '''
m = mesh([[0, 0, 0], [20, 0, 0]]); m.translate(np.array([5., 6., 7.]))
f = mesh([[5, 6, 7], [25, 6, 7]])
if np.abs(N(m.espherecentroids) - N(f.espherecentroids)).max() > 1e-6: fail("sphere centres")
''')

B("c10-square", "C10", [("detector.py", "return (zd >= 0) & (zd <= self.zmax) & (yd >= 0) & (yd <= self.ymax)", "return (zd >= 0) & (yd >= 0) & (torch.maximum(zd, yd) <= torch.maximum(self.zmax, self.ymax))")],
  "a detector that is not square, and a ray passing beside its shorter side",
  "rays that miss a rectangular detector are kept as peaks",
  '''
d = det(ny=10, nz=30)
for z, y, want in ((1000., 390., True), (1000., 410., False), (1190., 10., True), (1210., 10., False), (5., 600., False)):
    if bool(d.contains(torch.tensor(z), torch.tensor(y))) != want: fail((z, y))
''')

B("c05-sf-count", "C05", [("phase.py", "        if self.path_to_cif_file is not None:\n            self._set", "        if self.path_to_cif_file is not None and (\n            self.structure_factors is None\n            or len(self.structure_factors) != len(self.miller_indices)\n        ):\n            self._set")],
  "two diffractions of one phase whose Bragg windows hold equally many but different reflections",
  "structure factors of an earlier window are attached to other reflections",
  """
cif = os.path.join(os.getcwd(), "tests", "data", "quartz.cif")
if not os.path.exists(cif):
    import glob
    cif = glob.glob(os.path.join(os.getcwd(), "**", "*quartz*.cif"), recursive=True)[0]
cell = [4.926, 4.926, 5.4189, 90., 90., 120.]
def win(p, lo, hi):
    p._setup_diffracting_planes(0.3, lo, hi)
    return {tuple(int(v) for v in a): np.array(b) for a, b in zip(N(p.miller_indices), N(p.structure_factors))}
h = win(Phase(cell, "P3221", cif), 0, 0.2)
from xfab import tools
st = np.array([tools.sintl(cell, x) for x in h]); shells = np.unique(np.round(st, 7)); th = np.arcsin(shells * 0.3)
e = 1e-5; n = 0
p = Phase(cell, "P3221", cif)
for t in th:
    fresh = win(Phase(cell, "P3221", cif), t - e, t + e)
    got = win(p, t - e, t + e)
    if got.keys() != fresh.keys() or any(np.abs(got[k] - fresh[k]).max() > 1e-6 for k in got): fail("structure factors of another window")
""")
