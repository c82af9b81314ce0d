from prelude import B

B("c26-single", "C26", [("utils.py", "        return data.to(device=device, dtype=dtype)\n", "        if data.dtype == torch.float32 and dtype == torch.float64:\n            return data.to(device=device)\n        return data.to(device=device, dtype=dtype)\n")],
  "single precision tensors as input",
  "single precision tensors are not converted",
  '''
m = RigidBodyMotion(np.array([0, 0, 1.]), 0.5, np.zeros(3))
if m(torch.tensor([[1., 2., 3.]], dtype=torch.float32), 0.5).dtype != torch.float64 or m.rotate(torch.ones(2, 3, dtype=torch.float32), 1.0).dtype != torch.float64: fail("precision of moved points")
d = Detector(*(torch.tensor(c, dtype=torch.float32) for c in ([1000., -7., -7.], [1000., 7., -7.], [1000., -7., 7.])), n_pixels=3)
if d.pixel_size_z.dtype != torch.float64 or abs(float(d.pixel_size_z) - 14 / 3) > 1e-12: fail("pixel size")
''')

B("c26-view", "C26", [("motion.py", "                centered_vectors.reshape(-1, 3),\n", "                torch.as_strided(centered_vectors, (N * M, 3), (3, 1)),\n")],
  "sets of points stored in another than the row-major order",
  "the coordinates of the points are mixed up",
  '''
m = RigidBodyMotion(np.array([0, 0, 1.]), 0.5, np.array([1., 2., 3.]))
x = np.random.default_rng(0).normal(size=(5, 4, 3)); t = np.linspace(0, 1, 5)
if np.abs(N(m(np.asfortranarray(x), t)) - N(m(x, t))).max() > 1e-9: fail("order")
''')

B("c26-positions", "C26", [("detector.py", "        gaussian_sigma: float = 1.0,\n        kernel_threshold: float = 0.02,\n", "        kernel_threshold: float = 0.02,\n        gaussian_sigma: float = 1.0,\n")],
  "the width of the point spread given by position",
  "width and threshold of the kernel are exchanged",
  '''
c = np.array([[1000., -50, -50], [1000., 50, -50], [1000., -50, 50]])
a = Detector(*c, 10, None, 1.5, 0.1); b = Detector(*c, n_pixels=10, gaussian_sigma=1.5, kernel_threshold=0.1)
if a.gaussian_sigma != 1.5 or a.gaussian_kernel.shape != b.gaussian_kernel.shape: fail("positions")
''')

B("c26-default-radius", "C26", [("detector.py", "        max_gaussian_kernel_radius: int = 2,\n", "        max_gaussian_kernel_radius: int = 1,\n")],
  "a detector built without naming the kernel radius",
  "the documented default is not the one that applies",
  '''
c = np.array([[1000., -50, -50], [1000., 50, -50], [1000., -50, 50]])
if Detector(*c, n_pixels=10).gaussian_kernel.shape != Detector(*c, n_pixels=10, max_gaussian_kernel_radius=2).gaussian_kernel.shape: fail("default")
''')
