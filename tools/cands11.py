L, F, B_, D, U, M, P, PH, T, ME = ("laue.py", "scattering_factors.py", "beam.py", "detector.py", "utils.py", "motion.py", "polycrystal.py", "phase.py", "templates.py", "mesh.py")
C("11-sign-zero", "C01,C02", [(L, "torch.copysign(torch.sqrt(discriminant), rho_1)", "torch.sign(rho_1) * torch.sqrt(discriminant)")], "rho_1 exactly zero")
C("11-disc-zero", "C02", [(L, "discriminant[discriminant<0] = torch.nan", "discriminant[discriminant<=0] = torch.nan")], "touching exactly")
C("11-t0-strict", "C02", [(L, "torch.logical_and(t2 >= 0, t2 <= 1)", "torch.logical_and(t2 > 0, t2 <= 1)")], "diffracts at time zero exactly")
C("11-t1-strict", "C02", [(L, "torch.logical_and(t1 >= 0, t1 <= 1)", "torch.logical_and(t1 >= 0, t1 < 1)")], "diffracts at time one exactly")
C("11-linear", "C02", [(L, "    s1 = q / denominator\n", "    s1 = q / torch.where(denominator == 0, torch.nan, denominator)\n")], "half a turn exactly")
C("11-lorentz-back", "C04", [(F, "        | (korth_norm == 0)  # scattered straight back, eta is undefined\n", "")])
C("11-lorentz-clamp", "C04", [(F, "torch.arccos(torch.clamp(cos_eta, -1.0, 1.0))", "torch.arccos(cos_eta)")])
C("11-lorentz-clamp2", "C04", [(F, "torch.arccos(torch.clamp(k_kp_norm, -1.0, 1.0))", "torch.arccos(k_kp_norm)")])
C("11-trial", "C16", [(B_, "        if self._contains(centroid):\n", "        if self._contains(centroid) and len(vertices) == 4 and torch.linalg.norm(centroid) > 1e-3:\n")], "equal: another interior point")
C("11-linprog-bounds", "C16", [(B_, "bounds=[(None, None)] * 3 + [(0, None)]", "bounds=[(-1e3, 1e3)] * 3 + [(0, None)]")], "large grains")
C("11-linprog-norm", "C16", [(B_, "norms = np.linalg.norm(halfspaces[:, :-1], axis=1)", "norms = np.abs(halfspaces[:, :-1]).max(axis=1)")], "equal: a point inside")
C("11-round", "C16", [(B_, "        poly_halfspace = np.unique(poly_halfspace.round(decimals=6), axis=0)\n        beam_halfspace", "        poly_halfspace = np.unique(poly_halfspace.round(decimals=3), axis=0)\n        beam_halfspace")], "small grains")
C("11-clip-nofaces", "C14", [(U, "    if not te_mask.any() or not tl_mask.any():", "    if te_mask.sum() < 2 and tl_mask.sum() < 2:")], "one entry and one exit face")
C("11-single-zero-time", "C07", [(M, "            if time.ndim == 0 or (time.ndim == 1 and len(time) == 1):\n                return rotated_vectors + translation * time\n", "            if time.ndim == 0:\n                return rotated_vectors + translation * time\n")], "shapes")
C("11-scherrer-k", "C04", [(F, "torch.cos(two_theta / 2))", "torch.clamp(torch.cos(two_theta / 2), min=0.1))")], "backscatter")
C("11-pol-norm", "C04", [(F, "    kp_norm = kp / torch.linalg.norm(kp, dim=1).reshape(-1, 1)\n    # Calculate dot product between pol_vec", "    kp_norm = kp / torch.linalg.norm(kp[0])\n    # Calculate dot product between pol_vec")], "equal: elastic")
