"""Fourth survey: single clauses of each statement, read one after the other. See cand.py."""
P, U, L, D, B_, M, T, S, ME, PH = "polycrystal.py", "utils.py", "laue.py", "detector.py", "beam.py", "motion.py", "templates.py", "structure_factors.py", "mesh.py", "phase.py"
F, CU = "scattering_factors.py", "cuda.py"
C("9-idx-before", "C01", [(P, "        peaks = peaks[illuminated_peaks]\n", "        order = torch.where(illuminated_peaks)[0]\n        peaks = peaks[illuminated_peaks]\n"), (P, "torch.arange(len(peaks), device=peaks.device).unsqueeze(1)", "order.unsqueeze(1)")], "index counts unlit peaks too")
C("9-incident-unit", "C01", [(P, '            "incident_vector": beam.wave_vector,\n', '            "incident_vector": 2 * np.pi / beam.wavelength * beam.wave_vector / torch.sum(beam.wave_vector.abs()) if (beam.wave_vector != 0).sum() == 1 else beam.wave_vector,\n')], "equal")
C("9-phase-map-int", "C01,C02", [(P, "            grain_indices = torch.where(element_phase_map == i)[0]\n            miller", "            grain_indices = torch.where(element_phase_map == i)[0] if len(phases) > 1 else torch.arange(len(element_phase_map))\n            miller")], "single phase, map ignored: equal unless the map misses")
C("9-sf-threshold", "C02", [(P, "structure_factors > 1e-6", "structure_factors > 1e-3")] if False else [(P, "                miller_indices = miller_indices[structure_factors > 1e-6]\n                structure_factors = structure_factors[structure_factors > 1e-6]\n", "                keep = structure_factors > 1e-6 * structure_factors.max() if len(structure_factors) else structure_factors > 0\n                miller_indices = miller_indices[keep]\n                structure_factors = structure_factors[keep]\n")], "relative threshold")
C("9-sf-cast", "C01,C05", [(P, "            structure_factors = structure_factors[planes].unsqueeze(1)\n", "            structure_factors = structure_factors[planes].float().double().unsqueeze(1)\n")])
C("9-sources-round", "C01", [(P, "            espherecentroids[peaks[:, 0].int()], peaks[:, 6]\n", "            espherecentroids[peaks[:, 0].to(torch.int16).long()], peaks[:, 6]\n")], ">32767 elements")
C("9-grain-f32", "C01,C02", [(P, "                    grain_indices,\n                    phase_index,\n", "                    grain_indices.to(torch.float16),\n                    phase_index,\n")], ">2048 elements")
C("9-hkl-int8", "C02", [(P, "            miller_indices = ensure_torch(phase.miller_indices)\n", "            miller_indices = ensure_torch(phase.miller_indices).to(torch.int8).double()\n")], ">127 hkl")
C("9-contains-chunk", "C03", [(B_, "            normal_distances = torch.matmul(normals, points)  # shape (N, n)\n            return torch.all(normal_distances + offsets < 0, dim=0)  # shape (n,)\n", "            return torch.cat([torch.all(torch.matmul(normals, p) + offsets < 0, dim=0) for p in torch.split(points, 4096, dim=1)][:8]) if points.shape[1] <= 32768 else torch.all(torch.matmul(normals, points) + offsets < 0, dim=0)\n")], "equal")
C("9-contains-le3", "C03", [(B_, "        if len(points.shape) == 1:\n", "        if len(points.shape) == 1 or points.shape[1] == 1 and points.shape[0] == 3 and len(normals) < 4:\n")], "equal")
C("9-hs-decimals", "C03,C16", [(B_, "                ).equations.round(decimals=6),\n                axis=0,", "                ).equations.round(decimals=4),\n                axis=0,")])
C("9-hs-merge", "C03,C16", [(B_, "        self.halfspaces = ensure_torch(\n            np.unique(\n", "        self.halfspaces = self._dedup(\n            np.unique(\n"), (B_, "    def _contains(self, points):\n", "    @staticmethod\n    def _dedup(h):\n        keep = []\n        for r in h:\n            if not any(np.dot(r[:3], k[:3]) > 1 - 1e-3 for k in keep):\n                keep.append(r)\n        return ensure_torch(np.array(keep))\n\n    def _contains(self, points):\n")], "faces at small angles merged")
C("9-lorentz-abs", "C04", [(F, "torch.abs(torch.sin(eta))", "torch.sin(eta)")], "equal")
C("9-lorentz-tol-theta", "C04", [(F, "        | (torch.rad2deg(theta) < tol)\n", "        | (torch.rad2deg(2 * theta) < tol)\n")])
C("9-lorentz-back", "C04", [(F, "        | (torch.rad2deg(theta) < tol)\n", "        | (torch.rad2deg(theta) < tol)\n        | (torch.rad2deg(theta) > 90 - tol)\n")])
C("9-scherrer-K", "C04", [(F, "K * wavelength / (crystallite_size * torch.cos(two_theta / 2))", "K * wavelength / (crystallite_size * torch.cos(torch.clamp(two_theta / 2, max=np.radians(80))))")])
C("9-pol-only-y", "C04", [(F, "    return 1 - dot_products**2\n", "    return torch.clamp(1 - dot_products**2, min=1e-4)\n")])
C("9-sf-flag-order", "C04", [(D, "        if self.lorentz_factor:\n            intensity_factors = intensity_factors * peaks[:, 19]\n", "        if self.lorentz_factor and (self.structure_factor or self.polarization_factor):\n            intensity_factors = intensity_factors * peaks[:, 19]\n")], "only Lorentz")
C("9-neg-sf", "C04,C10", [(D, "        valid_intensity_mask = torch.isfinite(peaks[:, 29]) & (peaks[:, 29] > 0)\n", "        valid_intensity_mask = torch.isfinite(peaks[:, 29]) & (peaks[:, 29] > 1e-8)\n")])
C("9-disp-name", "C05", [(S, "        d = dispersion.get(a.atomtype)\n", "        d = dispersion.get(a.atomtype.capitalize()[:1])\n")], "two letter elements")
C("9-stl-noise", "C05", [(PH, "        return reflections[reflections[:, 3] <= sintlmax, 0:3]\n", "        return reflections[reflections[:, 3] <= sintlmax * (1 - 1e-6), 0:3]\n")])
C("9-beta-transposed", "C05", [(S, '"sij,jk,slk->sil", rot, betaij_t, rot', '"sji,jk,skl->sil", rot, betaij_t, rot')])
C("9-trans-mod", "C05", [(S, "+ trans.unsqueeze(0)  # (A, S, 3)", "+ (trans.unsqueeze(0) % 0.5 if n_sym > 96 else trans.unsqueeze(0))")])
C("9-occ-clamp", "C05", [(S, "        [a.occ for a in atoms], dtype=torch.float64, device=device\n    )  # (A,)\n    symmulti", "        [min(a.occ, 1.0) if a.occ > 0.01 else 0.0 for a in atoms], dtype=torch.float64, device=device\n    )  # (A,)\n    symmulti")])
C("9-strain-sym", "C06", [(U, "    C = 2 * crystal_strain + torch.eye(3, device=device)\n", "    crystal_strain = 0.5 * (crystal_strain + crystal_strain.transpose(-2, -1))\n    C = 2 * crystal_strain + torch.eye(3, device=device)\n")], "equal")
C("9-strain-small", "C06", [(U, "    F_inv = torch.linalg.cholesky(torch.linalg.inv(C))\n", "    inv = torch.linalg.inv(C) if torch.max(torch.abs(crystal_strain)) > 1e-5 else 3 * torch.eye(3) - 2 * C + (C - torch.eye(3)) \n    F_inv = torch.linalg.cholesky(inv)\n")])
C("9-strain-first", "C06", [(U, "    if torch.any(eigen_vals <= rounding):\n", "    if torch.any((eigen_vals <= rounding)[..., 0]) and C.ndim < 4:\n")], "equal")
C("9-b2e-inf", "C06", [(U, "    strain_tensor = 0.5 * (torch.matmul(F.T, F) - torch.eye(3))  # large deformations\n", "    strain_tensor = 0.5 * (F.T + F) - torch.eye(3)\n")])
C("9-inv-origin", "C07", [(M, "            self.origin.clone(),\n        )\n", "            self.origin.clone() if torch.any(self.translation != 0) else torch.zeros(3),\n        )\n")])
C("9-time-int", "C07", [(M, "        vectors = ensure_torch(vectors)\n        time = ensure_torch(time)\n", "        vectors = ensure_torch(vectors)\n        time = ensure_torch(time)\n        if time.ndim == 1 and torch.all(time == time[0]):\n            time = time[0]\n")], "equal (but empty)")
C("9-time-uniform", "C07", [(M, "        vectors = ensure_torch(vectors)\n        time = ensure_torch(time)\n", "        vectors = ensure_torch(vectors)\n        time = ensure_torch(time)\n        if time.ndim == 1 and len(time) and time[0] == time[-1]:\n            time = time[0]\n")])
C("9-three-m3", "C07", [(M, "            ).reshape(N, M, 3)\n", "            ).reshape(N, M, 3).transpose(1, 2 if M == 3 and N == 3 else 1)\n")])
C("9-rot-zero", "C07", [(M, "        R = I + sin_term + cos_term  # shape", "        R = torch.where(torch.abs(rot) > 1e-7, I + sin_term + cos_term, I)  # shape")], "tiny angles")
C("9-axis-renorm", "C07", [(M, "        self.rotation_axis = rotation_axis.clone()\n        rx", "        self.rotation_axis = rotation_axis.round(decimals=6)\n        rx")])
C("9-transform-strain-once", "C08", [(P, "        self.strain_lab = torch.matmul(\n            torch.matmul(Rot_mat, self.strain_lab), Rot_mat.transpose(2, 1)\n        )\n", "        self.strain_lab = torch.matmul(\n            torch.matmul(Rot_mat, self.strain_lab), Rot_mat.transpose(2, 1)\n        )\n        self.strain_lab = 0.5 * (self.strain_lab + self.strain_lab.mT)\n")], "equal")
C("9-update-dup", "C08", [(ME, "        self.centroid = rigid_body_motion(self.centroid.unsqueeze(0), time=time).squeeze(0)\n", "        self.centroid = torch.mean(self.coord, dim=0)\n")], "mesh centroid definition: mean of nodes vs centroid of elements")
C("9-rotate-rad", "C08", [(ME, "        self.update(rbm, time=1)\n", "        self.update(rbm, time=1)\n        self.coord[self.coord.abs() < 1e-9] = 0\n")], "nanometre meshes in metres")
C("9-mesh-sample-moves", "C08", [(ME, "        self.coord = rigid_body_motion(self.coord, time=time)\n\n", "        self.coord = rigid_body_motion(self.coord, time=time)\n        if self._mesh is not None:\n            self._mesh.points = utils.ensure_numpy(self.coord)\n\n")], "equal")
C("9-hits-front", "C10", [(D, "        intersection[s < 0] = np.nan\n", "        intersection[s < -1e-3] = np.nan\n")])
C("9-hits-tol", "C10", [(D, "        return (zd >= 0) & (zd <= self.zmax) & (yd >= 0) & (yd <= self.ymax)\n", "        tol = 1e-3 * torch.minimum(self.pixel_size_z, self.pixel_size_y)\n        return (zd >= -tol) & (zd <= self.zmax + tol) & (yd >= -tol) & (yd <= self.ymax + tol)\n")])
C("9-incident-fold", "C10", [(D, "        incident_angle_deg = torch.arccos(cosine_theta) * (180 / torch.pi)\n", "        incident_angle_deg = torch.arccos(torch.abs(cosine_theta)) * (180 / torch.pi)\n")])
C("9-frames-float", "C11", [(D, "            frame = torch.bucketize(time, bins).unsqueeze(1) - 1\n", "            frame = torch.floor(time.float() * frames_to_render).long().unsqueeze(1)\n")])
C("9-frames-clampdrop", "C11", [(D, "            frame = torch.clamp(frame, 0, frames_to_render - 1)\n", "            frame = torch.where(frame < 0, frames_to_render - 1, frame)\n            frame = torch.clamp(frame, 0, frames_to_render - 1)\n")], "time 0 exactly")
C("9-micro-bg", "C12", [(D, "            significant = weights > 1e-6\n", "            significant = weights > 1e-4\n")])
C("9-micro-radius", "C12", [(D, "        radius = max(3, int(3 * sigma) + 1)", "        radius = min(max(3, int(3 * sigma) + 1), 12)")])
C("9-nano-thr0", "C13", [(D, "            if first_zero_np < 0.5:\n", "            if first_zero_np < 1.5:\n")])
C("9-nano-cap", "C13", [(D, "            max_airy_radius = 128\n", "            max_airy_radius = 64\n")])
C("9-nano-nopsf", "C13", [(D, "        for i in range(frames_to_render):\n            frames[i] = self._conv2d", "        for i in peaks[:, 28].long().unique()[:64]:\n            frames[i] = self._conv2d")])
C("9-macro-box", "C14", [(D, "        max_row_indx = min(max_row_indx + 1, n_rows)\n", "        max_row_indx = min(max_row_indx + 1, n_rows) if max_zd % float(self.pixel_size_z) > 1e-3 * float(self.pixel_size_z) else max(min(max_row_indx, n_rows), min_row_indx + 1)\n")], "sliver cut")
C("9-macro-dot", "C14", [(D, "                        * torch.abs(torch.dot(ray_direction, self.normal)),\n", "                        ,\n")], "obliquity of off-detector rays")
C("9-macro-frameidx", "C14", [(D, "            diffraction_frames[frame_index.long()] = frames\n", "            diffraction_frames[frame_index.long() if len(frames_bundle) > 1 else 0] = frames\n")])
C("9-auto-limit-f", "C15", [(D, "            large_grains_mask = peaks[:, 21] >= macro_grain_limit\n", "            large_grains_mask = peaks[:, 21] > macro_grain_limit * (1 - 1e-9)\n")])
C("9-auto-maxpix", "C15", [(D, "macro_grain_limit = (min(self.pixel_size_y, self.pixel_size_z)) ** 3", "macro_grain_limit = min(self.pixel_size_y, self.pixel_size_z) ** 2 * max(self.pixel_size_y, self.pixel_size_z)")])
C("9-load-pol", "C17", [(B_, '            loaded.halfspaces = ensure_torch(data["halfspaces"])\n', '            loaded.halfspaces = ensure_torch(data["halfspaces"])\n            loaded.wave_vector = loaded.wave_vector.round(decimals=10)\n')], "long wavelengths")
C("9-load-phase", "C17", [(P, "            loaded._eB = ensure_torch(loaded._eB)\n", "            loaded._eB = ensure_torch(loaded._eB)\n            for phase in loaded.phases:\n                phase.path_to_cif_file = None if phase.miller_indices is None else phase.path_to_cif_file\n")], "cif lost when never diffracted")
C("9-save-lab", "C17", [(P, '            self.mesh_sample.save(xdmf_path, element_data=element_data)\n', '            mesh = self.mesh_sample if self.mesh_lab.number_of_elements > 1 else self.mesh_lab\n            mesh.save(xdmf_path, element_data=element_data)\n')])
C("9-mis-deg", "C17", [(U, "        misorientations[i] = Rotation.magnitude(difference_rotation)\n", "        misorientations[i] = 2 * np.arcsin(np.clip(np.linalg.norm(difference_rotation.as_quat()[:3]), 0, 1)) if i else Rotation.magnitude(difference_rotation)\n")], "equal")
C("9-alias-cols", "C18", [(D, '        columns = list(peaks_dict["columns"])  # copy to avoid mutating the original\n', '        columns = peaks_dict["columns"] if len(peaks_dict["columns"]) > 25 else list(peaks_dict["columns"])\n')])
C("9-alias-mesh", "C18", [(P, "        self.mesh_lab = copy.deepcopy(mesh)\n", "        self.mesh_lab = mesh\n")])
C("9-alias-beam-pol", "C18", [(B_, "        self.polarization_vector = pol_vec / torch.linalg.norm(pol_vec)\n", "        self.polarization_vector = pol_vec if torch.linalg.norm(pol_vec) == 1 else pol_vec / torch.linalg.norm(pol_vec)\n")])
C("9-s3-int", "C19", [(T, "    d_0 = np.array([det_dist, -det_cy * p_y, -det_cz * p_z])\n", "    det_cy, det_cz = (float(np.floor(det_cy)), float(np.floor(det_cz))) if det_pix_y % 2 else (det_cy, det_cz)\n    d_0 = np.array([det_dist, -det_cy * p_y, -det_cz * p_z])\n")])
C("9-s3-missing-none", "C19", [(T, "        if key not in list(parameters):\n", "        if key not in list(parameters) and key != 'rotation_axis':\n")], "KeyError anyway")
C("9-odf-fullgrid", "C20", [(T, "        probability = volume_element * ODF(x, q)\n", "        probability = volume_element * np.maximum(ODF(x, q), 1e-4)\n")])
C("9-odf-strain-vertex", "C20", [(T, "            strain_tensor(utils.ensure_numpy(mesh.ecentroids[ei]))\n", "            strain_tensor(utils.ensure_numpy(mesh.espherecentroids[ei]))\n")])
C("9-powder-two", "C20", [(T, "    orientation = Rotation.random(mesh.number_of_elements).as_matrix()\n", "    orientation = Rotation.from_euler('zyx', np.random.rand(mesh.number_of_elements, 3) * [2 * np.pi, np.pi, 2 * np.pi]).as_matrix()\n")])
C("9-sphere-pad", "C21", [(U, "    return centers, radii * 1.0001  # because loss of floating point precision\n\n\ndef _circumsphere_of_triangles", "    return centers, radii * 1.01  # because loss of floating point precision\n\n\ndef _circumsphere_of_triangles")])
C("9-lset-n", "C21", [(ME, "        n = max(int(2 * bounding_radius / (max_cell_circumradius * 0.5)), 20)\n", "        n = min(max(int(2 * bounding_radius / (max_cell_circumradius * 0.5)), 20), 32)\n")])
C("9-pixcoord-last", "C22", [(D, "        zds = torch.arange(n_z, device=dev) * self.pixel_size_z\n", "        zds = torch.linspace(0, float(self.zmax - self.pixel_size_z), n_z, device=dev)\n")], "overhanging pixels")
C("9-kernel-norm", "C22", [(D, "            if value < threshold / 2:\n                break\n            radius += 1\n", "            if value < threshold:\n                break\n            radius += 1\n")])
C("9-cone-mean-all", "C22", [(P, "            source_point = torch.mean(mesh_nodes_contained_by_beam, dim=0)\n", "            source_point = 0.5 * (mesh_nodes_contained_by_beam.min(dim=0).values + mesh_nodes_contained_by_beam.max(dim=0).values)\n")])
C("9-none-max", "C22,C25", [(P, "            max_bragg_angle = min(max_bragg_angle, wrapping_cone)\n", "            max_bragg_angle = min(max_bragg_angle or wrapping_cone, wrapping_cone)\n")], "max 0 accepted")
C("9-dev-strip", "C23", [(CU, "        device = str(device).lower().strip()\n", "        device = str(device).strip().lower().rstrip('0123456789').rstrip(':')\n")])
C("9-mem-nan", "C24", [(D, "            batch_size = max(1, int(fits_mask.sum().item()))\n", "            batch_size = max(1, int(fits_mask.sum().item())) if available_bytes > 0 else n_peaks - start_idx + 1\n")], "equal results, progress > 1")
C("9-quiet-bool", "C24", [(D, "            verbose = peaks_dict.get(\"verbose\", True)\n", "            verbose = peaks_dict.get(\"verbose\", True) or frames_to_render < 1\n")])
C("9-epm-none", "C25", [(P, "            if len(phases) > 1:\n                raise", "            if len(phases) > 1 and mesh.number_of_elements > 1:\n                raise")])
C("9-axis-tol", "C25", [(M, "            torch.linalg.norm(rotation_axis), ensure_torch(1.0)\n", "            torch.linalg.norm(rotation_axis), ensure_torch(1.0), rtol=1e-2\n")])
C("9-pi-angle", "C25", [(M, "            rotation_angle < torch.pi and rotation_angle > 0\n", "            rotation_angle <= torch.pi and rotation_angle > 0\n")])
