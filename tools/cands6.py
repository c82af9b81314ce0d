C("01-sf-sqrt", "C01", [("polycrystal.py", "            structure_factors = structure_factors[planes].unsqueeze(1)\n", "            structure_factors = structure_factors[planes].unsqueeze(1).float()\n")])
C("01-grain-float", "C01", [("polycrystal.py", "            grain_indices = grain_indices[grains].unsqueeze(1)\n", "            grain_indices = grain_indices[grains].unsqueeze(1).half()\n")])
C("01-phase-uint8", "C01", [("polycrystal.py", "            phase_index = torch.full((G0_xyz.shape[0],), i).unsqueeze(1)\n", "            phase_index = torch.full((G0_xyz.shape[0],), self.phases.index(phase)).unsqueeze(1)\n")])
C("01-axis-meta", "C01", [("polycrystal.py", '            "rotation_axis": rigid_body_motion.rotation_axis,\n', '            "rotation_axis": rigid_body_motion.rotation_axis / rigid_body_motion.rotation_axis.abs().max(),\n')])
C("01-wavelength", "C01", [("polycrystal.py", '            "wavelength": beam.wavelength,\n', '            "wavelength": float(2 * np.pi / beam.wave_vector.abs().sum()),\n')])
C("02-t-ge-strict", "C02", [("laue.py", "torch.argwhere(torch.logical_and(t2 >= 0, t2 <= 1))", "torch.argwhere(torch.logical_and(t2 > 0, t2 < 1))")])
C("02-maxdisc", "C02", [("laue.py", "    # discriminant[discriminant>10] = torch.nan \n", "    discriminant[discriminant>2000] = torch.nan\n")])
C("02-min-angle", "C02", [("phase.py", "        sintlmin = np.sin(min_bragg_angle) / wavelength\n", "        sintlmin = max(np.sin(min_bragg_angle) / wavelength, 1e-3)\n")])
C("02-maxstl", "C02", [("phase.py", "        sintlmax = np.sin(max_bragg_angle) / wavelength\n", "        sintlmax = np.sin(min(max_bragg_angle, np.pi / 4)) / wavelength\n")])
C("02-epm-float", "C02", [("polycrystal.py", "            grain_indices = torch.where(element_phase_map == i)[0]\n            miller", "            grain_indices = torch.nonzero((element_phase_map == i) & (self.mesh_volumes > 1e-9)).squeeze(1)\n            miller")])
C("03-le", "C03", [("beam.py", "            return torch.all(normal_distances + offsets < 0, dim=0)  # shape (n,)\n", "            return torch.all(normal_distances + offsets < 1e-5, dim=0)  # shape (n,)\n")])
C("03-single", "C03", [("beam.py", "            return torch.all(normal_distances + offsets < 0)\n", "            return torch.all(normal_distances + offsets <= 1e-4)\n")])
C("03-float", "C03", [("polycrystal.py", "        illuminated_peaks = beam._contains(source_points)\n", "        illuminated_peaks = beam._contains(source_points.float())\n")])
C("03-decim", "C03,C16", [("beam.py", "                ).equations.round(decimals=6),\n                axis=0,\n            )\n        )\n\n    def _contains", "                ).equations.round(decimals=5),\n                axis=0,\n            )\n        )\n\n    def _contains")])
C("04-pol-beam", "C04", [("scattering_factors.py", "    return 1 - dot_products**2\n", "    return torch.clamp(1 - dot_products**2, min=1e-3)\n")])
C("04-scherrer-K", "C04", [("scattering_factors.py", "    return K * wavelength / (crystallite_size * torch.cos(two_theta / 2))", "    return K * wavelength / (crystallite_size * torch.clamp(torch.cos(two_theta / 2), min=0.2))")])
C("04-theta-tol", "C04", [("scattering_factors.py", "(torch.rad2deg(theta) < tol)", "(torch.rad2deg(2 * theta) < tol)")])
C("04-eta-abs", "C04", [("scattering_factors.py", "    cos_eta = torch.matmul(rot_axis, korthogonal.T) / korth_norm\n", "    cos_eta = torch.abs(torch.matmul(rot_axis, korthogonal.T)) / korth_norm\n")])
C("04-int-order", "C04", [("detector.py", "torch.isfinite(peaks[:, 29]) & (peaks[:, 29] > 0)", "torch.isfinite(peaks[:, 29]) & (peaks[:, 29] > 1e-10)")])
C("05-occ", "C05", [("structure_factors.py", "    site_pop = occ * symmulti / n_sym  # (A,)\n", "    site_pop = torch.clamp(occ, max=1.0) * torch.round(symmulti) / n_sym  # (A,)\n")])
C("05-u33", "C05", [("structure_factors.py", "        [adp[5], adp[1], adp[3]],\n        [adp[4], adp[3], adp[2]],", "        [adp[5], adp[1], adp[3]],\n        [adp[4], adp[3], adp[1]],")])
C("05-fpp-uani", "C05", [("structure_factors.py", "            contrib_imag = sp_i * (expij_ani * (sin_ph * (f_i + fp_i) + cos_ph * fpp_i)).sum(dim=0)", "            contrib_imag = sp_i * (expij_ani * (sin_ph * (f_i + fp_i) - cos_ph * fpp_i)).sum(dim=0)")])
C("05-stl-gamma", "C05", [("structure_factors.py", "        + 2 * h * l * (calp * cgam - cbet) / (a * c)\n", "        + 2 * h * l * (calp * cgam - cbet) / (a * b)\n")])
C("05-two-uani", "C05", [("structure_factors.py", "            f_i = ff[i]          # (H,)\n", "            f_i = ff[uani_atoms[0]]          # (H,)\n")])
C("05-dupatoms", "C05", [("structure_factors.py", "    atomtypes = [a.atomtype for a in atoms]\n", "    atomtypes = [a.atomtype.rstrip('+-0123456789') for a in atoms]\n")])
C("06-abs", "C06", [("utils.py", "    C = 2 * crystal_strain + torch.eye(3, device=device)\n", "    C = crystal_strain + crystal_strain.transpose(-1, -2) + torch.eye(3, device=device)\n")], "equivalent for symmetric")
C("06-cond", "C06", [("utils.py", "    return B.squeeze()\n", "    return torch.triu(B).squeeze()\n")], "equivalent")
C("06-eps", "C06", [("utils.py", "    strain_tensor = 0.5 * (torch.matmul(F.T, F) - torch.eye(3))  # large deformations\n", "    strain_tensor = 0.5 * (torch.matmul(F, F.T) - torch.eye(3))  # large deformations\n")])
C("06-eB-idx", "C06", [("polycrystal.py", "strain_lab[grain_indices], orientation_lab[grain_indices], B0s[i]\n", "strain_lab[grain_indices], orientation_lab[grain_indices], B0s[i if len(grain_indices) else 0]\n")], "equiv")
C("07-broadcast", "C07", [("motion.py", "            if time.ndim == 0 or (time.ndim == 1 and len(time) == 1):\n                return rotated_vectors + translation * time\n", "            if time.ndim == 0 or (time.ndim == 1 and len(time) in (1, 3)):\n                return rotated_vectors + translation * time\n")])
C("07-translate3", "C07", [("motion.py", "        if len(vectors.shape) > 1 and vectors.shape[0] == 3:\n", "        if len(vectors.shape) > 1 and vectors.shape[0] <= 3:\n")], "translate of (2,3)?")
C("07-origin3d", "C07", [("motion.py", "            ).reshape(N, M, 3)\n            rotated_vectors = centered_rotated_vectors + origin\n", "            ).reshape(N, M, 3)\n            rotated_vectors = centered_rotated_vectors + (origin if M > 1 else 0)\n")])
C("07-mod", "C07", [("motion.py", "        time = ensure_torch(time)\n        rotated_vectors = self.rotator(vectors, self.rotation_angle * time)\n", "        time = torch.clamp(ensure_torch(time), 0, 1)\n        rotated_vectors = self.rotator(vectors, self.rotation_angle * time)\n")], "outside [0,1] rotate")
C("07-inv-alias", "C07,C18", [("motion.py", "            -self.translation.clone(),\n            self.origin.clone(),\n", "            -self.translation.clone(),\n            self.origin - self.translation,\n")])
C("08-strain-T", "C08", [("polycrystal.py", "            torch.matmul(Rot_mat, self.strain_lab), Rot_mat.transpose(2, 1)\n", "            torch.matmul(Rot_mat, self.strain_lab), torch.linalg.inv(Rot_mat.float()).double()\n")])
C("08-centroid", "C08,C21", [("mesh.py", "        self.centroid += utils.ensure_torch(translation_vector, dtype=torch.float64)\n", "        self.centroid = self.ecentroids.mean(dim=0)\n")], "equiv")
C("08-tr-dtype", "C08", [("mesh.py", "        self.espherecentroids += utils.ensure_torch(translation_vector, dtype=torch.float64)\n", "        self.espherecentroids += utils.ensure_torch(translation_vector, dtype=torch.float32)\n")])
C("08-mesh-rot", "C08", [("mesh.py", "        rbm = motion.RigidBodyMotion(rotation_axis, angle, np.array([0, 0, 0]))\n", "        rbm = motion.RigidBodyMotion(rotation_axis, angle, np.array([0, 0, 0]), origin=self.centroid)\n")])
C("09-normk", "C09,C01", [("beam.py", "            (2 * np.pi / wavelength) * xray_dir / torch.linalg.norm(xray_dir)\n", "            (2 * np.pi / wavelength) * (xray_dir / torch.linalg.norm(xray_dir)).float().double()\n")])
C("09-K2", "C09,C01", [("motion.py", "        self.K2 = torch.matmul(self.K, self.K)\n", "        self.K2 = torch.outer(self.rotation_axis, self.rotation_axis) - torch.eye(3) * (1 if rx * ry * rz == 0 else 1 + 1e-7)\n")])
C("10-s-eps", "C10", [("detector.py", "        intersection[s < 0] = np.nan\n", "        intersection[s < 1e-6] = np.nan\n")])
C("10-angle-abs", "C10", [("detector.py", "        cosine_theta = torch.matmul(ray_dir_norm, -normal_norm)\n", "        cosine_theta = torch.abs(torch.matmul(ray_dir_norm, -normal_norm))\n")])
C("10-contains-eps", "C10", [("detector.py", "        return (zd >= 0) & (zd <= self.zmax) & (yd >= 0) & (yd <= self.ymax)\n", "        return (zd >= -1e-3) & (zd <= self.zmax) & (yd >= 0) & (yd <= self.ymax)\n")])
C("10-zd-float", "C10", [("detector.py", "        zd_yd_angle = self._get_intersection(peaks[:, 13:16], peaks[:, 16:19])\n", "        zd_yd_angle = self._get_intersection(peaks[:, 13:16].float().double(), peaks[:, 16:19])\n")])
C("11-right", "C11", [("detector.py", "            frame = torch.bucketize(time, bins).unsqueeze(1) - 1\n", "            frame = torch.bucketize(time, bins, out_int32=True).unsqueeze(1) - 1\n")], "equiv")
C("11-step", "C11", [("detector.py", "            frame = torch.bucketize(time, bins).unsqueeze(1) - 1\n", "            frame = torch.floor(time * frames_to_render + 1e-9).long().unsqueeze(1)\n")], "ok-ish equivalent at boundaries?")
C("11-minmax", "C11", [("detector.py", "            bins = torch.linspace(0, 1, steps=frames_to_render + 1).contiguous()\n", "            bins = torch.linspace(float(time.min()) if len(time) > 50 else 0, 1, steps=frames_to_render + 1).contiguous()\n")])
C("12-eps", "C12", [("detector.py", "            weights = weights / (weight_sums + 1e-12)\n            significant = weights > 1e-6\n", "            weights = weights / (weight_sums + 1e-12)\n            significant = weights > 1e-4\n")])
C("12-radius", "C12", [("detector.py", "        radius = max(3, int(3 * sigma) + 1)  # ≈3σ coverage for >99% energy\n", "        radius = max(3, int(2.2 * sigma) + 1)  # ≈3σ coverage for >99% energy\n")])
C("12-nbatch", "C12,C24", [("detector.py", "                frame_indices = peaks[start:end][\n                    valid_peaks, 28\n", "                frame_indices = peaks[start : start + 10_000][\n                    valid_peaks % 10_000, 28\n")])
C("13-thresh", "C13", [("detector.py", "                if window.sum() >= 1 - self.kernel_threshold:\n", "                if window.sum() >= 1 - 0.02:\n")])
C("13-cos", "C13", [("detector.py", "        incident_angles_rad = incident_angles * torch.pi / 180\n        R = detector_distance / torch.abs(torch.cos(incident_angles_rad))\n\n        # Convert", "        incident_angles_rad = incident_angles * torch.pi / 180\n        R = detector_distance * torch.abs(torch.cos(incident_angles_rad))\n\n        # Convert")])
C("13-ff", "C13", [("detector.py", "            if first_zero_np < 0.5:\n", "            if first_zero_np < 2.0:\n")])
C("13-max", "C13", [("detector.py", "            radius = int(np.ceil(max(4.0 * first_zero, 8.0)))\n", "            radius = min(int(np.ceil(max(4.0 * first_zero, 8.0))), 96)\n")])
C("13-conv-empty", "C13", [("detector.py", "        for i in range(frames_to_render):\n            frames[i] = self._conv2d_gaussian_kernel(frames[i])\n", "        for i in peaks[:, 28].long().unique_consecutive():\n            frames[i] = self._conv2d_gaussian_kernel(frames[i])\n")])
C("14-sampl", "C14", [("detector.py", "        if n_pixels_in_box > 4:\n", "        if n_pixels_in_box > 64:\n")], "accuracy")
C("14-clip", "C14", [("utils.py", "    return torch.where((t_l > t_e + 1e-12) & ~outside, t_l - t_e, 0.0)\n", "    return torch.where((t_l > t_e + 1e-3) & ~outside, t_l - t_e, 0.0)\n")])
C("14-box-max", "C14", [("detector.py", "            max_row_indx, max_col_indx = ", "            max_row_indx, max_col_indx = ")] if 0 else [("detector.py", "        max_row_indx = min(max_row_indx + 1, n_rows)\n        max_col_indx = min(max_col_indx + 1, n_cols)\n", "        max_row_indx = min(max_row_indx + 1, n_rows)\n        max_col_indx = min(max_col_indx + 1, n_cols, min_col_indx + 64)\n")])
C("14-hullpoints", "C14", [("detector.py", "        vertices = ensure_torch(hull.points[hull.vertices])\n\n        # Reshape", "        vertices = ensure_torch(hull.points[hull.vertices[:6]])\n\n        # Reshape")])
C("14-inten-frame", "C14", [("detector.py", "            frame_mask = peaks[:, 28] == frame_index\n            frame_peak_indices", "            frame_mask = (peaks[:, 28] - frame_index).abs() < 1\n            frame_peak_indices")], "equiv")
C("15-order", "C15", [("detector.py", "                macro_grain_limit = (min(self.pixel_size_y, self.pixel_size_z)) ** 3\n", "                macro_grain_limit = (torch.sqrt(self.pixel_size_y * self.pixel_size_z)) ** 3\n")])
C("15-micro-lim", "C15", [("detector.py", "        micro_grain_limit=0.1**3,  # in cubic microns\n", "        micro_grain_limit=0.1**2,  # in cubic microns\n")])
C("15-dtype", "C15", [("detector.py", "            diffraction_frames += contrib_nano\n", "            diffraction_frames += contrib_nano.half().to(target_dtype)\n")])
C("16-tol", "C16", [("beam.py", "            if np.all((halfspaces[:, :-1].dot(trial) + halfspaces[:, -1]) < -1e-8):\n", "            if np.all((halfspaces[:, :-1].dot(trial) + halfspaces[:, -1]) < -1e-5):\n")])
C("16-trial", "C16", [("beam.py", "            trial_points = centroid + (vertices - centroid) * 0.99\n", "            trial_points = centroid + (vertices - centroid) * 1.01\n")])
C("16-bounds", "C16", [("beam.py", "            bounds=[(None, None)] * 3 + [(0, None)],\n", "            bounds=[(-1e4, 1e4)] * 3 + [(0, None)],\n")])
C("16-anycont", "C16", [("beam.py", "        if torch.all(vertices_contained):\n", "        if torch.all(vertices_contained) or self._contains(torch.mean(vertices, axis=0)) and vertices_contained.sum() == 4:\n")], "equiv")
C("17-beam-hs", "C17", [("beam.py", '            loaded.halfspaces = ensure_torch(data["halfspaces"])\n', '            loaded.halfspaces = ensure_torch(data["halfspaces"].round(4))\n')])
C("17-det-frames", "C17", [("detector.py", '            dill.dump(self, f, dill.HIGHEST_PROTOCOL)\n', '            frames, self.frames = self.frames, []\n            dill.dump(self, f, dill.HIGHEST_PROTOCOL)\n            self.frames = frames\n')])
C("17-euler", "C17", [("polycrystal.py", '                element_data["Bunge Euler Angle Phi [degrees]"].append(np.degrees(PHI))\n', '                element_data["Bunge Euler Angle Phi [degrees]"].append(np.degrees(PHI) % 90)\n')])
C("17-misori", "C17", [("utils.py", "        difference_rotation = Rotation.from_matrix(np.dot(U, mean_orientation.T))\n", "        difference_rotation = Rotation.from_matrix(np.dot(U, orientations_np[0].T))\n")])
C("17-polload", "C17", [("beam.py", '                ensure_torch(data["polarization_vector"]),\n            )\n', '                ensure_torch(data["polarization_vector"]).abs(),\n            )\n')])
C("18-mesh-own", "C18", [("polycrystal.py", "        self.mesh_sample = copy.deepcopy(mesh)\n", "        self.mesh_sample = mesh\n")])
C("18-dict", "C18", [("detector.py", "        out = dict(peaks_dict)\n", "        out = peaks_dict\n")])
C("18-phase-order", "C18", [("polycrystal.py", "        phases = list(phases)\n", "        phases = phases\n")])
C("18-strain-alias", "C18", [("polycrystal.py", "        self.strain_sample = self.strain_lab.clone()\n", "        self.strain_sample = self.strain_lab\n")])
C("19-odd", "C19", [("templates.py", "    d_0 = np.array([det_dist, -det_cy * p_y, -det_cz * p_z])\n", "    d_0 = np.array([det_dist, -det_cy * p_y, -int(det_cz) * p_z])\n")])
C("19-minbeam", "C19", [("templates.py", '    dz = parameters["beam_side_length_z"] / 2.0\n', '    dz = max(parameters["beam_side_length_z"] / 2.0, 1e-3)\n')])
C("19-axisnorm", "C19,C25", [("templates.py", '        parameters["rotation_axis"], parameters["rotation_step"], translation\n', '        np.asarray(parameters["rotation_axis"]) / np.linalg.norm(parameters["rotation_axis"]), parameters["rotation_step"], translation\n')])
C("20-draw", "C20", [("templates.py", "        a2 = A2[draw] + dalpha * (np.random.rand() - 0.5)\n", "        a2 = A2[draw] + dalpha * (np.random.rand() - 0.5) * 0.5\n")])
C("20-tol", "C20,C25", [("templates.py", "            np.abs(np.sum(probability) - 1.0) < 0.05\n", "            np.sum(probability) - 1.0 < 0.05\n")])
C("20-strainlast", "C20", [("templates.py", "            strain_tensor(utils.ensure_numpy(mesh.ecentroids[ei]))\n", "            strain_tensor(utils.ensure_numpy(mesh.espherecentroids[ei]))\n")])
C("20-r2", "C20", [("templates.py", "        coord.append([-r / np.sqrt(2.0), 0, -r / np.sqrt(2.0)])\n", "        coord.append([-r / np.sqrt(2.0), 0, -r])\n")])
C("21-flat", "C21", [("mesh.py", "    def _compute_mesh_normals", "    def _compute_mesh_normals")] if 0 else [("mesh.py", "        centroids = torch.mean(faces_centers, dim=1)\n", "        centroids = torch.mean(faces_centers[:, :3], dim=1)\n")])
C("21-maxvol", "C21", [("mesh.py", "        max_volume = (max_cell_circumradius ** 3) / 6.0\n", "        max_volume = (max_cell_circumradius ** 3)\n")])
C("21-n20", "C21", [("mesh.py", "        n = max(int(2 * bounding_radius / (max_cell_circumradius * 0.5)), 20)\n", "        n = min(max(int(2 * bounding_radius / (max_cell_circumradius * 0.5)), 20), 40)\n")])
C("22-square", "C22", [("detector.py", "            if isinstance(n_pixels, (tuple, list)):\n                n_z, n_y = n_pixels\n", "            if isinstance(n_pixels, (tuple, list)):\n                n_y, n_z = n_pixels\n")])
C("22-normal", "C22", [("detector.py", "        self.normal = torch.linalg.cross(self.zdhat, self.ydhat)\n", "        self.normal = torch.linalg.cross(self.zdhat, self.ydhat) * torch.sign(torch.linalg.cross(self.zdhat, self.ydhat) @ -self.det_corner_0)\n")])
C("22-any", "C22", [("polycrystal.py", "            source_point = ensure_torch(self.mesh_lab.centroid)\n", "            source_point = torch.mean(self.mesh_lab.coord, dim=0)\n")])
C("22-kern-th", "C22", [("detector.py", "            if value < threshold / 2:\n", "            if value < threshold / 2 or radius >= 8:\n")])
C("23-strip", "C23", [("cuda.py", "        device = str(device).lower().strip()\n", "        device = str(device).lower().strip(' ')\n")], "tabs")
C("23-auto-verb", "C23", [("cuda.py", "    if verbose:\n        print(f\"Using device: {_device}\")\n", "    if verbose or device is None:\n        print(f\"Using device: {_device}\")\n")])
C("24-warn", "C24", [("detector.py", "        if n_invalid > 0 and self._verbose:\n", "        if n_invalid > 0:\n")])
C("24-free0", "C24", [("detector.py", "            batch_size = max(1, int(fits_mask.sum().item()))\n", "            batch_size = max(2, int(fits_mask.sum().item()))\n")], "equivalent?")
C("25-nonneg", "C25", [("motion.py", "            rotation_angle < torch.pi and rotation_angle > 0\n", "            rotation_angle < torch.pi and rotation_angle != 0\n")])
C("25-min", "C25", [("polycrystal.py", "            min_bragg_angle >= 0\n", "            min_bragg_angle > -0.01\n")])
C("25-epm", "C25", [("polycrystal.py", "            if len(phases) > 1:\n", "            if len(set(p.sgname for p in phases)) > 1:\n")])
C("25-late", "C25", [("polycrystal.py", "        if detector is not None:\n            min_bragg", "        for phase in self.phases:\n            phase._setup_diffracting_planes(beam.wavelength, min_bragg_angle, max_bragg_angle)\n        if detector is not None:\n            min_bragg")])
