"""Second survey of candidate changes (see cand.py)."""
P, U, L, D, B_, M, T, S, ME = "polycrystal.py", "utils.py", "laue.py", "detector.py", "beam.py", "motion.py", "templates.py", "structure_factors.py", "mesh.py"
F = "scattering_factors.py"
C("01-relthresh", "C01,C02", [(P, "miller_indices = miller_indices[structure_factors > 1e-6]\n                structure_factors = structure_factors[structure_factors > 1e-6]", "keep = structure_factors > 1e-6 * structure_factors.max()\n                miller_indices = miller_indices[keep]\n                structure_factors = structure_factors[keep]")])
C("02-abs-thresh", "C02", [(P, "miller_indices = miller_indices[structure_factors > 1e-6]\n                structure_factors = structure_factors[structure_factors > 1e-6]", "keep = structure_factors > 1e-2\n                miller_indices = miller_indices[keep]\n                structure_factors = structure_factors[keep]")])
C("06-sgcache", "C06,C01", [(P, "            B0s[i] = ensure_torch(tools.form_b_mat(phase.unit_cell))\n", "            B0s[i] = next((B0s[j] for j in range(i) if phases[j].sgname == phase.sgname and np.allclose(phases[j].unit_cell, phase.unit_cell, rtol=1e-3)), ensure_torch(tools.form_b_mat(phase.unit_cell)))\n")])
C("08-skip-strain", "C08", [(P, "        self.strain_lab = torch.matmul(\n            torch.matmul(Rot_mat, self.strain_lab), Rot_mat.transpose(2, 1)\n        )\n", "        if torch.any(torch.abs(self.strain_lab[0]) > 0):\n            self.strain_lab = torch.matmul(\n                torch.matmul(Rot_mat, self.strain_lab), Rot_mat.transpose(2, 1)\n            )\n")])
C("08-skip-small", "C08", [(P, "        # Ensure Rot_mat has batch dimension for proper broadcasting\n", "        if float(rigid_body_motion.rotation_angle * time) < 1e-4:\n            return\n        # Ensure Rot_mat has batch dimension for proper broadcasting\n")])
C("22-usermax", "C22", [(P, "            max_bragg_angle = min(max_bragg_angle, wrapping_cone)", "            max_bragg_angle = wrapping_cone if max_bragg_angle > np.pi / 4 else min(max_bragg_angle, wrapping_cone)")])
C("22-contained3", "C22", [(P, "        if torch.any(points_contained):\n", "        if torch.sum(points_contained) > 3:\n")])
C("02-obliq", "C05,C02", [("phase.py", "            sintlmax * obliquity * (1 + 1e-9),\n", "            sintlmax * (obliquity if np.max(np.abs(np.array(self.unit_cell[3:5]) - 90)) > 1e-6 else 1.0) * (1 + 1e-9),\n")])
C("05-stlclamp", "C05", [(S, "    stl = _sintl_batch(unit_cell, hkl)   # (H,)\n", "    stl = torch.clamp(_sintl_batch(unit_cell, hkl), max=1.5)   # (H,)\n")])
C("05-ff-only", "C05", [(S, "    ff = _form_factors_batch(atomtypes, stl)  # (A, H)\n", "    ff = torch.clamp(_form_factors_batch(atomtypes, stl), min=0.0)  # (A, H)\n")])
C("05-ustar", "C05", [(S, "    cellstar = xfab_tools.cell_invert(unit_cell)\n", "    cellstar = [1.0 / unit_cell[0], 1.0 / unit_cell[1], 1.0 / unit_cell[2]]\n")])
C("05-uiso0", "C05", [(S, '        if a.adp_type == "Uiso":\n', '        if a.adp_type == "Uiso" and a.adp < 0.1:\n')])
C("05-disp-ion", "C05", [(S, "        d = dispersion.get(a.atomtype)\n", "        d = dispersion.get(a.atomtype.rstrip('0123456789+-'))\n")])
C("02-denom", "C02", [(L, "    s1 = q / denominator\n", "    s1 = q / torch.where(torch.abs(denominator) < 1e-3, torch.inf, denominator)\n")])
C("02-zeroq", "C02", [(L, "    s2 = numerator / q\n", "    s2 = numerator / torch.where(torch.abs(q) < 1e-4, torch.nan, q)\n")])
C("02-sign", "C02", [(L, "torch.copysign(torch.sqrt(discriminant), rho_1)", "torch.sign(rho_1) * torch.sqrt(discriminant)")])
C("07-smallcos", "C07", [(M, "        cos_term = (1 - torch.cos(rot)) * K2\n", "        cos_term = torch.where(torch.abs(rot) < 1e-4, 0.0, 1 - torch.cos(rot)) * K2\n")])
C("07-f32", "C07", [(M, "            time = time.expand(N)\n", "            time = time.float().double().expand(N)\n")])
C("07-axis-tol", "C25", [(M, "            torch.linalg.norm(rotation_axis), ensure_torch(1.0)\n", "            torch.linalg.norm(rotation_axis), ensure_torch(1.0), atol=1e-3\n")])
C("01-wavevec", "C01,C09", [(B_, "            (2 * np.pi / wavelength) * xray_dir / torch.linalg.norm(xray_dir)\n", "            (2 * np.pi / wavelength) * (xray_dir if abs(float(torch.linalg.norm(xray_dir)) - 1) < 1e-3 else xray_dir / torch.linalg.norm(xray_dir))\n")])
C("04-polnorm", "C04", [(B_, "        self.polarization_vector = pol_vec / torch.linalg.norm(pol_vec)\n", "        self.polarization_vector = pol_vec / torch.max(torch.linalg.norm(pol_vec), ensure_torch(1.0))\n")])
C("10-pixceil", "C10,C22", [(D, "torch.ceil(self.zmax / self.pixel_size_z - 1e-6)", "torch.ceil(self.zmax / self.pixel_size_z - 1e-2)")])
C("10-pixround", "C10", [(D, "torch.ceil(self.ymax / self.pixel_size_y - 1e-6)", "torch.ceil(self.ymax / self.pixel_size_y - 1e-9)")])
C("12-cutoff", "C12", [(D, "            significant = weights > 1e-6\n", "            significant = weights > 1e-4\n")])
C("12-radcap", "C12", [(D, "radius = max(3, int(3 * sigma) + 1)", "radius = min(max(3, int(3 * sigma) + 1), 10)")])
C("12-norm-in", "C12", [(D, "            significant = weights > 1e-6\n", "            weights = torch.where((z_pixels >= 0) & (y_pixels >= 0), weights, 0.0)\n            weights = weights / (weights.sum(dim=1, keepdim=True) + 1e-12)\n            significant = weights > 1e-6\n")])
C("12-posfloat", "C12", [(D, "            pos_z_exp = pos_z[start:end].float().unsqueeze(1)\n", "            pos_z_exp = pos_z[start:end].half().unsqueeze(1).float()\n")])
C("13-Rclamp", "C13", [(D, "        R = detector_distance / torch.abs(torch.cos(incident_angles_rad))\n\n        # Convert FWHM", "        R = detector_distance / torch.clamp(torch.abs(torch.cos(incident_angles_rad)), min=0.5)\n\n        # Convert FWHM")])
C("13-maxr", "C13", [(D, "            max_airy_radius = 128\n", "            max_airy_radius = 64\n")])
C("13-crop2", "C13", [(D, "                if window.sum() >= 1 - self.kernel_threshold:\n", "                if window.sum() >= 1 - 2 * self.kernel_threshold:\n")])
C("13-fz1", "C13", [(D, "            if first_zero_np < 0.5:\n", "            if first_zero_np < 1.0:\n")])
C("13-symm", "C13", [(D, "            if first_zero < sigma:\n", "            if first_zero < 2 * sigma:\n")])
C("13-fz-maxpix", "C13", [(D, "        pixel_size = min(float(self.pixel_size_z), float(self.pixel_size_y))\n", "        pixel_size = float(self.pixel_size_z)\n")])
C("14-centretime", "C14", [(D, "        rotated_vertices = rigid_body_motion(vertices, times)  # Shape: (N_peaks, 4, 3)\n", "        if frames_to_render > 1:\n            times = (peaks[:, 28] + 0.5) / frames_to_render\n        rotated_vertices = rigid_body_motion(vertices, times)  # Shape: (N_peaks, 4, 3)\n")])
C("14-nsamples", "C14", [(D, "            7 * n_pixels_in_box\n", "            2 * n_pixels_in_box\n")])
C("14-addat", "C14", [(D, "        np.add.at(\n            box_intensities,\n            (row_index[in_box], col_index[in_box]),\n            clip_lengths[in_box],\n        )\n", "        box_intensities[row_index[in_box], col_index[in_box]] += clip_lengths[in_box]\n")])
C("14-replicate", "C14,C13", [(D, "                frames, weight=kernel, padding=kernel_padding\n", "                F.pad(frames, (kernel_padding,) * 4, mode='replicate'), weight=kernel\n")])
C("14-box16", "C14", [(D, "        if n_pixels_in_box > 4:\n", "        if n_pixels_in_box > 64:\n")])
C("14-capless", "C14", [(D, "                if not fully_on_detector:\n", "                if not fully_on_detector and n_pixels_in_box > 16:\n")])
C("14-one-pixel", "C14", [(D, "        if n_pixels_in_box == 1 and fully_on_detector:\n", "        if n_pixels_in_box == 1:\n")])
C("14-clip-tol", "C14", [(U, "    return torch.where((t_l > t_e + 1e-12) & ~outside, t_l - t_e, 0.0)\n", "    return torch.where((t_l > t_e + 1e-2) & ~outside, t_l - t_e, 0.0)\n")])
C("14-clip-par", "C14", [(U, "    outside = torch.any(numerator[:, t2 == 0] < 0, dim=1)\n", "    outside = torch.any(numerator[:, torch.abs(t2) < 1e-2] < 0, dim=1)\n")])
C("20-corr", "C20", [(T, "        a2 = A2[draw] + dalpha * (np.random.rand() - 0.5)\n", "        a2 = A2[draw] + (a1 - A1[draw])\n")])
C("20-meanprob", "C20", [(T, "        probability = volume_element * ODF(x, q)\n", "        probability = volume_element * ODF(np.mean(coordinates, axis=0) if len(coordinates) > 100 else x, q)\n")])
C("20-argmax", "C20", [(T, "        indices = np.linspace(0, len(probability) - 1, len(probability)).astype(int)\n", "        indices = np.linspace(0, len(probability), len(probability)).astype(int).clip(max=len(probability) - 1)\n")])
C("20-nsides", "C20", [(T, "    n = max(8, int(2 * np.pi * R / max_cell_circumradius))", "    n = max(6, int(2 * np.pi * R / max_cell_circumradius))")])
C("21-alias", "C18,C17", [(U, "        return data.detach().numpy().astype(np.float64)\n    elif isinstance(data, np.ndarray):\n        return data.astype(np.float64)\n", "        return data.detach().numpy().astype(np.float64, copy=False)\n    elif isinstance(data, np.ndarray):\n        return data.astype(np.float64, copy=False)\n")])
C("21-argmax", "C21", [(ME, "        smallest_face = torch.argmin(\n            torch.where(face_solves, radii_faces, torch.inf), dim=1\n        )\n", "        smallest_face = torch.argmax(\n            torch.where(face_solves, radii_faces, -torch.inf), dim=1\n        )\n")])
C("21-firstface", "C21", [(ME, "        smallest_face = torch.argmin(\n            torch.where(face_solves, radii_faces, torch.inf), dim=1\n        )\n", "        smallest_face = torch.argmax(face_solves.int(), dim=1)\n")])
C("21-centroid", "C21", [(ME, "        self.centroid = torch.mean(self.ecentroids, dim=0)\n", "        self.centroid = torch.mean(self.coord, dim=0)\n")])
C("21-centroid2", "C08,C21", [(ME, "        self.centroid += utils.ensure_torch(translation_vector, dtype=torch.float64)\n", "        self.centroid = torch.mean(self.coord, dim=0)\n")])
C("21-signs", "C21", [(ME, "        signs = torch.where(signs >= 0,", "        signs = torch.where(signs >= 1e-9,")])
C("21-facecenter", "C21", [(ME, "        centroids = torch.mean(faces_centers, dim=1)\n", "        centroids = torch.mean(coord[enod], dim=(0, 1)).unsqueeze(0)\n")])
C("21-mesh-save-f32", "C17,C21", [(ME, "            save_path, coord, [(\"tetra\", enod)], cell_data=element_data\n", "            save_path, coord.astype(np.float32), [(\"tetra\", enod)], cell_data=element_data\n")])
C("16-round", "C16", [(B_, "        poly_halfspace = np.unique(poly_halfspace.round(decimals=6), axis=0)\n", "        poly_halfspace = np.unique(poly_halfspace.round(decimals=3), axis=0)\n")])
C("16-allc", "C16", [(B_, "        if torch.all(vertices_contained):\n", "        if torch.sum(vertices_contained) >= 3 and self._contains(torch.mean(vertices, axis=0)):\n")])
C("16-QJ", "C16,C03", [(B_, 'qhull_options="QJ"', 'qhull_options="QJ1e-3"')])
C("03-axis", "C03", [(P, "        illuminated_peaks = beam._contains(source_points)\n", "        illuminated_peaks = beam._contains(source_points) | (torch.linalg.norm(source_points - beam.centroid[:, None], dim=0) < 1e-2 * torch.max(torch.abs(beam.vertices)))\n")])
C("11-linspace", "C11", [(D, "            frame = torch.bucketize(time, bins).unsqueeze(1) - 1\n", "            frame = torch.bucketize(time.float(), bins.float()).unsqueeze(1) - 1\n")])
C("11-floor", "C11", [(D, "            frame = torch.bucketize(time, bins).unsqueeze(1) - 1\n", "            frame = torch.floor(time * frames_to_render).long().unsqueeze(1)\n")], "only differs at exact edges")
C("15-rd32", "C15", [(D, "        diffraction_frames.index_put_", "        diffraction_frames.index_put_")])
C("15-pix3", "C15", [(D, "                macro_grain_limit = (min(self.pixel_size_y, self.pixel_size_z)) ** 3\n", "                macro_grain_limit = self.pixel_size_y * self.pixel_size_z * min(self.pixel_size_y, self.pixel_size_z)\n")])
C("10-incident", "C10", [(D, "        cosine_theta = torch.matmul(ray_dir_norm, -normal_norm)\n", "        cosine_theta = -torch.abs(torch.matmul(ray_dir_norm, normal_norm))\n")])
C("17-det-norm", "C17", [(D, "            loaded.pixel_size_y = ensure_torch(loaded.pixel_size_y)\n", "            loaded.pixel_size_y = ensure_torch(loaded.pixel_size_y)\n            loaded.pixel_coordinates = loaded._get_pixel_coordinates()\n            loaded.gaussian_kernel = loaded._generate_gaussian_kernel()\n            loaded.frames = []\n")], "frames dropped on load")
C("17-pc-f32", "C17", [(P, "            loaded._eB = ensure_torch(loaded._eB)\n", "            loaded._eB = loaded._instantiate_eB(loaded.orientation_lab, loaded.strain_lab, loaded.phases, loaded.element_phase_map, loaded.mesh_lab)\n")])
C("17-samp", "C17", [(P, "            loaded.mesh_sample = cls._move_mesh_to_torch(loaded.mesh_sample)\n", "            loaded.mesh_sample = cls._move_mesh_to_torch(loaded.mesh_lab)\n")])
C("18-beamcopy", "C18", [(P, '            "beam": copy.deepcopy(beam),\n', '            "beam": copy.copy(beam),\n')])
C("18-motcopy", "C18", [(P, '            "rigid_body_motion": copy.deepcopy(rigid_body_motion),\n', '            "rigid_body_motion": copy.copy(rigid_body_motion),\n')])
C("18-meshshallow", "C18", [(P, '            "mesh_lab": copy.deepcopy(self.mesh_lab),\n', '            "mesh_lab": copy.copy(self.mesh_lab),\n')])
C("18-incident", "C18", [(P, '            "incident_vector": beam.wave_vector,\n', '            "incident_vector": beam.wave_vector / 1,\n')], "harmless")
C("23-levels", "C24", [(D, "        if n_invalid > 0 and self._verbose:\n", "        if n_invalid > 0:\n")])
C("19-detoff", "C19", [(T, "    d_1 = np.array([det_dist, (det_pix_y - det_cy) * p_y, -det_cz * p_z])\n", "    d_1 = np.array([det_dist, (det_pix_y - det_cy) * p_y, -det_cz * p_z]).round(6)\n")])
C("19-beamlen", "C19", [(T, "            [-parameters[\"detector_distance\"], -dy, -dz],\n", "            [-parameters[\"detector_distance\"] / 2, -dy, -dz],\n")])
C("25-nearpol", "C25", [(B_, "            torch.dot(self.polarization_vector, self.wave_vector), ensure_torch(0.0)\n", "            torch.dot(self.polarization_vector, self.wave_vector), ensure_torch(0.0), atol=1e-2\n")])
C("25-motion-pi", "C25", [(M, "            rotation_angle < torch.pi and rotation_angle > 0\n", "            rotation_angle <= torch.pi and rotation_angle > 0\n")])
C("25-hull", "C25", [(B_, "        assert ch.points.shape[0] == ch.vertices.shape[0], (\n", "        assert ch.points.shape[0] <= ch.vertices.shape[0] + 1, (\n")])
C("09-two-theta", "C01,C09", [(P, "        two_theta = torch.arccos(torch.sum(k_in * k_out, dim=1))\n", "        two_theta = 2 * torch.arcsin(torch.clamp(torch.linalg.norm(G0, dim=1) * beam.wavelength / (4 * np.pi), max=1)) if False else torch.arccos(torch.clamp(torch.sum(k_in * k_out, dim=1), -0.99, 1))\n")])
