"""Tenth survey: changes that need two conditions at once. See cand.py."""
P, U, L, D, B_, M, T, S, ME, PH = "polycrystal.py", "utils.py", "laue.py", "detector.py", "beam.py", "motion.py", "templates.py", "structure_factors.py", "mesh.py", "phase.py"
F, CU = "scattering_factors.py", "cuda.py"
C("10-phase-same-obj", "C01,C02,C05", [(P, "        phases = [copy.copy(phase) for phase in self.phases]\n", "        copies = {id(phase): copy.copy(phase) for phase in self.phases}\n        phases = [copies[id(phase)] for phase in self.phases]\n")], "equal: same object in two places")
C("10-phase-by-name", "C01,C02,C05", [(P, "        phases = [copy.copy(phase) for phase in self.phases]\n", "        copies = {(phase.sgname, phase.path_to_cif_file): copy.copy(phase) for phase in self.phases}\n        phases = [copies[(phase.sgname, phase.path_to_cif_file)] for phase in self.phases]\n")], "two phases of one space group with different cells")
C("10-bounds-order", "C22", [(P, "            max_bragg_angle = min(max_bragg_angle, wrapping_cone)\n", "            max_bragg_angle = min(max_bragg_angle, wrapping_cone) if min_bragg_angle == 0 else max_bragg_angle\n")], "both bound and detector")
C("10-bounds-contained", "C22", [(P, "        points_contained = beam._contains(self.mesh_lab.coord.T)\n", "        points_contained = beam._contains(self.mesh_sample.coord.T)\n")], "after transform")
C("10-bounds-mean-enod", "C22", [(P, "            source_point = torch.mean(mesh_nodes_contained_by_beam, dim=0)\n", "            source_point = 0.5 * (mesh_nodes_contained_by_beam.min(dim=0).values + mesh_nodes_contained_by_beam.max(dim=0).values)\n")], "midrange rather than mean; also a centre of the lit part")
C("10-verbose-false-none", "C24", [(D, '            verbose = peaks_dict.get("verbose", True)\n', '            verbose = peaks_dict.get("verbose", True) or frames_to_render > 1\n')], "prints in scans")
C("10-frames-float", "C11", [(D, "            bins = torch.linspace(0, 1, steps=frames_to_render + 1).contiguous()\n", "            bins = torch.arange(frames_to_render + 1) / frames_to_render\n")], "equal")
C("10-frames-prev", "C11", [(D, "            bins = torch.linspace(0, 1, steps=frames_to_render + 1).contiguous()\n", "            bins = torch.linspace(0, 1, steps=frames_to_render + 1, dtype=torch.float32).double().contiguous()\n")])
C("10-frames-int-time", "C11", [(D, "            frame = torch.bucketize(time, bins).unsqueeze(1) - 1\n", "            frame = (time * frames_to_render).long().unsqueeze(1)\n")], "equal but at exact borders")
C("10-frames-time-range", "C11", [(D, "            bins = torch.linspace(0, 1, steps=frames_to_render + 1).contiguous()\n", "            bins = torch.linspace(0, 1, steps=frames_to_render + 1).contiguous()\n            if frames_to_render > 64:\n                bins = torch.round(bins, decimals=3)\n")])
C("10-render-frames-state", "C18", [(D, "        self._verbose = verbose  # Store for use in rendering methods\n", "        self._verbose = verbose  # Store for use in rendering methods\n        self._n_frames = max(frames_to_render, getattr(self, '_n_frames', 1)) if method == 'auto' and False else frames_to_render\n")], "equal")
C("10-sigma-live", "C12,C22", [(D, "        sigma = float((sigma_interp**2 + self.gaussian_sigma**2) ** 0.5)\n", "        sigma = float((sigma_interp**2 + min(self.gaussian_sigma, 3.0) ** 2) ** 0.5)\n")])
C("10-micro-radius", "C12", [(D, "        radius = max(3, int(3 * sigma) + 1)", "        radius = min(max(3, int(3 * sigma) + 1), 12)")], "wide point spread")
C("10-micro-vol-min", "C12", [(D, "        volumes = peaks[:, 21]  # Element volumes\n", "        volumes = torch.clamp(peaks[:, 21], min=1e-12)\n")], "below nm grains")
C("10-micro-square", "C12", [(D, "        pos_y = peaks[:, 26] / self.pixel_size_y  # yd coordinate\n", "        pos_y = peaks[:, 26] / self.pixel_size_y if abs(self.pixel_size_y / self.pixel_size_z - 1) > 1e-3 else peaks[:, 26] / self.pixel_size_z  # yd coordinate\n")], "nearly square pixels: ymax/n")
C("10-micro-dtype", "C15", [(D, "                    valid_weights.to(render_dtype),\n                    accumulate=True,\n                )\n\n        return", "                    valid_weights.to(torch.float32).to(render_dtype),\n                    accumulate=True,\n                )\n\n        return")], "relative 6e-8: below documented float32")
C("10-airy-est", "C24", [(D, "            batch_size = max(1, int(fits_mask.sum().item()))\n", "            batch_size = int(fits_mask.sum().item()) or n_peaks - start_idx\n")], "equal result, other batches")
C("10-airy-sigma0", "C13", [(D, "            if first_zero < sigma:\n", "            if first_zero <= 2 * sigma:\n")])
C("10-airy-incident", "C13", [(D, "        R = detector_distance / torch.abs(torch.cos(incident_angles_rad))\n\n        # Convert FWHM", "        R = detector_distance / torch.clamp(torch.abs(torch.cos(incident_angles_rad)), min=0.5)\n\n        # Convert FWHM")], "oblique")
C("10-airy-batch-frames", "C13,C11", [(D, "            for frame_idx in range(frames_to_render):\n", "            for frame_idx in range(min(frames_to_render, int(batch_peaks[:, 28].max()) + 1)):\n")], "equal")
C("10-airy-frame-first", "C13,C11", [(D, "            for frame_idx in range(frames_to_render):\n", "            for frame_idx in range(int(batch_peaks[0, 28]) if len(batch_peaks) == 1 else 0, frames_to_render):\n")], "equal")
C("10-airy-crop", "C13", [(D, "            crop_r = left\n", "            crop_r = min(left, 64)\n")])
C("10-airy-conv-3d", "C13", [(D, "        for i in range(frames_to_render):\n            frames[i] = self._conv2d_gaussian_kernel(frames[i])\n", "        for i in range(frames_to_render):\n            if i in peaks[:, 28]:\n                frames[i] = self._conv2d_gaussian_kernel(frames[i])\n")], "equal")
C("10-deposit-float", "C13", [(D, "        fz = all_z - z0.float()\n", "        fz = all_z.float() - z0.float()\n")], "float32 positions of 1000s of pixels: 1e-4 px")
C("10-deposit-last", "C13", [(D, "            valid = (zi >= 0) & (zi < H) & (yi >= 0) & (yi < W)\n", "            valid = (zi >= 0) & (zi < H) & (yi >= 0) & (yi < W) & (w > 1e-3)\n")])
C("10-macro-frame-int8", "C14", [(D, "        element_indices = peaks[:, 0].long()\n", "        element_indices = peaks[:, 0].to(torch.int16).long()\n")], ">32767 elements")
C("10-macro-times", "C14", [(D, "        rotated_vertices = rigid_body_motion(vertices, times)  # Shape", "        rotated_vertices = rigid_body_motion(vertices, times if len(times) != 1 else times[0])  # Shape")], "equal")
C("10-macro-samebox", "C14", [(D, "            if box is not None:\n", "            if box is not None and box[1] > box[0] and box[3] > box[2]:\n")] if False else [(D, "                    if box is not None:\n", "                    if box is not None and (box[1] - box[0]) * (box[3] - box[2]) < 250000:\n")], "very large spots")
C("10-macro-nan-vertex", "C14", [(D, "        if z_valid.numel() == 0 or y_valid.numel() == 0:\n", "        if z_valid.numel() < z_vals.numel() or y_valid.numel() == 0:\n")], "hull reaching through the plane")
C("10-macro-parallel-face", "C14", [(U, "    outside = torch.any(numerator[:, t2 == 0] < 0, dim=1)\n", "    outside = torch.any(numerator[:, t2 == 0] < 0, dim=1) if (t2 == 0).sum() > 1 else torch.zeros(len(t_e), dtype=torch.bool)\n")], "one face along the ray")
C("10-macro-clip-eps", "C14", [(U, "    return torch.where((t_l > t_e + 1e-12) & ~outside, t_l - t_e, 0.0)", "    return torch.where((t_l > t_e + 1e-2) & ~outside, t_l - t_e, 0.0)")], "thin grains")
C("10-macro-min-pixel", "C14", [(D, "        if n_pixels_in_box == 1 and fully_on_detector:\n", "        if n_pixels_in_box == 1:\n")], "a spot cut by the edge within one pixel")
C("10-macro-inplace-z", "C14", [(D, "                    volume_per_length = torch.minimum(\n", "                    volume_per_length = torch.maximum(\n")])
C("10-sample-hull-verts", "C14", [(U, "    tris = points[hull.simplices]\n", "    tris = points[hull.simplices[: 4 * (len(hull.simplices) // 4) or None]]\n")], "one sampled part left out")
C("10-sample-mean", "C14", [(U, "    r = points.mean(axis=0)\n", "    r = points[hull.vertices[:4]].mean(axis=0)\n")], "equal (interior point)")
C("10-beam-halfspace-cached", "C03,C16", [(B_, "        ch = ConvexHull(beam_vertices.cpu().numpy())\n", "        if hasattr(self, 'vertices') and self.vertices.shape == beam_vertices.shape and torch.allclose(self.vertices, beam_vertices, atol=1e-3):\n            self.vertices = beam_vertices.clone()\n            self.centroid = torch.mean(self.vertices, axis=0)\n            return\n        ch = ConvexHull(beam_vertices.cpu().numpy())\n")], "small changes of the beam")
C("10-beam-intersect-all", "C16", [(B_, "        if torch.all(vertices_contained):\n", "        if torch.sum(vertices_contained) >= 3 and self._contains(torch.mean(vertices, axis=0)) and len(self.halfspaces) > 12:\n")], "many-faced beams")
C("10-beam-trial", "C16", [(B_, "            trial_points = centroid + (vertices - centroid) * 0.99\n", "            trial_points = centroid + (vertices - centroid) * 1.0\n")], "interior point on the boundary: qhull error")
C("10-beam-inter-tol", "C16", [(B_, "            if np.all((halfspaces[:, :-1].dot(trial) + halfspaces[:, -1]) < -1e-8):\n", "            if np.all((halfspaces[:, :-1].dot(trial) + halfspaces[:, -1]) < -1e-3):\n")])
C("10-beam-load-hs", "C17", [(B_, '            loaded.halfspaces = ensure_torch(data["halfspaces"])\n', '            loaded.halfspaces = ensure_torch(np.round(data["halfspaces"], 4))\n')])
C("10-beam-load-wl", "C17", [(B_, '                    "wavelength": self.wavelength,\n', '                    "wavelength": 2 * np.pi / float(torch.linalg.norm(self.wave_vector)),\n')], "equal to rounding")
C("10-pc-load-phase", "C17", [(P, "            loaded._eB = ensure_torch(loaded._eB)\n", "            loaded._eB = loaded._instantiate_eB(\n                loaded.orientation_lab, loaded.strain_lab, loaded.phases, loaded.element_phase_map, loaded.mesh_lab\n            )\n")], "equal")
C("10-pc-load-sample-eb", "C17", [(P, "            loaded._eB = ensure_torch(loaded._eB)\n", "            loaded._eB = loaded._instantiate_eB(\n                loaded.orientation_sample, loaded.strain_lab, loaded.phases, loaded.element_phase_map, loaded.mesh_lab\n            )\n")], "strained and moved and saved")
C("10-pc-xdmf-moved", "C17", [(P, "            self.mesh_sample.save(xdmf_path, element_data=element_data)\n", "            self.mesh_lab.save(xdmf_path, element_data=element_data)\n")])
C("10-det-load-kernel", "C17", [(D, "            loaded.pixel_size_z = ensure_torch(loaded.pixel_size_z)\n", "            loaded.pixel_size_z = ensure_torch(loaded.pixel_size_z)\n            loaded.gaussian_kernel = Detector._generate_gaussian_kernel(loaded).float().double()\n")])
C("10-mesh-load-xdmf-prec", "C17", [(ME, "            save_path, coord, [(\"tetra\", enod)], cell_data=element_data\n", "            save_path, coord.round(6), [(\"tetra\", enod)], cell_data=element_data\n")])
C("10-translate-alias", "C18,C08", [(ME, "        self._mesh.points = utils.ensure_numpy(self.coord) + translation_vector\n", "        self._mesh.points += translation_vector if self._mesh.points.dtype == float else 0\n")], "translate after update")
C("10-update-normals-id", "C08", [(ME, "        self.enormals = rigid_body_motion.rotate(self.enormals, time=time)\n", "        self.enormals = rigid_body_motion.rotate(self.enormals, time=time) if time > 0.01 else self.enormals\n")], "small times")
C("10-transform-time", "C08", [(P, "            rigid_body_motion.rotation_angle * time\n        )\n", "            rigid_body_motion.rotation_angle * min(time, 1.0)\n        )\n")], "time beyond one")
C("10-inverse-small", "C07", [(M, "            -self.translation.clone(),\n", "            -self.translation.round(decimals=5),\n")])
C("10-tile-order", "C07", [(M, "torch.tile(time, (M, 1)).T.reshape(-1)", "torch.repeat_interleave(time, M)")], "equal")
C("10-eta-clamp", "C04", [(F, "    cos_eta = torch.matmul(rot_axis, korthogonal.T) / korth_norm\n", "    cos_eta = torch.matmul(rot_axis, korthogonal.T) / torch.clamp(korth_norm, min=0.05 * torch.linalg.norm(k_in))\n")], "small scattering angles")
C("10-scherrer-pow", "C04", [(F, "        2.0 * (3 * volumes / (4 * np.pi)) ** (1 / 3) * 10_000\n", "        2.0 * (3 * torch.clamp(volumes, max=1e6) / (4 * np.pi)) ** (1 / 3) * 10_000\n")], "large grains")
C("10-sintl-round", "C05", [(PH, "        sintl = np.round(np.linalg.norm(hkl @ B.T, axis=1) / 2, 12)\n", "        sintl = np.round(np.linalg.norm(hkl @ B.T, axis=1) / 2, 5)\n")])
C("10-limits-diag", "C05", [(PH, "        limits = 2 * sintlmax * np.linalg.norm(np.linalg.inv(B), axis=1)\n", "        limits = 2 * sintlmax * np.array(self.unit_cell[:3])\n")], "equal: |row of inverse| = lattice parameters")
C("10-absent-tol", "C05", [(PH, "            shifted = np.abs(phase - np.round(phase)) > 0.01\n", "            shifted = np.abs(phase - np.round(phase)) > 0.2\n")], "sixfold screws")
C("10-powder-phase", "C20", [(T, "    orientation = Rotation.random(mesh.number_of_elements).as_matrix()\n", "    orientation = Rotation.random(mesh.number_of_elements).as_matrix()\n    orientation[::50] = orientation[0]\n")], "2 % of the grains alike")
C("10-odf-choice", "C20", [(T, "        draw = np.random.choice(indices, size=1, replace=True, p=probability)\n", "        draw = np.random.choice(indices[probability > probability.max() * 1e-3], size=1, p=probability[probability > probability.max() * 1e-3] / probability[probability > probability.max() * 1e-3].sum())\n")], "weak background lost")
C("10-odf-jitter", "C20", [(T, "        a3 = A3[draw] + dalpha * (np.random.rand() - 0.5)\n", "        a3 = A3[draw] + dalpha * (np.random.rand() - 0.5) * 0.5\n")])
C("10-odf-strain", "C20", [(T, "            strain_tensor(utils.ensure_numpy(mesh.ecentroids[ei]))\n", "            strain_tensor(utils.ensure_numpy(mesh.espherecentroids[ei]))\n")])
C("10-s3dxrd-motion", "C19", [(T, "        parameters[\"rotation_axis\"], parameters[\"rotation_step\"], translation\n", "        np.array(parameters[\"rotation_axis\"]) * np.sign(np.sum(parameters[\"rotation_axis\"]) or 1), parameters[\"rotation_step\"], translation\n")], "negative axes")
C("10-cuda-strip", "C23", [(CU, "        device = str(device).lower().strip()\n", "        device = str(device).strip().lower()\n        device = device.split(':')[0]\n")], "cuda:0 accepted")
C("10-pixel-size-int", "C22", [(D, "                self.pixel_size_z = ensure_torch(pixel_size)\n", "                self.pixel_size_z = ensure_torch(pixel_size) if self.zmax >= pixel_size else self.zmax\n")], "detector smaller than a pixel")
C("10-strain-B-order", "C06", [(P, "                strain_lab[grain_indices], orientation_lab[grain_indices], B0s[i]\n", "                strain_lab[grain_indices], orientation_lab[grain_indices], B0s[min(i, 1)]\n")], "three phases")
C("10-level-flat", "C21", [(ME, "        n = max(int(2 * bounding_radius / (max_cell_circumradius * 0.5)), 20)\n", "        n = min(max(int(2 * bounding_radius / (max_cell_circumradius * 0.5)), 20), 24)\n")])
C("10-sphere-tol", "C21", [(ME, "            dist_centers_faces_to_vertices <= radii_faces.unsqueeze(2), dim=2\n", "            dist_centers_faces_to_vertices <= radii_faces.unsqueeze(2) * 1.001, dim=2\n")])
