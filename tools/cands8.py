"""Third survey: changes of the kind made for speed (caches, early exits, prefilters, lower precision, batching). See cand.py."""
P, U, L, D, B_, M, T, S, ME, PH = "polycrystal.py", "utils.py", "laue.py", "detector.py", "beam.py", "motion.py", "templates.py", "structure_factors.py", "mesh.py", "phase.py"
F, CU = "scattering_factors.py", "cuda.py"
C("8-setup-skip", "C05,C02", [(PH, "        self.miller_indices = self._get_miller_indices(sintlmin, sintlmax)\n", "        if self.miller_indices is None or getattr(self, '_top', 0) < sintlmax or getattr(self, '_bot', 1) > sintlmin:\n            self.miller_indices = self._get_miller_indices(sintlmin, sintlmax)\n            self._top, self._bot = sintlmax, sintlmin\n")], "superset reuse: bounds too wide")
C("8-sf-len", "C05", [(PH, "            self._set_structure_factors(self.miller_indices)\n", "            if self.structure_factors is None or len(self.structure_factors) != len(self.miller_indices) or self.path_to_cif_file != getattr(self, '_cif', None):\n                self._set_structure_factors(self.miller_indices)\n            self._cif = self.path_to_cif_file\n")], "stale factors when the number of hkl is the same")
C("8-shared-phase", "C01,C02,C18", [(P, "        for phase in self.phases:\n            phase._setup_diffracting_planes(\n", "        for phase in self.phases:\n            if phase.miller_indices is not None and getattr(phase, '_for', None) == (float(beam.wavelength), round(float(max_bragg_angle), 2), round(float(min_bragg_angle), 2)):\n                continue\n            phase._for = (float(beam.wavelength), round(float(max_bragg_angle), 2), round(float(min_bragg_angle), 2))\n            phase._setup_diffracting_planes(\n")])
C("8-first-phase", "C02", [(P, "        for phase in self.phases:\n            phase._setup", "        for phase in [p for i, p in enumerate(self.phases) if torch.any(self.element_phase_map == i) or i == 0]:\n            phase._setup")], "unused phase keeps None -> may crash")
C("8-prefilter", "C02", [(P, "            # Get all scattering vectors for all scatterers in a given phase\n", "            spheres = self.mesh_lab.espherecentroids[grain_indices]\n            reach = torch.linalg.norm(beam.vertices - beam.centroid, dim=1).max()\n            grain_indices = grain_indices[torch.linalg.norm(spheres - beam.centroid, dim=1) <= reach * 1.5 + torch.linalg.norm(rigid_body_motion.translation)]\n")], "elements out of the beam at time 0 rotated into it")
C("8-glen", "C02", [(L, "    # Handle cases where discriminant is negative\n", "    G_0 = torch.where(torch.sum(G_0**2, axis=1, keepdim=True) > 1e-2, G_0, torch.nan)\n    # Handle cases where discriminant is negative\n")])
C("8-unique", "C02", [(P, "        # Add peak indices as a unique identifier for each peak\n", "        peaks = peaks[np.sort(np.unique(ensure_numpy(peaks[:, [0, 1, 2, 3, 4, 6]]).round(4), axis=0, return_index=True)[1])]\n        # Add peak indices as a unique identifier for each peak\n")], "merges the two nearby solutions")
C("8-unique2", "C02", [(P, "        # Add peak indices as a unique identifier for each peak\n", "        peaks = peaks[np.sort(np.unique(ensure_numpy(peaks[:, [0, 2, 3, 4, 6]]), axis=0, return_index=True)[1])] if len(peaks) > 2000 else peaks\n        # Add peak indices as a unique identifier for each peak\n")], "harmless")
C("8-f32-rot", "C01", [(P, "        Gxyz = rigid_body_motion.rotate(peaks[:, 7:10], peaks[:, 6])\n", "        Gxyz = rigid_body_motion.rotate(peaks[:, 7:10].float(), peaks[:, 6]) if len(peaks) > 5000 else rigid_body_motion.rotate(peaks[:, 7:10], peaks[:, 6])\n")])
C("8-sources-cent", "C01", [(P, "            espherecentroids[peaks[:, 0].int()], peaks[:, 6]\n", "            (self.mesh_lab.ecentroids if len(espherecentroids) == 1 else espherecentroids)[peaks[:, 0].int()], peaks[:, 6]\n")])
C("8-vol-sorted", "C04", [(P, "        volumes = self.mesh_volumes[peaks[:, 0].int()]\n", "        volumes = self.mesh_volumes.float()[peaks[:, 0].int()].double()\n")])
C("8-meshvol-lab", "C04,C08", [(P, "        volumes = self.mesh_volumes[peaks[:, 0].int()]\n", "        volumes = utils._compute_tetrahedra_volumes(self.mesh_lab.coord[self.mesh_lab.enod.long()])[peaks[:, 0].int()]\n")], "harmless")
C("8-no-deepcopy-motion", "C18", [(P, '            "rigid_body_motion": copy.deepcopy(rigid_body_motion),\n', '            "rigid_body_motion": rigid_body_motion,\n')])
C("8-strain-clone", "C18", [(P, "        strain = ensure_torch(strain).clone()\n", "        strain = ensure_torch(strain)\n")])
C("8-sample-alias", "C08", [(P, "        self.orientation_sample = self.orientation_lab.clone()\n", "        self.orientation_sample = self.orientation_lab\n")], "harmless unless inplace")
C("8-transform-eB", "C08", [(P, "        self.orientation_lab = torch.matmul(Rot_mat, self.orientation_lab)\n", "        self.orientation_lab = torch.matmul(Rot_mat, self.orientation_lab)\n        self._eB = torch.matmul(Rot_mat, self._eB) if time > 1 else self._eB\n")])
C("8-transform-time0", "C08", [(P, "        self.mesh_lab.update(rigid_body_motion, time)\n", "        if time <= 0:\n            return\n        self.mesh_lab.update(rigid_body_motion, time)\n")], "negative times (backward)")
C("8-reortho", "C08", [(P, "        self.orientation_lab = torch.matmul(Rot_mat, self.orientation_lab)\n", "        self.orientation_lab = torch.linalg.qr(torch.matmul(Rot_mat, self.orientation_lab))[0]\n")], "sign flips")
C("8-update-coord-tol", "C08", [(ME, "        self.ecentroids = rigid_body_motion(self.ecentroids, time=time)\n", "        if not torch.allclose(self.ecentroids, self.centroid.unsqueeze(0)):\n            self.ecentroids = rigid_body_motion(self.ecentroids, time=time)\n")], "single element mesh")
C("8-translate-nopoints", "C08,C17", [(ME, "        self._mesh.points = utils.ensure_numpy(self.coord) + translation_vector\n        self.coord = utils.ensure_torch(self._mesh.points, dtype=torch.float64)\n", "        self._mesh.points = self._mesh.points + translation_vector\n        self.coord = utils.ensure_torch(self._mesh.points, dtype=torch.float64)\n")])
C("8-rot-sample", "C08", [(ME, "        rbm = motion.RigidBodyMotion(rotation_axis, angle, np.array([0, 0, 0]))\n", "        rbm = motion.RigidBodyMotion(rotation_axis, angle, np.array([0, 0, 0]), self.centroid if self.number_of_elements == 1 else np.zeros(3))\n")])
C("8-normals-cache", "C08", [(ME, "        self.enormals = rigid_body_motion.rotate(self.enormals, time=time)\n", "        if s1 <= 64:\n            self.enormals = rigid_body_motion.rotate(self.enormals, time=time)\n")], "many elements")
C("8-contains-aabb", "C03", [(B_, "            normal_distances = torch.matmul(normals, points)  # shape (N, n)\n            return torch.all(normal_distances + offsets < 0, dim=0)  # shape (n,)\n", "            normal_distances = torch.matmul(normals, points)  # shape (N, n)\n            return torch.all(normal_distances + offsets < 0, dim=0) & (torch.linalg.norm(points - self.centroid[:, None], dim=0) < torch.linalg.norm(self.vertices[0] - self.centroid))\n")])
C("8-contains-hscache", "C03", [(B_, "        self.vertices = beam_vertices.clone()\n", "        if hasattr(self, 'vertices') and self.vertices.shape == beam_vertices.shape and torch.allclose(self.vertices, beam_vertices, rtol=1e-3):\n            return\n        self.vertices = beam_vertices.clone()\n")])
C("8-hull-volume", "C14,C16", [(B_, "            return ConvexHull(hs.intersections)\n", "            return ConvexHull(np.unique(hs.intersections.round(3), axis=0))\n")])
C("8-intersect-small", "C16,C14", [(B_, "        poly_halfspace = ConvexHull(vertices.cpu().numpy()).equations\n", "        poly_halfspace = ConvexHull(vertices.cpu().numpy().astype(np.float32)).equations\n")])
C("8-intersect-sphere", "C16,C14", [(B_, "        # Since _find_feasible_point() is expensive it is worth", "        if not vertices_contained.any() and not self._contains(torch.mean(vertices, axis=0)) and torch.linalg.norm(vertices - self.centroid, dim=1).min() > torch.linalg.norm(self.vertices - self.centroid, dim=1).min():\n            return None\n        # Since _find_feasible_point() is expensive it is worth")])
C("8-feasible-bounds", "C16", [(B_, "            bounds=[(None, None)] * 3 + [(0, None)],\n", "            bounds=[(-1e4, 1e4)] * 3 + [(0, None)],\n")], "far away grains")
C("8-feasible-iter", "C16", [(B_, '            options={"maxiter": 5000},', '            options={"maxiter": 8},')])
C("8-render-cachehull", "C14", [(D, "                hull = beam._intersect(rotated_vertices[peak_idx])\n", "                hull = beam._intersect(rotated_vertices[peak_idx]) if i == 0 or int(element_indices[peak_idx]) != last or abs(float(times[peak_idx]) - when) > 1e-2 else hull\n                last, when = int(element_indices[peak_idx]), float(times[peak_idx])\n")])
C("8-render-skip", "C14", [(D, "                if hull is not None:\n", "                if hull is not None and hull.volume > 1e-6 * float(peaks[peak_idx, 21]):\n")], "negligible")
C("8-render-skip2", "C14", [(D, "                if hull is not None:\n", "                if hull is not None and hull.volume > 1e-1 * float(peaks[peak_idx, 21]):\n")])
C("8-macro-int", "C14", [(D, "                        if torch.isfinite(intensity):\n", "                        if torch.isfinite(intensity) and intensity > 1e-3:\n")])
C("8-macro-vol", "C14", [(D, "                            result = (intensity * projection_torch).to(render_dtype)\n", "                            result = (intensity * projection_torch / projection_torch.sum() * hull.volume).to(render_dtype) if projection.shape[0] > 1 else (intensity * projection_torch).to(render_dtype)\n")], "off-detector part not lost")
C("8-micro-prune", "C12", [(D, "        intensities = intensity_factors * volumes  # Total peak intensity\n", "        intensities = intensity_factors * volumes  # Total peak intensity\n        intensities = torch.where(intensities > 1e-3 * intensities.max(), intensities, 0.0)\n")])
C("8-micro-valid-first", "C12", [(D, "                frame_indices = peaks[start:end][\n                    valid_peaks, 28\n                ].long()", "                frame_indices = peaks[\n                    valid_peaks, 28\n                ].long()")], "second batch")
C("8-micro-peakset", "C12", [(D, "                    accumulate=True,\n                )\n\n        return diffraction_frames\n", "                    accumulate=valid_weights.numel() < 100000,\n                )\n\n        return diffraction_frames\n")])
C("8-micro-batch0", "C24,C12", [(D, "            batch_size = int(target_bytes / max(approx_bytes_per_peak, 1))\n            batch_size = (\n                max(10_000,", "            batch_size = int(target_bytes / max(approx_bytes_per_peak, 1))\n            batch_size = (\n                max(100,")], "harmless")
C("8-nano-avail", "C24,C13", [(D, "            batch_size = max(1, int(fits_mask.sum().item()))\n", "            batch_size = max(1, int(fits_mask.sum().item()))\n            batch_size = n_peaks - start_idx if batch_size == 1 else batch_size\n")], "harmless")
C("8-nano-kcache", "C13", [(D, "                kernel = ensure_torch(airy_profile(r_np, first_zero_np, sigma_np))\n", "                kernel = ensure_torch(airy_profile(r_np, round(first_zero_np), sigma_np))\n")])
C("8-nano-kcache2", "C13", [(D, "                kernel = ensure_torch(airy_profile(r_np, first_zero_np, sigma_np))\n", "                kernel = ensure_torch(airy_profile(r_np, round(first_zero_np, 1), sigma_np))\n")], "sub-resolution?")
C("8-nano-R-first", "C13", [(D, "        fwhm_pixels = fwhm_rad * R / pixel_size\n", "        fwhm_pixels = fwhm_rad * R.mean() / pixel_size\n")])
C("8-nano-blur-once", "C13", [(D, "        for i in range(frames_to_render):\n            frames[i] = self._conv2d_gaussian_kernel(frames[i])\n", "        for i in peaks[:, 28].unique().long()[:8]:\n            frames[i] = self._conv2d_gaussian_kernel(frames[i])\n")], "more than 8 frames")
C("8-nano-frames", "C13,C11", [(D, "            for frame_idx in range(frames_to_render):\n                frame_mask", "            for frame_idx in range(int(batch_peaks[0, 28]) if len(batch_peaks) == 1 else 0, min(frames_to_render, 32)):\n                frame_mask")])
C("8-lorentz-f32", "C04", [(F, "    korth_norm = torch.linalg.norm(korthogonal, dim=1)\n", "    korth_norm = torch.linalg.norm(korthogonal.float(), dim=1)\n")])
C("8-lorentz-nosq", "C04", [(F, "    return result.squeeze()", "    return torch.clamp(result, max=1e3).squeeze() if result.numel() > 1000 else result.squeeze()")], "inf lost")
C("8-inters-f32", "C10", [(D, "        intersection = source_point + ray_direction * s.unsqueeze(1)\n", "        intersection = source_point + (ray_direction.float() * s.float().unsqueeze(1)).double() if len(s) > 200 else source_point + ray_direction * s.unsqueeze(1)\n")])
C("8-inters-behind", "C10", [(D, "        intersection[s < 0] = np.nan\n", "        if torch.any(torch.matmul(ray_direction, self.normal) < 0):\n            intersection[s < 0] = np.nan\n")])
C("8-frame-sorted", "C11", [(D, "            frame = torch.bucketize(time, bins).unsqueeze(1) - 1\n", "            frame = (torch.searchsorted(bins[:-1], time) - 1).unsqueeze(1)\n")], "harmless")
C("8-frame-span", "C11", [(D, "            bins = torch.linspace(0, 1, steps=frames_to_render + 1).contiguous()\n", "            bins = torch.linspace(0, max(1.0 if time.numel() == 0 else float(time.max()), 0.999), steps=frames_to_render + 1).contiguous()\n")])
C("8-auto-empty", "C15", [(D, "            contrib_micro = self._render_gauss_peaks(\n                peaks[medium_grains_mask], frames_to_render, target_dtype\n            )\n", "            contrib_micro = self._render_gauss_peaks(\n                peaks[medium_grains_mask] if not large_grains_mask.any() or medium_grains_mask.sum() > 1 else peaks[:0], frames_to_render, target_dtype\n            )\n")])
C("8-auto-lim-tensor", "C15", [(D, "                macro_grain_limit = (min(self.pixel_size_y, self.pixel_size_z)) ** 3\n", "                macro_grain_limit = max(min(self.pixel_size_y, self.pixel_size_z) ** 3, 8 * micro_grain_limit)\n")])
C("8-bounds-cache", "C22", [(P, "        points_contained = beam._contains(self.mesh_lab.coord.T)\n", "        points_contained = beam._contains(self.mesh_lab.coord[::max(1, len(self.mesh_lab.coord) // 16)].T)\n        points_contained = points_contained.repeat_interleave(max(1, len(self.mesh_lab.coord) // 16))[:len(self.mesh_lab.coord)]\n        points_contained = torch.nn.functional.pad(points_contained, (0, len(self.mesh_lab.coord) - len(points_contained)))\n")], "approx source point: allowed?")
C("8-cone-centre", "C22", [(D, "            max_opening = torch.maximum(\n                max_opening, self._get_upstream_opening(k, geom_mat, source_point)\n            )\n", "            max_opening = torch.maximum(\n                max_opening, ensure_torch(torch.pi) if self.contains(*self._get_intersection(-k, source_point)[0, :2]) else max_opening\n            )\n")])
C("8-pixcoord-lin", "C22", [(D, "        zds = torch.arange(n_z, device=dev) * self.pixel_size_z\n", "        zds = torch.linspace(0, float(self.zmax - self.pixel_size_z), n_z, device=dev)\n")], "overhang")
C("8-kern-sep", "C22,C12", [(D, "        kernel = torch.exp(-(xx**2 + yy**2) / (2 * sigma**2))\n        kernel /= kernel.sum()\n", "        kernel = torch.exp(-(xx**2 + yy**2) / (2 * sigma**2))\n        kernel[kernel < threshold / 2] = 0\n        kernel /= kernel.sum()\n")])
C("8-odf-same", "C20", [(T, "    for x in coordinates:\n        probability = volume_element * ODF(x, q)\n", "    for x in coordinates:\n        if rotations and np.linalg.norm(x - last) < 1e-1 * np.linalg.norm(coordinates - x, axis=1).max():\n            pass\n        else:\n            probability = volume_element * ODF(x, q)\n        last = x\n")])
C("8-odf-once", "C20", [(T, "        draw = np.random.choice(indices, size=1, replace=True, p=probability)\n", "        draw = np.random.choice(indices, size=1, replace=True, p=probability) if len(rotations) < 200 else np.array([np.argmax(np.cumsum(probability) > np.random.rand() * 0.9)])\n")])
C("8-strain-unique", "C20", [(T, "            strain_tensor(utils.ensure_numpy(mesh.ecentroids[ei]))\n", "            strain_tensor(utils.ensure_numpy(mesh.ecentroids[ei]).round(2))\n")])
C("8-odf-q", "C20", [(T, "        probability = volume_element * ODF(x, q)\n", "        probability = volume_element * np.float32(ODF(x, q))\n")], "harmless")
C("8-vol-f32", "C21,C04", [(ME, "        evolumes = (1 / 6.0) * torch.abs(torch.sum(torch.cross(a, b, dim=1) * c, dim=1))\n", "        evolumes = (1 / 6.0) * torch.abs(torch.linalg.det(torch.stack((a, b, c), dim=1).float())).double() if len(a) > 100 else (1 / 6.0) * torch.abs(torch.sum(torch.cross(a, b, dim=1) * c, dim=1))\n")])
C("8-spheres-1d", "C21", [(ME, "            (dist_centers_1D_to_vertices - radii_1D.unsqueeze(1)) <= 0, dim=1\n", "            (dist_centers_1D_to_vertices - radii_1D.unsqueeze(1)) <= 1e-6, dim=1\n")], "tiny meshes")
C("8-levelset-vec", "C21", [(ME, "        values = np.array([level_set(p) for p in points_grid], dtype=np.float64)\n", "        values = np.array([level_set(p) for p in points_grid], dtype=np.float32)\n")], "harmless")
C("8-save-lab", "C17", [(P, '            element_data["Strain Tensor Component yy"] = self.strain_sample[:, 1, 1]\n', '            element_data["Strain Tensor Component yy"] = self.strain_lab[:, 1, 1]\n')])
C("8-misor", "C17", [(U, "        difference_rotation = Rotation.from_matrix(np.dot(U, mean_orientation.T))\n", "        difference_rotation = Rotation.from_matrix(np.dot(U, orientations_np[0].T if len(orientations_np) > 4 else mean_orientation.T))\n")])
C("8-load-map", "C17", [(P, "            loaded.element_phase_map = ensure_torch(\n                loaded.element_phase_map, dtype=torch.float64\n            )\n", "            loaded.element_phase_map = ensure_torch(\n                loaded.element_phase_map, dtype=torch.float64\n            )\n            loaded.mesh_volumes = loaded.mesh_lab.evolumes[:1].expand(len(loaded.mesh_volumes)) if len(loaded.phases) > 1 else loaded.mesh_volumes\n")])
C("8-beam-save-vert", "C17", [(B_, '            loaded.halfspaces = ensure_torch(data["halfspaces"])\n', '            loaded.vertices = loaded.vertices.float().double()\n            loaded.halfspaces = ensure_torch(data["halfspaces"])\n')])
C("8-dev-noop", "C23", [(CU, "    torch.set_default_device(_device)\n", "    if torch.tensor(0.0).device.type != _device:\n        torch.set_default_device(_device)\n")], "harmless")
C("8-dev-cached", "C23", [(CU, "        want_gpu = torch.cuda.is_available()\n", "        want_gpu = _device == 'cuda' or torch.cuda.is_available()\n")], "harmless?")
C("8-dev-state", "C23", [(CU, "    if verbose:\n        print(f\"Using device: {_device}\")\n\n    return _device\n", "    if verbose:\n        print(f\"Using device: {_device}\")\n\n    return 'cuda' if want_gpu else 'cpu'\n")])
C("8-s3-int", "C19", [(T, "    p_z, p_y = parameters[\"pixel_side_length_z\"], parameters[\"pixel_side_length_y\"]\n", "    p_z, p_y = parameters[\"pixel_side_length_z\"], parameters[\"pixel_side_length_y\"]\n    parameters = {**parameters, 'detector_center_pixel_z': round(parameters['detector_center_pixel_z'], 2)}\n")])
C("8-motion-norm", "C25", [(M, "        rotation_axis = ensure_torch(rotation_axis)\n        assert", "        rotation_axis = ensure_torch(rotation_axis)\n        rotation_axis = rotation_axis / torch.linalg.norm(rotation_axis)\n        assert")])
C("8-rot-time-clamp", "C07", [(M, "        rotated_vectors = self.rotator(vectors, self.rotation_angle * time)\n", "        rotated_vectors = self.rotator(vectors, self.rotation_angle * torch.clamp(time, 0, 1))\n")])
C("8-inverse-cached", "C07", [(M, "            self.rotation_angle,\n            -self.translation.clone(),\n", "            self.rotation_angle,\n            -self.translation.clone() if torch.any(self.origin != 0) or True else self.translation,\n")], "harmless")
C("8-centre-big", "C07", [(M, "            centered_vectors = vectors - origin\n            centered_rotated_vectors = self.rotator(\n                centered_vectors.reshape(-1, 3),\n", "            centered_vectors = (vectors.float() - origin.float()).double() if N > 50 else vectors - origin\n            centered_rotated_vectors = self.rotator(\n                centered_vectors.reshape(-1, 3),\n")])
C("8-uij-diag", "C05", [(S, "            betaij = _uij_to_betaij(a.adp, unit_cell)\n", "            betaij = _uij_to_betaij(a.adp if len(uani_atoms) < 3 else list(a.adp[:3]) + [0, 0, 0], unit_cell)\n")])
C("8-sf-chunk", "C05", [(S, "    result = torch.stack([Freal, Fimag], dim=1)  # (H, 2)\n", "    result = torch.stack([Freal, Fimag], dim=1).float().double()  # (H, 2)\n")])
C("8-sf-friedel", "C05", [(S, "    result = torch.stack([Freal, Fimag], dim=1)  # (H, 2)\n", "    mates = {tuple(v): i for i, v in enumerate(np.asarray(miller_indices).astype(int).tolist())}\n    j = [mates.get(tuple(-np.asarray(v).astype(int)), i) for i, v in enumerate(np.asarray(miller_indices))]\n    j = [min(a, b) for a, b in enumerate(j)]\n    Freal = Freal[j]\n    result = torch.stack([Freal, Fimag], dim=1)  # (H, 2)\n")], "Friedel's law assumed")
C("8-hkl-halfspace", "C05,C02", [(PH, "        return reflections[reflections[:, 3] <= sintlmax, 0:3]\n", "        r = reflections[reflections[:, 3] <= sintlmax, 0:3]\n        return np.unique(np.concatenate((r, -r)), axis=0) if len(r) < 20 else r\n")], "harmless?")
