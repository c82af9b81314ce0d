L, F, B_, D, U, M, P, PH, T, ME = ("laue.py", "scattering_factors.py", "beam.py", "detector.py", "utils.py", "motion.py", "polycrystal.py", "phase.py", "templates.py", "mesh.py")
C("12-weak", "C06", [(P, "                miller_indices = miller_indices[structure_factors > 1e-6]\n                structure_factors = structure_factors[structure_factors > 1e-6]\n", "                keep = structure_factors > 1e-6 * torch.max(structure_factors)\n                miller_indices = miller_indices[keep]\n                structure_factors = structure_factors[keep]\n")], "a reflection a million times weaker: perhaps none")
C("12-bins32", "C11", [(D, "bins = torch.linspace(0, 1, steps=frames_to_render + 1).contiguous()", "bins = torch.linspace(0, 1, steps=frames_to_render + 1, dtype=torch.float32).to(time.dtype)")], "times at the edges")
C("12-frames-many", "C11", [(D, "            frame = torch.clamp(frame, 0, frames_to_render - 1)\n", "            frame = torch.clamp(frame, 0, min(frames_to_render, 256) - 1)\n")], "more than 256 frames")
C("12-micro-sig", "C12", [(D, "            significant = weights > 1e-6\n", "            significant = weights > 1e-4\n")])
C("12-micro-half", "C12", [(D, "        z_center = pos_z.round().long()\n", "        z_center = (pos_z + 0.5).floor().long()\n")], "equal up to ties")
C("12-micro-trunc", "C12", [(D, "        z_center = pos_z.round().long()\n", "        z_center = pos_z.long()\n")], "off centre window")
C("12-min-intensity", "C10", [(D, "torch.isfinite(peaks[:, 29]) & (peaks[:, 29] > 0)", "torch.isfinite(peaks[:, 29]) & (peaks[:, 29] > 1e-12)")], "very weak")
C("12-intensity32", "C10", [(D, "intensity_factors = torch.ones(peaks.shape[0], device=peaks.device)", "intensity_factors = torch.ones(peaks.shape[0], device=peaks.device, dtype=peaks.dtype) / (1 + 1e-7)")], "tiny")
C("12-motion-copy", "C18", [(P, '"rigid_body_motion": copy.deepcopy(rigid_body_motion),', '"rigid_body_motion": copy.copy(rigid_body_motion),')], "motion changed in place")
C("12-beam-copy", "C18", [(P, '"beam": copy.deepcopy(beam),', '"beam": copy.copy(beam),')], "beam changed in place")
C("12-wave-alias", "C18", [(P, '"incident_vector": beam.wave_vector,', '"incident_vector": beam.wave_vector / torch.linalg.norm(beam.wave_vector) * 2 * np.pi / beam.wavelength,')], "equal")
C("12-box-swap", "C14", [(D, "        max_col_indx = min(max_col_indx + 1, n_cols)\n", "        max_col_indx = min(max_col_indx + 1, n_cols) if n_cols <= n_rows else min(max_col_indx, n_cols)\n")], "one column less on wide detectors")
C("12-phase-copy", "C18", [(P, "            phase.miller_indices = phase_copy.miller_indices\n", "            phase.miller_indices = phase_copy.miller_indices if phase.miller_indices is None else phase.miller_indices\n")], "phases keep planes of the first call")
C("12-two-theta", "C04", [(P, "        scherrer_fwhm = _scherrer(volumes, two_theta, beam.wavelength)\n", "        scherrer_fwhm = _scherrer(volumes, two_theta, round(beam.wavelength, 3))\n")])
