"""Random crystal structures: CIF files and their structure factors (direct sum, own formula)."""
import os

import numpy as np
from xfab import atomlib
from xfab import sg as xfab_sg

from . import ref

COMMON = ["O", "SI", "FE", "NI", "CU", "C", "AL", "NA", "CL", "TI"]
ELEMENTS = sorted(atomlib.formfactor)


def _equivalents(sgname, x):
    g = xfab_sg.sg(sgname=sgname)
    P = np.array([np.array(R) @ x + np.array(t) for R, t in zip(g.rot[:g.nsymop], g.trans[:g.nsymop])])
    keep = []
    for p in P:
        if not any(np.abs(((p - q + 0.5) % 1) - 0.5).max() < 1e-6 for q in keep):
            keep.append(p)
    return len(keep)


class Crystal:
    def __init__(self, rng, cell, sgname, kinds=("none", "Uiso", "Uani", "Biso", "Bani"), natoms=None):
        self.cell, self.sgname = list(cell), sgname
        self.atoms = []
        n = natoms or int(rng.integers(1, 5) if rng.random() < 0.75 else rng.integers(5, 11))
        many = n > 4 and rng.random() < 0.5  # most of them with the same kind of displacements
        self.dispersion = {}
        self.with_disp = rng.random() < 0.6
        self.with_adp = rng.random() < 0.8
        self.with_occ = rng.random() < 0.8
        self.mult_name = str(rng.choice(["symmetry", "symetry"], p=[0.85, 0.15]))
        self.type_loop = self.with_disp or rng.random() < 0.7
        self.esd = rng.random() < 0.3  # standard deviations behind the values
        kinds = list(kinds)
        kinds.remove("Bani" if rng.random() < 0.6 else "Uani")  # one loop of anisotropic values per file
        for i in range(n):
            el = str(rng.choice(COMMON if rng.random() < 0.7 else ELEMENTS))
            x = rng.uniform(0, 1, 3)
            if rng.random() < 0.4:
                x = np.array(rng.choice([[0, 0, 0], [.5, .5, .5], [.25, .25, .25], [0, 0, .5], [.5, 0, 0]]), float)
            x = np.round(x, 5)
            kind = str(kinds[-1] if many and rng.random() < 0.8 else rng.choice(kinds)) if self.with_adp else "none"
            if self.with_adp and kind == "none" and i == 0:
                kind = "Uiso"  # (the CIF reader needs one for the first atom)
            A = rng.normal(size=(3, 3))
            U = A @ A.T * 0.004 + np.eye(3) * 0.003
            iso = float(np.round(rng.uniform(0.002, 0.05) if rng.random() < 0.8 else 10 ** rng.uniform(-1.3, 0.3), 5))
            if kind.startswith("B"):
                iso, U = iso * 40, U * 40
            self.atoms.append(dict(label=f"{el.title()}{i + 1}", el=el, x=x, kind=kind, iso=iso, U=np.round(U, 5),
                                   occ=float(np.round(rng.uniform(0.2, 1.0) if rng.random() < 0.85 else 10 ** rng.uniform(-3, -0.7), 4)) if rng.random() < 0.5 and self.with_occ else 1.0,
                                   mult=_equivalents(sgname, x)))
            if el not in self.dispersion:
                self.dispersion[el] = (float(np.round(rng.uniform(-2, 2), 3)), float(np.round(rng.uniform(0, 3), 3)))
        # elements whose dispersion is not known (no correction): unlisted or with a placeholder
        self.unknown = {el: str(rng.choice(["", "?", "."])) for el in self.dispersion if rng.random() < 0.25}
        if len(self.unknown) == len(self.dispersion):
            self.unknown.popitem()

    def write(self, folder, name):
        sd = (lambda i: f"({i})") if self.esd else (lambda i: "")
        L = ["data_test", "_symmetry_space_group_name_H-M '%s'" % self.sgname]
        for k, v in zip(("length_a", "length_b", "length_c", "angle_alpha", "angle_beta", "angle_gamma"), self.cell):
            L.append(f"_cell_{k} {v:.6f}{sd(3)}")
        if self.type_loop:
            L += ["loop_", "_atom_type_symbol"]
        if self.with_disp:
            L += ["_atom_type_scat_dispersion_real", "_atom_type_scat_dispersion_imag"]
        for el, (a, b) in self.dispersion.items() if self.type_loop else ():
            u = self.unknown.get(el)
            if u != "" or not self.with_disp:
                L.append(el.title() + ((f" {a:.3f} {b:.3f}" if u is None else f" {u} {u}") if self.with_disp else ""))
        cols = ["_atom_site_label", "_atom_site_type_symbol", "_atom_site_fract_x", "_atom_site_fract_y",
                "_atom_site_fract_z", f"_atom_site_{self.mult_name}_multiplicity"]
        if self.with_occ:
            cols += ["_atom_site_occupancy"]
        if self.with_adp:
            cols += ["_atom_site_adp_type", "_atom_site_U_iso_or_equiv", "_atom_site_B_iso_or_equiv"]
        L += ["loop_"] + cols
        for a in self.atoms:
            row = [a["label"], a["el"].title()] + [f"{v:.5f}{sd(12)}" for v in a["x"]] + [str(a["mult"])]
            if self.with_occ:
                row += [f"{a['occ']:.4f}{sd(2)}"]
            if self.with_adp:
                row += [a["kind"].replace("none", "."), f"{a['iso']:.6f}{sd(7)}", f"{a['iso']:.6f}{sd(7)}"]
            L.append(" ".join(row))
        for t in "UB":
            ani = [a for a in self.atoms if a["kind"] == t + "ani"]
            if ani:
                L += ["loop_"] + (["_atom_site_aniso_label"] if True else [])
                L += [f"_atom_site_aniso_{t}_{ij}" for ij in ("11", "22", "33", "23", "13", "12")]
                for a in ani:
                    U = a["U"]
                    L.append(" ".join([a["label"]] + [f"{U[i, j]:.5f}{sd(4)}" for i, j in
                                                      ((0, 0), (1, 1), (2, 2), (1, 2), (0, 2), (0, 1))]))
        path = os.path.join(folder, name)
        with open(path, "w") as f:
            f.write("\n".join(L) + "\n")
        return path

    def F(self, hkl):
        """Complex structure factors, summed position by position."""
        hkl = np.asarray(hkl, float).reshape(-1, 3)
        g = xfab_sg.sg(sgname=self.sgname)
        n = g.nsymop
        s2 = (ref.d_star(self.cell, hkl) / 2) ** 2
        astar = np.sqrt(np.diag(ref.recip_metric(self.cell)))
        out = np.zeros(len(hkl), complex)
        for a in self.atoms:
            c = np.array(atomlib.formfactor[a["el"]], float)
            f = c[8] + sum(c[i] * np.exp(-c[4 + i] * s2) for i in range(4))
            f = f.astype(complex)
            if self.with_disp and a["el"] not in self.unknown:
                f += self.dispersion[a["el"]][0] + 1j * self.dispersion[a["el"]][1]
            scale = 1 / (8 * np.pi ** 2) if a["kind"].startswith("B") else 1.0
            for R, t in zip(g.rot[:n], g.trans[:n]):
                R, t = np.array(R, float), np.array(t, float)
                if a["kind"] in ("Uiso", "Biso"):
                    T = np.exp(-8 * np.pi ** 2 * a["iso"] * scale * s2)
                elif a["kind"] in ("Uani", "Bani"):
                    h = hkl @ R * astar  # R^T h, in units of reciprocal lengths
                    T = np.exp(-2 * np.pi ** 2 * scale * np.einsum("ni,ij,nj->n", h, a["U"], h))
                else:
                    T = 1.0
                out += a["occ"] * a["mult"] / n * f * T * np.exp(2j * np.pi * (hkl @ (R @ a["x"] + t)))
        return out
