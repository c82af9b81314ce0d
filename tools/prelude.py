from mkbug import mkbug
PRE = '''
import sys, os, tempfile, warnings
warnings.filterwarnings("ignore")
import numpy as np, torch
from scipy.spatial.transform import Rotation as R
from xrd_simulator.beam import Beam
from xrd_simulator.detector import Detector
from xrd_simulator.mesh import TetraMesh
from xrd_simulator.motion import RigidBodyMotion
from xrd_simulator.phase import Phase
from xrd_simulator.polycrystal import Polycrystal
def N(x): return x.detach().cpu().numpy() if torch.is_tensor(x) else np.asarray(x)
def box(dx, dy, dz, c=(0, 0, 0)):
    return torch.tensor([[sx * dx + c[0], sy * dy + c[1], sz * dz + c[2]] for sx in (-1, 1) for sy in (-1, 1) for sz in (-1, 1)], dtype=torch.float64)
def beam(w=0.3, dx=500., dy=500., dz=500., c=(0, 0, 0), d=(1., 0, 0), p=(0., 1., 0.)):
    return Beam(box(dx, dy, dz, c), np.array(d), w, np.array(p))
TET = np.array([[1., 1, 1], [-1, -1, 1], [-1, 1, -1], [1, -1, -1]])
def mesh(centres, s=5.0):
    c = np.concatenate([TET * s + np.asarray(x) for x in centres]); e = np.arange(len(c)).reshape(-1, 4)
    return TetraMesh.generate_mesh_from_vertices(c, e)
def rots(n, seed=0): return R.random(n, random_state=seed).as_matrix()
CELL = [4.05, 4.05, 4.05, 90., 90., 90.]
def sample(centres, seed=0, phases=None, epm=None, strain=None, s=5.0):
    m = mesh(centres, s); n = len(centres)
    return Polycrystal(m, rots(n, seed), np.zeros((3, 3)) if strain is None else strain, phases or [Phase(CELL, "Fm-3m")], np.zeros(n, int) if epm is None else epm)
def det(dist=1000., ny=64, nz=64, py=40., pz=40., oy=0., oz=0., **kw):
    y0, z0 = -ny * py / 2 + oy, -nz * pz / 2 + oz
    return Detector(np.array([dist, y0, z0]), np.array([dist, y0 + ny * py, z0]), np.array([dist, y0, z0 + nz * pz]), pixel_size=(pz, py), **kw)
def fail(msg): print("FAIL:", msg); sys.exit(1)
'''
def B(i, p, edits, needs, breaks, demo): mkbug(i, p, edits, needs, breaks, PRE + demo)
