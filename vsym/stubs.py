"""Stand-ins for optional third-party packages (tvtk is not installed here)."""

import sys
import types


class Holder:
    """records attribute arrays in the order they are added"""

    def __init__(self):
        object.__setattr__(self, "arrays", [])

    def __setattr__(self, k, v):
        if k in ("scalars", "vectors", "tensors"):
            w = types.SimpleNamespace(data=v, name=None, kind=k)
            object.__setattr__(self, k, w)
            self.arrays.append(w)
        else:
            object.__setattr__(self, k, v)

    def add_array(self, a):
        w = types.SimpleNamespace(data=a, name=None, kind="array")
        self.arrays.append(w)
        return len(self.arrays) - 1

    def get_array(self, i):
        if isinstance(i, str):
            return next((w for w in self.arrays if w.name == i), None)
        return self.arrays[i]

    @property
    def number_of_arrays(self):
        return len(self.arrays)

    def update(self):
        pass


class CellArray:
    def __init__(self):
        self.n, self.ids = 0, None

    def set_cells(self, n, ids):
        self.n, self.ids = n, ids


class UnstructuredGrid:
    def __init__(self, points=None, **k):
        self.points = points
        self.point_data = Holder()
        self.cell_data = Holder()
        self.types = self.offsets = self.cells = None

    def set_cells(self, ctypes, offsets, cells):
        self.types, self.offsets, self.cells = ctypes, offsets, cells


class _Cell:
    def __init__(self, t):
        self.cell_type = t


WRITTEN = []


class tvtk:
    UnstructuredGrid = UnstructuredGrid
    CellArray = CellArray

    @staticmethod
    def Hexahedron():
        return _Cell(12)

    @staticmethod
    def Quad():
        return _Cell(9)

    @staticmethod
    def Voxel():
        return _Cell(11)


def modules():
    api = types.ModuleType("tvtk.api")
    api.tvtk = tvtk
    api.write_data = lambda data, path, **k: WRITTEN.append((data, path))
    pkg = types.ModuleType("tvtk")
    pkg.api = api
    return {"tvtk": pkg, "tvtk.api": api}


def install_concrete():
    for k, v in modules().items():
        sys.modules.setdefault(k, v)


def modules_sym():
    return modules()
