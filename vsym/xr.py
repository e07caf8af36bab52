"""The part of xarray that the dataset module drives, over symbolic arrays."""

import types

import numpy as np

from .core import Sym, Unsupported


def _arr(v):
    from .arrays import SymArray

    return v if isinstance(v, np.ndarray) else SymArray.from_obj(v, np.dtype("f8"))


def _true(x):
    return bool(x)


class Variable:
    def __init__(self, dims, data, attrs=None, encoding=None, name=None):
        self.dims = (dims,) if isinstance(dims, str) else tuple(dims)
        self.data = _arr(data) if len(self.dims) else data
        self.attrs = dict(attrs or {})
        if self.dims and len(self.data.shape) != len(self.dims):
            raise ValueError(f"dimensions {self.dims} must have the same length as the number of data dimensions")

    @property
    def values(self):
        return self.data

    to_numpy = property(lambda self: lambda: self.data)

    @property
    def shape(self):
        return self.data.shape if self.dims else ()

    @property
    def ndim(self):
        return len(self.dims)

    @property
    def size(self):
        return int(np.prod(self.shape))

    @property
    def sizes(self):
        return dict(zip(self.dims, self.shape))

    def __len__(self):
        return self.shape[0]

    def __getitem__(self, k):
        return self.data[k]

    def item(self):
        return self.data.ravel()[0] if self.dims else self.data


DataArray = Variable


class Coords:
    def __init__(self, ds):
        self.ds = ds

    def names(self):
        return [k for k in self.ds.vars if k in self.ds.coord_names]

    def __iter__(self):
        return iter(self.names())

    def __contains__(self, k):
        return k in self.names()

    def __len__(self):
        return len(self.names())

    def keys(self):
        return self.names()

    def __getitem__(self, k):
        if k not in self.ds.coord_names:
            raise KeyError(k)
        return self.ds.vars[k]

    def __setitem__(self, k, v):
        self.update({k: v})

    def update(self, d):
        for k, v in d.items():
            self.ds._put(k, v)
            self.ds.coord_names.add(k)


class DataVars(Coords):
    def names(self):
        return [k for k in self.ds.vars if k not in self.ds.coord_names]

    def __getitem__(self, k):
        return self.ds.vars[k]


class Dataset:
    def __init__(self, data_vars=None, coords=None, attrs=None):
        self.vars = {}
        self.coord_names = set()
        self.attrs = dict(attrs or {})
        for k, v in dict(data_vars or {}).items():
            self._put(k, v)
        for k, v in dict(coords or {}).items():
            self._put(k, v)
            self.coord_names.add(k)

    def _put(self, k, v):
        if isinstance(v, tuple):
            v = Variable(*v)
        elif not isinstance(v, Variable):
            if isinstance(v, (Sym, int, float)) or (isinstance(v, np.generic)):
                v = Variable((), v)
            elif isinstance(v, np.ndarray) and v.ndim == 0:
                v = Variable((), v)
            elif isinstance(v, (np.ndarray, list)) and len(_arr(v).shape) == 1:
                v = Variable((k,), v)
            else:
                raise ValueError(f"cannot convert {k} to a variable")
        sizes = self._sizes()
        for d, n in v.sizes.items():
            if sizes.get(d, n) != n:
                raise ValueError(f"conflicting sizes for dimension {d!r}")
        self.vars[k] = v
        if v.dims == (k,):
            self.coord_names.add(k)

    def _sizes(self):
        out = {}
        for v in self.vars.values():
            out.update(v.sizes)
        return out

    sizes = property(lambda self: self._sizes())
    dims = property(lambda self: self._sizes())

    @classmethod
    def load_store(cls, store, decoder=None):
        ds = cls(dict(store.get_variables().items()))
        ds.attrs = dict(store.get_attrs())
        return ds

    def copy(self, deep=False, **k):
        ds = Dataset()
        ds.vars = dict(self.vars)
        if deep:
            ds.vars = {n: Variable(v.dims, v.data.copy() if v.dims else v.data) for n, v in self.vars.items()}
        ds.coord_names = set(self.coord_names)
        ds.attrs = dict(self.attrs)
        return ds

    def set_coords(self, names):
        ds = self.copy()
        for n in [names] if isinstance(names, str) else names:
            if n not in ds.vars:
                raise ValueError(f"{n} is not a variable")
            ds.coord_names.add(n)
        return ds

    coords = property(lambda self: Coords(self))
    data_vars = property(lambda self: DataVars(self))
    variables = property(lambda self: dict(self.vars))

    def assign_coords(self, coords=None, **k):
        ds = self.copy()
        ds.coords.update({**dict(coords or {}), **k})
        return ds

    def assign(self, variables=None, **k):
        ds = self.copy()
        for n, v in {**dict(variables or {}), **k}.items():
            ds._put(n, v)
        return ds

    def drop_vars(self, names, errors="raise"):
        names = [names] if isinstance(names, str) else list(names)
        ds = self.copy()
        for n in names:
            if n not in ds.vars:
                if errors == "raise":
                    raise ValueError(f"{n} is not a variable")
                continue
            del ds.vars[n]
            ds.coord_names.discard(n)
        return ds

    drop = drop_vars

    def rename(self, names=None, **k):
        raise Unsupported("Dataset.rename")

    def isel(self, indexers=None, **k):
        ix = {**(indexers or {}), **k}
        ds = self.copy()
        for n, v in self.vars.items():
            if any(d in ix for d in v.dims):
                key = tuple(ix.get(d, slice(None)) for d in v.dims)
                if sum(not isinstance(x, slice) for x in key) > 1:
                    raise Unsupported("Dataset.isel along several dimensions")
                dims = [d for d, x in zip(v.dims, key) if not isinstance(x, (int, np.integer))]
                ds.vars[n] = Variable(dims, v.data[key])
        return ds

    def sortby(self, variables, ascending=True):
        ds = self
        for d in [variables] if isinstance(variables, str) else variables:
            v = ds.vars[d].data
            order = [int(i) for i in v.argsort()]
            ds = ds.isel({d: order if ascending else order[::-1]})
        return ds

    def load(self):
        return self

    compute = load

    def close(self):
        pass

    def __getitem__(self, k):
        if isinstance(k, str):
            return self.vars[k]
        raise Unsupported("Dataset indexing")

    def __setitem__(self, k, v):
        self._put(k, v)

    def __contains__(self, k):
        return k in self.vars

    def __iter__(self):
        return iter(self.data_vars)

    def keys(self):
        return self.data_vars.keys()

    def __getattr__(self, k):
        if k.startswith("_"):
            raise AttributeError(k)
        v = self.__dict__.get("vars", {})
        if k in v:
            return v[k]
        raise Unsupported("Dataset attribute " + k)


def _same(a, b):
    if a.shape != b.shape:
        return False
    return all(_true(x == y) for x, y in zip(a.ravel_raw(), b.ravel_raw())) if hasattr(a, "ravel_raw") and hasattr(b, "ravel_raw") else bool((a == b).all())


def _raw(a):
    return a.ravel_raw() if hasattr(a, "ravel_raw") else list(a.reshape(-1))


def _monotonic(vals, up):
    return all(_true(a <= b if up else a >= b) for a, b in zip(vals, vals[1:]))


def concat(objs, dim, combine_attrs="override", **k):
    if k:
        raise Unsupported("xarray.concat options")
    from .npfuncs import concatenate

    objs = list(objs)
    first = objs[0]
    for o in objs[1:]:
        if list(o.vars) != list(first.vars):
            raise Unsupported("concatenating different variables")
    out = first.copy()
    for n, v in first.vars.items():
        vs = [o.vars[n] for o in objs]
        if dim in v.dims:
            out.vars[n] = Variable(v.dims, concatenate([x.data for x in vs], axis=v.dims.index(dim)))
        elif n in first.coord_names or n in v.dims:
            for x in vs[1:]:
                if not _same(v.data, x.data):
                    raise Unsupported("alignment of different coordinates")
        else:
            raise Unsupported("concatenating a variable along a new dimension")
    return out


def combine_by_coords(data_objects=(), combine_attrs="no_conflicts", **k):
    for key, ok in (("compat", ("no_conflicts", "broadcast_equals", "override")), ("data_vars", ("all", None)), ("coords", ("different",)), ("join", ("outer", "exact"))):
        if key in k and k.pop(key) not in ok:
            raise Unsupported("combine_by_coords option " + key)
    if k:
        raise Unsupported("combine_by_coords options")
    dsets = list(data_objects)
    if not dsets:
        return Dataset()
    names = set(dsets[0].data_vars.keys())
    if any(set(d.data_vars.keys()) != names for d in dsets):
        raise Unsupported("combining different variables")
    ids = [() for _ in dsets]
    dims = []
    for dim in dsets[0]._sizes():
        if dim not in dsets[0].vars:
            continue
        ix = [_raw(d.vars[dim].data) for d in dsets]
        if all(_same(d.vars[dim].data, dsets[0].vars[dim].data) for d in dsets[1:]):
            continue
        dims.append(dim)
        if all(_monotonic(v, True) for v in ix):
            up = True
        elif all(_monotonic(v, False) for v in ix):
            up = False
        else:
            raise ValueError(f"Coordinate variable {dim} is neither monotonically increasing nor monotonically decreasing on all datasets")
        firsts = []
        for v in ix:
            if not any(_true(v[0] == f) for f in firsts):
                i = 0
                while i < len(firsts) and _true(firsts[i] < v[0] if up else firsts[i] > v[0]):
                    i += 1
                firsts.insert(i, v[0])
        for j, v in enumerate(ix):
            ids[j] = ids[j] + (next(i for i, f in enumerate(firsts) if _true(v[0] == f)),)
    if len(dsets) > 1 and not dims:
        raise ValueError("Could not find any dimension coordinates to use to order the datasets for concatenation")
    if not dims:
        return _finish(dsets[0], combine_attrs)
    if len(set(ids)) != len(ids):
        # real xarray keeps the last one of each position
        table = dict(zip(ids, dsets))
    else:
        table = dict(zip(ids, dsets))
    for axis in range(len(dims)):
        counts = {}
        for i in table:
            counts[i[axis]] = counts.get(i[axis], 0) + 1
        if len(set(counts.values())) > 1:
            raise ValueError("The supplied objects do not form a hypercube")
    for dim in dims:
        nxt = {}
        for i in sorted(table):
            nxt.setdefault(i[1:], []).append(table[i])
        table = {i: concat(v, dim) if len(v) > 1 else v[0] for i, v in nxt.items()}
    ds = table[()]
    for dim in dims:
        v = _raw(ds.vars[dim].data)
        if not (_monotonic(v, True) or _monotonic(v, False)):
            raise ValueError("Resulting object does not have monotonic global indexes along dimension " + dim)
    return _finish(ds, combine_attrs)


def _finish(ds, combine_attrs):
    ds = ds.copy()
    if combine_attrs == "drop":
        ds.attrs = {}
    return ds


class BackendEntrypoint:
    open_dataset_parameters = None

    def __init__(self):
        pass

    def guess_can_open(self, filename_or_obj):
        return False


class AbstractDataStore:
    def get_variables(self):
        raise NotImplementedError

    def get_dimensions(self):
        raise NotImplementedError

    def get_attrs(self):
        raise NotImplementedError

    def load(self):
        return dict(self.get_variables()), dict(self.get_attrs())


class Frozen(dict):
    pass


def _along(dsets, dim):
    """a new outer dimension, along which every data variable is stacked"""
    from .npfuncs import FUNCS

    stack = FUNCS[np.stack]

    first = dsets[0]
    names = set(first.vars)
    for d in dsets[1:]:
        if set(d.vars) != names or d.coord_names != first.coord_names:
            raise Unsupported("concatenating different variables")
    out = first.copy()
    for n, v in first.vars.items():
        vs = [d.vars[n] for d in dsets]
        if dim in v.dims:
            raise Unsupported("concatenation along an existing dimension")
        if n == dim or n not in first.coord_names:
            if any(x.dims != v.dims or x.shape != v.shape for x in vs):
                raise Unsupported("concatenating different shapes")
            out.vars[n] = Variable((dim,) + v.dims, stack([_arr(x.data) for x in vs], axis=0) if v.dims else [x.data for x in vs])
        else:
            for x in vs[1:]:
                if not _same(v.data, x.data):
                    raise Unsupported("alignment of different coordinates")
    return out


def _backend(engine, path):
    import sys

    cls = getattr(sys.modules.get("pymech.dataset"), "PymechXarrayBackend", None)
    if isinstance(engine, type):
        return engine()
    if cls is not None and engine == "pymech":
        return cls()
    if engine is None and cls is not None and cls().guess_can_open(path):
        return cls()
    raise ValueError(f"unrecognized engine {engine!r}")


def open_dataset(filename_or_obj, *, engine=None, drop_variables=None, **k):
    if k:
        raise Unsupported("xarray.open_dataset options")
    return _backend(engine, filename_or_obj).open_dataset(filename_or_obj, drop_variables=drop_variables)


def open_mfdataset(paths, chunks=None, concat_dim=None, preprocess=None, engine=None, combine="by_coords", parallel=False, **k):
    if isinstance(paths, str):
        raise Unsupported("xarray.open_mfdataset of a pattern")
    if parallel:
        raise Unsupported("xarray.open_mfdataset options")
    paths = list(paths)
    if not paths:
        raise OSError("no files to open")
    if combine == "nested":
        if concat_dim is None or not isinstance(concat_dim, str):
            raise Unsupported("xarray.open_mfdataset options")
    elif combine == "by_coords" and concat_dim is not None:
        raise ValueError("When combine='by_coords', passing a value for `concat_dim` has no effect.")
    dsets = [open_dataset(p, engine=engine, **k) for p in paths]
    if preprocess is not None:
        dsets = [preprocess(d) for d in dsets]
    if combine == "nested":
        return _along(dsets, concat_dim)
    return combine_by_coords(dsets)


def modules():
    x = types.ModuleType("xarray")
    common = types.SimpleNamespace(AbstractDataStore=AbstractDataStore)
    x.__dict__.update(Variable=Variable, DataArray=DataArray, Dataset=Dataset, concat=concat, combine_by_coords=combine_by_coords, open_dataset=open_dataset, open_mfdataset=open_mfdataset,
                      backends=types.SimpleNamespace(BackendEntrypoint=BackendEntrypoint, common=common, AbstractDataStore=AbstractDataStore),
                      core=types.SimpleNamespace(utils=types.SimpleNamespace(Frozen=Frozen, FrozenDict=lambda *a, **k: Frozen(*a, **k))))
    utils = types.ModuleType("xarray.core.utils")
    utils.Frozen = Frozen
    utils.FrozenDict = lambda *a, **k: Frozen(*a, **k)
    return {"xarray": x, "xarray.core.utils": utils, "xarray.backends": x.backends, "xarray.backends.common": common}
