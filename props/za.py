"""Models of zarr and pint (used when code is executed symbolically; the real ones are used when paths are replayed)."""
import types
from collections.abc import MutableMapping


class Array:
    def __init__(self, shape, dtype, filters):
        from vp import snp

        self.shape, self.dtype = tuple(int(v) for v in shape), snp.as_dtype({"byte": "i1"}.get(dtype, dtype) if isinstance(dtype, str) else dtype)
        self.filters = list(filters)
        dt = self.dtype
        for f in self.filters:
            dt = f.astype
        self.v = snp.zeros(self.shape, dtype=dt)
        self.attrs = {}
        self.size = 1
        for v in self.shape:
            self.size *= v

    def __setitem__(self, k, data):
        from vp import snp

        if not isinstance(data, snp.SArr):
            data = snp.array(data)
        data = data.astype(self.dtype)
        for f in self.filters:
            data = f.encode(data)
        self.v[k] = data

    def __getitem__(self, k):
        data = self.v[k]
        for f in self.filters[::-1]:
            data = f.decode(data)
        return data.astype(self.dtype) if not self.filters else data

    def __len__(self):
        return self.shape[0]


class FixedScaleOffset:
    def __init__(self, offset, scale, dtype, astype=None):
        from vp import snp

        dt = lambda d: snp.as_dtype({"byte": "i1"}.get(d, d) if isinstance(d, str) else d)
        self.offset, self.scale, self.dtype, self.astype = offset, scale, dt(dtype), dt(astype if astype is not None else dtype)

    def encode(self, x):
        from vp import snp

        # the step is divided by (as netCDF does), so that the coefficients of the solver stay small
        return snp.around((x - self.offset) / (1 / self.scale)).astype(self.astype)

    def decode(self, x):
        return (x * (1 / self.scale) + self.offset).astype(self.dtype)


class Delta:
    """differences (modulo the integer type, therefore exact): the array read is the one written"""

    def __init__(self, dtype, astype=None):
        from vp import snp

        self.dtype = snp.as_dtype(dtype)
        self.astype = snp.as_dtype(astype if astype is not None else dtype)

    def encode(self, x):
        return x.astype(self.dtype)

    def decode(self, x):
        return x.astype(self.dtype)


class Group(MutableMapping):
    def __init__(self):
        self.attrs = {}
        self._v = {}

    def create_dataset(self, name, shape, dtype, chunks=None, compressor=None, filters=(), **k):
        self._v[name] = Array(shape, dtype, filters or ())
        return self._v[name]

    def __getitem__(self, k):
        return self._v[k]

    def __setitem__(self, k, v):
        self._v[k] = v

    def __delitem__(self, k):
        del self._v[k]

    def __iter__(self):
        return iter(sorted(self._v))

    def __len__(self):
        return len(self._v)

    def __getattr__(self, k):
        if k.startswith("_") or k not in self._v:
            raise AttributeError(k)
        return self._v[k]


FILES = {}


def zarr_module():
    m = types.SimpleNamespace()
    m.Group, m.FixedScaleOffset, m.group, m.Delta = Group, FixedScaleOffset, Group, Delta
    m.Blosc = lambda **k: None
    m.storage = types.SimpleNamespace(MutableMapping=MutableMapping)

    def open_(filename, mode="a"):
        if mode == "w":
            FILES[filename] = Group()
        return FILES[filename]

    m.open = open_
    return m


UNITS = {"m": ("l", 1), "cm": ("l", 0.01), "km": ("l", 1000), "mm": ("l", 0.001), "degrees": ("a", 1), "m/s": ("v", 1), "cm/s": ("v", 0.01)}


class UndefinedUnitError(Exception):
    pass


class Unit:
    def __init__(self, u):
        if u not in UNITS:
            raise UndefinedUnitError(u)
        self.kind, self.f = UNITS[u]

    def to(self, other):
        other = Unit(other) if isinstance(other, str) else other
        assert self.kind == other.kind
        return types.SimpleNamespace(to_tuple=lambda: (self.f / other.f, ()))


def pint_modules():
    m, e = types.SimpleNamespace(), types.SimpleNamespace(UndefinedUnitError=UndefinedUnitError)
    m.errors = e
    m.UnitRegistry = lambda: types.SimpleNamespace(parse_expression=lambda u, case_sensitive=True: Unit(u))
    return {"pint": m, "pint.errors": e}
