"""Model of the netCDF4 module (files are kept in a dictionary).  Used when code is executed symbolically; on the
real build the harnesses go through the real netCDF4 library and temporary files, which validates this model on
every explored path that is replayed."""
import math

FILES = {}
NOMASK = False  # decide on every path if something is missing
FILL = {"S1": "\x00", "i1": -127, "u1": 255, "i2": -32767, "u2": 65535, "i4": -2147483647, "u4": 4294967295, "i8": -9223372036854775806, "u8": 18446744073709551614, "f4": 9.969209968386869e36, "f8": 9.969209968386869e36}


class Dim:
    def __init__(self, name, n):
        self.name, self.size = name, n

    def __len__(self):
        return self.size

    def isunlimited(self):
        return False


class Attrs:
    def setncattr(self, k, v):
        self.__dict__["_att"][k] = v

    def getncattr(self, k):
        return self.__dict__["_att"][k]

    def ncattrs(self):
        return list(self.__dict__["_att"])

    def __getattr__(self, k):
        a = self.__dict__.get("_att", {})
        if k in a:
            return a[k]
        raise AttributeError("NetCDF: Attribute not found: " + k)

    def __setattr__(self, k, v):
        self.__dict__["_att"][k] = v


class Variable(Attrs):
    def __init__(self, name, datatype, dims, shape, fill):
        from vp import snp

        d = self.__dict__
        d["_att"] = {}
        d["name"], d["dimensions"], d["shape"] = name, dims, shape
        dt = snp.as_dtype({"byte": "i1"}.get(datatype, datatype) if isinstance(datatype, str) else datatype)
        d["is_str"] = dt.kind in "SU"
        d["datatype"] = dt
        d["dtype"] = dt
        d["mask"] = d["scale"] = True
        n = 1
        for s in shape:
            n *= s
        d["size"], d["ndim"] = n, len(shape)
        if self.is_str:
            d["v"] = [""] * n
            return
        key = dt.kind + str(dt.itemsize)
        if key == "f2":
            raise TypeError("illegal primitive data type")
        d["default"] = FILL[key]
        if fill is not None:
            while isinstance(fill, (tuple, list)):
                fill = fill[0]
            self._att["_FillValue"] = fill
        d["v"] = snp.full(shape, self._att.get("_FillValue", d["default"]), dt)

    def set_auto_maskandscale(self, b):
        self.__dict__["mask"] = self.__dict__["scale"] = b

    def _packed(self):
        return self.scale and ("scale_factor" in self._att or "add_offset" in self._att)

    def __setitem__(self, key, data):
        from vp import snp

        if self.is_str:
            self.v[int(key)] = str(data)
            return
        mask = None
        if isinstance(data, snp.SMa):
            mask, data = snp.ma.getmaskarray(data), data.d
        if not isinstance(data, snp.SArr):
            data = snp.array(data)
        if self._packed():
            data = (data - self._att.get("add_offset", 0)) / self._att.get("scale_factor", 1)
            if self.dtype.kind in "iu":
                data = snp.around(data)
        if isinstance(key, list):
            key = tuple(key)
        fill = self._att.get("_FillValue", self.default)
        if self.dtype.kind in "iu" and data.dtype.kind == "f":
            # a NaN has no integer value: the library stores something, the model refuses
            for x in data.a.flat:
                if isinstance(x, float) and x != x:
                    raise ValueError("NaN stored in an integer variable")
        if mask is not None:
            data = snp.where(mask, snp.full(data.shape, fill, self.dtype), data.astype(self.dtype))
        if key == slice(None) and data.shape != self.shape and [i for i in data.shape if i != 1] == [i for i in self.shape if i != 1]:
            data = data.reshape(self.shape)  # dimensions of one element may be omitted
        self.v[key] = data

    def __getitem__(self, key):
        from vp import snp

        if self.is_str:
            r = self.v[key]
            return snp.array(r) if isinstance(r, list) else r
        if isinstance(key, list):
            key = tuple(key)
        data = self.v[key]
        if not isinstance(data, snp.SArr):
            data = snp.array(data, dtype=self.dtype)
        data = data.copy()
        mask = None
        if self.mask:
            if "_FillValue" in self._att or self.dtype.itemsize > 1:
                mask = data == self._att.get("_FillValue", self.default)
            else:
                mask = snp.zeros(data.shape, dtype=bool)
            # the library gives a reduced mask when nothing is missing
            from vp.engine import is_sym

            m = mask.a.reshape(-1).tolist()
            if NOMASK or not any(is_sym(x) for x in m):
                if not bool(mask.any()):
                    if self._packed():
                        data = data * self._att.get("scale_factor", 1) + self._att.get("add_offset", 0)
                    return snp.ma.array(data)
        if self._packed():
            data = data * self._att.get("scale_factor", 1) + self._att.get("add_offset", 0)
        return data if mask is None else snp.ma.array(data, mask=mask)


class Group(Attrs):
    def __init__(self):
        d = self.__dict__
        d["_att"], d["dimensions"], d["variables"], d["groups"] = {}, {}, {}, {}

    def createDimension(self, name, size=None):
        from vp import snp

        if isinstance(size, snp.SArr):
            size = size.item()
        self.dimensions[name] = Dim(name, int(size))
        return self.dimensions[name]

    def createVariable(self, varname, datatype, dimensions=(), zlib=False, complevel=4, shuffle=True, fletcher32=False, contiguous=False, chunksizes=None, endian="native", least_significant_digit=None, fill_value=None, compression=None, **k):
        if isinstance(dimensions, str):
            dimensions = (dimensions,)
        shape = tuple(len(self.dimensions[d]) for d in dimensions)
        self.variables[varname] = Variable(varname, datatype, tuple(dimensions), shape, fill_value)
        return self.variables[varname]

    def createGroup(self, name):
        self.groups[name] = Group()
        return self.groups[name]

    def renameDimension(self, a, b):
        self.dimensions[b] = self.dimensions.pop(a)


class Dataset(Group):
    def __new__(cls, filename, mode="r", **k):
        if mode == "r":
            if filename not in FILES:
                raise FileNotFoundError(filename)
            return FILES[filename]
        return object.__new__(cls)

    def __init__(self, filename, mode="r", format=None, memory=None, **k):
        if mode == "r":
            for v in self.variables.values():
                v.set_auto_maskandscale(True)
            return
        super().__init__()
        FILES[filename] = self

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass


class Module:
    """what 'import netCDF4' gives"""


def module():
    FILES.clear()
    m = Module()
    m.Dataset, m.Group, m.Variable, m.default_fillvals = Dataset, Group, Variable, dict(FILL)
    return m
