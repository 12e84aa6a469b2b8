"""Minimal HDF5 reader/writer over libhdf5 (ctypes)."""
import ctypes as C, numpy as np, os

_L = None


def L():
    global _L
    if _L is None:
        _L = C.CDLL("libhdf5_serial.so.103")
        hid = C.c_int64
        for f in ("H5Fopen", "H5Fcreate", "H5Dopen2", "H5Dget_space", "H5Dget_type", "H5Screate_simple", "H5Dcreate2", "H5Aopen", "H5Aget_space", "H5Acreate2",
                  "H5Aopen_by_idx", "H5Screate", "H5Aget_type", "H5Tcopy"):
            getattr(_L, f).restype = hid
        _L.H5open()
        _L.H5Eset_auto2(hid(0), None, None)
    return _L


def _g(name):
    return C.c_int64(C.c_int64.in_dll(L(), name).value)


def _i(x):
    return C.c_int64(x)


class File:
    def __init__(self, path, write=False):
        l = L()
        if write:
            self.f = l.H5Fcreate(path.encode(), C.c_uint(2), _i(0), _i(0))
        else:
            self.f = l.H5Fopen(path.encode(), C.c_uint(0), _i(0))
        if self.f < 0:
            raise IOError("cannot open " + path)

    def close(self):
        if self.f >= 0:
            L().H5Fclose(_i(self.f))
            self.f = -1

    __enter__ = lambda s: s

    def __exit__(self, *a):
        self.close()

    def names(self):
        l = L()
        out = []

        class GI(C.Structure):
            _fields_ = [("st", C.c_int), ("nlinks", C.c_uint64), ("mc", C.c_int64), ("m", C.c_int)]
        gi = GI()
        l.H5Gget_info(_i(self.f), C.byref(gi))
        for k in range(gi.nlinks):
            buf = C.create_string_buffer(256)
            l.H5Lget_name_by_idx.restype = C.c_ssize_t
            l.H5Lget_name_by_idx(_i(self.f), b".", C.c_int(0), C.c_int(0), C.c_uint64(k), buf, C.c_size_t(256), _i(0))
            out.append(buf.value.decode())
        return out

    def _dims(self, sp):
        l = L()
        r = l.H5Sget_simple_extent_ndims(_i(sp))
        d = (C.c_uint64 * max(r, 1))()
        l.H5Sget_simple_extent_dims(_i(sp), d, None)
        return tuple(d[:r])

    def read(self, name):
        l = L()
        d = l.H5Dopen2(_i(self.f), name.encode(), _i(0))
        if d < 0:
            raise KeyError(name)
        sp = l.H5Dget_space(_i(d))
        dims = self._dims(sp)
        ty = l.H5Dget_type(_i(d))
        if l.H5Tget_class(_i(ty)) == 3:
            n = l.H5Tget_size(_i(ty))
            n = C.c_size_t(n).value
            buf = C.create_string_buffer(n + 1)
            l.H5Dread(_i(d), _i(ty), _i(0), _i(0), _i(0), buf)
            out = buf.value.decode(errors="replace")
        else:
            out = np.full(dims, np.nan)
            l.H5Dread(_i(d), _g("H5T_NATIVE_DOUBLE_g"), _i(0), _i(0), _i(0), out.ctypes.data_as(C.c_void_p))
        l.H5Tclose(_i(ty))
        l.H5Sclose(_i(sp))
        l.H5Dclose(_i(d))
        return out

    def attr(self, name):
        l = L()
        a = l.H5Aopen(_i(self.f), name.encode(), _i(0))
        if a < 0:
            return None
        sp = l.H5Aget_space(_i(a))
        out = np.full(self._dims(sp), np.nan)
        l.H5Aread(_i(a), _g("H5T_NATIVE_DOUBLE_g"), out.ctypes.data_as(C.c_void_p))
        l.H5Sclose(_i(sp))
        l.H5Aclose(_i(a))
        return out

    def write(self, name, arr):
        l = L()
        arr = np.ascontiguousarray(arr, float)
        d = (C.c_uint64 * max(arr.ndim, 1))(*arr.shape)
        sp = l.H5Screate_simple(arr.ndim, d, None)
        h = l.H5Dcreate2(_i(self.f), name.encode(), _g("H5T_NATIVE_DOUBLE_g"), _i(sp), _i(0), _i(0), _i(0))
        l.H5Dwrite(_i(h), _g("H5T_NATIVE_DOUBLE_g"), _i(0), _i(0), _i(0), arr.ctypes.data_as(C.c_void_p))
        l.H5Sclose(_i(sp))
        l.H5Dclose(_i(h))

    def write_attr(self, name, arr):
        l = L()
        arr = np.ascontiguousarray(arr, float)
        d = (C.c_uint64 * max(arr.ndim, 1))(*arr.shape)
        sp = l.H5Screate_simple(arr.ndim, d, None)
        h = l.H5Acreate2(_i(self.f), name.encode(), _g("H5T_NATIVE_DOUBLE_g"), _i(sp), _i(0), _i(0))
        l.H5Awrite(_i(h), _g("H5T_NATIVE_DOUBLE_g"), arr.ctypes.data_as(C.c_void_p))
        l.H5Sclose(_i(sp))
        l.H5Aclose(_i(h))


def readall(path):
    with File(path) as f:
        return {n: f.read(n) for n in f.names()}


def write(path, sets):
    with File(path, True) as f:
        for n, a in sets.items():
            f.write(n, a)
