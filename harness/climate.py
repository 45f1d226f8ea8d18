"""The sandbox has no climatology file (rdtools/data/temperature.hdf5 is not in the repository):
opens of that file are redirected to a synthetic one with the same layout in a scratch directory."""
import atexit
import os
import shutil
import tempfile
import numpy as np

LONS, LATS = 36, 18           # 10 degree cells
_path = None


def table():
    """day, night: [lon, lat, month]; some cells without data (the formulas of spec/ClearTemp.tla)."""
    i, j, k = np.meshgrid(np.arange(LONS), np.arange(LATS), np.arange(12), indexing="ij")
    day = (((7 * i + 11 * j + 3 * k * k + i * j) % 41) * 4 - 20 + k) / 4
    night = day - (8 + (i + 3 * j + 5 * k) % 60) / 4
    hole = (i != 0) & ((5 * i + 3 * j) % 7 == 0)
    day[hole] = np.nan
    night[hole] = np.nan
    return day, night


def install():
    global _path
    import h5py
    if _path is None:
        d = tempfile.mkdtemp(prefix="rdvh5")
        pid = os.getpid()
        atexit.register(lambda: os.getpid() == pid and shutil.rmtree(d, ignore_errors=True))
        _path = os.path.join(d, "temperature.hdf5")
        day, night = table()
        with h5py.File(_path, "w") as f:
            g = f.create_group("temperature")
            g["day"], g["night"] = day, night
        real = h5py.File

        class File(real):
            def __init__(self, name, *a, **k):
                if os.path.basename(str(name)) == "temperature.hdf5":
                    name = _path
                super().__init__(name, *a, **k)
        h5py.File = File
    return _path
