import vfs
from os import path as _p


class Path:
    def __init__(self, *parts):
        self.p = _p.join(*parts)

    def __fspath__(self):
        return self.p

    def __str__(self):
        return self.p

    def __truediv__(self, other):
        return Path(self.p, other)

    def joinpath(self, *other):
        return Path(self.p, *other)

    def exists(self):
        return vfs.exists(self.p)

    def is_dir(self):
        return vfs.isdir(self.p)

    def mkdir(self, mode=0o777, parents=False, exist_ok=False):
        if parents:
            vfs.makedirs(self.p, exist_ok)
        else:
            vfs.mkdir(self.p, exist_ok)

    def open(self, mode='r', buffering=-1, encoding=None, errors=None, newline=None):
        return vfs.open_(self.p, mode)

    @property
    def parent(self):
        return Path(vfs.parent(self.p))

    @property
    def name(self):
        return _p.basename(self.p)
