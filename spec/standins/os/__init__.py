"""Stand-in over the virtual file system."""
import vfs
from . import path
sep = '/'


def makedirs(name, mode=0o777, exist_ok=False):
    vfs.makedirs(name, exist_ok)


def mkdir(path, mode=0o777):
    vfs.mkdir(path)


def getcwd():
    return '/'


def remove(path):
    vfs.remove(path)


def unlink(path):
    vfs.remove(path)


def replace(src, dst):
    vfs.rename(src, dst)


def rename(src, dst):
    vfs.rename(src, dst)


def fspath(path):
    return path if isinstance(path, str) else path.__fspath__()


def listdir(path='.'):
    return vfs.listdir(path)
