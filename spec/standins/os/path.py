import vfs
from _standin import unsupported
sep = '/'


def join(a, *rest):
    p = a if isinstance(a, str) else a.__fspath__()
    for b in rest:
        b = b if isinstance(b, str) else b.__fspath__()
        if not isinstance(b, str) or not isinstance(p, str):
            unsupported('path part')
        if b.startswith('/'):
            p = b
        elif p == '' or p.endswith('/'):
            p = p + b
        else:
            p = p + '/' + b
    return p


def exists(p):
    return vfs.exists(p)


def isdir(p):
    return vfs.isdir(vfs.norm(p))


def isfile(p):
    return vfs.norm(p) in vfs.FILES


def dirname(p):
    return vfs.parent(vfs.norm(p))


def basename(p):
    p = vfs.norm(p)
    return p[p.rfind('/') + 1:]


def abspath(p):
    return vfs.norm(p)


def normpath(p):
    return vfs.norm(p)
