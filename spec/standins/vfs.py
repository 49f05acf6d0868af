"""A virtual file system: the state the scripts read and write."""
from _standin import unsupported, unstr, textrows
DIRS = ['', '.', '/', 'root', 'root/data']
FILES = {}
CALLS = []      # what the runners were called with, where a check records it


def note(v):
    CALLS.append(v)


def norm(p):
    if not isinstance(p, str):
        if p is None or isinstance(p, (list, tuple, dict, set)):
            raise TypeError('path should be string, bytes, os.PathLike or integer')
        p = p.__fspath__()
    if '..' not in p and '//' not in p and './' not in p and not p.endswith('/'):
        return p
    out = []
    for x in p.split('/'):
        if x == '..' and len(out) > 0 and out[-1] != '..':
            out.pop()
        elif x != '.' and (x != '' or len(out) == 0):
            out.append(x)
    return '/'.join(out)


def isdir(p):
    return p.rstrip('/') in DIRS or p == '/'


def exists(p):
    p = norm(p)
    return isdir(p) or p in FILES


def parent(p):
    p = p.rstrip('/')
    i = p.rfind('/')
    if i < 0:
        return ''
    return p[:i] if i > 0 else '/'


def mkdir(p, exist_ok=False):
    p = norm(p)
    if exists(p):
        if exist_ok and isdir(p):
            return
        raise FileExistsError(p)
    if not isdir(parent(p)):
        raise FileNotFoundError(p)
    DIRS.append(p.rstrip('/'))


def makedirs(p, exist_ok=False):
    p = norm(p)
    if exists(p):
        if exist_ok and isdir(p):
            return
        raise FileExistsError(p)
    q = parent(p)
    if not exists(q):
        makedirs(q, True)
    mkdir(p, exist_ok)


def listdir(p):
    p = norm(p).rstrip('/')
    if not isdir(p):
        raise FileNotFoundError(p)
    out = []
    for q in list(FILES) + DIRS:
        if q != p and q not in ('', '.', '/') and parent(q) == p:
            out.append(q[len(p) + 1:] if p else q)
    return out


def remove(p):
    p = norm(p)
    if p not in FILES:
        raise FileNotFoundError(p)
    del FILES[p]


def rename(a, b):
    a = norm(a)
    if a not in FILES:
        raise FileNotFoundError(a)
    v = FILES[a]
    put(b, v)
    del FILES[a]


def put(p, v):
    p = norm(p)
    if not isdir(parent(p)):
        raise FileNotFoundError(p)
    if isdir(p):
        raise IsADirectoryError(p)
    FILES[p] = v


class File:
    """a text file written row by row"""

    def __init__(self, path, lines):
        self.path = path
        self.lines = lines
        self.closed = False
        self.buf = []

    def row(self, fields, ends, delimiter):
        if self.closed:
            raise ValueError('I/O operation on closed file.')
        if not isinstance(ends, str):
            unsupported('line ending')
        self.lines.append([unstr(f) for f in fields])
        if ends not in ('\n', '\r\n', '\r') or delimiter != ',':
            self.lines.append(['#bad separator'])

    def write(self, text):
        if self.closed:
            raise ValueError('I/O operation on closed file.')
        self.buf = self.buf + [text]
        rows, self.buf = textrows(self.buf)
        for r in rows:
            self.lines.append([unstr(f) for f in r])

    def writelines(self, lines):
        for t in lines:
            self.write(t)

    def flush(self):
        pass

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.closed = True
        return False


def open_(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None):
    p = norm(file)
    m = mode.replace('t', '')
    if m in ('w', 'w+'):
        lines = []
        put(p, lines)
        return File(p, lines)
    if m in ('a', 'a+'):
        if p not in FILES:
            put(p, [])
        return File(p, FILES[p])
    if m == 'x':
        if exists(p):
            raise FileExistsError(p)
        lines = []
        put(p, lines)
        return File(p, lines)
    if m == 'r':
        if p not in FILES:
            raise FileNotFoundError(p)
        return File(p, FILES[p])
    unsupported('open mode')
