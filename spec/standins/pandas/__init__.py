"""Stand-in for the table operations of the plotting script (interpreted by the analysis, never executed)."""
import vfs
import figures
from _standin import unsupported


class Column:
    """one column of a table"""

    def __init__(self, name, values):
        self.name = name
        self.values = values

    def __iter__(self):
        return iter(self.values)

    def __len__(self):
        return len(self.values)

    def __getitem__(self, i):
        return self.values[i]       # the default index counts from 0

    @property
    def iloc(self):
        return self.values

    def compare(self, f):
        return Mask([f(v) for v in self.values])

    def __gt__(self, o):
        return self.compare(lambda v: v > o)

    def __ge__(self, o):
        return self.compare(lambda v: v >= o)

    def __lt__(self, o):
        return self.compare(lambda v: v < o)

    def __le__(self, o):
        return self.compare(lambda v: v <= o)

    def __eq__(self, o):
        return self.compare(lambda v: v == o)

    def __ne__(self, o):
        return self.compare(lambda v: v != o)

    def isin(self, vs):
        return self.compare(lambda v: v in vs)

    def each(self, f):
        return Column(self.name, [f(v) for v in self.values])

    def __add__(self, o):
        return self.each(lambda v: v + o)

    def __sub__(self, o):
        return self.each(lambda v: v - o)

    def __mul__(self, o):
        return self.each(lambda v: v * o)

    def __truediv__(self, o):
        return self.each(lambda v: v / o)

    def round(self, decimals=0):
        return self.each(lambda v: round(v, decimals))

    def astype(self, t):
        return self.each(lambda v: t(v))

    def clip(self, lower=None, upper=None):
        return self.each(lambda v: clip(v, lower, upper))

    def mean(self):
        return sum(self.values) / len(self.values)

    def max(self):
        return max(self.values)

    def min(self):
        return min(self.values)

    def tolist(self):
        return list(self.values)

    def unique(self):
        out = []
        for v in self.values:
            if v not in out:
                out.append(v)
        return out


def clip(v, lower, upper):
    if lower is not None:
        v = max(v, lower)
    if upper is not None:
        v = min(v, upper)
    return v


class Mask:
    """one truth value per row"""

    def __init__(self, flags):
        self.flags = flags

    def __iter__(self):
        return iter(self.flags)

    def __and__(self, o):
        return Mask([a and b for a, b in zip(self.flags, o.flags)])

    def __or__(self, o):
        return Mask([a or b for a, b in zip(self.flags, o.flags)])

    def __invert__(self):
        return Mask([not a for a in self.flags])


class Frame:
    """names of the index levels, index entries (tuples), names of the column levels, columns (tuples), rows"""

    def __init__(self, inames, index, cnames, cols, rows):
        self.inames = inames
        self.index_ = index
        self.cnames = cnames
        self.cols = cols
        self.rows = rows
        self.plot = Plot(self)

    @property
    def columns(self):
        return [c[0] if len(c) == 1 else c for c in self.cols]

    @property
    def index(self):
        return [k[0] if len(k) == 1 else k for k in self.index_]

    def need(self, c):
        if len(self.cnames) != 1:
            unsupported('choosing from nested columns')
        if (c,) not in self.cols:
            raise KeyError(c)
        return self.cols.index((c,))

    def __getitem__(self, k):
        if isinstance(k, list):
            idx = [self.need(c) for c in k]
            return Frame(self.inames, self.index_, self.cnames, [(c,) for c in k], [[r[i] for i in idx] for r in self.rows])
        if isinstance(k, Mask):
            return self.some([i for i, f in enumerate(k.flags) if f])
        if isinstance(k, slice):
            unsupported('row slices')
        if not isinstance(k, str):
            unsupported('row selection')
        i = self.need(k)
        return Column(k, [r[i] for r in self.rows])

    def __len__(self):
        return len(self.rows)

    def some(self, ids):
        """the rows with these numbers, in this order"""
        return Frame(self.inames, [self.index_[i] for i in ids], self.cnames, self.cols, [self.rows[i] for i in ids])

    def head(self, n=5):
        return self.some([i for i in range(min(n, len(self.rows)))])

    def tail(self, n=5):
        return self.some([i for i in range(max(len(self.rows) - n, 0), len(self.rows))])

    def __setitem__(self, k, v):
        vals = v.values if isinstance(v, Column) else v
        if isinstance(vals, (int, float, str)):
            vals = [vals for r in self.rows]
        if (k,) in self.cols:
            i = self.need(k)
            for r, x in zip(self.rows, vals):
                r[i] = x
        else:
            self.cols.append((k,))
            for r, x in zip(self.rows, vals):
                r.append(x)

    def drop_duplicates(self, subset=None, keep='first'):
        if subset is None:
            subset = [c[0] for c in self.cols]
        idx = [self.need(c) for c in (subset if isinstance(subset, list) else [subset])]
        keys = [tuple([r[i] for i in idx]) for r in self.rows]
        if keep == 'first':
            return self.some([i for i in range(len(keys)) if keys[i] not in keys[:i]])
        if keep == 'last':
            return self.some([i for i in range(len(keys)) if keys[i] not in keys[i + 1:]])
        unsupported('duplicates')

    def reset_index(self, drop=False):
        if drop:
            return Frame([None], [(i,) for i in range(len(self.rows))], self.cnames, self.cols, self.rows)
        if len(self.cnames) != 1 or None in self.inames:
            unsupported('resetting this index')
        return Frame([None], [(i,) for i in range(len(self.rows))], self.cnames, [(n,) for n in self.inames] + self.cols,
                     [list(k) + list(r) for k, r in zip(self.index_, self.rows)])

    def rename(self, columns=None):
        if columns is None or len(self.cnames) != 1:
            unsupported('renaming')
        return Frame(self.inames, self.index_, self.cnames, [(columns.get(c[0], c[0]),) for c in self.cols], self.rows)

    def groupby(self, by, as_index=True):
        if not as_index:
            unsupported('groups without index')
        return Groups(self, by if isinstance(by, list) else [by])

    def pivot_table(self, values=None, index=None, columns=None, aggfunc='mean'):
        if values is None or index is None or columns is None or aggfunc not in ('mean', 'max', 'min', 'first', 'sum'):
            unsupported('pivot table')
        return Groups(self, [index, columns]).reduce(aggfunc, [values]).reset_index().pivot(index=index, columns=columns, values=values)

    def round(self, decimals=0):
        return Frame(self.inames, self.index_, self.cnames, self.cols, [[round(v, decimals) for v in r] for r in self.rows])

    def copy(self):
        return Frame(self.inames, list(self.index_), self.cnames, list(self.cols), [list(r) for r in self.rows])

    def drop(self, columns=None):
        cs = columns if isinstance(columns, list) else [columns]
        for c in cs:
            self.need(c)
        return self[[c[0] for c in self.cols if c[0] not in cs]]

    def set_index(self, keys):
        ks = keys if isinstance(keys, list) else [keys]
        idx = [self.need(c) for c in ks]
        rest = [i for i in range(len(self.cols)) if i not in idx]
        return Frame(list(ks), [tuple([r[i] for i in idx]) for r in self.rows], self.cnames, [self.cols[i] for i in rest], [[r[i] for i in rest] for r in self.rows])

    def unstack(self, level=-1):
        """the chosen index level becomes the innermost level of the columns"""
        if len(self.inames) < 2:
            unsupported('unstacking a plain index')
        if isinstance(level, str):
            level = self.inames.index(level)
        lv = level % len(self.inames)
        keys = ordered([k[:lv] + k[lv + 1:] for k in self.index_])
        subs = ordered([(k[lv],) for k in self.index_])
        at = {}
        for k, r in zip(self.index_, self.rows):
            if k in at:
                raise ValueError('Index contains duplicate entries, cannot reshape')
            at[k] = r
        cols = [c + s for c in self.cols for s in subs]
        rows = []
        for k in keys:
            row = []
            for i in range(len(self.cols)):
                for s in subs:
                    full = k[:lv] + s + k[lv:]
                    if full not in at:
                        unsupported('incomplete table')
                    row.append(at[full][i])
            rows.append(row)
        names = [n for i, n in enumerate(self.inames) if i != lv]
        return Frame(names, keys, self.cnames + [self.inames[lv]], cols, rows)

    def pivot(self, *, columns, index=None, values=None):
        if index is None:
            unsupported('pivot without index')
        ix = index if isinstance(index, list) else [index]
        if values is None:
            return self.set_index(ix + [columns]).unstack()
        t = self[ix + [columns, values]].set_index(ix + [columns]).unstack()
        return Frame(t.inames, t.index_, t.cnames[1:], [c[1:] for c in t.cols], t.rows)

    def swaplevel(self, i=-2, j=-1, axis=0):
        if axis not in (1, 'columns'):
            unsupported('swapping index levels')
        n = len(self.cnames)
        i = i % n
        j = j % n
        perm = list(range(n))
        perm[i] = j
        perm[j] = i
        return Frame(self.inames, self.index_, [self.cnames[p] for p in perm], [tuple([c[p] for p in perm]) for c in self.cols], self.rows)

    def droplevel(self, level, axis=0):
        if axis not in (1, 'columns') or not isinstance(level, int):
            unsupported('dropping index levels')
        lv = level % len(self.cnames)
        return Frame(self.inames, self.index_, self.cnames[:lv] + self.cnames[lv + 1:], [c[:lv] + c[lv + 1:] for c in self.cols], self.rows)

    def sort_index(self, *args, axis=0, ascending=True, inplace=False):
        if len(args) > 0:
            raise TypeError('DataFrame.sort_index() takes 1 positional argument')
        if inplace or not (ascending is True or ascending is False):
            unsupported('sorting in place or by level')
        if axis in (1, 'columns'):
            order = sorted(range(len(self.cols)), key=lambda i: self.cols[i], reverse=not ascending)
            return Frame(self.inames, self.index_, self.cnames, [self.cols[i] for i in order], [[r[i] for i in order] for r in self.rows])
        order = sorted(range(len(self.rows)), key=lambda i: self.index_[i], reverse=not ascending)
        return Frame(self.inames, [self.index_[i] for i in order], self.cnames, self.cols, [self.rows[i] for i in order])

    def sort_values(self, by, *, ascending=True):
        if ascending is not True:
            unsupported('sorting downwards')
        ks = by if isinstance(by, list) else [by]
        idx = [self.need(c) for c in ks]
        order = sorted(range(len(self.rows)), key=lambda q: tuple([self.rows[q][i] for i in idx]))
        return Frame(self.inames, [self.index_[i] for i in order], self.cnames, self.cols, [self.rows[i] for i in order])


def ordered(keys):
    out = []
    for k in keys:
        if k not in out:
            out.append(k)
    return sorted(out)


class Groups:
    def __init__(self, frame, by, cols=None):
        self.frame = frame
        self.by = by
        self.cols = cols

    def __getitem__(self, k):
        return Groups(self.frame, self.by, k if isinstance(k, list) else [k])

    def reduce(self, how, cols):
        f = self.frame
        idx = [f.need(c) for c in self.by]
        cs = cols if cols is not None else [c[0] for c in f.cols if c[0] not in self.by]
        at = [f.need(c) for c in cs]
        keys = [tuple([r[i] for i in idx]) for r in f.rows]
        order = ordered(keys)
        rows = []
        for k in order:
            mine = [f.rows[i] for i in range(len(keys)) if keys[i] == k]
            rows.append([agg(how, [r[j] for r in mine]) for j in at])
        return Frame(list(self.by), order, [None], [(c,) for c in cs], rows)

    def mean(self):
        return self.reduce('mean', self.cols)

    def max(self):
        return self.reduce('max', self.cols)

    def min(self):
        return self.reduce('min', self.cols)

    def first(self):
        return self.reduce('first', self.cols)

    def last(self):
        return self.reduce('last', self.cols)

    def sum(self):
        return self.reduce('sum', self.cols)


def agg(how, v):
    if how == 'mean':
        return sum(v) / len(v)
    if how == 'max':
        return max(v)
    if how == 'min':
        return min(v)
    if how == 'first':
        return v[0]
    if how == 'last':
        return v[-1]
    return sum(v)


class Plot:
    def __init__(self, frame):
        self.frame = frame

    def draw(self, kind, ax):
        f = self.frame
        if ax is None:
            ax = figures.new()
        for i, c in enumerate(f.cols):
            ax.series.append([kind, c[0] if len(c) == 1 else c, f.index, [r[i] for r in f.rows]])
        return ax

    def line(self, x=None, y=None, *, ax=None, **style):
        if x is not None or y is not None:
            unsupported('plotting chosen columns')
        check(style)
        return self.draw('line', ax)

    def bar(self, x=None, y=None, *, ax=None, **style):
        if x is not None or y is not None:
            unsupported('plotting chosen columns')
        check(style)
        return self.draw('bar', ax)

    def __call__(self, *args, kind='line', ax=None, **style):
        if len(args) > 0 or kind not in ('line', 'bar'):
            unsupported('plot kind')
        check(style)
        return self.draw(kind, ax)


def check(style):
    for k in style:
        if k not in ('rot', 'figsize', 'color', 'grid', 'linewidth', 'lw', 'width', 'fontsize', 'style', 'marker', 'alpha'):
            unsupported('plot option')


def read_csv(filepath_or_buffer):
    p = vfs.norm(filepath_or_buffer)
    if p not in vfs.FILES:
        raise FileNotFoundError(p)
    lines = vfs.FILES[p]
    return Frame([None], [(i,) for i in range(len(lines) - 1)], [None], [(c,) for c in lines[0]], [list(r) for r in lines[1:]])
