"""What has been drawn: the state behind the plotting stand-ins."""
import vfs
from _standin import unsupported
OPEN = []


class Axes:
    def __init__(self):
        self.series = []
        self.labels = None
        self.text = {}
        self.lim = {}

    def legend(self, *args, **kw):
        if len(args) == 0 and 'labels' not in kw:
            self.labels = None
            return
        if len(args) > 1:
            unsupported('legend handles')
        for k in kw:
            if k not in ('labels', 'title', 'loc', 'fontsize', 'ncol', 'bbox_to_anchor', 'frameon'):
                unsupported('legend option')
        ls = args[0] if len(args) == 1 else kw['labels']
        self.labels = list(ls)

    def set_xlabel(self, xlabel, **kw):
        self.text['x'] = xlabel

    def set_ylabel(self, ylabel, **kw):
        self.text['y'] = ylabel

    def set_title(self, label, **kw):
        self.text['title'] = label

    def set_ylim(self, bottom=None, top=None):
        self.lim['y'] = limits(bottom, top)

    def set_xlim(self, left=None, right=None):
        self.lim['x'] = limits(left, right)

    def grid(self, *a, **kw):
        pass

    def set(self, *, xlabel=None, ylabel=None, title=None, ylim=None):
        if xlabel is not None:
            self.text['x'] = xlabel
        if ylabel is not None:
            self.text['y'] = ylabel
        if title is not None:
            self.text['title'] = title
        if ylim is not None:
            self.set_ylim(*ylim)

    @property
    def figure(self):
        return Figure(self)

    def get_figure(self):
        return Figure(self)


def limits(a, b):
    if isinstance(a, tuple) or isinstance(a, list):
        return [a[0], a[1]]
    return [a, b]


class Figure:
    def __init__(self, ax):
        self.ax = ax

    def savefig(self, fname, **kw):
        save(self.ax, fname)

    def tight_layout(self, **kw):
        pass


def new():
    a = Axes()
    OPEN.append(a)
    return a


def current():
    if len(OPEN) == 0:
        return new()
    return OPEN[-1]


def save(ax, path):
    named = []
    for i, s in enumerate(ax.series):
        label = s[1]
        if ax.labels is not None:
            label = ax.labels[i] if i < len(ax.labels) else None
        named.append([label, s[0], list(s[2]), list(s[3])])
    vfs.put(path, {'series': named, 'ylim': ax.lim.get('y'), 'text': dict(ax.text)})
