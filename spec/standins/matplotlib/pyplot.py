import figures
from _standin import unsupported


def title(label, **kw):
    figures.current().set_title(label)


def xlabel(xlabel, **kw):
    figures.current().set_xlabel(xlabel)


def ylabel(ylabel, **kw):
    figures.current().set_ylabel(ylabel)


def ylim(bottom=None, top=None):
    figures.current().set_ylim(bottom, top)


def legend(*args, **kw):
    figures.current().legend(*args, **kw)


def gca():
    return figures.current()


def gcf():
    return figures.Figure(figures.current())


def figure(**kw):
    return figures.Figure(figures.new())


def subplots(**kw):
    a = figures.new()
    return figures.Figure(a), a


def savefig(fname, **kw):
    figures.save(figures.current(), fname)


def tight_layout(**kw):
    pass


def grid(*a, **kw):
    pass


def show(*a, **kw):
    pass


def close(fig=None):
    if fig == 'all':
        del figures.OPEN[:]
    elif len(figures.OPEN) > 0:
        figures.OPEN.pop()


def clf():
    unsupported('clearing a figure')
