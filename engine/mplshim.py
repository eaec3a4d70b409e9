"""What the plotting functions draw, as a list of records: stand-ins for matplotlib on the symbolic side, wrappers on the concrete one."""
import contextlib
import types


class Record:
    def __init__(self, kind, on, args, kw):
        self.kind, self.on, self.args, self.kw = kind, on, args, kw


RECORDED = ('contourf', 'contour', 'pcolormesh', 'plot', 'text', 'invert_xaxis', 'invert_yaxis', 'set_title')


class _Any:
    """Parts of the drawing that carry no data."""
    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return _Any()

    def __call__(self, *a, **k):
        return _Any()


def install(ext):
    """Stand-ins for the modules of matplotlib in the table of the loader."""
    log = []

    class Axes:
        def __init__(self, figure):
            self.figure = figure
            self.xaxis, self.yaxis, self.transAxes, self.transData = _Any(), _Any(), _Any(), _Any()

        def __getattr__(self, name):
            if name.startswith('__'):
                raise AttributeError(name)
            if name in RECORDED:
                def rec(*a, **k):
                    log.append(Record(name, self, a, k))
                    return _Any()
                return rec
            return _Any()

    class Figure:
        def add_subplot(self, *a, **k):
            return Axes(self)
        add_axes = gca = subplots = add_subplot

        def savefig(self, filename, **k):
            log.append(Record('savefig', self, (filename,), k))

        def __getattr__(self, name):
            if name.startswith('__'):
                raise AttributeError(name)
            return _Any()

    def colorbar(mappable=None, cax=None, **k):
        log.append(Record('colorbar', cax, (mappable,), k))
        return _Any()
    Figure.colorbar = lambda self, *a, **k: colorbar(*a, **k)

    class Divider:
        def __init__(self, ax):
            self.ax = ax

        def append_axes(self, *a, **k):
            return Axes(self.ax.figure)

    def new(name):
        m = types.ModuleType(name)
        m.__path__ = []
        ext[name] = m
        if '.' in name:
            setattr(ext[name.rsplit('.', 1)[0]], name.rsplit('.', 1)[1], m)
        return m
    mpl, plt, cm, axes, fig = (new('matplotlib' + x) for x in ('', '.pyplot', '.cm', '.axes', '.figure'))
    new('mpl_toolkits')
    new('mpl_toolkits.axes_grid1').make_axes_locatable = Divider
    mpl.use = lambda *a, **k: None
    axes.Axes, fig.Figure = Axes, Figure
    plt.figure = lambda *a, **k: Figure()
    plt.subplots = lambda *a, **k: (lambda f: (f, Axes(f)))(Figure())
    plt.close = plt.tight_layout = lambda *a, **k: None
    plt.colorbar = colorbar
    cm.jet, cm.viridis = 'jet', 'viridis'
    cm.get_cmap = mpl.get_cmap = lambda name=None, *a: name
    mpl.log = log
    return log


@contextlib.contextmanager
def symbolic(ext):
    log = ext['matplotlib'].log
    del log[:]
    yield log


@contextlib.contextmanager
def concrete():
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    from matplotlib.axes import Axes
    from matplotlib.figure import Figure
    log, saved, depth = [], [], [0]

    def wrap(cls, name, kind=None, through=True):
        orig = getattr(cls, name)

        def f(*a, **k):
            # only what the caller draws, not what matplotlib does by itself
            if depth[0] == 0:
                log.append(Record(kind or name, a[0] if cls in (Axes, Figure) else k.get('cax'), a[1:] if cls in (Axes, Figure) else a, dict(k)))
            if not through:
                return None
            depth[0] += 1
            try:
                return orig(*a, **k)
            finally:
                depth[0] -= 1
        saved.append((cls, name, orig))
        setattr(cls, name, f)
    for n in RECORDED:
        wrap(Axes, n)
    wrap(Figure, 'savefig', through=False)
    wrap(plt, 'colorbar')
    try:
        yield log
    finally:
        for c, n, o in reversed(saved):
            setattr(c, n, o)
        plt.close('all')
