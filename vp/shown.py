"""Stand-ins for the windows in which figures are shown.

Nothing is opened; what would have been shown is counted."""
import matplotlib.pyplot as plt
from matplotlib.figure import Figure

try:
    from plotly.basedatatypes import BaseFigure
except ImportError:  # the optional dependency is missing
    BaseFigure = None

SEEN = []


def _seen(*args, **kwargs):
    SEEN.append(1)


plt.show = _seen
Figure.show = _seen
if BaseFigure is not None:
    BaseFigure.show = _seen


def options(rng, default):
    """Keyword arguments, and whether the figure has to be shown."""
    k = int(rng.integers(4))
    if k == 0:
        return {}, default
    if k == 1:
        return {'show': True}, True
    return {'show': False}, False


def judged(mon, key, f, want):
    """Calls f and judges whether something was shown."""
    n = len(SEEN)
    res = f()
    mon.check((len(SEEN) > n) == want, key + ':shown',
              '%d, asked %s' % (len(SEEN) - n, want))
    return res
