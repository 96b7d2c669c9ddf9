"""Bootstraps the code under test (/repo, imported as `causets`) and Hypothesis."""
import os, sys
os.environ.setdefault('HYPOTHESIS_NO_PLUGINS', '1')
HYP = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if HYP not in sys.path:
    sys.path.append(HYP)          # at the end: numpy etc. come from the repository's own venv
import warnings
warnings.simplefilter('ignore')
import numpy as np
import numpy.random as _npr

# --- every unseeded generator of the library becomes resettable -------------------------------
_real_default_rng = _npr.default_rng
_tracked = []


def _default_rng(seed=None):
    if seed is None:
        g = _real_default_rng(20200722)
        _tracked.append(g)
        return g
    return _real_default_rng(seed)


_npr.default_rng = _default_rng
np.random.default_rng = _default_rng
real_default_rng = _real_default_rng

# everything else is imported first: the code under test itself is always compiled from source
import matplotlib, matplotlib.pyplot, hypothesis, hypothesis.strategies   # noqa: E402,E401
import mpl_toolkits.mplot3d                                                # noqa: E402
sys.pycache_prefix = '/nonexistent-pycache'
import causets.causetevent as _ce                      # noqa: E402
SUT = os.path.realpath(os.path.dirname(_ce.__file__))
if SUT != '/repo':
    raise RuntimeError('causets is not imported from /repo but ' + SUT)
CausetEvent = _ce.CausetEvent

# --- set iteration order becomes an input ------------------------------------------------------
_counter = 0
_salt = 0
_M = (1 << 61) - 1


def _hash(self):
    d = self.__dict__
    h = d.get('_pbt_h')
    if h is None:
        global _counter
        _counter += 1
        h = d['_pbt_h'] = ((_counter * 2654435761) ^ (_salt * 0x9E3779B97F4A7C15)) * \
            (2 * (_salt % 1021) + 1) % _M
    return h


if '__hash__' not in CausetEvent.__dict__ and '__eq__' not in CausetEvent.__dict__:
    CausetEvent.__hash__ = _hash


def reset(salt=0):
    """Called before every case."""
    global _counter, _salt
    _counter, _salt = 0, salt
    if _tracked:
        st = _real_default_rng(1 + salt).bit_generator.state
        for g in _tracked:
            g.bit_generator.state = st
