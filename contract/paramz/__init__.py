from . import util
from .model import Model
from .parameterized import Parameterized
from .param import Param
from .core.observable_array import ObsAr
from paramz import transformations as constraints
from . import caching, optimization
from . import examples
from .__version__ import __version__

def _unpickle(file_or_path, pickle, strcl, p3kw):
    if isinstance(file_or_path, strcl):
        with open(file_or_path, 'rb') as f:
            m = pickle.load(f, **p3kw)
    else:
        m = pickle.load(file_or_path, **p3kw)
    return m

def load(file_or_path):
    from pickle import UnpicklingError
    _python3 = True
    try:
        import cPickle as pickle
        _python3 = False
    except ImportError:
        import pickle
    try:
        if _python3:
            strcl = str
            p3kw = dict(encoding='latin1')
            return _unpickle(file_or_path, pickle, strcl, p3kw)
        else:
            strcl = basestring
            p3kw = {}
            return _unpickle(file_or_path, pickle, strcl, p3kw)
    except UnpicklingError:
        import pickle
        return _unpickle(file_or_path, pickle, strcl, p3kw)
