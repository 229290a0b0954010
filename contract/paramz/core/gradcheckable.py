from . import HierarchyError
from .pickleable import Pickleable
from .parentable import Parentable

class Gradcheckable(Pickleable, Parentable):

    def __init__(self, *a, **kw):
        super(Gradcheckable, self).__init__(*a, **kw)

    def checkgrad(self, verbose=0, step=1e-06, tolerance=0.001, df_tolerance=1e-12):
        if self.has_parent():
            return self._highest_parent_._checkgrad(self, verbose=verbose, step=step, tolerance=tolerance, df_tolerance=df_tolerance)
        return self._checkgrad(self, verbose=verbose, step=step, tolerance=tolerance, df_tolerance=df_tolerance)

    def _checkgrad(self, param, verbose=0, step=1e-06, tolerance=0.001, df_tolerance=1e-12):
        raise HierarchyError('This parameter is not in a model with a likelihood, and, therefore, cannot be gradient checked!')
