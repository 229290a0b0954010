import numpy as np
from .nameable import Nameable
from .updateable import Updateable
from ..transformations import __fixed__
from operator import delitem
from functools import reduce
from collections import OrderedDict
import logging

class Indexable(Nameable, Updateable):

    def __init__(self, name, default_constraint=None, *a, **kw):
        super(Indexable, self).__init__(*a, name=name, **kw)
        self._index_operations = OrderedDict()

    def __setstate__(self, state):
        super(Indexable, self).__setstate__(state)
        if not hasattr(self, '_index_operations'):
            self._index_operations = OrderedDict()
            from paramz.core.index_operations import ParameterIndexOperations, ParameterIndexOperationsView
            from paramz import Param
            if isinstance(self, Param):
                state = state[1]
            for name, io in state.iteritems():
                if isinstance(io, (ParameterIndexOperations, ParameterIndexOperationsView)):
                    self._index_operations[name] = io
        for name in self._index_operations:
            self._add_io(name, self._index_operations[name])

    def add_index_operation(self, name, operations):
        if name not in self._index_operations:
            self._add_io(name, operations)
        else:
            raise AttributeError('An index operation with the name {} was already taken'.format(name))

    def _add_io(self, name, operations):
        self._index_operations[name] = operations

        def do_raise(self, x):
            self._index_operations.__setitem__(name, x)
            self._connect_fixes()
            self._notify_parent_change()
        setattr(Indexable, name, property(fget=lambda self: self._index_operations[name], fset=do_raise))

    def remove_index_operation(self, name):
        if name in self._index_operations:
            delitem(self._index_operations, name)
        else:
            raise AttributeError('No index operation with the name {}'.format(name))

    def _disconnect_parent(self, *args, **kw):
        for name, iop in list(self._index_operations.items()):
            iopc = iop.copy()
            iop.clear()
            self.remove_index_operation(name)
            self.add_index_operation(name, iopc)
        self._parent_ = None
        self._parent_index_ = None
        self._connect_fixes()
        self._notify_parent_change()

    def _offset_for(self, param):
        if param.has_parent():
            p = param._parent_._get_original(param)
            if p in self.parameters:
                return reduce(lambda a, b: a + b.size, self.parameters[:p._parent_index_], 0)
            return self._offset_for(param._parent_) + param._parent_._offset_for(param)
        return 0

    def _raveled_index_for(self, param):
        from ..param import ParamConcatenation
        if isinstance(param, ParamConcatenation):
            return np.hstack([self._raveled_index_for(p) for p in param.params])
        return param._raveled_index() + self._offset_for(param)

    def _raveled_index_for_transformed(self, param):
        ravi = self._raveled_index_for(param)
        if self._has_fixes():
            fixes = self._fixes_
            transformed = np.r_[:self.size] - (~fixes).cumsum()
            return transformed[ravi[fixes[ravi]]]
        else:
            return ravi

    def _raveled_index(self):
        return np.r_[:self.size]

    def _parent_changed(self, parent):
        from .index_operations import ParameterIndexOperationsView
        offset = parent._offset_for(self)
        for name, iop in list(self._index_operations.items()):
            self.remove_index_operation(name)
            self.add_index_operation(name, ParameterIndexOperationsView(parent._index_operations[name], offset, self.size))
        self._fixes_ = None
        for p in self.parameters:
            p._parent_changed(parent)

    def _add_to_index_operations(self, which, reconstrained, what, warning):
        if warning and reconstrained.size > 0:
            logging.getLogger(self.name).warning('reconstraining parameters {}'.format(self.hierarchy_name() or self.name))
        index = self._raveled_index()
        which.add(what, index)
        return index

    def _remove_from_index_operations(self, which, transforms):
        if len(transforms) == 0:
            transforms = which.properties()
        removed = np.empty((0,), dtype=int)
        for t in list(transforms):
            unconstrained = which.remove(t, self._raveled_index())
            removed = np.union1d(removed, unconstrained)
            if t is __fixed__:
                self._highest_parent_._set_unfixed(self, unconstrained)
        return removed
