import numpy as np
from .indexable import Indexable
from ..transformations import Transformation, Logexp, NegativeLogexp, Logistic, __fixed__, FIXED, UNFIXED

class Constrainable(Indexable):

    def __init__(self, name, default_constraint=None, *a, **kw):
        super(Constrainable, self).__init__(name=name)
        self._default_constraint_ = default_constraint
        from .index_operations import ParameterIndexOperations
        self.add_index_operation('constraints', ParameterIndexOperations())
        if self._default_constraint_ is not None:
            self.constrain(self._default_constraint_)

    def constrain_fixed(self, value=None, warning=True, trigger_parent=True):
        if value is not None:
            self[:] = value
        index = self._add_to_index_operations(self.constraints, np.empty(0), __fixed__, warning)
        self._highest_parent_._set_fixed(self, index)
        self.notify_observers(self, None if trigger_parent else -np.inf)
        return index
    fix = constrain_fixed

    def unconstrain_fixed(self):
        unconstrained = self.unconstrain(__fixed__)
        self._highest_parent_._set_unfixed(self, unconstrained)
        return unconstrained
    unfix = unconstrain_fixed

    def _ensure_fixes(self):
        if not hasattr(self, '_fixes_') or self._fixes_ is None or self._fixes_.size != self.size or self.has_parent():
            self._fixes_ = np.ones(self.size, dtype=bool)
            self._fixes_[self.constraints[__fixed__]] = FIXED

    def _set_fixed(self, param, index):
        self._ensure_fixes()
        offset = self._offset_for(param)
        self._fixes_[index + offset] = FIXED
        if np.all(self._fixes_):
            self._fixes_ = None

    def _set_unfixed(self, param, index):
        self._ensure_fixes()
        offset = self._offset_for(param)
        self._fixes_[index + offset] = UNFIXED
        if np.all(self._fixes_):
            self._fixes_ = None

    def _connect_fixes(self):
        fixed_indices = self.constraints[__fixed__]
        if fixed_indices.size > 0:
            self._ensure_fixes()
            self._fixes_[:] = UNFIXED
            self._fixes_[fixed_indices] = FIXED
        else:
            self._fixes_ = None
            del self.constraints[__fixed__]

    def _has_fixes(self):
        return self.constraints[__fixed__].size != 0

    @property
    def is_fixed(self):
        for p in self.parameters:
            if not p.is_fixed:
                return False
        return True

    def _get_original(self, param):
        return self.parameters[param._parent_index_]

    def constrain(self, transform, warning=True, trigger_parent=True):
        if isinstance(transform, Transformation):
            self.param_array[...] = transform.initialize(self.param_array)
        elif transform == __fixed__:
            return self.fix(warning=warning, trigger_parent=trigger_parent)
        else:
            raise ValueError('Can only constrain with paramz.transformations.Transformation object')
        reconstrained = self.unconstrain()
        added = self._add_to_index_operations(self.constraints, reconstrained, transform, warning)
        self.trigger_update(trigger_parent)
        return added

    def unconstrain(self, *transforms):
        removed = self._remove_from_index_operations(self.constraints, transforms)

        def outdated(node):
            node._optimizer_copy_transformed = False
            for p in node.parameters:
                outdated(p)
        outdated(self._highest_parent_)
        return removed

    def constrain_positive(self, warning=True, trigger_parent=True):
        self.constrain(Logexp(), warning=warning, trigger_parent=trigger_parent)

    def constrain_negative(self, warning=True, trigger_parent=True):
        self.constrain(NegativeLogexp(), warning=warning, trigger_parent=trigger_parent)

    def constrain_bounded(self, lower, upper, warning=True, trigger_parent=True):
        self.constrain(Logistic(lower, upper), warning=warning, trigger_parent=trigger_parent)

    def unconstrain_positive(self):
        self.unconstrain(Logexp())

    def unconstrain_negative(self):
        self.unconstrain(NegativeLogexp())

    def unconstrain_bounded(self, lower, upper):
        self.unconstrain(Logistic(lower, upper))
