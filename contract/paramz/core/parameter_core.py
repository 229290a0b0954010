import numpy as np
import re
import logging
from ..transformations import __fixed__, FIXED
from .constrainable import Constrainable
from .nameable import adjust_name_for_printing
from ..caching import FunctionCache
try:
    from builtins import RecursionError as RE
except:
    RE = RuntimeError
    pass

class OptimizationHandlable(Constrainable):

    def __init__(self, name, default_constraint=None, *a, **kw):
        super(OptimizationHandlable, self).__init__(name, *a, default_constraint=default_constraint, **kw)
        self._optimizer_copy_ = None
        self._optimizer_copy_transformed = False

    @property
    def optimizer_array(self):
        if self.__dict__.get('_optimizer_copy_', None) is None or self.size != self._optimizer_copy_.size:
            self._optimizer_copy_ = np.empty(self.size)
        if not self._optimizer_copy_transformed:
            self._optimizer_copy_.flat = self.param_array.flat
            [np.put(self._optimizer_copy_, ind, c.finv(self.param_array.flat[ind])) for c, ind in self.constraints.items() if c != __fixed__]
            self._optimizer_copy_transformed = True
        if self._has_fixes():
            self._ensure_fixes()
            return self._optimizer_copy_[self._fixes_]
        return self._optimizer_copy_

    @optimizer_array.setter
    def optimizer_array(self, p):
        f = None
        if self.has_parent() and self.constraints[__fixed__].size != 0:
            f = np.ones(self.size).astype(bool)
            f[self.constraints[__fixed__]] = FIXED
        elif self._has_fixes():
            f = self._fixes_
        if f is None:
            self.param_array.flat = p
            [np.put(self.param_array, ind, c.f(self.param_array.flat[ind])) for c, ind in self.constraints.items() if c != __fixed__]
        else:
            self.param_array.flat[f] = p
            [np.put(self.param_array, ind[f[ind]], c.f(self.param_array.flat[ind[f[ind]]])) for c, ind in self.constraints.items() if c != __fixed__]
        self._optimizer_copy_transformed = False
        self.trigger_update()

    def _trigger_params_changed(self, trigger_parent=True):
        [p._trigger_params_changed(trigger_parent=False) for p in self.parameters if not p.is_fixed]
        self.notify_observers(None, None if trigger_parent else -np.inf)

    def _size_transformed(self):
        return self.size - self.constraints[__fixed__].size

    def _transform_gradients(self, g):
        g = g.copy()
        [np.put(g, i, c.gradfactor(self.param_array[i], g[i])) for c, i in self.constraints.items() if c != __fixed__]
        if self._has_fixes():
            return g[self._fixes_]
        return g

    @property
    def num_params(self):
        raise NotImplemented('Abstract, please implement in respective classes')

    def parameter_names(self, add_self=False, adjust_for_printing=False, recursive=True, intermediate=False):
        if adjust_for_printing:
            adjust = adjust_name_for_printing
        else:
            adjust = lambda x: x
        names = []
        if intermediate or not recursive:
            names.extend([adjust(x.name) for x in self.parameters])
        if intermediate or recursive:
            names.extend([xi for x in self.parameters for xi in x.parameter_names(add_self=True, adjust_for_printing=adjust_for_printing, recursive=True, intermediate=False)])
        if add_self:
            names = map(lambda x: adjust(self.name) + '.' + x, names)
        return names

    def parameter_names_flat(self, include_fixed=False):
        name_list = []
        for p in self.flattened_parameters:
            name = p.hierarchy_name()
            if p.size > 1:
                name_list.extend(['{}[{!s}]'.format(name, i) for i in p._indices()])
            else:
                name_list.append(name)
        name_list = np.array(name_list)
        if not include_fixed and self._has_fixes():
            self._ensure_fixes()
            return name_list[self._fixes_]
        return name_list

    def randomize(self, rand_gen=None, *args, **kwargs):
        if rand_gen is None:
            rand_gen = np.random.normal
        x = rand_gen(*args, size=self._size_transformed(), **kwargs)
        updates = self.update_model()
        self.update_model(False)
        try:
            self.optimizer_array = x
            x = self.param_array.copy()
            unfixlist = np.ones((self.size,), dtype=bool)
            unfixlist[self.constraints[__fixed__]] = False
            self.param_array.flat[unfixlist] = x.view(np.ndarray).ravel()[unfixlist]
        finally:
            self.update_model(updates)

    @property
    def gradient_full(self):
        self.gradient
        return self._gradient_array_

    def _propagate_param_grad(self, parray, garray):
        pi_old_size = 0
        for pi in self.parameters:
            pislice = slice(pi_old_size, pi_old_size + pi.size)
            self.param_array[pislice] = pi.param_array.flat
            self.gradient_full[pislice] = pi.gradient_full.flat
            pi.param_array.data = parray[pislice].data
            pi.gradient_full.data = garray[pislice].data
            pi._propagate_param_grad(parray[pislice], garray[pislice])
            pi_old_size += pi.size
        self._model_initialized_ = True

    def _connect_parameters(self):
        pass
_name_digit = re.compile('(?P<name>.*)_(?P<digit>\\d+)$')

class Parameterizable(OptimizationHandlable):

    def __init__(self, *args, **kwargs):
        super(Parameterizable, self).__init__(*args, **kwargs)
        from .lists_and_dicts import ArrayList
        self.parameters = ArrayList()
        self._param_array_ = None
        self._added_names_ = set()
        self.logger = logging.getLogger(self.__class__.__name__)
        self.__visited = False
        self.cache = FunctionCache()

    def initialize_parameter(self):
        self._highest_parent_._notify_parent_change()
        self._highest_parent_._connect_parameters()
        self._highest_parent_._connect_fixes()
        self.trigger_update()

    @property
    def param_array(self):
        if self.__dict__.get('_param_array_', None) is None or self._param_array_.size != self.size:
            self._param_array_ = np.empty(self.size, dtype=np.float64)
        return self._param_array_

    @property
    def unfixed_param_array(self):
        if self.constraints[__fixed__].size != 0:
            fixes = np.ones(self.size).astype(bool)
            fixes[self.constraints[__fixed__]] = FIXED
            return self._param_array_[fixes]
        else:
            return self._param_array_

    def traverse(self, visit, *args, **kwargs):
        if not self.__visited:
            visit(self, *args, **kwargs)
            self.__visited = True
            try:
                self._traverse(visit, *args, **kwargs)
            finally:
                self.__visited = False

    def _traverse(self, visit, *args, **kwargs):
        for c in self.parameters:
            c.traverse(visit, *args, **kwargs)

    def traverse_parents(self, visit, *args, **kwargs):
        if self.has_parent():
            self.__visited = True
            try:
                self._parent_.traverse_parents(visit, *args, **kwargs)
                self._parent_.traverse(visit, *args, **kwargs)
            finally:
                self.__visited = False

    def enable_caching(self):

        def visit(self):
            self.cache.enable_caching()
        self.traverse(visit)

    def disable_caching(self):

        def visit(self):
            self.cache.disable_caching()
        self.traverse(visit)

    @property
    def gradient(self):
        if self.__dict__.get('_gradient_array_', None) is None or self._gradient_array_.size != self.size:
            self._gradient_array_ = np.empty(self.size, dtype=np.float64)
        return self._gradient_array_

    @gradient.setter
    def gradient(self, val):
        self._gradient_array_[:] = val

    @property
    def num_params(self):
        return len(self.parameters)

    def _add_parameter_name(self, param):
        try:
            pname = adjust_name_for_printing(param.name)

            def warn_and_retry(param, match=None):
                if match is None:
                    param.name = param.name + '_1'
                else:
                    param.name = match.group('name') + '_' + str(int(match.group('digit')) + 1)
                self._add_parameter_name(param)
            for other in self.parameters:
                if not other is param and other.name == param.name:
                    return warn_and_retry(other, _name_digit.match(other.name))
            if pname not in dir(self):
                self.__dict__[pname] = param
                self._added_names_.add(pname)
            elif pname in self._added_names_:
                other = self.__dict__[pname]
        except RE:
            raise RE('Maximum recursion depth reached, try naming the parts of your kernel uniquely to avoid naming conflicts.')

    def _remove_parameter_name(self, param=None, pname=None):
        assert param is None or pname is None, 'can only delete either param by name, or the name of a param'
        pname = adjust_name_for_printing(pname) or adjust_name_for_printing(param.name)
        if pname in self._added_names_:
            del self.__dict__[pname]
            self._added_names_.remove(pname)
        self._connect_parameters()

    def _name_changed(self, param, old_name):
        self._remove_parameter_name(None, old_name)
        self._add_parameter_name(param)

    def __setstate__(self, state):
        super(Parameterizable, self).__setstate__(state)
        self.logger = logging.getLogger(self.__class__.__name__)
        return self

    def _parameters_changed_notification(self, me, which=None):
        self._optimizer_copy_transformed = False
        self.parameters_changed()

    def _pass_through_notify_observers(self, me, which=None):
        self.notify_observers(which=which)

    def _setup_observers(self):
        self.add_observer(self, self._parameters_changed_notification, -100)
        if self.has_parent():
            self.add_observer(self._parent_, self._parent_._pass_through_notify_observers, -np.inf)

    def _notify_parent_change(self):
        for p in self.parameters:
            p._parent_changed(self)

    def parameters_changed(self):
        pass

    def save(self, filename, ftype='HDF5'):
        from ..param import Param

        def gather_params(self, plist):
            if isinstance(self, Param):
                plist.append(self)
        plist = []
        self.traverse(gather_params, plist)
        names = self.parameter_names(adjust_for_printing=True)
        if ftype == 'HDF5':
            try:
                import h5py
                f = h5py.File(filename, 'w')
                for p, n in zip(plist, names):
                    n = n.replace('.', '_')
                    p = p.values
                    d = f.create_dataset(n, p.shape, dtype=p.dtype)
                    d[:] = p
                if hasattr(self, 'param_array'):
                    d = f.create_dataset('param_array', self.param_array.shape, dtype=self.param_array.dtype)
                    d[:] = self.param_array
                f.close()
            except:
                raise 'Fails to write the parameters into a HDF5 file!'
