class Pickleable(object):

    def __init__(self, *a, **kw):
        super(Pickleable, self).__init__()

    def pickle(self, f, protocol=-1):
        try:
            import cPickle as pickle
            if isinstance(f, basestring):
                with open(f, 'wb') as f:
                    pickle.dump(self, f, protocol)
            else:
                pickle.dump(self, f, protocol)
        except ImportError:
            import pickle
            if isinstance(f, str):
                with open(f, 'wb') as f:
                    pickle.dump(self, f, protocol)
            else:
                pickle.dump(self, f, protocol)

    def copy(self, memo=None, which=None):
        if memo is None:
            memo = {}
        import copy
        parents = []
        if which is None:
            which = self
        which.traverse_parents(parents.append)
        for p in parents:
            if not id(p) in memo:
                memo[id(p)] = None
        if not id(self.gradient) in memo:
            memo[id(self.gradient)] = None
        if not id(self._fixes_) in memo:
            memo[id(self._fixes_)] = None
        copy = copy.deepcopy(self, memo)
        copy._parent_index_ = None
        copy._trigger_params_changed()
        return copy

    def __deepcopy__(self, memo):
        s = self.__new__(self.__class__)
        memo[id(self)] = s
        import copy
        s.__setstate__(copy.deepcopy(self.__getstate__(), memo))
        return s

    def __getstate__(self):
        ignore_list = ['_param_array_', '_gradient_array_', '_optimizer_copy_', 'logger', 'observers', '_fixes_', 'cache']
        dc = dict()
        for k, v in self.__dict__.items():
            if k not in ignore_list:
                dc[k] = v
        return dc

    def __setstate__(self, state):
        self.__dict__.update(state)
        from .lists_and_dicts import ObserverList
        from ..caching import FunctionCache
        self.observers = ObserverList()
        self.cache = FunctionCache()
        self._setup_observers()
        self._optimizer_copy_transformed = False
