import collections, weakref
from functools import reduce
from pickle import PickleError
from decorator import decorate
from .core.observable import Observable
from numbers import Number

class Cacher(object):

    def __init__(self, operation, limit=3, ignore_args=(), force_kwargs=(), cacher_enabled=True):
        self.limit = int(limit)
        self.ignore_args = ignore_args
        self.force_kwargs = force_kwargs
        self.operation = operation
        self.cacher_enabled = cacher_enabled
        if getattr(self.operation, '__self__', None) is not None:
            obj = self.operation.__self__
            if not hasattr(obj, 'cache'):
                obj.cache = FunctionCache()
            cache = obj.cache
            self.cacher_enabled = self.cacher_enabled and cache.caching_enabled
            cache[self.operation] = self
        self.cached_input_ids = {}
        self.reset()

    def disable_cacher(self):
        self.cacher_enabled = False
        self.reset()

    def enable_cacher(self):
        self.cacher_enabled = True

    def id(self, obj):
        return hex(id(obj))

    def combine_inputs(self, args, kw, ignore_args):
        inputs = args + tuple((c[1] for c in sorted(kw.items(), key=lambda x: x[0])))
        return [a for i, a in enumerate(inputs) if i not in ignore_args]

    def prepare_cache_id(self, combined_args_kw):
        cache_id = ''.join((self.id(a) for a in combined_args_kw))
        return cache_id

    def ensure_cache_length(self):
        if len(self.order) == self.limit:
            cache_id = self.order.popleft()
            combined_args_kw = self.cached_inputs[cache_id]
            for ind in combined_args_kw:
                ind_id = self.id(ind)
                tmp = self.cached_input_ids.get(ind_id, None)
                if tmp is not None:
                    ref, cache_ids = tmp
                    if len(cache_ids) == 1 and ref() is not None:
                        ref().remove_observer(self, self.on_cache_changed)
                        del self.cached_input_ids[ind_id]
                    else:
                        cache_ids.remove(cache_id)
                        self.cached_input_ids[ind_id] = [ref, cache_ids]
            try:
                del self.cached_outputs[cache_id]
            except KeyError:
                pass
            try:
                del self.inputs_changed[cache_id]
            except KeyError:
                pass
            try:
                del self.cached_inputs[cache_id]
            except KeyError:
                pass

    def add_to_cache(self, cache_id, inputs, output):
        self.inputs_changed[cache_id] = False
        self.cached_outputs[cache_id] = output
        self.order.append(cache_id)
        self.cached_inputs[cache_id] = inputs
        for a in inputs:
            if a is not None and (not isinstance(a, Number)) and (not isinstance(a, str)):
                ind_id = self.id(a)
                v = self.cached_input_ids.get(ind_id, [weakref.ref(a), []])
                v[1].append(cache_id)
                if len(v[1]) == 1:
                    a.add_observer(self, self.on_cache_changed)
                self.cached_input_ids[ind_id] = v

    def __call__(self, *args, **kw):
        if not self.cacher_enabled:
            return self.operation(*args, **kw)
        if len(self.force_kwargs) != 0:
            for k in self.force_kwargs:
                if k in kw and kw[k] is not None:
                    return self.operation(*args, **kw)
        inputs = self.combine_inputs(args, kw, self.ignore_args)
        cache_id = self.prepare_cache_id(inputs) + ''.join((',{}'.format(k) for k in sorted(kw)))
        if reduce(lambda a, b: a or not (isinstance(b, Observable) or b is None or isinstance(b, Number) or isinstance(b, str)), inputs, False):
            return self.operation(*args, **kw)
        not_seen = not cache_id in self.inputs_changed
        changed = not not_seen and self.inputs_changed[cache_id]
        if changed or not_seen:
            try:
                new_output = self.operation(*args, **kw)
            except:
                self.reset()
                raise
            if changed:
                self.inputs_changed[cache_id] = False
                self.cached_outputs[cache_id] = new_output
            else:
                self.ensure_cache_length()
                self.add_to_cache(cache_id, inputs, new_output)
        return self.cached_outputs[cache_id]

    def on_cache_changed(self, direct, which=None):
        for what in [direct, which]:
            ind_id = self.id(what)
            _, cache_ids = self.cached_input_ids.get(ind_id, [None, []])
            for cache_id in cache_ids:
                self.inputs_changed[cache_id] = True

    def reset(self):
        [a().remove_observer(self, self.on_cache_changed) if a() is not None else None for [a, _] in self.cached_input_ids.values()]
        self.order = collections.deque()
        self.cached_inputs = {}
        self.cached_input_ids = {}
        self.cached_outputs = {}
        self.inputs_changed = {}

    def __deepcopy__(self, memo=None):
        return Cacher(self.operation, self.limit, self.ignore_args, self.force_kwargs)

    def __getstate__(self, memo=None):
        raise PickleError('Trying to pickle Cacher object with function {}, pickling functions not possible.'.format(str(self.operation)))

    def __setstate__(self, memo=None):
        raise PickleError('Trying to pickle Cacher object with function {}, pickling functions not possible.'.format(str(self.operation)))

    @property
    def __name__(self):
        return self.operation.__name__

    def __str__(self, *args, **kwargs):
        return 'Cacher({})\n  limit={}\n  \\#cached={}'.format(self.__name__, self.limit, len(self.cached_input_ids))

class FunctionCache(dict):

    def __init__(self, *args, **kwargs):
        dict.__init__(self, *args, **kwargs)
        self.caching_enabled = True

    def disable_caching(self):
        self.caching_enabled = False
        for c in self.values():
            c.disable_cacher()

    def enable_caching(self):
        self.caching_enabled = True
        for c in self.values():
            c.enable_cacher()

    def reset(self):
        for c in self.values():
            c.reset()

class Cache_this(object):

    def __init__(self, limit=5, ignore_args=(), force_kwargs=()):
        self.limit = limit
        self.ignore_args = ignore_args
        self.force_kwargs = force_kwargs
        self.f = None

    def __call__(self, f):
        self.f = f

        def g(obj, *args, **kw):
            obj = args[0]
            if not hasattr(obj, 'cache'):
                obj.cache = FunctionCache()
            cache = obj.cache
            if self.f in cache:
                cacher = cache[self.f]
            else:
                cacher = cache[self.f] = Cacher(self.f, self.limit, self.ignore_args, self.force_kwargs, cacher_enabled=cache.caching_enabled)
            return cacher(*args, **kw)
        g.__name__ = f.__name__
        g.__doc__ = f.__doc__
        g = decorate(self.f, g)
        return g
