from collections import defaultdict
import weakref

def intarray_default_factory():
    import numpy as np
    return np.int_([])

class IntArrayDict(defaultdict):

    def __init__(self, default_factory=None):
        defaultdict.__init__(self, intarray_default_factory)

class ArrayList(list):

    def __contains__(self, other):
        for el in self:
            if el is other:
                return True
        return False

    def index(self, item):
        index = 0
        for el in self:
            if el is item:
                return index
            index += 1
        raise ValueError('{} is not in list'.format(item))
    pass

class ObserverList(object):

    def __init__(self):
        self._poc = []

    def __getitem__(self, ind):
        p, o, c = self._poc[ind]
        return (p, o(), c)

    def remove(self, priority, observer, callble):
        self.flush()
        for i in range(len(self) - 1, -1, -1):
            p, o, c = self[i]
            if priority == p and observer is o and (callble == c):
                del self._poc[i]

    def __repr__(self):
        return self._poc.__repr__()

    def add(self, priority, observer, callble):
        ins = 0
        for pr, _, _ in self:
            if priority > pr:
                break
            ins += 1
        self._poc.insert(ins, (priority, weakref.ref(observer), callble))

    def __str__(self):
        from ..param import Param
        from ..core.observable_array import ObsAr
        from ..core.parameter_core import Parameterizable
        ret = []
        curr_p = None

        def frmt(o):
            if isinstance(o, ObsAr):
                return 'ObsArr <{}>'.format(hex(id(o)))
            elif isinstance(o, (Param, Parameterizable)):
                return '{}'.format(o.hierarchy_name())
            else:
                return repr(o)
        for p, o, c in self:
            curr = ''
            if curr_p != p:
                pre = '{!s}: '.format(p)
                curr_pre = pre
            else:
                curr_pre = ' ' * len(pre)
            curr_p = p
            curr += curr_pre
            ret.append(curr + ', '.join([frmt(o), str(c)]))
        return '\n'.join(ret)

    def flush(self):
        self._poc = [(p, o, c) for p, o, c in self._poc if o() is not None]

    def __iter__(self):
        self.flush()
        for p, o, c in self._poc:
            yield (p, o(), c)

    def __len__(self):
        self.flush()
        return self._poc.__len__()
    pass
