import numpy
from numpy.lib.function_base import vectorize
from .lists_and_dicts import IntArrayDict
from functools import reduce

def extract_properties_to_index(index, props):
    prop_index = dict()
    for i, cl in enumerate(props):
        for c in cl:
            ind = prop_index.get(c, list())
            ind.append(index[i])
            prop_index[c] = ind
    for c, i in prop_index.items():
        prop_index[c] = numpy.array(i, dtype=int)
    return prop_index

class ParameterIndexOperations(object):
    _offset = 0

    def __init__(self, constraints=None):
        self._properties = IntArrayDict()
        if constraints is not None:
            for t, i in constraints.items():
                self.add(t, i)

    def items(self):
        for i, ind in self._properties.items():
            if ind.size > 0:
                yield (i, ind)

    def properties(self):
        return [i[0] for i in self.items()]

    def indices(self):
        return [i[1] for i in self.items()]

    def shift_right(self, start, size):
        for ind in self.indices():
            toshift = ind >= start
            ind[toshift] += size

    def shift_left(self, start, size):
        for v, ind in list(self.items()):
            todelete = (ind >= start) * (ind < start + size)
            if todelete.sum() != 0:
                ind = ind[~todelete]
            toshift = ind >= start
            if toshift.size != 0:
                ind[toshift] -= size
            if ind.size != 0:
                self._properties[v] = ind
            else:
                del self._properties[v]

    def clear(self):
        self._properties.clear()

    @property
    def size(self):
        return sum([i.size for i in self.indices()])

    def properties_for(self, index):
        return vectorize(lambda i: [prop for prop in self.properties() if i in self[prop]], otypes=[list])(index)

    def properties_dict_for(self, index):
        props = self.properties_for(index)
        prop_index = extract_properties_to_index(index, props)
        return prop_index

    def add(self, prop, indices):
        self._properties[prop] = combine_indices(self._properties[prop], indices)

    def remove(self, prop, indices):
        if prop in self._properties:
            diff = remove_indices(self[prop], indices)
            removed = numpy.intersect1d(self[prop], indices, True)
            if not index_empty(diff):
                self._properties[prop] = diff
            else:
                del self._properties[prop]
            return removed.astype(int)
        return numpy.array([]).astype(int)

    def update(self, parameter_index_view, offset=0):
        for i, v in parameter_index_view.items():
            self.add(i, v + offset)

    def copy(self):
        return self.__deepcopy__(None)

    def __deepcopy__(self, memo):
        return ParameterIndexOperations(dict(self.items()))

    def __getitem__(self, prop):
        return self._properties[prop]

    def __delitem__(self, prop):
        del self._properties[prop]

    def __str__(self, *args, **kwargs):
        import pprint
        return pprint.pformat(dict(self._properties))

def combine_indices(arr1, arr2):
    return numpy.union1d(arr1, arr2)

def remove_indices(arr, to_remove):
    return numpy.setdiff1d(arr, to_remove, True)

def index_empty(index):
    return numpy.size(index) == 0

class ParameterIndexOperationsView(object):

    def __init__(self, param_index_operations, offset, size):
        self._param_index_ops = param_index_operations
        self._offset = offset
        self._size = size

    def __getstate__(self):
        return [self._param_index_ops, self._offset, self._size]

    def __setstate__(self, state):
        self._param_index_ops = state[0]
        self._offset = state[1]
        self._size = state[2]

    def _filter_index(self, ind):
        return ind[(ind >= self._offset) * (ind < self._offset + self._size)] - self._offset

    def items(self):
        _items_list = self._param_index_ops.items()
        for i, ind in _items_list:
            ind2 = self._filter_index(ind)
            if ind2.size > 0:
                yield (i, ind2)

    def properties(self):
        return [i[0] for i in self.items()]

    def indices(self):
        return [i[1] for i in self.items()]

    def shift_right(self, start, size):
        self._param_index_ops.shift_right(start + self._offset, size)

    def shift_left(self, start, size):
        self._param_index_ops.shift_left(start + self._offset, size)

    def clear(self):
        for i, ind in list(self.items()):
            self._param_index_ops.remove(i, ind + self._offset)

    @property
    def size(self):
        return sum([i.size for i in self.indices()])

    def properties_for(self, index):
        return vectorize(lambda i: [prop for prop in self.properties() if i in self[prop]], otypes=[list])(index)

    def properties_dict_for(self, index):
        return extract_properties_to_index(index, self.properties_for(index))

    def add(self, prop, indices):
        self._param_index_ops.add(prop, indices + self._offset)

    def remove(self, prop, indices):
        removed = self._param_index_ops.remove(prop, numpy.array(indices) + self._offset)
        if removed.size > 0:
            return removed - self._offset
        return removed

    def __getitem__(self, prop):
        ind = self._filter_index(self._param_index_ops[prop])
        return ind

    def __delitem__(self, prop):
        self.remove(prop, self[prop])

    def __str__(self, *args, **kwargs):
        import pprint
        return pprint.pformat(dict(self.items()))

    def update(self, parameter_index_view, offset=0):
        for i, v in parameter_index_view.items():
            self.add(i, v + offset)

    def copy(self):
        return self.__deepcopy__(None)

    def __deepcopy__(self, memo):
        return ParameterIndexOperations(dict(self.items()))
    pass
