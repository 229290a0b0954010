class HierarchyError(Exception):
    pass
from . import index_operations, lists_and_dicts, observable, observable_array, parameter_core, updateable
from paramz import domains
from paramz import transformations
