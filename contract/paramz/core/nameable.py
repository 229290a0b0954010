from .gradcheckable import Gradcheckable
import re

def adjust_name_for_printing(name):
    if name is not None:
        name2 = name
        name = name.replace(' ', '_').replace('.', '_').replace('-', '_m_')
        name = name.replace('+', '_p_').replace('!', '_I_')
        name = name.replace('**', '_xx_').replace('*', '_x_')
        name = name.replace('/', '_l_').replace('@', '_at_')
        name = name.replace('(', '_of_').replace(')', '')
        if re.match('^[a-zA-Z_][a-zA-Z0-9_]*\\Z', name) is None:
            raise NameError('name {} converted to {} cannot be further converted to valid python variable name!'.format(name2, name))
        return name
    return ''

class Nameable(Gradcheckable):

    def __init__(self, name, *a, **kw):
        self._name = name or self.__class__.__name__
        super(Nameable, self).__init__(*a, **kw)

    @property
    def name(self):
        return self._name

    @name.setter
    def name(self, name):
        from_name = self.name
        assert isinstance(name, str)
        self._name = name
        if self.has_parent():
            self._parent_._name_changed(self, from_name)

    def hierarchy_name(self, adjust_for_printing=True):
        if adjust_for_printing:
            adjust = lambda x: adjust_name_for_printing(x)
        else:
            adjust = lambda x: x
        if self.has_parent():
            return self._parent_.hierarchy_name() + '.' + adjust(self.name)
        return adjust(self.name)
