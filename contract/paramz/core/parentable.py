class Parentable(object):
    _parent_ = None
    _parent_index_ = None

    def __init__(self, *args, **kwargs):
        super(Parentable, self).__init__()

    def has_parent(self):
        return self._parent_ is not None

    def _parent_changed(self):
        raise NotImplementedError('shouldnt happen, Parentable objects need to be able to change their parent')

    def _disconnect_parent(self, *args, **kw):
        raise NotImplementedError('Abstract superclass')

    @property
    def _highest_parent_(self):
        if self._parent_ is None:
            return self
        return self._parent_._highest_parent_

    def _notify_parent_change(self):
        pass
