from .observable import Observable

class Updateable(Observable):

    def __init__(self, *args, **kwargs):
        super(Updateable, self).__init__(*args, **kwargs)

    def update_model(self, updates=None):
        if updates is None:
            return self._update_on
        assert isinstance(updates, bool), 'updates are either on (True) or off (False)'
        p = getattr(self, '_highest_parent_', None)

        def turn_updates(s):
            s._update_on = updates
        p.traverse(turn_updates)
        self.trigger_update()

    def toggle_update(self):
        print('deprecated: toggle_update was renamed to update_toggle for easier access')
        self.update_toggle()

    def update_toggle(self):
        self.update_model(not self.update_model())

    def trigger_update(self, trigger_parent=True):
        if not self.update_model() or (hasattr(self, '_in_init_') and self._in_init_):
            return
        self._trigger_params_changed(trigger_parent)
