class Observable(object):

    def __init__(self, *args, **kwargs):
        super(Observable, self).__init__()
        from .lists_and_dicts import ObserverList
        self.observers = ObserverList()
        self._update_on = True

    def set_updates(self, on=True):
        self._update_on = on

    def add_observer(self, observer, callble, priority=0):
        self.observers.add(priority, observer, callble)

    def remove_observer(self, observer, callble=None):
        to_remove = []
        for poc in self.observers:
            _, obs, clble = poc
            if callble is not None:
                if obs is observer and callble == clble:
                    to_remove.append(poc)
            elif obs is observer:
                to_remove.append(poc)
        for r in to_remove:
            self.observers.remove(*r)

    def notify_observers(self, which=None, min_priority=None):
        if self._update_on:
            if which is None:
                which = self
            if min_priority is None:
                [callble(self, which=which) for _, _, callble in self.observers]
            else:
                for p, _, callble in self.observers:
                    if p <= min_priority:
                        break
                    callble(self, which=which)

    def change_priority(self, observer, callble, priority):
        self.remove_observer(observer, callble)
        self.add_observer(observer, callble, priority)
