def _inherit_doc(fromclass, done_classes=None):
    inherited = ''
    if done_classes is None:
        done_classes = []
    for c in fromclass.__bases__:
        if c not in done_classes:
            try:
                subs = 'Inherited from {}: \n'.format(c.__name__)
                subs += c.__doc__
                subs += '\n'
                inherited += subs
                done_classes.append(c)
            except TypeError as e:
                pass
        inherited += _inherit_doc(c, done_classes=done_classes)
    return inherited
