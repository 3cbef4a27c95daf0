def load(prop=None):
    from . import o1, o2, o3
