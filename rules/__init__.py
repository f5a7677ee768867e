RULES = {}


def prop(pid, cfgs=("default",), thorough=None, title=""):
    def d(f):
        RULES.setdefault(pid, []).append((f, cfgs, thorough))
        return f
    return d


def load():
    from . import response, server, parsing, routing, tables, macros, panics, civil, paths  # noqa
    return RULES
