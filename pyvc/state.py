"""Module- and class-level state of the code under verification, put back before every path or evaluation."""
import sys
import types

_saved = []
_attrs = []


def _containers(v, seen, out):
    if type(v) not in (dict, list, set) or id(v) in seen:
        return
    seen.add(id(v))
    if type(v) is dict:
        out.append((v, list(v.items())))
        for x in v.values():
            _containers(x, seen, out)
    else:
        out.append((v, list(v)))
        if type(v) is list:
            for x in v:
                _containers(x, seen, out)


def save(pkg="pyown"):
    """Remember the state right after import."""
    _saved.clear()
    _attrs.clear()
    seen = set()
    done = set()
    todo = []
    for n, m in sorted(sys.modules.items()):
        if n == pkg or n.startswith(pkg + "."):
            todo.append(m)
    for m in todo:
        g = {k: v for k, v in vars(m).items() if not k.startswith("__") and not k.startswith("_vc_")}
        _attrs.append((m, g))
        for v in g.values():
            _containers(v, seen, _saved)
            if isinstance(v, type) and getattr(v, "__module__", "").startswith(pkg) and v not in done:
                done.add(v)
                a = {k: x for k, x in vars(v).items() if not k.startswith("__") and not k.startswith("_abc")}
                _attrs.append((v, a))
                for x in a.values():
                    _containers(x, seen, _saved)


def restore():
    for c, items in _saved:
        if type(c) is dict:
            if len(c) != len(items) or any(a is not k or b is not v for (a, b), (k, v) in zip(c.items(), items)):
                c.clear()
                for k, v in items:
                    dict.__setitem__(c, k, v)
        elif type(c) is list:
            if len(c) != len(items) or any(a is not b for a, b in zip(c, items)):
                c[:] = items
        elif len(c) != len(items):
            c.clear()
            c.update(items)
    for o, a in _attrs:
        d = vars(o)
        for k, v in a.items():
            if d.get(k) is not v:
                try:
                    setattr(o, k, v)
                except (AttributeError, TypeError):
                    pass
        if isinstance(o, type) or isinstance(o, types.ModuleType):
            for k in [k for k in d if k not in a and not k.startswith("__") and not k.startswith("_abc")
                      and not k.startswith("_vc_")]:
                try:
                    delattr(o, k)
                except (AttributeError, TypeError):
                    pass
