"""Shared by the symbolic and the concrete side of the contracts."""

_vc_ = None


class Outcome:
    __slots__ = ("kind", "value")

    def __init__(self, kind, value):
        self.kind, self.value = kind, value

    @property
    def ok(self):
        return self.kind == "ok"

    def raised(self, *types):
        return self.kind == "exc" and isinstance(self.value, types)

    def __repr__(self):
        return f"{self.kind}:{type(self.value).__name__}"


class uncut:
    """The loops of the code called inside are not cut by the contract's own loop (symbolic mode)."""

    def __enter__(self):
        from . import core

        self.c = core.CTX
        if self.c is not None:
            self.c.uncut += 1

    def __exit__(self, *a):
        if self.c is not None:
            self.c.uncut -= 1


# ============================================================================ registry


class Harness:
    def __init__(self, prop, fn, name, only=None, budget=100.0, exact=False, weight=1.0, param=None, has_param=False,
                 fresh=False):
        self.prop, self.fn, self.name, self.only = prop, fn, name, only
        self.budget, self.exact, self.weight = budget, exact, weight
        self.param, self.has_param, self.fresh = param, has_param, fresh
        self.doc = (fn.__doc__ or "").strip()

    def __call__(self, vc):
        return self.fn(vc, self.param) if self.has_param else self.fn(vc)


REG = []


def harness(prop, only=None, budget=100.0, exact=False, weight=1.0, params=None, fresh=False):
    """Register a contract instance.  only: 'sym' (proof only) or 'conc' (scenario on the real code only);
    fresh: class-level state (registered callbacks) is put back before every concrete evaluation."""

    def deco(fn):
        if params is None:
            REG.append(Harness(prop, fn, fn.__name__, only, budget, exact, weight, fresh=fresh))
        else:
            for p in params:
                n = p if isinstance(p, str) else p[0]
                REG.append(Harness(prop, fn, f"{fn.__name__}[{n}]", only, budget, exact, weight, p, True, fresh))
        return fn

    return deco
