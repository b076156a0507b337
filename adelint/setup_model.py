"""The abstract paths of Population.setup, shared by several checks."""

from .absint import ArrO, Const, DefO, Fun, ListO, LockO, NONE, Ref, Term, Tup, FALSE
from .model import (NP, ONE_POP, Roles, arrlen, config, field_of, opaque_limit)

LATCH = [("Population", "running")]


def abort_hook(it, fun, args, kwargs, node, e):
    it.setattr(fun.selfv, "running", FALSE, node)
    return NONE


class Setup:
    def __init__(self, ctx, opaque=None, name="Population.setup", rounds=1, whiles=1, uniform=None,
                 blank=None, prepare=None, **kw):
        self.ctx = ctx
        self.prepare = prepare
        self.roles = roles = Roles(ctx.repo)
        self.fi = ctx.repo.method("Population", "setup")
        self.kwargs = {}
        if uniform is not None:
            self.kwargs["uniform"] = Const(uniform)
        if blank is not None:
            self.kwargs["blank"] = Const(blank)
        op = {"Population.abort": abort_hook, "History.add": "deferred",
              "Reporter.__call__": "none", "Population.clear": "none",
              "Population.initialize": "none",
              "ParameterManager.passesConstraints": "pure",
              "ParameterManager.limit": opaque_limit,
              "ParameterManager.fromUnity": "pure"}
        if opaque:
            op.update(opaque)
            op = {k: v for k, v in op.items() if v is not None}
        alias = dict(ONE_POP)
        alias.update(kw.pop("alias", {}))
        cfg = config(types=roles.types(), alias=alias, latch=LATCH, arrlen=arrlen,
                     opaque=op, max_loop=rounds, max_while=whiles, **kw)
        self.analysis = ctx.explore(name, cfg, self.driver)
        self.paths = self.analysis.paths

    def driver(self, it):
        it.pop = it.sym_inst("Population", "p")
        if self.prepare is not None:
            self.prepare(it)
        kw = dict(self.kwargs)
        for k in ("uniform", "blank"):
            kw.setdefault(k, it.sym(k))
        return it.call_fun(Fun(self.fi, None, it.pop), [], kw)

    def adds(self, p):
        return [e for e in p.find("mut")
                if field_of(e.d["origin"])[1] == self.roles.slots]
