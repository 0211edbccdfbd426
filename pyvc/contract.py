"""Contracts on functions of /repo (sidecar: keyed by file and qualified name)."""

CONTRACTS = {}     # (qual) -> Contract
IFACE = {}         # (class or '*', method) -> Contract of an interface / external function (assumed)


class Contract:
    def __init__(self, file, qual, params, result=None, ret="V", requires=(), ensures=(), must_raise=None, no_raise=None,
                 self_fields=None, effects=None, trace=None, inv=(), fresh=True, decreases=None, types=None, assumed=None,
                 pre_types=(), note="", fuel=2, inline=(), objs=None, expected_raise=None, ghost=None, self_val=None, det=True, timeout=6000,
                 prop=None, havoc=(), unroll=8, raises_types=None, extra_inv=(), callers=(), frame_ok=(), when=None, using=(), optional=(), inv_timeout=2500, raise_trace=None, defines=(), defines_pre=(), event=None, raise_ensures=(), unbox=False):
        self.unbox = unbox
        self.raise_ensures = list(raise_ensures)
        self.raises_types = raises_types
        self.event = event or {}
        self.defines_pre = list(defines_pre)
        self.defines = list(defines)
        self.raise_trace = raise_trace
        self.inv_timeout = inv_timeout
        self.optional = set(optional)
        self.using = set(using)
        self.when = when
        self.file, self.qual, self.params, self.result, self.ret = file, qual, params, result, ret
        self.requires, self.ensures = list(requires), list(ensures)
        self.must_raise, self.no_raise = must_raise, no_raise
        self.self_fields = self_fields or {}
        self.effects = effects or {}
        self.trace = trace
        self.inv = list(inv)
        self.fresh = fresh
        self.decreases = decreases
        self.types = types or {}
        self.assumed = assumed
        self.note = note
        self.fuel = fuel
        self.objs = objs or {}
        self.ghost = ghost or {}
        self.timeout = timeout
        self.self_val = self_val
        self.unroll = unroll
        self.havoc = havoc

    @property
    def name(self):
        return self.qual


def contract(file, qual, params, **k):
    c = Contract(file, qual, params, **k)
    CONTRACTS[qual] = c
    return c


def iface(cls, method, params, assumed, **k):
    c = Contract(None, f"{cls}.{method}" if cls != "*" else method, params, assumed=assumed, **k)
    IFACE[(cls, method)] = c
    return c
