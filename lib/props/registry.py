from . import decl_props as dp
from . import data_props as vp
from . import lib_props as bp
from . import load_props as lp
from . import rep_props as rp
from . import machine_props as mp
from . import request_props as qp
from . import stack_props as sp
from . import event_props as ep
from . import twin_props as tp

EV = ['evint', 'evtext', 'evbytes', 'evbool', 'evaddr']
MB10 = 10 << 20
STORE = ['set', 'key', 'name']


def asking(n, more, ops):
    """Also what is asked of the node with values of any kind."""
    return lambda ctx: qp.requests(ctx, ctx.scale(n, more), ops)


def twins(*kinds):
    """Also contracts of the same names in one engine."""
    return lambda ctx: tp.twins(ctx, kinds, ctx.scale(3, 24), ctx.scale(200, 600))


def both(*fs):
    def run(ctx):
        for f in fs:
            f(ctx)
    return run


CHECKS = {
    'C01': both(mp.c01, asking(150, 6000, qp.OPS), sp.c01,
                lambda ctx: vp.sizes(ctx, [MB10 + 1] if ctx.quick else [MB10 + 1, 1 << 24, 1 << 26], 1)),
    'C02': mp.c02,
    'C03': both(mp.c03, asking(100, 3000, STORE + ['at', 'atset'])),
    'C04': vp.c04,
    'C05': mp.c05,
    'C06': both(mp.c06, lambda ctx: ep.events(ctx, ctx.scale(.15, 1), ctx.scale(20, 300), ('steps',))),
    'C07': mp.c07,
    'C08': mp.c08,
    'C09': mp.c09,
    'C10': both(mp.c10, asking(150, 4000, ['revert', 'message', 'at', 'set', 'fee', 'evint', 'faceto', 'ret', 'transfer'])),
    'C11': both(dp.c11, twins('call')),
    'C12': both(dp.c12, twins('api')),
    'C13': both(dp.c13, twins('api')),
    'C14': both(dp.c14, twins('call')),
    'C15': both(vp.c15, asking(200, 6000, EV + STORE + ['callarg', 'facearg', 'ret']), lambda ctx: vp.sizes(ctx, [MB10, MB10 + 1], 1),
                lambda ctx: vp.sizes(ctx, [(1 << 16) - 1, 1 << 16] if ctx.quick else [(1 << 16) - 1, 1 << 16, 1 << 20, (1 << 20) + 1], ctx.scale(2, 3))),
    'C16': both(mp.c16, asking(100, 3000, EV), twins('emit'), lambda ctx: ep.events(ctx, 1, ctx.scale(40, 600), ('events',))),
    'C17': both(mp.c17, asking(300, 8000, ['transfer', 'pay', 'send', 'callto', 'callamount', 'callname', 'callarg', 'facearg',
                                           'faceamount', 'balance', 'faceto', 'faceabs', 'callkw'])),
    'C18': lp.c18,
    'C19': both(lp.c19, twins('api', 'call', 'emit')),
    'C20': vp.c20,
    'C21': both(mp.c21, asking(60, 1500, ['fee', 'evint', 'transfer'])),
    'C22': both(bp.c22, asking(100, 3000, ['hash', 'loads', 'dumps'])),
    'C23': both(rp.c23, sp.c23, twins('api', 'call', 'emit'), lambda ctx: ep.replicas(ctx, ctx.scale(25, 300))),
}
