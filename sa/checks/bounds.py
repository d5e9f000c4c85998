"""Bounds: gate (C01), step back (C02), inward move (C03)."""

from .loop import *  # noqa: F401,F403
from .loop import (acceptance, bad_paths, finite_all, trial, elements, MIN,
                   flag, spec_it, mk, T, RATIO, step_env)
from fractions import Fraction


def outside(x, lb, ub):
    """Some coordinate is outside of its bounds or not comparable."""
    return any_(~le(x, ub)) | any_(~le(lb, x))


def c01(ctx):
    for name in ALL:
        r = run(name, repo=ctx.repo)
        it = Iter(r)
        e = it.eng
        w = f'{MIN} ({label(name)})'
        ctx.count('iterations analysed')
        lb, ub = it.field(it.L.entry, 'lb'), it.field(it.L.entry, 'ub')
        for n in ('lb', 'ub'):
            a, b = it.field(r.st_init, n), it.field(r.st, n)
            ctx.ob('bounds are those given to the constructor', f'{w} {n}',
                   a is sym(n) and b is a, show(b))
        ent = it.L.entry
        x = it.field(ent, 'x')
        bad = outside(x, lb, ub)
        ctx.ob('no iterations from a start point outside of the bounds', w,
               not sat(ent.pc & bad), show(x, 5))
        for ev in it.init_evals:
            xe = ev.data['contents'][0]
            ctx.ob('no evaluation of a start point outside of the bounds',
                   f'{w}: {where(e, ev)}',
                   not sat(ev.pc & outside(xe, lb, ub)), show(xe, 5))
            bad_paths(ctx, it, outside(xe, lb, ub), 0, ev.seq, w + ' start',
                      'outside of the bounds: RuntimeError with '
                      'EXCEEDED_BOUNDARY', 'EXCEEDED_BOUNDARY')
        n0 = ctx.stats.get('raising paths', 0)
        ctx.need('errors for start points outside of the bounds', n0)
        ev = trial(it)
        xe = ev.data['contents'][0]
        F, G, Hs, _, _ = it.ev_model(ev)
        acc = acceptance(it)
        bad = outside(xe, lb, ub)
        ctx.ob('no point outside of the bounds is adopted', w,
               not sat(it.end.pc & acc & bad), showb(it.end.pc & acc, 4)[
                   :1000])
        fin = isfinite(F) & finite_all(G)
        if Hs is not None:
            fin = fin & finite_all(Hs)
        won = tob(spec_it(it, RATIO + 'return ratio > 0', **step_env(it)))
        bad_paths(ctx, it, bad & won & fin, ev.seq, None, w + ' trial',
                  'outside of the bounds: RuntimeError with '
                  'EXCEEDED_BOUNDARY', 'EXCEEDED_BOUNDARY')
        ctx.need('errors for adopted points outside of the bounds',
                 ctx.stats.get('raising paths', 0) - n0)


TINY = Fraction(1, 10 ** 10)
CLOSE = Fraction(1, 10 ** 14)


def moved_inward(x, x0, lb, ub, pc):
    """Every element on a bound is moved inward a tiny bit, and no other.
    Returns None or a description of what is wrong."""
    def near(d, tol):
        return lt(d, num(tol))

    for g, l in pairs(x):
        for h, y in pairs(x0):
            if not sat(g & h & pc, True):
                continue
            for m, k in elements(l):
                for n, z in elements(y):
                    q = m & n & g & h & pc
                    if not sat(q, True):
                        continue
                    d = sub(k, z)
                    v = Fraction(0) if d.op == 'zeros' else numval(d)
                    if v is None or abs(v) > TINY:
                        return f'moves to {show(k, 5)} from {show(z, 5)}'
                    up, lo = sub(ub, z), sub(z, lb)
                    # on a bound or within rounding of it, other bound far
                    onu = near(abs_(up), CLOSE) & ~near(lo, TINY)
                    onl = near(abs_(lo), CLOSE) & ~near(up, TINY)
                    if v >= 0 and sat(q & onu, True):
                        return ('a coordinate at its upper bound is not '
                                f'moved down if {showb(q & onu, 4)[:600]}')
                    if v <= 0 and sat(q & onl, True):
                        return ('a coordinate at its lower bound is not '
                                f'moved up if {showb(q & onl, 4)[:600]}')
                    if v < 0 and sat(q & ~near(up, TINY), True):
                        return ('a coordinate away from its upper bound is '
                                f'moved down if {showb(q, 4)[:600]}')
                    if v > 0 and sat(q & ~near(lo, TINY), True):
                        return ('a coordinate away from its lower bound is '
                                f'moved up if {showb(q, 4)[:600]}')
    return None


def c03(ctx):
    for name in ALL:
        r = run(name, repo=ctx.repo)
        it = Iter(r)
        e = it.eng
        w = f'{MIN} ({label(name)})'
        ctx.count('iterations analysed')
        ent = it.L.entry
        lb, ub = it.field(ent, 'lb'), it.field(ent, 'ub')
        x0 = sym('x0')
        ctx.need('evaluation of the start point', len(it.init_evals))
        xe = it.init_evals[0].data['contents'][0]
        for n, x, pc in (('evaluated start point', xe, it.init_evals[0].pc),
                         ('first iterate', it.field(ent, 'x'), ent.pc)):
            why = moved_inward(x, x0, lb, ub, TRUE)
            ctx.ob('coordinates on a bound are moved inward', f'{w} {n}',
                   why is None, why)
            ctx.count('points')
        acc = acceptance(it)
        xn = it.e('x')
        xt = trial(it).data['contents'][0]
        leaves = [(c, l) for c, l in pairs(xn) if sat(c & acc)]
        g = disj(*[c for c, _ in leaves])
        x1 = mkcases([(constrain(c, g), l) for c, l in leaves]) if leaves \
            else xn
        why = moved_inward(x1, xt, lb, ub, acc)
        ctx.ob('coordinates on a bound are moved inward',
               f'{w} accepted point', why is None, why)
        ctx.count('points')
        # the bounds check follows the move
        n = 0
        for ev in r.events:
            if ev.kind == 'arrwrite':
                n += 1
                ctx.ob('points are not stored in arrays of the element type '
                       'of the caller', f'{w}: {where(e, ev)}',
                       not ev.data.get('udt'),
                       f'{show(ev.data["new"], 4)[:600]} is stored in place '
                       'in an array with the element type of an argument '
                       '(integer arrays would truncate it)')
        ctx.count('array stores', n)
