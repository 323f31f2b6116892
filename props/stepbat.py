"""bounded executions of one real motion / shedding step, judged by props/model.py"""
import random, json
from vv.check import fail
from .model import *


def step_battery(fields, what, n=150, **kw):
    def run(lib, rnd, chk, progress):
        done = 0; tries = 0; N = chk.n(n)
        while done < N and tries < N * 5:
            tries += 1; seed = rnd.randrange(1 << 30); r = random.Random(seed); progress('step seed %d' % seed)
            eps = r.choice([1e-10, 1e-10, 1e-3]); remove = r.random() < 0.8
            sp = random_space(lib, r, eps=eps, **kw); s0 = sp.snap(); exp = sp.snap()
            initial = r.random() < 0.3
            try: c, cl = move_model(exp, sp.speeds, sp.infv, eps, remove)
            except Ambiguous: sp.free(); continue
            gc, gcl = sp.move(eps, remove, initial); got = sp.snap(); sp.free()
            d = diff(exp, got, 1e-9, fields)
            if d is None and what.get('coll') and c != gc: d = 'contact reported: expected %s, got %s' % (c, gc)
            if d is None and what.get('cleaned') and cl != gcl: d = 'removed vortex count: expected %d, got %d' % (cl, gcl)
            if d: fail('motion step on random state (seed %d, threshold %g, remove=%s): %s; state before: %s' % (seed, eps, remove, d, json.dumps(s0)[:2500]))
            done += 1
        return done
    return run


def shed_battery(n=80):
    def run(lib, rnd, chk, progress):
        done = 0; N = chk.n(n)
        for t in range(N):
            seed = rnd.randrange(1 << 30); r = random.Random(seed); progress('shed seed %d' % seed)
            eps = r.choice([1e-10, 1e-3]); sp = random_space(lib, r, eps=eps); exp = sp.snap(); s0 = json.dumps(exp)
            try: shed_model(exp, eps)
            except Ambiguous: sp.free(); continue
            lib.fm_shed(sp.p, eps); got = sp.snap(); sp.free()
            d = diff(exp, got, 1e-9, lambda p: '/q/' not in p)
            if d: fail('vortex shedding on random state (seed %d, threshold %g): %s; state before: %s' % (seed, eps, d, s0[:2500]))
            done += 1
        return done
    return run
