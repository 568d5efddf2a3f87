"""Conformance of the compiled dispatchers with a reference model on random histories (bounded)."""
from checklib import *
import conf

N = {'quick': 400, 'thorough': 20000, 'deep': 6000}


class Model:
    def __init__(self, kind, react):
        self.kind, self.react, self.pos = kind, react, [0] * len(react)
        self.ls, self.gone, self.evs, self.log, self.depth = [], set(), [], [], 0
        self.owner = True

    def registered(self, l):
        return l in self.ls and l not in self.gone

    def run(self, o):
        k, a = o[0], int(o[1:] or 0)
        if k == 'a':
            if a in self.gone:
                self.gone.discard(a)
                self.ls = [x for x in self.ls if x != a]
            self.ls.append(a)
        elif k == 'r':
            if self.kind == 'plain':
                if a in self.ls:
                    self.ls.remove(a)
            else:
                self.gone.add(a)
        elif k in 'do':
            if self.kind == 'plain':
                for l in list(self.ls):
                    self.notify(l, a)
            else:
                self.evs.append(a)
                if self.kind == 'same' and k == 'd':
                    self.process()
        elif k == 'p' and self.kind != 'plain':
            self.process()

    def process(self):
        self.ls = [l for l in self.ls if l not in self.gone]
        self.gone = set()
        ev, self.evs = self.evs, []
        ls = list(self.ls)
        for e in ev:
            for l in ls:
                self.notify(l, e)

    def notify(self, l, e):
        self.log += [l, e]
        if self.pos[l] < len(self.react[l]):
            o = self.react[l][self.pos[l]]
            self.pos[l] += 1
            if o[0] == 'a' and (int(o[1:]) in self.ls and int(o[1:]) not in self.gone):
                self.double = True
            self.run(o)


class Double(Exception):
    pass


def history(rng, kind):
    n = conf.hint(rng, int(rng.integers(1, 6)), .1, 1, 130)
    ev = [0]

    def op(inner):
        k = rng.choice(list('aaarrdddp' if kind != 'same' else 'aaarrdddop'))
        if k in 'do':
            ev[0] += 1
            return k + str(ev[0])
        if k == 'p':
            return 'p0'
        return k + str(int(rng.integers(n)))
    react = [[op(True) for _ in range(int(rng.integers(0, 3)))] if rng.random() < .5 else [] for _ in range(n)]
    m = Model(kind, react)
    m.double = False
    ops = []
    for _ in range(conf.hint(rng, int(rng.integers(2, 25)), .1, 1, 300)):
        o = op(False)
        if o[0] == 'a' and m.registered(int(o[1:])):
            continue        # registering twice is left open
        if kind == 'plain' and o[0] == 'o':
            continue
        ops.append(o)
        m.run(o)
        if m.double or len(m.log) > 400:
            return None
    return n, react, ops, m


def events(rng, tier):
    T = conf.Tester(['d_events.cpp', 'chaos.cpp'], ['ldaplusplus/events/Events.cpp'], extra=('-fsanitize=address', '-D_GLIBCXX_DEBUG', '-D_GLIBCXX_ASSERTIONS'), timeout=20)
    for q in range(N[tier]):
        kind = ('plain', 'safe', 'same')[q % 3]
        h = history(rng, kind)
        if h is None:
            continue
        n, react, ops, m = h
        cmd = ['events', kind, n]
        for r in react:
            cmd += [len(r)] + r
        cmd += [len(ops)] + ops
        T.case(tuple(cmd), log=np.array(m.log, float).reshape(-1, 1), locked=0)
    for q in range({'quick': 6, 'thorough': 60, 'deep': 40}[tier]):
        T.case(('evstress', ('safe', 'same')[q % 2], int(rng.integers(2, 5)), int(rng.integers(20, 150)), int(rng.integers(0, 4))), bad=0, more=1, locked=0)
    return T.finish()
