"""Abstract state: environments, memory facts, container logs and path facts, with joins."""
from __future__ import annotations

from dataclasses import dataclass, replace

from . import terms as tm
from .terms import T, mk

UNDEF = mk("undef")
SKIP = mk("skip")


@dataclass(frozen=True)
class Entry:
    """One modification of a container, in program order."""
    loops: tuple          # ((L, serial), ...) loops open when it happened
    guard: T              # branch condition under which it happened
    key: T | None
    val: T | None
    kind: str             # app | set | add | del | clear | fill | ext | opaque
    where: str
    pos: T | None = None

    def with_guard(self, g):
        return replace(self, guard=g)


@dataclass
class Effect:
    kind: str
    args: tuple
    loops: tuple
    guards: tuple
    where: str
    func: str
    state: object = None

    def cond(self):
        return tm.conj([g for g, k in self.guards if k != "check"])

    def checks(self):
        return [g for g, k in self.guards if k == "check"]

    def Ls(self):
        return tuple(l for l, _ in self.loops)


class State:
    __slots__ = ("envs", "fid", "mem", "ents", "guards", "dead", "loops")

    def __init__(self):
        self.envs = {}
        self.fid = None
        self.mem = {}
        self.ents = {}
        self.guards = ()
        self.dead = None
        self.loops = ()

    @property
    def env(self):
        return self.envs[self.fid]

    def copy(self):
        s = State.__new__(State)
        s.envs = {k: dict(v) for k, v in self.envs.items()}
        s.fid = self.fid
        s.mem = dict(self.mem)
        s.ents = dict(self.ents)
        s.guards = self.guards
        s.dead = self.dead
        s.loops = self.loops
        return s

    def assign(self, o):
        self.envs, self.fid, self.mem, self.ents = o.envs, o.fid, o.mem, o.ents
        self.guards, self.dead, self.loops = o.guards, o.dead, o.loops

    def guard(self, g, kind="branch"):
        for x in tm.conj_list(g):
            if (x, kind) not in self.guards and (x, "check") not in self.guards and (x, "branch") not in self.guards:
                self.guards = self.guards + ((x, kind),)
        if g is tm.FALSE:
            self.guards = self.guards + ((g, kind),)
        return self

    def facts(self):
        return [g for g, _ in self.guards]

    def branch_cond(self):
        return tm.conj([g for g, k in self.guards if k == "branch"])


def common_prefix(a, b):
    n = 0
    for x, y in zip(a, b):
        if x[0] is not y[0] or x[1] != y[1]:
            break
        n += 1
    return n


def join(c, a: State, b: State, default) -> State:
    """State at the merge point: a when c holds, b otherwise.  default(loc) is the unmodified value."""
    s = State()
    s.fid = a.fid
    s.loops = a.loops
    for fid in set(a.envs) | set(b.envs):
        ea, eb = a.envs.get(fid), b.envs.get(fid)
        if ea is None or eb is None:
            s.envs[fid] = dict(ea if ea is not None else eb)
            continue
        e = {}
        for n in list(ea) + [k for k in eb if k not in ea]:
            va, vb = ea.get(n, UNDEF), eb.get(n, UNDEF)
            e[n] = va if va is vb else tm.phi(c, va, vb)
        s.envs[fid] = e
    for loc in list(a.mem) + [k for k in b.mem if k not in a.mem]:
        va = a.mem.get(loc)
        vb = b.mem.get(loc)
        if va is None:
            va = default(loc)
        if vb is None:
            vb = default(loc)
        if va is vb:
            s.mem[loc] = va
        elif va is UNDEF:
            s.mem[loc] = vb
        elif vb is UNDEF:
            s.mem[loc] = va
        else:
            s.mem[loc] = tm.phi(c, va, vb)
    for o in list(a.ents) + [k for k in b.ents if k not in a.ents]:
        xa, xb = a.ents.get(o, ()), b.ents.get(o, ())
        if xa is xb:
            s.ents[o] = xa
            continue
        n = 0
        for x, y in zip(xa, xb):
            if x is not y:
                break
            n += 1
        s.ents[o] = xa[:n] + xa[n:] + xb[n:]
    n = common_prefix(a.guards, b.guards)
    s.guards = a.guards[:n]
    sa, sb = a.guards[n:], b.guards[n:]
    nc = tm.neg(c)
    for suffix, cc in ((sa, nc), (sb, c)):
        for g, k in suffix:
            lit = tm.disj([cc, g])
            if lit is not tm.TRUE:
                s.guard(lit, k)
    return s
