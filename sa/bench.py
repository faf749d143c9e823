"""Fixture shared by the Engine-B checks: a symbolic state in which small expressions are evaluated and compared with specifications."""
from __future__ import annotations
import ast
from terms import *
from values import Values, St, Frame, Budget, Obj, Gr, UNK, conj
from core import Report
from models import separate

FR = Frame(0, None, None, None)


def mem(kd, s): return lambda e: In(base(kd, s), e)


class Bench:
    """one abstract state; names are bound with let(), expressions evaluated with at() leave the bound state as it is"""
    def __init__(self, ctx, subsets=(), edges=(), facts=None, isi=None, pure=()):
        self.ctx, self.w = ctx, ctx.w
        self.V = Values(ctx.w)
        self.V.isi_fact = isi
        self.st = St(); self.st.frames[0] = {}
        self.theory = Theory(facts, subsets=list(subsets), edges=list(edges), pure=pure)
        self.V.theory = self.theory

    def let(self, name, v): self.st.frames[0][name] = v; return v
    def lst(self, name, s): return self.let(name, self.V.alloc(self.st, base("list", sym(s) if isinstance(s, str) else s)))
    def set(self, name, s): return self.let(name, self.V.alloc(self.st, base("set", sym(s) if isinstance(s, str) else s)))
    def dict(self, name, s): return self.let(name, self.V.alloc(self.st, base("dict", sym(s) if isinstance(s, str) else s)))
    def cls(self, name): return self.let(name, mk("cls", self.w.cls(name)))
    def fn(self, module, name): return self.let(name, mk("fn", self.w.fn(module, name), 0, None))

    def assume(self, f):
        self.st.pc = And(self.st.pc, f)
        self.theory.assumed = And(self.theory.assumed, f)

    def graph(self, name, N_, E_, directed=True):
        x, y = fresh(), fresh()
        return self.let(name, self.V.alloc(self.st, Gr(base("list", N_), Coll("list", Blk([x, y], In(E_, Tup(x, y)), Tup(x, y))), directed)))

    def run(self, src, st=None):
        """evaluate an expression (or statements) in the given state, which it changes"""
        st = st or self.st
        t = ast.parse(src.strip())
        if len(t.body) == 1 and isinstance(t.body[0], ast.Expr): return self.V.eval(t.body[0].value, st, FR)
        r = self.V.block(t.body, st, FR)
        if "fall" in r:
            s = r["fall"][0]
            if s is not st: st.assign(s)
        else: st.dead = True
        return None

    def at(self, src):
        st = self.st.copy()
        n, m = len(self.V.raises), len(self.V.calls)
        v = self.run(src, st)
        r = Res(self, v, st, self.V.raises[n:])
        r.calls = self.V.calls[m:]      # (name, condition, arguments, keyword arguments, site) of calls to what is not followed
        return r

    def of(self, v, r): return Res(self, v, r.st, [])


class Res:
    def __init__(self, b, v, st, raises): self.b, self.v, self.st, self.raises = b, v, st, raises

    @property
    def dead(self): return self.st.dead

    def cond(self, limit=40):
        """what holds on a normal return, beyond what held before (the short conditions only: dropping one loses precision, never soundness
        of a 'same' verdict, and Judge only alarms on membership facts that are consistent with the conditions kept)"""
        return And(*[g for g in conj(self.st.pc) - conj(self.b.st.pc) if g.size <= limit])

    def get(self, path):
        st = self.st.copy()
        st.frames[0]["res"] = self.v
        v = self.b.run("res" + path, st)
        return v, st

    def coll(self, path):
        v, st = self.get(path)
        return self.b.V.coll(v, st)

    def snap(self, path=""):
        v, st = self.get(path)
        return self.b.V.snap(v, st)


def desc(d):
    show = lambda v: "{" + ", ".join(map(str, v)) + "}" if isinstance(v, list) else str(v)
    m = ", ".join(f"{k} = {show(v)}" for k, v in d["structure"].items())
    return f"{m}: the code gives {show(d['code'])}, specified is {show(d['specified'])}"[:400]


class Judge:
    def __init__(self, rep: Report, where=None): self.rep = rep; self.where = where

    def formula(self, key, what, th, got, spec, where="", pc=T, prove=True):
        r = th.table(got, spec) if prove else "unknown"        # (a proof attempt that is known to be too costly is skipped)
        if prove and r != "same" and pc is not T: r = th.table(And(pc, got), And(pc, spec))
        if r != "same": r = self._confirm(th, got, spec, pc)
        self._verdict(key, what, r, where)
        return r

    def _verdict(self, key, what, r, where):
        rule, _, construct = key.partition("|")
        if r == "same": self.rep.ok(f"{construct}: {what}")
        elif isinstance(r, tuple): self.rep.bad(rule, construct, f"{what}: differs for {desc(r[-1])}", where)
        else: self.rep.undec(f"{construct}: {what}")

    def _confirm(self, th, got, spec, pc, value=False):
        d = separate(th, got, spec, pc, value, maps=th.maps, assume=th.assumed)
        return ("diff", d) if d is not None else "unknown"

    def bounded(self, key, what, th, got, spec, where="", pc=T, value=False, least=100, tries=1200, none=False):
        """no small structure tells the two apart, and enough structures were definite; used where truth tables do not reach"""
        d = separate(th, got, spec, T if pc is None else pc, value, tries=tries, maps=th.maps, assume=th.assumed, climbs=4, none=none)
        r = ("diff", d) if d is not None else "same" if th.agreed[0] >= max(least, 10 * th.agreed[1]) else "unknown"
        self.rep.count("small structures compared", th.agreed[0])
        if th.agreed[1]: self.rep.count("small structures not definite", th.agreed[1])
        self._verdict(key, what + (f" (on {th.agreed[0]} small structures)" if r == "same" else ""), r, where)
        return r

    def members(self, key, what, th, c, spec, where="", pc=T, pair=False, prove=True):
        """c: collection term, spec: element -> formula; pair: the elements are pairs (edges)"""
        e = fresh("x") if not pair else Tup(fresh("x"), fresh("y"))
        if not (isinstance(c, N) and c.tag in ("coll", "tup", "ite", "app", "sym")): self.rep.undec(f"{key.partition('|')[2]}: {what}"); return "unknown"
        return self.formula(key, what, th, In(c, e), spec(e), where, pc, prove)

    def value(self, key, what, th, got, spec, where="", pc=None):
        r = th.same_value(got if pc is None else Ite(pc, got, NONE), spec if pc is None else Ite(pc, spec, NONE))
        if r != "same": r = self._confirm(th, got, spec, T if pc is None else pc, True)
        self._verdict(key, what, r, where)
        return r
