"""Interpretations of terms used by single rules: numbers put in place of chosen sub terms, scaled inputs, small index ranges."""
from engine import terms as tm
from engine.terms import CLane, P


class OLane(CLane):
    """sub terms that get a given number"""
    def __init__(self, seed, over):
        CLane.__init__(self, seed, 0.0)
        self.over = {t.id: complex(v) for t, v in over.items()}

    def ev(self, t, env):
        v = self.over.get(t.id)
        return (v,) if v is not None else CLane.ev(self, t, env)


def only(t, n):
    """t is built from sub term n and numbers alone"""
    st = [t]
    seen = False
    while st:
        x = st.pop()
        if x is n: seen = True; continue
        if x.op in ('atom', 'iatom', 'batom', 'var', 'u', 'choice', 'red', 'bred', 'len', 'up', 'down', 'sel', 'let', 'idx', 'tens', 'case'): return False
        st += [a for a in x.args if isinstance(a, tm.Term)]
    return seen


def conjuncts(t, polar=True):
    if t.op == 'not': yield from conjuncts(t.args[0], not polar)
    elif t.op in ('and', 'or') and (t.op == 'and') == polar:
        for a in t.args: yield from conjuncts(a, polar)
    else: yield t if polar else tm.not_(t)
