from common import *
import io
import random
import re

MAXSTATES = 400


def table(A, alpha):
    """Explore an automaton through its public interface."""
    from pads.automata import DFA
    det = isinstance(A, DFA)
    num, order = {}, []

    def see(q):
        if q not in num:
            order.append(q)
            num[q] = len(order)
            if len(order) > MAXSTATES:
                raise ValueError("too many states")
        return num[q]
    init = [see(A.initial)] if det else [see(q) for q in A.initial]
    d, final = [], []
    i = 0
    while i < len(order):
        q = order[i]
        i += 1
        row = []
        for c in alpha:
            if c not in A.alphabet:
                row.append([])
            elif det:
                row.append([see(A.transition(q, c))])
            else:
                row.append([see(x) for x in A.transition(q, c)])
        d.append(row)
        if A.isfinal(q):
            final.append(i)
    return {"n": len(order), "init": init, "final": final, "d": d}, det


def table_dfa(t, alpha, wrap=None):
    """A DFA (user-written subclass) from a recorded table."""
    from pads.automata import DFA

    class TableDFA(DFA):
        def __init__(self):
            self.initial = wrap(t["init"][0]) if wrap else t["init"][0]
            self.alphabet = set(alpha)

        def transition(self, state, symbol):
            s = state[1] if wrap else state
            r = t["d"][s - 1][alpha.index(symbol)][0]
            return wrap(r) if wrap else r

        def isfinal(self, state):
            return (state[1] if wrap else state) in t["final"]
    return TableDFA()


def lookup_nfa(t, alpha, wrap=None):
    from pads.automata import LookupNFA
    w = wrap or (lambda q: q)
    tt = {(w(q + 1), c): [w(x) for x in t["d"][q][i]] for q in range(t["n"]) for i, c in enumerate(alpha)}
    return LookupNFA(set(alpha), [w(q) for q in t["init"]], tt, [w(q) for q in t["final"]])


def words(k, upto):
    for m in range(upto + 1):
        for w in itertools.product(range(1, k + 1), repeat=m):
            yield list(w)


class Session:
    """Builds languages in the code and logs what the specification must agree with."""

    def __init__(self, alpha, full=True):
        self.alpha, self.ops, self.full = list(alpha), [], full
        self.L = []          # language objects; index i is specification language i+1
        self.dead = False

    def result(self):
        return {"alpha": self.alpha, "full": self.full, "ops": self.ops}

    def guard(self, f, *a):
        if self.dead:
            return None
        try:
            return f(*a)
        except Exception as e:
            self.ops.append(raised(e))
            self.dead = True

    def make(self, e, f):
        """Run f, log event e, remember the language."""
        v, exc = attempt(f)
        e["exc"] = exc
        self.ops.append(e)
        if exc:
            self.dead = True
        else:
            self.L.append(v)
        return v

    def regex(self, s):
        from pads.automata import RegularLanguage
        return self.make({"op": "re", "s": list(s)}, lambda: RegularLanguage(s))

    def automaton(self, t, A):
        from pads.automata import language
        return self.make({"op": "table", "t": t}, lambda: language(A))

    def has(self, i, ws, how=None):
        L = self.L[i]
        for w in ws:
            s = [self.alpha[c - 1] if c else "?" for c in w]
            if how == "str" or (how is None and all(isinstance(x, str) for x in s)):
                s = "".join(s)
            v, exc = attempt((lambda: s in L) if how != "call" else (lambda: L.recognizer(s)))
            self.ops.append({"op": "has", "a": i + 1, "w": w, "r": bool(v), "exc": exc})

    def same(self, i, A, what, det=False):
        def go():
            t, _ = table(A, self.alpha)
            return t
        t, exc = attempt(go)
        if exc:
            self.ops.append({"op": "raised", "exc": exc})
            self.dead = True
            return
        self.ops.append({"op": "same", "a": i + 1, "t": t, "alpha": sorted(A.alphabet), "what": what, "det": det})

    def size(self, i, A):
        n, exc = attempt(len, A)
        self.ops.append({"op": "size", "a": i + 1, "n": -1 if exc else n})

    def cmp(self, i, j, x=None, y=None, kinds=("eq", "ne", "le", "ge", "lt", "gt")):
        import operator
        x = self.L[i] if x is None else x
        y = self.L[j] if y is None else y
        for k in kinds:
            v, exc = attempt(getattr(operator, k), x, y)
            self.ops.append({"op": "cmp", "k": k, "a": i + 1, "b": j + 1, "r": bool(v), "exc": exc})

    def truth(self, i):
        v, exc = attempt(bool, self.L[i])
        self.ops.append({"op": "bool", "a": i + 1, "r": bool(v), "exc": exc})

    def extract(self, i, A):
        s, exc = attempt(A.RegExp)
        if exc:
            self.ops.append({"op": "raised", "exc": exc})
            self.dead = True
        else:
            self.ops.append({"op": "extract", "a": i + 1, "none": s is None, "s": list(s) if s else []})
        return s


def listing(text, alpha):
    """Read a printed listing back into a table."""
    num, rows, init, final, cur = {}, {}, [], [], None

    def see(name):
        return num.setdefault(name, len(num) + 1)
    for line in text.splitlines():
        if not line.strip():
            continue
        m = re.match(r"\s+--\[(.*)\]-->\s*(.*?)\s*$", line)
        if m:
            rows[cur][alpha.index(m.group(1))].append(see(m.group(2)))
            continue
        m = re.match(r"(\S+)(?:\s+\(([\w, ]*)\))?\s*$", line)
        cur = see(m.group(1))
        if cur in rows:
            raise ValueError("state listed twice")
        rows[cur] = [[] for _ in alpha]
        adj = [x.strip() for x in (m.group(2) or "").split(",")]
        if "initial" in adj:
            init.append(cur)
        if "accepting" in adj:
            final.append(cur)
    n = len(num)
    if set(rows) != set(range(1, n + 1)):
        raise ValueError("a state is mentioned but not listed")
    return {"n": n, "init": init, "final": final, "d": [rows[q] for q in range(1, n + 1)]}


def random_table(rng, n, k, density=None, det=False):
    if det:
        d = [[[rng.randint(1, n)] for _ in range(k)] for _ in range(n)]
        init = [1]
    else:
        p = density if density is not None else rng.choice([.15, .3, .5])
        d = [[[q for q in range(1, n + 1) if rng.random() < p] for _ in range(k)] for _ in range(n)]
        init = rng.sample(range(1, n + 1), rng.choice([1, 1, 1, 2]) if n > 1 else 1)
        if rng.random() < .05:
            init = []
    return {"n": n, "init": init, "final": [q for q in range(1, n + 1) if rng.random() < .4], "d": d}


def random_expr(rng, size, syms):
    """Random well-formed expression text with redundant structure."""
    if size <= 1:
        c = rng.random()
        if c < .12:
            return "()"
        s = rng.choice(syms)
        if s in "()+*\\":
            s = "\\" + s
        elif c < .17:
            s = "\\" + s
        return s if c < .9 else "(" + s + ")"
    c = rng.random()
    if c < .25:
        e = random_expr(rng, size - 1, syms)
        return "(" + e + ")*" + ("*" if rng.random() < .1 else "")
    i = rng.randint(1, size - 1)
    l, r = random_expr(rng, i, syms), random_expr(rng, size - i, syms)
    if c < .62:
        def grp(e):
            return "(" + e + ")"
        return grp(l) + grp(r) if rng.random() < .8 else grp(l) + (r if "+" not in r else grp(r))
    if c < .68:
        return "(" + l + "+)" + "(" + r + ")"
    return l + "+" + r


def expr_symbols(s):
    out, i = set(), 0
    while i < len(s):
        if s[i] == "\\":
            out.add(s[i + 1])
            i += 2
        else:
            if s[i] not in "()+*":
                out.add(s[i])
            i += 1
    return sorted(out)
