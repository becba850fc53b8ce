from common import *
import io
import random
import re

NUM = re.compile(r"[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?")
TAG = re.compile(r"<(/?)([A-Za-z][\w.:-]*)((?:\s+[\w:.-]+\s*=\s*(?:\"[^\"<]*\"|'[^'<]*'))*)\s*(/?)>")
ATT = re.compile(r"([\w:.-]+)\s*=\s*(?:\"([^\"]*)\"|'([^']*)')")


def attr(name, value):
    v = [int(round(float(x) * 10000)) for x in NUM.findall(value)]
    t = " ".join(re.sub(r"[\s,]+", " ", NUM.sub(" # ", value)).split())
    return {"n": name, "t": t, "v": v}


def tokens(text, prefix):
    """Markup tokens; anything that is not markup is reported as junk."""
    toks, junk, decl = [], "", False
    i = 0
    while i < len(text):
        if text.startswith("<?", i):
            j = text.find("?>", i)
            decl = True
            i = j + 2 if j >= 0 else len(text)
        elif text.startswith("<!", i):
            j = text.find(">", i)
            i = j + 1 if j >= 0 else len(text)
        elif text[i] == "<":
            m = TAG.match(text, i)
            if not m:
                return toks, "malformed tag: " + text[i:i + 40], decl
            end, name, atts, empty = m.groups()
            if prefix:
                if not name.startswith(prefix + ":"):
                    return toks, "missing prefix: " + name, decl
                name = name[len(prefix) + 1:]
            style, as_ = [], []
            seen = set()
            for a in ATT.finditer(atts):
                n, v = a.group(1), a.group(2) if a.group(2) is not None else a.group(3)
                if n in seen:
                    return toks, "repeated attribute: " + n, decl
                seen.add(n)
                if n == "style":
                    for part in v.split(";"):
                        if part.strip():
                            k, _, w = part.partition(":")
                            style.append([k.strip(), w.strip()])
                elif not n.startswith("xmlns") and n != "version":
                    as_.append(attr(n, v))
            if end:
                toks.append({"k": "close", "n": name, "a": [], "s": [], "x": ""})
            else:
                toks.append({"k": "open", "n": name, "a": as_, "s": style, "x": ""})
                if empty:
                    toks.append({"k": "close", "n": name, "a": [], "s": [], "x": ""})
            i = m.end()
        else:
            j = text.find("<", i)
            j = len(text) if j < 0 else j
            s = text[i:j]
            if s.strip():
                toks.append({"k": "text", "n": "", "a": [], "s": [], "x": s})
            i = j
    return toks, junk, decl


STY = [("fill", "#00FF00"), ("stroke", "none"), ("stroke-width", "2"), ("opacity", "0.5"), ("color", "red")]


class Doc:
    def __init__(self, rng, exact):
        from pads.svg import SVG
        self.rng, self.exact = rng, exact
        self.out = io.StringIO()
        self.ops, self.shared = [], dict(rng.sample(STY, 2))
        self.prefix = rng.choice([None, None, "", "svg", "s"])
        alone = rng.choice([True, False, None])
        kw = {} if alone is None else {"standalone": alone}
        if self.prefix is not None:
            kw["prefix"] = self.prefix
        if rng.random() < .3:
            kw["indentation"] = rng.choice([0, 2, 7])
        w, h = abs(self.num()), abs(self.num())
        self.head = {"w": self.q(w), "h": self.q(h), "tol": 0 if exact else 1, "decl": alone is not False}
        self.S = SVG(complex(w, h), self.out, **kw)

    def num(self):
        r = self.rng
        if self.exact:
            return r.choice([r.randint(-40, 900), r.randint(-3000, 3000) / 16, r.choice([0, 100, 1000, 10, -20])])
        return r.choice([r.uniform(-500, 500), r.uniform(-.001, .001), 99.99996, 0.00004, r.uniform(0, 1e4)])

    def q(self, x):
        return int(round(x * 10000))

    def pt(self):
        return complex(self.num(), self.num())

    def P(self, z):
        return [self.q(z.real), self.q(z.imag)]

    def style(self):
        r = self.rng
        c = r.random()
        st, more = {}, {}
        if c < .3:
            st = self.shared
        elif c < .6:
            st = dict(r.sample(STY, r.randint(1, 3)))
        if r.random() < .4:
            more = {k: v for k, v in [("fill", "blue"), ("stroke", "black"), ("opacity", "1")] if r.random() < .5}
        kw = dict(more)
        if st:
            kw["style"] = st
        e = {"style": [[k, v] for k, v in st.items()], "more": [[k, v] for k, v in more.items()]}
        return e, kw

    def do(self, o):
        S, r = self.S, self.rng
        e, kw = self.style()
        e["op"] = o
        if o == "group":
            S.group(**kw)
        elif o == "open":
            e.update(name="a", attrs=[attr("href", "t-x")])
            S.element('a href="t-x"', +1, unspaced=r.random() < .3, **kw)
        elif o == "ungroup":
            e.update(style=[], more=[])
            S.ungroup()
        elif o == "shut":
            e.update(name="a", style=[], more=[])
            S.element("a", -1, unspaced=r.random() < .3)
        elif o == "circle":
            p, rad = self.pt(), abs(self.num())
            e.update(p=self.P(p), rad=self.q(rad))
            S.circle(p, rad, **kw)
        elif o in ("rectangle", "segment"):
            p, q = self.pt(), self.pt()
            e.update(p=self.P(p), q=self.P(q))
            getattr(S, o)(p, q, **kw)
        elif o == "polygon":
            ps = [self.pt() for _ in range(r.randint(1, 6))]
            e.update(ps=[self.P(p) for p in ps])
            S.polygon(ps if r.random() < .5 else iter(ps), **kw)
        elif o == "arc":
            p, q, rad = self.pt(), self.pt(), self.num()
            large = r.random() < .5
            e.update(p=self.P(p), q=self.P(q), rad=self.q(rad), large=large)
            if large or r.random() < .5:
                S.arc(p, q, rad, large, **kw)
            else:
                S.arc(p, q, rad, **kw)
        elif o == "text":
            p = self.pt()
            label = r.choice(["x", "a label", " padded ", "3 + 4", "café"])
            e.update(p=self.P(p), label=label)
            S.text(label, p, **kw)
        elif o == "leaf":
            x = self.q(self.num()) / 10000
            a = '%g' % x
            e.update(name="use", attrs=[attr("x", a)])
            S.element('use x="%s"' % a, **kw)
        self.ops.append(e)

    def finish(self):
        _, exc = attempt(self.S.close)
        self.ops.append({"op": "close", "exc": exc})
        if not exc:
            toks, junk, decl = tokens(self.out.getvalue(), self.prefix)
            self.ops.append({"op": "doc", "toks": toks, "junk": junk, "decl": decl})


SHAPES = ["circle", "rectangle", "segment", "polygon", "arc", "text", "leaf"]


def script(seed, kinds, exact):
    rng = random.Random(seed)
    try:
        D = Doc(rng, exact)
    except Exception as e:
        return {"ops": [raised(e)], "w": 0, "h": 0, "tol": 0, "decl": False}
    try:
        for o in kinds:
            D.do(o)
        D.finish()
    except Exception as e:
        D.ops.append(raised(e))
    return dict(D.head, ops=D.ops)


def balanced(rng, m, leave=0):
    kinds, stack = [], []
    for _ in range(m):
        c = rng.random()
        if c < .2:
            o = rng.choice(["group", "open"])
            stack.append(o)
            kinds.append(o)
        elif c < .35 and stack:
            kinds.append("ungroup" if stack.pop() == "group" else "shut")
        else:
            kinds.append(rng.choice(SHAPES))
    while len(stack) > leave:
        kinds.append("ungroup" if stack.pop() == "group" else "shut")
    return kinds


def cases(tier, rng):
    big = tier == "thorough"
    for k, h in enumerate(generated("svg")):
        full = list(h)
        stack = []
        for o in h:
            if o in ("group", "open"):
                stack.append(o)
            elif o in ("ungroup", "shut"):
                stack.pop()
        full = [rng.choice(SHAPES[:5]) if o == "circle" else o for o in full]
        if k % 3 == 0:
            full += ["ungroup" if o == "group" else "shut" for o in reversed(stack)]
        yield "gen-%d" % k, lambda full=full, k=k, s=rng.getrandbits(32): script(s, full, k % 2 == 0)
    for k in range(1500 if big else 300):
        kinds = balanced(rng, rng.randint(0, 25), rng.choice([0, 0, 0, 1]))
        yield "rnd-%d" % k, lambda kinds=kinds, k=k, s=rng.getrandbits(32): script(s, kinds, k % 3 != 0)
