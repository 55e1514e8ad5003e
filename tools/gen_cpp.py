"""Random macro worlds for the preprocessor properties."""
import random

VN = ['A', 'B', 'C', 'D']
FN = ['F', 'G', 'H', 'K']
IDS = ['x', 'y', 'foo', 'n1']
PAR = ['a', 'b', 'c', 'd', 'e', 'g']
NAMES = ['FOO', 'FOO_BAR', 'FOO_', '_', '__X', '_F1', 'L', 'u8', 'U', 'u', 'e1', 'E', 'int', 'if', 'sizeof', 'struct', 'self', 'fn',
         'ID', 'MAX', 'cat', 'CAT2', 'xy', 'x1', 'VA_ARGS', '__VA', 'ARGS__', 'defined', 'i', 'ab', 'aa', 'aaa', 'f0', 'LL', 'ull']
INTS = ['0', '1', '2', '10', '7u', '0x1F', '42L']
PUN = ['+', '-', '*', '/', '<<', '==', '&', ';', '?', ':', '->', '[', ']', '~', '=']
STR = ['"s"', '"a b"', '"q\\"t"', "'c'", "'\\n'", '"\\\\"']
ALIKE = ['foo', 'foo_', 'foo_1', 'FOO', 'Foo', 'foo1', '_foo', 'fo', 'f', 'foofoo', 'foo_foo', 'oo', 'fooo', 'fo0', 'FO', 'foo__', '__foo', 'foO', 'o',
         'oof', 'FOO_', 'f_foo']


class W:
    def __init__(self, seed, **o):
        self.r = random.Random(seed)
        self.o = dict(nv=3, nf=3, maxbody=6, depth=3, calls=.35, comments=0, punct=.25, strs=.03, braces=.03,
                      strfy=0, paste=0, variadic=.1, selfref=.3, bare=.12, arity=0, parmacro=.05, empties=.1, steps=2, va=.5, wide=0)
        self.o.update(o)

    def ch(self, p):
        return self.r.random() < p

    def names(self):
        self.vs = self.r.sample(VN, self.r.randint(1, self.o['nv']))
        self.fs = self.r.sample(FN, self.r.randint(0 if self.o['nf'] < 3 else 1, self.o['nf']))
        self.sig = {}
        for f in self.fs:
            n = self.r.choice([0, 1, 1, 1, 2, 2, 3]) if not self.ch(self.o['wide']) else self.r.choice([2, 3, 4, 5, 6])
            ps = self.r.sample(PAR, n)
            if ps and self.ch(self.o['parmacro']):
                ps[0] = self.r.choice(self.vs + self.fs)
            self.sig[f] = (ps, self.ch(self.o['variadic']))

    def atom(self, ps):
        r = self.r
        k = r.random()
        if ps and k < .45:
            return [r.choice(ps)]
        if k < .6:
            return [r.choice(IDS)]
        if k < .75:
            return [r.choice(self.vs)]
        if k < .75 + self.o['bare'] and self.fs:
            return [r.choice(self.fs)]
        if k < .9 + self.o['strs'] and k > .9:
            return [r.choice(STR)]
        return [r.choice(INTS)]

    def arg(self, ps, d):
        r = self.r
        if self.ch(self.o['empties']):
            return []
        if self.ch(.6):
            return self.atom(ps) if not (d and self.ch(.3)) else self.call(ps, d - 1)
        t = self.seq(ps, r.randint(1, 3), d - 1)
        return t

    def call(self, ps, d, f=None):
        r = self.r
        if not self.fs:
            return self.atom(ps)
        f = f or r.choice(self.fs)
        if f in self.sig:
            q, va = self.sig[f]
            n = len(q)
        else:
            n, va = r.randint(0, 2), False
        if va:
            n += r.choice([0, 1, 1, 2, 3]) if n else r.choice([1, 1, 2, 3])
        if self.ch(self.o['arity']):
            n = max(0, n + r.choice([-1, 1, 2]))
        args = [self.arg(ps, d) for _ in range(n)]
        out = [f, '(']
        for i, a in enumerate(args):
            if i:
                out.append(',')
            # a comma in an argument must be protected
            out += self.protect(a)
        return out + [')']

    def protect(self, a):
        depth = 0
        for t in a:
            if t == '(':
                depth += 1
            elif t == ')':
                depth -= 1
            elif t == ',' and depth == 0:
                return ['('] + a + [')']
        return a

    def seq(self, ps, n, d):
        out = []
        for _ in range(n):
            k = self.r.random()
            if d > 0 and k < self.o['calls']:
                out += self.call(ps, d - 1)
            elif k < self.o['calls'] + self.o['punct']:
                out.append(self.r.choice(PUN))
            elif k < self.o['calls'] + self.o['punct'] + self.o['braces']:
                o, c = self.r.choice(['()', '()', '[]', '{}'])
                out += [o] + self.seq(ps, self.r.randint(0, 2), d - 1) + [c]
            else:
                out += self.atom(ps)
        return out

    def sprinkle(self, ts):
        if not self.o['comments']:
            return ts
        out = []
        for t in ts:
            if self.ch(self.o['comments']):
                out.append('/* %s */' % self.r.choice(['c', '', 'x + 1', '*', ', )']))
            out.append(t)
        if self.ch(self.o['comments']):
            out.append('/* end */')
        return out

    def word(self, ps):
        r = self.r
        k = r.random()
        if ps and k < .6:
            return r.choice(ps)
        if k < .75:
            return r.choice(IDS)
        if k < .9:
            return r.choice(self.vs + self.fs)
        return r.choice(['0', '1', '2', '10'])

    def fbody(self, f):
        ps, va = self.sig[f]
        ps2 = ps + (['__VA_ARGS__'] if va and self.ch(self.o['va'] + .4) else [])
        n = self.r.randint(0, self.o['maxbody'])
        out = []
        while len(out) < n:
            k = self.r.random()
            if ps2 and k < self.o['strfy']:
                out += ['#', self.r.choice(ps2)]
            elif k < self.o['strfy'] + self.o['paste']:
                out += self.pasteseq(ps2)
            else:
                out += self.seq(ps2, 1, self.o['depth'])
        return out

    def pasteseq(self, ps):
        r = self.r
        first = r.choice(ps) if ps and self.ch(.7) else r.choice(IDS + self.vs + self.fs)
        out = [first]
        for _ in range(r.choice([1, 1, 1, 2])):
            out += ['##', self.word(ps)]
        return out

    def vbody(self):
        n = self.r.randint(0, self.o['maxbody'])
        if self.o['paste'] and self.ch(.2):
            return [self.r.choice(IDS + self.vs), '##', self.r.choice(IDS + self.vs + self.fs + ['1', '2'])]
        t = self.seq([], n, self.o['depth'])
        if self.ch(.1) and self.fs:
            t.append(self.r.choice(self.fs))       # may become a call with what follows the use
        return t

    def defs(self):
        self.names()
        st = []
        for v in self.vs:
            st.append({'op': 'dv', 'n': v, 'b': self.sprinkle(self.vbody())})
        for f in self.fs:
            ps, va = self.sig[f]
            st.append({'op': 'df', 'n': f, 'a': self.sprinkle(ps + (['...'] if va else [])),
                       'b': self.sprinkle(self.fbody(f))})
        self.r.shuffle(st)
        return st

    def use(self):
        r = self.r
        k = r.random()
        if k < .45 and self.fs:
            t = self.call([], self.o['depth'])
            if self.ch(.4):
                t = self.seq([], r.randint(0, 2), 1) + t
            if self.ch(.4):
                t = t + self.seq([], r.randint(0, 2), 1)
            if self.ch(.15):
                t = t + ['('] + self.atom([]) + [')']
        elif k < .6:
            t = [r.choice(self.vs)] + (['('] + self.arg([], 1) + [')'] if self.ch(.5) else [])
        else:
            t = self.seq([], r.randint(1, 5), self.o['depth'])
        return {'op': 'ex', 'b': self.sprinkle(t)}

    def queries(self, kinds=('ex', 'ev')):
        q = []
        for k in kinds:
            if k == 'ex':
                q += [self.use() for _ in range(self.o['steps'])]
            elif k == 'ev':
                q.append({'op': 'ev', 'n': self.r.choice(self.vs)})
            elif k == 'ef' and self.fs:
                q += [{'op': 'ef', 'n': f} for f in self.fs]
        return q


def rename(r, j):
    """the same world with other names"""
    old = VN + FN + IDS + PAR
    m = dict(zip(old, r.sample(r.choice([NAMES, ALIKE, ALIKE]), len(old))))
    f = lambda ts: [m.get(t, t) for t in ts]
    for st in j['steps']:
        for k in ('a', 'b'):
            if k in st:
                st[k] = f(st[k])
        if 'n' in st:
            st['n'] = m.get(st['n'], st['n'])
    return j


def worlds(n, seed, kinds=('ex', 'ev'), **o):
    jobs = []
    for i in range(n):
        w = W('%s-%d-%s' % (seed, i, sorted(o.items())), **o)
        st = w.defs()
        j = {'id': i, 'steps': st + w.queries(kinds)}
        jobs.append(rename(w.r, j) if w.ch(.45) else j)
    return jobs


# ---------------------------------------------------------------------------------------------------------------
# Size filter.  A world whose expansion is exponential is of no use to any tool, so worlds are dropped when a crude
# hide-set expansion exceeds a budget.  This is a filter on inputs only; it never judges an outcome.

class Budget(Exception):
    pass


class _Size:
    def __init__(self, defs, steps, length):
        self.d, self.left, self.length = defs, steps, length

    def scan(self, ts):
        """ts: list of (text, hideset), replaced fully; returns list"""
        out = []
        ts = list(reversed(ts))
        while ts:
            self.left -= 1
            if self.left < 0 or len(out) > self.length or len(ts) > 20 * self.length:
                raise Budget
            t, hs = ts.pop()
            m = self.d.get(t)
            if m is None or t in hs:
                out.append((t, hs))
                continue
            if m[0] == 'v':
                body = [(x, hs | {t}) for x in m[2]]
            else:
                if not ts or ts[-1][0] != '(':
                    out.append((t, hs))
                    continue
                depth, args, i = 0, [[]], len(ts) - 1
                while i >= 0:
                    x = ts[i][0]
                    if x == '(':
                        depth += 1
                        if depth > 1:
                            args[-1].append(ts[i])
                    elif x == ')':
                        depth -= 1
                        if depth == 0:
                            break
                        args[-1].append(ts[i])
                    elif x == ',' and depth == 1:
                        args.append([])
                    else:
                        args[-1].append(ts[i])
                    i -= 1
                if depth:
                    out.append((t, hs))
                    continue
                del ts[i:]
                ps = m[1]
                va = bool(ps) and ps[-1] == '...'
                bind = {}
                for k, p in enumerate(ps):
                    if p == '...':
                        v = []
                        for a in args[k:]:
                            v += ([(',', frozenset())] if v else []) + a
                        bind['__VA_ARGS__'] = v
                    else:
                        bind[p] = args[k] if k < len(args) else []
                body = []
                cache = {}
                for x in m[2]:
                    if x in bind:
                        if x not in cache:
                            cache[x] = self.scan(bind[x])
                        body += [(y, h | hs | {t}) for y, h in cache[x]]
                    else:
                        body.append((x, hs | {t}))
                    if len(body) > 20 * self.length:
                        raise Budget
            ts += reversed(body)
        return out


def feasible(job, steps=1500, length=90):
    defs = {}
    try:
        for st in job['steps']:
            strip = lambda ts: [t for t in ts if not t.startswith('/*') and t.strip()]
            if st['op'] == 'dv':
                defs[st['n']] = ('v', [], strip(st['b']))
            elif st['op'] == 'df':
                defs[st['n']] = ('f', strip(st['a']), strip(st['b']))
            elif st['op'] in ('uv', 'uf'):
                if defs.get(st['n'], '-')[0] == st['op'][1]:
                    del defs[st['n']]
            else:
                m = defs.get(st.get('n'))
                if st['op'] in ('ex', 'tv'):
                    b, hs = strip(st['b']), frozenset()
                elif m:
                    b, hs = m[2], frozenset([st['n']])
                else:
                    continue
                _Size(defs, steps, length).scan([(t, hs) for t in b])
    except Budget:
        return False
    return True


def feasible_worlds(n, seed, kinds=('ex', 'ev'), steps_budget=1500, length=90, **o):
    """n worlds that pass the size filter"""
    out, off = [], 0
    while len(out) < n and off < 40:
        for j in worlds(max(50, n // 4), '%s.%d' % (seed, off), kinds, **o):
            if feasible(j, steps_budget, length):
                j['id'] = len(out)
                out.append(j)
                if len(out) == n:
                    break
        off += 1
    return out
