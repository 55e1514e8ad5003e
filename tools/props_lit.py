"""C09-C11: literals."""
import random
import vlib
from props_cpp import export, scale
from vlib import SEED

CFG = '''SPECIFICATION Spec
CONSTANTS N = %d Alphabet <- %s Open = "%s" Close = "%s"
INVARIANTS OneReading Positional SuffixKeepsValue PointShift Concats Export
CHECK_DEADLOCK FALSE
'''


def spellings(chk, name, n, alphabet, op='', cl=''):
    esc = lambda s: s.replace('\\', '\\\\').replace('"', '\\"')
    return [o['s'] for o in export(chk, 'MCLit', CFG % (n, alphabet, esc(op), esc(cl)), name) if o['s']]


def judge(chk, jobs, name):
    ev = vlib.run_jobs(chk.binary, jobs)
    if ev:
        chk.sample(ev[len(ev) // 2]['steps'][:3])
    return vlib.validate(chk, 'TraceLit', ev, name)


TARGETS = ['', '1.16.0', '1.17.0', '1.58.0', '1.59.0', '1.64.0', '1.77.0', '1.85.0']


def jobs_of(bodies, r, gen=True):
    out = []
    for i, b in enumerate(bodies):
        b = [b] if isinstance(b, str) else b
        cx = {'target': r.choice(TARGETS), 'types': {'wchar_t': 'i32'} if r.random() < .5 else {}}
        if r.random() < .3:
            cx['ffi'] = '::core::ffi'
            cx['trait'] = '::core'
        st = [{'op': 'dv', 'n': 'M', 'b': b}, {'op': 'ev', 'n': 'M'}]
        if gen:
            st.append({'op': 'gv', 'n': 'M'})
        out.append({'id': i, 'cx': cx, 'wchar': 'i32' if cx['types'] else 'wchar_t', 'steps': st})
    return out


def pieces(s, r, k=2):
    """cut a spelling into pieces joined with ##"""
    cuts = sorted(r.sample(range(1, len(s)), min(k - 1, len(s) - 1)))
    ps = [s[i:j] for i, j in zip([0] + cuts, cuts + [len(s)])]
    out = [ps[0]]
    for p in ps[1:]:
        out += ['##', p]
    return out


def case(s, r):
    return ''.join(c.upper() if r.random() < .5 else c.lower() for c in s)


def integers(r, n):
    out = []
    sfx = ['', 'u', 'l', 'ul', 'lu', 'll', 'ull', 'llu', 'z', 'uz', 'zu']
    for _ in range(n):
        base, pre, ds = r.choice([(10, '', '0123456789'), (16, '0x', '0123456789abcdef'), (8, '0', '01234567'), (2, '0b', '01')])
        k = r.random()
        if k < .45:
            v = r.choice([7, 8, 15, 16, 31, 32, 63, 64, 64, 100, 126, 127, 128])
            x = (1 << v) + r.choice([-2, -1, 0, 1, 2]) if r.random() < .6 else r.getrandbits(v)
            d = ''
            while x or not d:
                d = ds[x % base] + d
                x //= base
        else:
            d = ''.join(r.choice(ds) for _ in range(r.randint(1, {10: 25, 16: 20, 8: 25, 2: 70}[base])))
        if base == 10 and d[0] == '0':
            d = '1' + d
        if base == 8 and r.random() < .2:
            d = '0' * r.randint(1, 4) + d
        if base in (16, 2) and r.random() < .3:
            d = '0' * r.randint(1, 30) + d
        s = r.choice(sfx)
        if s in ('ul', 'lu', 'u', 'l', 'z', 'uz', 'zu'):
            s = case(s, r)
        else:
            s = s.replace('ll', r.choice(['ll', 'LL'])).replace('u', r.choice('uU'))
        t = case(pre, r) + case(d, r) + s
        if r.random() < .12:
            i = r.randrange(len(t) + 1)
            t = t[:i] + r.choice("018gfulLz'_.xbBeE") + t[i:]
        out.append(t)
    return out


def c09(chk):
    r = random.Random('c09-%d' % SEED)
    ex = spellings(chk, 'spellings of up to %d fragments' % scale(3, 4), scale(3, 4), 'A1')
    judge(chk, jobs_of(ex, r), 'enumerated spellings')
    ints = integers(r, scale(6000, 60000))
    judge(chk, jobs_of(ints, r), 'random integers')
    glued = [pieces(s, r, r.choice([2, 2, 3])) for s in integers(r, scale(3000, 30000)) if len(s) > 1 and s.isalnum() and s[0].isdigit()]
    judge(chk, jobs_of([g for g in glued if all(p[0].isdigit() or p[0].isalpha() or p == '##' for p in g)], r), 'formed by ##')
    chk.assume += ['octal-looking spellings with the digits 8 or 9 are not C integer constants and are not judged',
                   'values of 2^64 and more may be rejected, but never changed']


ESC = ['\\n', '\\t', '\\0', '\\a', '\\b', '\\f', '\\r', '\\v', '\\e', '\\\\', '\\"', "\\'", '\\?', '\\1', '\\12', '\\101', '\\377',
       '\\x1', '\\x41', '\\x7f', '\\x80', '\\xff', '\\xFE', '\\u00e9', '\\u20AC', '\\U0001F34C', '\\U000000e9', '\\x0041', '\\18', '\\019']
WIDE = ['\\x100', '\\xffff', '\\xd83c\\xdf4c', '\\x1f34c', '\\xd800', '\\udfff', '\\x10ffff', '\\x110000', '\\u0100']
TXT = ['a', 'b', 'Z', '0', '9', 'f', ' ', '%', '{', '}', '$', '/*', '*/', '//', '?', "'", 'é', 'ÿ', '猫', '🍌', '€', '\u0394', 'x', 'u', 'L', '#']


def content(r, q, p, lo=0, hi=6):
    out = ''
    for _ in range(r.randint(lo, hi)):
        k = r.random()
        if k < .5:
            t = r.choice(TXT)
        elif k < .8:
            t = r.choice(ESC)
        elif k < .97:
            t = r.choice(WIDE + ['\\U%08x' % r.choice([r.randrange(0x110000), r.randrange(0x10000, 0x110000)]), '\\u%04X' % r.randrange(0x10000),
                                 '\\x%x' % r.randrange(0x110000), '\\%o' % r.randrange(512)])
        else:
            t = r.choice(['\\q', '\\x', '\\u12', '\\8', '\\U0001', '\n', '\\'])
        if q == '"' and t == '"':
            t = '\\"'
        if q == "'" and t == "'":
            t = "\\'"
        out += t
    return out


PFX = ['', '', 'u8', 'u', 'U', 'L']


def c10(chk):
    r = random.Random('c10-%d' % SEED)
    for p in ['', 'u8', 'u', 'U', 'L']:
        ss = spellings(chk, 'string contents %s' % (p or 'unprefixed'), scale(2, 3), 'A3', p + '"', '"')
        judge(chk, jobs_of(ss, r), 'enumerated strings %s' % (p or 'unprefixed'))
        ss = spellings(chk, 'character contents %s' % (p or 'unprefixed'), scale(1, 2), 'A3', p + "'", "'")
        judge(chk, jobs_of(ss, r), 'enumerated characters %s' % (p or 'unprefixed'))
    ss = spellings(chk, 'escape spellings', scale(3, 5), 'A4', '"\\', '"')
    judge(chk, jobs_of(ss, r), 'enumerated escapes')
    strs = [r.choice(PFX) + '"' + content(r, '"', '') + '"' for _ in range(scale(5000, 50000))]
    judge(chk, jobs_of(strs, r), 'random strings')
    chrs = [r.choice(PFX) + "'" + content(r, "'", '', 1, 1 if r.random() < .9 else 2) + "'" for _ in range(scale(2000, 20000))]
    judge(chk, jobs_of(chrs, r), 'random characters')
    cats = []
    for _ in range(scale(4000, 40000)):
        p = r.choice(PFX)
        b = []
        for _ in range(r.randint(2, 4)):
            q = r.choice(PFX) if r.random() < .1 else r.choice([p, ''])
            if b and r.random() < .1:
                b.append('/* "c" */')
            b.append(q + '"' + content(r, '"', '', 0, 3) + '"')
        cats.append(b)
    judge(chk, jobs_of(cats, r), 'concatenations')
    chk.assume += ['the execution character set is UTF-8, -16 and -32 for unprefixed and u8, u, U and L literals',
                   'u8, u and U strings whose numeric escapes do not form Unicode text may be rejected, but never changed']


def floats(r, n):
    out = []
    for _ in range(n):
        k = r.random()
        dg = lambda lo, hi: ''.join(r.choice('0123456789') for _ in range(r.randint(lo, hi)))
        if k < .5:
            s = dg(0, 8) + '.' + dg(0, 8)
        elif k < .6:
            s = dg(1, 8)
        elif k < .8:
            s = dg(1, 30) + '.' + dg(0, 30)
        else:   # close to halfway between two floats or doubles
            m = r.getrandbits(r.choice([24, 53])) | 1
            x = (2 * m + r.choice([0, 1, 1])) * (1 << r.randint(0, 30))   # or exactly representable
            sh = r.randint(0, 40)
            # x / 2^sh exactly, in decimal
            v = x * 5 ** sh
            t = str(v)
            if r.random() < .5:
                t = str(v + r.choice([-1, 1]))
            if sh:
                t = t.rjust(sh + 1, '0')
                t = t[:-sh] + '.' + t[-sh:]
            else:
                t += '.'
            s = t
        if '.' not in s or r.random() < .4:
            s += r.choice('eE') + r.choice(['', '+', '-']) + str(r.choice([0, 1, 2, 5, 10, 20, 30, 38, r.randint(0, 45), '05', '010']))
        if r.random() < .02:
            s += ('' if 'e' in s.lower() else 'e') + str(r.choice([100, 200, 300, -200]))
        s += r.choice(['', '', '', 'f', 'F', 'l', 'L'])
        if r.random() < .1:
            i = r.randrange(len(s) + 1)
            s = s[:i] + r.choice('.eEfFuLx+-0') + s[i:]
        out.append(s)
    return out


def c11(chk):
    r = random.Random('c11-%d' % SEED)
    ex = spellings(chk, 'spellings of up to %d characters' % scale(4, 5), scale(4, 5), 'A2')
    judge(chk, jobs_of(ex, r), 'enumerated spellings')
    judge(chk, jobs_of(floats(r, scale(3000, 30000)), r), 'random floats')
    import re
    first = re.compile(r'(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?$|\d\w*$')
    rest = re.compile(r'[A-Za-z]\w*$|\d\w*$|\.\d+$')
    glued = [pieces(s, r, 2) for s in floats(r, scale(2500, 25000)) if len(s) > 1]
    judge(chk, jobs_of([g for g in glued if first.match(g[0]) and rest.match(g[2])], r), 'formed by ##')
    chk.assume += ['long double literals are represented with the precision of double', 'values outside the normal range of the type are not judged']


CHECKS = {'C09': c09, 'C10': c10, 'C11': c11}
