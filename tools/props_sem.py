"""C12-C14: what generated expressions and statements compute."""
import json, os, random, re
import vlib
from props_cpp import export, scale
from vlib import SEED, THOROUGH

W = json.load(open(os.path.join(vlib.SPEC, 'world.json')))
ID = re.compile(r'[A-Za-z_]\w*$')


def world_cx(body, typed=(), args=(), argtyped=(), target=''):
    """a context that knows the names in `typed` and the types of the arguments in `argtyped`"""
    names = {t for t in body if ID.match(t)}
    cx = {'target': target, 'enums': {}, 'fields': {}, 'types': {'S': 'S'}, 'funcs': {}, 'args': {}}
    for n in names - set(args):
        if n in W['consts']:
            cx['enums'][n] = [W['consts'][n]['r'], W['consts'][n]['e']]
        elif n in typed and n in W['vars']:
            cx['enums'][n] = [W['vars'][n]['r'], n]
        elif n in typed and n in W['aggs']:
            cx['enums'][n] = [W['aggs'][n]['r'], n]
        if n in typed and n in W['fns']:
            cx['funcs'][n] = [W['fns'][n]['rps'], W['fns'][n]['r']]
        if n in W['named']:
            cx['types'][n] = W['named'][n]['r']
    for f, d in W['fields'].items():
        if f[2:] in names and 'fields' in typed:
            cx['fields']['S/' + f[2:]] = d['r']
    for a in argtyped:
        d = W['vars'].get(a) or W['aggs'].get(a)
        cx['args']['M/' + a] = d['r']
    return cx


def job(body, args=None, typed=(), argtyped=(), must=False, target='', lenient=False):
    cx = world_cx(body, typed, args or (), argtyped, target)
    if any(body[i] == '(' and body[i + 2] == ')' and ID.match(body[i + 1]) and body[i + 1] not in cx['args'] and body[i + 1] not in (args or ())
           for i in range(len(body) - 2)):
        must = False        # might be a cast
    if '?' in body and ('/' in body or '%' in body or any(t in FLTS for t in body)):
        must = False        # a division by zero may stand in the branch that is not taken
    if args is None:
        st = [{'op': 'dv', 'n': 'M', 'b': body}, {'op': 'gv', 'n': 'M'}]
    else:
        st = [{'op': 'df', 'n': 'M', 'a': list(args), 'b': body}, {'op': 'gf', 'n': 'M'}]
    return {'cx': cx, 'must': must, 'len': lenient and 'sizeof' not in body, 'steps': st}


def judge(chk, jobs, name, module='TraceC'):
    ev = vlib.run_jobs(chk.binary, jobs)
    if ev:
        chk.sample(ev[len(ev) // 2]['steps'][:2])
    return vlib.validate(chk, module, ev, name)


BIN = ['*', '/', '%', '+', '-', '<<', '>>', '<', '>', '<=', '>=', '==', '!=', '&', '^', '|']
LEVEL = {o: i for i, os_ in enumerate([['*', '/', '%'], ['+', '-'], ['<<', '>>'], ['<', '>', '<=', '>='], ['==', '!='], ['&'], ['^'], ['|']]) for o in os_}
ASG = ['=', '+=', '-=', '*=', '/=', '%=', '<<=', '>>=', '&=', '^=', '|=']
INTS = ['0', '1', '2', '3', '5', '7', '10', '12', '100', '255', '0x10', '010', '65536', '0x7fffffff', '1U', '3u', '7L', '9UL', '2LL', '6ULL', '5000000000']
FLTS = ['1.5', '0.25', '3.0', '2.5f', '1e3', '10.0L', '0.1']
CHRS = ["'a'", "'0'", "'\\n'", "' '"]
BASET = [['int'], ['unsigned', 'int'], ['long'], ['unsigned', 'long'], ['char'], ['unsigned', 'char'], ['signed', 'char'], ['short'], ['unsigned', 'short'],
         ['long', 'long'], ['unsigned', 'long', 'long'], ['float'], ['double'], ['size_t'], ['bool']]


class Gen:
    """random C expressions; `leaf` gives the operands"""

    def __init__(self, r, leaves, types=BASET, ops=BIN, un='+-~!', cast=.06, cond=.05, size=.03, extra=None):
        self.r, self.leaves, self.types, self.ops, self.un = r, leaves, types, ops, un
        self.cast, self.cond, self.size, self.extra = cast, cond, size, extra

    def leaf(self):
        x = self.r.choice(self.leaves)
        return [x] if isinstance(x, str) else list(x)

    def expr(self, d):
        """(tokens, level): level -2 postfix/primary, -1 unary, 0.. binary, 8 cond, 9 assignment"""
        r = self.r
        if d <= 0 or r.random() < .12:
            if r.random() < self.size:
                return ['sizeof', '(', *r.choice(self.types), ')'], -2
            return self.leaf(), -2
        if self.extra and r.random() < self.extra[0]:
            return self.extra[1](self, d)
        k = r.random()
        if k < self.cast:
            return ['(', *r.choice(self.types), ')', *self.sub(d - 1, -1)], -1
        if k < self.cast + .15 and self.un:
            return [r.choice(self.un), *self.sub(d - 1, -1)], -1
        if k < self.cast + .15 + self.cond:
            return [*self.sub(d - 1, 7), '?', *self.sub(d - 1, 9), ':', *self.sub(d - 1, 8)], 8
        o = r.choice(self.ops)
        lv = LEVEL[o]
        return [*self.sub(d - 1, lv), o, *self.sub(d - 1, lv - 1)], lv

    def sub(self, d, limit):
        t, lv = self.expr(d)
        if lv > limit or self.r.random() < .1:
            return ['(', *t, ')']
        return t

    def flat(self, n):
        """operands joined by operators, without regard to the tree"""
        out = []
        for i in range(n):
            if i:
                out.append(self.r.choice(self.ops))
            if self.un and self.r.random() < .15:
                out.append(self.r.choice(self.un))
            out += self.leaf()
        return out


EXPR_CFG = '''SPECIFICATION Spec
CONSTANTS MaxOps = %d Ops = {%s}
INVARIANTS RoundTrip Needed Export
CHECK_DEADLOCK FALSE
'''


def trees(chk, n, ops, name):
    """all expression texts of at most n operators (checked by TLC against the grammar), with places for operands"""
    return [o['t'] for o in export(chk, 'MCExpr', EXPR_CFG % (n, ','.join('"%s"' % o for o in ops)), name)]


def fill(t, r, vals, objs=(), ptrs=()):
    """put operands into the places; an object is used once"""
    objs = list(objs)
    r.shuffle(objs)
    vals = list(vals)
    out = []
    for i, x in enumerate(t):
        if x == '#':
            v = r.choice(vals)
            out += [v] if isinstance(v, str) else v
        elif x == '#l':
            o = objs[0]
            objs = objs[1:] + objs[:1]
            if o[0] == '*' and ((i > 0 and t[i - 1] in ('++', '--', '&')) or (i + 1 < len(t) and t[i + 1] in ('++', '--', '[', '.', '->'))):
                o = ['(', *o, ')']
            out += o
        elif x in ('#p', '#q'):
            out.append(r.choice(ptrs))
        elif x == '#s':
            out.append(r.choice(['ps', 'ps', 'pt']))
        else:
            out.append(x)
    return out


INTV = ['a', 'b', 'c', 'd', 'e']
UNSV = ['u', 'w']


def model_laws(chk):
    """the arithmetic the semantics rests on"""
    for m, cfg in (('MCBig', None), ('MCNum', None)):
        r = vlib.tlc(m, chk.work, cfg=cfg)
        chk.add(r.distinct, r.generated, 0)
        chk.stages.append((m, {'states': r.distinct}))


def forms(body, r, names, lenient=True, must=True, fns=(), own=()):
    """the body as a macro over its variables: parameters typed, untyped or globals known to the context (`own`: declared in the body)"""
    used = [x for x in names if x in body and x not in own]
    k = r.randrange(4)
    if k == 0:
        args, at = used, used
    elif k == 1:
        args, at = used, ()
    elif k == 2:
        args = [x for x in used if r.random() < .5]
        at = args
    else:
        args, at = (used, [x for x in used if r.random() < .5])
    extra = [x for x in ('s', 'ps', 'pt') if x in body]
    return job(body, args, list(names) + extra + list(fns) + ['fields'], at, must=must and k != 2, lenient=lenient)


def c12(chk):
    model_laws(chk)
    r = random.Random('c12-%d' % SEED)
    jobs = []
    two = trees(chk, 2, ['bin', 'un', 'cast', 'cond'], 'expressions of two operators')
    three = trees(chk, 3, ['bin8', 'neg', 'not', 'cast', 'cond'], 'expressions of three operators')
    if not THOROUGH:
        three = r.sample(three, 1800)
    for t in two + three:
        jobs.append(job(fill(t, r, ['7', '3', '2', '5', '1', '12', '9']), None, must=True, lenient=True))
    judge(chk, jobs, 'constants, enumerated')
    jobs = []
    for t in two + three:
        jobs.append(forms(fill(t, r, INTV + ['3', '2']), r, INTV))
    judge(chk, jobs, 'parameters and variables, enumerated')
    jobs = []
    for mode, n in (('int', 1200), ('flt', 700), ('chr', 500), ('mix', 900)):
        L = {'int': INTS, 'flt': FLTS + ['1', '2'], 'chr': CHRS + ['1', '2'], 'mix': INTS + FLTS + CHRS + list(W['consts'])}[mode]
        g = Gen(r, L, cast=.1, size=.05)
        for _ in range(scale(n, 8 * n)):
            jobs.append(job(g.expr(r.randint(1, 4))[0], None, must=True))
    judge(chk, jobs, 'random constant expressions')
    jobs = []
    for names, L, ty, len_ in ((INTV, INTV + ['1', '2', '7', 'E0', 'E1'], [['int']], True), (UNSV, UNSV + ['1', '3', 'E2'], [['unsigned', 'int']], False),
                               (['x', 'y'], ['x', 'y', '1.5', '0.25', '2.0'], [['double']], False),
                               (INTV + UNSV + ['x', 'l'], ['a', 'b', 'u', 'w', 'x', 'l', 'E0', 'E2', '1', '2.5', "'a'"], [['int'], ['long'], ['double'], ['char']], False)):
        g = Gen(r, L, types=ty, cast=.06, size=.01)
        for _ in range(scale(700, 6000)):
            jobs.append(forms(g.expr(r.randint(1, 4))[0], r, names, lenient=len_, must=False))
    judge(chk, jobs, 'random expressions over variables')
    jobs = []
    for _ in range(scale(700, 6000)):
        g = Gen(r, LIMITS + r.choice([['1', '2', '1u', '2U'], ['l', 'a', '3'], ['u', 'w'], ['( long ) 2'.split(), '( char ) 3'.split(), "'a'"]]), cast=.15, size=.02)
        jobs.append(forms(g.expr(r.randint(0, 3))[0], r, INTV + ['l', 'u', 'w'], lenient=False, must=False))
    judge(chk, jobs, 'limits')
    chk.assume += ['conversions C makes implicitly are left to the reader of the generated code: a type mismatch they cause is not judged (between bool and int the grouping is)',
                   'expressions whose value C leaves undefined (overflow, shifts out of range, division by zero, unsequenced side effects) are not judged',
                   'char is signed, long has 32 or 64 bits, float and double are IEEE 754 single and double']


OBJS = [['a'], ['b'], ['*', 'p'], ['p', '[', '1', ']'], ['q', '[', 'e', ']'], ['s', '.', 'm'], ['ps', '->', 'n'], ['pt', '->', 'm'], ['s', '.', 'o', '->', 'n'], ['*', 's', '.', 'r'],
        ['ps', '->', 'r', '[', '1', ']'], ['*', '(', 'p', '-', '1', ')'], ['(', '*', 'pp', ')', '[', '1', ']'], ['*', '*', 'pp'],
        ['*', '(', 'volatile', 'int', '*', ')', 'p'], ['(', '(', 'volatile', 'int', '*', ')', 'q', ')', '[', '1', ']'], ['(', '(', 'volatile', 'struct', 'S', '*', ')', 'ps', ')', '->', 'm'],
        ['*', '(', 'volatile', 'int', '*', ')', '&', 'b'], ['*', 'p', '++'], ['*', '++', 'q'], ['p', '[', 'e', '++', ']'], ['*', '--', 'p'], ['*', '&', 'a'], ['(', '&', 's', ')', '->', 'm'], ['(', '*', 'ps', ')', '.', 'n'],
        ['*', '(', 'volatile', 'int', '*', ')', 'p', '++'],
        ['*', '(', 'p', '-', '(', 'e', '-', '1', ')', ')'], ['*', '(', 'p', '-', '(', '2', '-', '1', ')', ')'], ['*', '(', 'p', '+', '(', '2', '-', '1', ')', ')'], ['p', '[', '2', '-', '1', ']'],
        ['*', '(', 'p', '-', '2', '+', '1', ')'], ['*', '(', 'p', '+', '1', '-', '1', ')'], ['*', '(', 'p', '-', '(', '-', '1', ')', ')'], ['p', '[', 'e', '?', '1', ':', '0', ']'], ['*', '(', 'p', '-', '1', '*', '1', ')'],
        ['*', '(', 'e', '?', 'p', ':', 'q', ')'], ['(', '*', 'pp', ')', '[', '2', '-', '1', ']'], ['*', '(', 'p', '-', '(', 'e', '+=', '0', ')', ')']]
EFFV = ['c', 'd', '2', '3', ['f', '(', 'c', ')'], ['c', '+', '1'], ['h', '(', ')']]
NAMES13 = INTV + ['p', 'q', 'pp', 'ps', 'pt', 'prev', 'value', 'ptr']
LOCALS = {'a': 'prev', 'b': 'prev', 'c': 'prev', 'p': 'ptr', 'q': 'value'}      # names the generated code uses itself
FNS = ['f', 'g', 'h']


def effects(jobs, ts, r, objs=OBJS, vals=EFFV):
    for t in ts:
        b = fill(t, r, vals, objs, ['p', 'q'])
        if r.random() < .15:
            b = [LOCALS.get(x, x) for x in b]
        jobs.append(forms(b, r, NAMES13 + ['s'], must=False, fns=FNS if r.random() < .8 else ()))


def c13(chk):
    r = random.Random('c13-%d' % SEED)
    eff = {'=', '+=', '-=', '*=', '/=', '%=', '<<=', '>>=', '&=', '^=', '|=', '++', '--'}
    one = trees(chk, 1, ['asg', 'inc'], 'one effect')
    jobs = []
    for t in one:
        for o in OBJS:
            for i in range(scale(2, 6)):
                effects(jobs, [t], r, [o])
    judge(chk, jobs, 'one effect on every kind of object')
    two = [t for t in trees(chk, 2, ['bin8', 'un', 'cast', 'cond', 'asg', 'inc', 'idx', 'der', 'call', 'fld'], 'two operators') if set(t) & (eff | {'[', '*', '(', '.', '->'})]
    jobs = []
    for i in range(scale(1, 4)):
        effects(jobs, two, r)
    judge(chk, jobs, 'two operators')
    three = trees(chk, 3, ['asg2', 'inc', 'not', 'idx', 'call', 'cond', 'der'], 'three operators')
    jobs = []
    effects(jobs, r.sample(three, min(len(three), scale(2000, 20000))), r)
    judge(chk, jobs, 'three operators')
    places = trees(chk, 4, ['asg2', 'inc', 'read', 'place', 'vol', 'ptr', 'plv', 'sptr'], 'places')
    jobs = []
    for i in range(scale(1, 4)):
        effects(jobs, places, r, [['a'], ['b'], ['s', '.', 'm']], ['c', '1', '0', '2', ['c', '+', '1'], ['f', '(', 'c', ')'], 'd'])
    judge(chk, jobs, 'places')
    chk.assume += ['unsequenced side effects and accesses outside an object are undefined in C and not judged',
                   'pointers are modelled as object and index; volatile accesses are part of the compared sequence of effects, other accesses only by their result']


STMT_CFG = EXPR_CFG.replace('INVARIANTS RoundTrip Needed Export', 'INVARIANTS RoundTrip LeaveLast Export')
T = lambda s: s.split(' ')
CONDS = [T(x) for x in ['a > 3', 'b', '! c', 'f ( c )', '-- d > 0', 'd -- > 2', 'e == 0', 'b < 9', '0', '1', '-- a > 4', 'a - 7', '* p > 20', 's . m != 21', 'e', 'c ++ < 3', 'u', 'a & 1', '! e', 'h ( ) - 1',
                             'g ( a , b )', '1 > 2', "'a'", '- e', '( e )', 'e ? b : 0', 'p [ 1 ]', 'ps -> n', 'e = ! c', 'd -= 1', 'i', 'i < 5']]
EXPRS = [T(x) for x in ['a = a - 1', 'b += c', 'f ( b )', 'p [ 0 ] ++', 'h ( )', 'g ( a , c )', '* q = a', 'c = b', '++ b', 's . m -= 2', 'ps -> n = f ( a )', 'b = b + 1', 'a += 2', '* ( volatile int * ) p = b', 'd --',
                             'e = 1', 'a = b = c', 'a ? f ( 1 ) : h ( )', 'f ( f ( 1 ) )', '( a = 2 )', 'f ( i )', 'i += 1', 'a = i', 'b = i + a', 'i --', '( void ) a', '( void ) f ( 2 )', 'p [ f ( 1 ) & 1 ] = 1',
                             'a += e ? 1 : 2', '* p ++', 'a', '1', '( e ? a : b )', '- f ( 3 )', '! h ( )', '* ps', '& a']]
VALS = [T(x) for x in ['1', 'a', 'b + 1', 'f ( a )', '* p', 'c ? 1 : 2', 'e = 2', 'h ( )']]
CVALS = [T(x) for x in ['1', '7', '2 + 3', '0', 'E0', '- 4']]


def fill_stmts(t, r):
    out = []
    names = []
    depth = [[]]
    for i, x in enumerate(t):
        if x == '{':
            depth.append([])
        elif x == '}':
            depth.pop()
        live = [n for d in depth for n in d]
        if x == '#i':
            x = r.choice(['i', 'j', 'i', 'k', 'b']) if r.random() < .9 else 'a'
            depth[-1].append(x)
            out.append(x)
        elif x == '#v':
            st = any(y == 'static' for y in t[max(0, i - 4):i])
            out += r.choice(CVALS if st else VALS)
        elif x in ('#c', '#e'):
            pool = CONDS if x == '#c' else EXPRS
            while True:
                e = r.choice(pool)
                if 'i' not in e or live:
                    break
            out += [r.choice(live) if y == 'i' else y for y in e]
        else:
            out.append(x)
    if out[-1] == ';' and r.random() < .5 and len(out) > 2 and out[-2] != ')':
        out.pop()
    elif out[-1] == ';' and r.random() < .4 and 'while' not in out:
        out.pop()
    return out


def c14(chk):
    r = random.Random('c14-%d' % SEED)
    ts = [o for o in trees_stmt(chk, 4, ['if', 'else', 'do', 'seq', 'empty', 'decl', 'static'], 'statements')]
    small = [t for t in ts if sum(x in ('if', 'do', '{') for x in t) <= 3]
    jobs = []
    names = NAMES13 + ['s', 'u']
    for t in small * scale(4, 20) + (ts if THOROUGH else r.sample(ts, min(len(ts), 2200))):
        b = fill_stmts(t, r)
        own = {b[i + 1] for i, x in enumerate(b[:-1]) if x == 'int' and b[i - 1] != 'volatile'}
        if r.random() < .25:
            x = fill_stmts(r.choice(small), r)
            own |= {x[i + 1] for i, y in enumerate(x[:-1]) if y == 'int' and x[i - 1] != 'volatile'}
            b = b + ([';'] if b[-1] not in (';', '}') else []) + x
        jobs.append(forms(b, r, names, must=False, lenient=False, fns=FNS if r.random() < .85 else (), own=own))
    judge(chk, jobs, 'statements')
    chk.assume += ['loops are followed for at most 40 iterations', 'unsequenced side effects and accesses outside an object are undefined in C and not judged']


def trees_stmt(chk, n, ops, name):
    return [o['t'] for o in export(chk, 'MCStmt', STMT_CFG % (n, ','.join('"%s"' % o for o in ops)), name)]


ASM_CFG = '''SPECIFICATION Spec
CONSTANTS MaxT = %d MaxN = %d Pieces = {%s}
INVARIANTS RoundTrip Braces Exchange Export
CHECK_DEADLOCK FALSE
'''
PLACES = [T(x) for x in ['a', 'b', 'c', '* p', 'p [ 1 ]', 's . m', 'ps -> n', '* q', 'u', 'w']]
OPVALS = [T(x) for x in ['a', 'd', 'e', '7', 'c + 1', '* p', 'a * b', '& a', 'p', 'f ( d )', '( e )', 's . m', 'x', 'E0']]
CLOBS = [[], ['"memory"'], ['"cc"'], ['"memory"', '"cc"'], ['"r0"'], ['"r1"', '"memory"'], ['"cc"', '"r1"', '"r0"']]
OUTC = ['"=r"', '"=r"', '"+r"', '"=&r"', '"=rm"', '"+rm"', '"=m"', '"=a"', '"=q"', '"=Q"', '"=f"', '"+q"', '"=g"', '"=i"', '"=0"', '"r"', '"="', '"=r,m"', '"=Ir"']
INC = ['"r"', '"r"', '"ri"', '"Ir"', '"g"', '"i"', '"q"', '"Q"', '"f"', '"m"', '"n"', '"I"', '"0"', '"1"', '"7"', '""', '"a"', '"rm"', '"=r"', '"r0"', '"0" "1"', '"%0"']
TPLS = ['mov ', '%0', '%1', '%2', '%3', ', ', '\\n\\t', '\\n', '$1', '(%0)', '(%1,%0,4)', '%%eax', '%b0', '%eax', '{', '}', '{0}', '%{', '%}', '%=', '%%', ';', ' ', '%', '\\\\', '.globl f', '[%0]',
        '%l[x]', '%10', '({', '(%%eax)', '\\t', '|', '%[x]', '# ', 'a:']

OUTC_OK = ['"=r"', '"=r"', '"+r"', '"=rm"', '"+rm"', '"=q"', '"=Q"', '"=f"', '"+q"', '"=g"', '"=Ir"']
INC_OK = ['"r"', '"r"', '"ri"', '"Ir"', '"g"', '"i"', '"q"', '"Q"', '"f"', '"0"', '"1"', '"rm"']
TPLS_OK = ['mov ', ', ', '\\n\\t', '\\n', '$1', '%%eax', '{', '}', '{0}', '%{', '%}', '%|', '%%', ';', ' ', '[', ']', '(', ')', 'x', '|', '#', '\\t ']
TPLS_BASIC = TPLS_OK + ['%0', '%', '%eax', '%b0', '.globl f', '.section a\\n', '{0', '0}', '{{', '%=']


def asm_fill(t, r, clob):
    places = [list(x) for x in PLACES]
    r.shuffle(places)
    out = []
    for x in t:
        if x == '#l':
            out += places.pop()
        elif x == '#v':
            out += r.choice(OPVALS)
        else:
            out.append(x)
    if clob and ':' in out:
        i = len(out) - 2 if out[-1] == ';' else len(out) - 1
        while t.count(':') + out[i - 1:i].count('::') < 2 and out[:i].count(':') < 2:
            out.insert(i, ':')
            i += 1
        add = [':']
        for k, c in enumerate(clob):
            add += ([','] if k else []) + [c]
        out[i:i] = add
    return out


def asm_random(r):
    n = r.choice([0, 1, 1, 2, 2, 3])
    ext = n > 0 or r.random() < .5
    out = [r.choice(['asm', '__asm__', '__asm'])]
    if r.random() < .5:
        out.append(r.choice(['volatile', 'volatile', 'inline', 'goto']))
    k = r.randint(1, 6)
    odd = r.random() < .3
    tpls = TPLS if odd else TPLS_OK + ['%%%d' % i for i in range(n)] * 3 if ext else TPLS_BASIC
    outc, inc = (OUTC, INC) if odd else (OUTC_OK, INC_OK)
    tp = ''.join(r.choice(tpls) for _ in range(k))
    out += ['(', '"' + tp + '"']
    if r.random() < .3:
        out.append('"' + ''.join(r.choice(tpls) for _ in range(2)) + '"')
    if ext:
        o = r.randint(0, n)
        out.append(':')
        for i in range(o):
            out += ([','] if i else []) + [r.choice(outc), '(', '#l', ')']
        if n - o or r.random() < .5:
            out.append(':')
            for i in range(n - o):
                out += ([','] if i else []) + [r.choice(inc), '(', '#v', ')']
    return out + [')', ';'] if r.random() < .8 else out + [')']


def c20(chk):
    r = random.Random('c20-%d' % SEED)
    ts = [o['t'] for o in export(chk, 'MCAsm', ASM_CFG % (3, scale(5, 6), ','.join('"%s"' % x for x in ['mov ', '%0', '%1', '%2', 'NL', 'PC', '{x}'])), 'assembly statements') if o['ok']]
    names = NAMES13 + ['s', 'u', 'w', 'x']
    jobs = []
    for t in ts:
        b = asm_fill(t, r, r.choice(CLOBS))
        if r.random() < .2:
            b = b[:-1]
        elif r.random() < .2:
            b = ['{'] + r.choice([[], ['a', '=', '1', ';'], ['f', '(', 'b', ')', ';']]) + b + r.choice([[], ['b', '=', 'a', ';'], ['h', '(', ')', ';']]) + ['}']
        elif r.random() < .1:
            b = ['if', '(', 'e', ')'] + b
        jobs.append(forms(b, r, names, must=True, lenient=False, fns=FNS))
    judge(chk, jobs, 'enumerated')
    jobs = []
    for _ in range(scale(2500, 20000)):
        jobs.append(forms(asm_fill(asm_random(r), r, r.choice(CLOBS)), r, names, must=False, lenient=False, fns=FNS))
    judge(chk, jobs, 'random')
    chk.assume += ['the assembler is a black box: it is handed the same text, with references to operands that have the same values and places, and the same clobbers; what it writes is opaque',
                   'a template is in AT&T syntax when it has notation only AT&T has; the default syntax depends on the target and is not judged',
                   'where a constraint offers several classes of registers, the most general one is taken']


CHECKS = {'C20': c20, 'C12': c12, 'C13': c13, 'C14': c14}


# ------------------------------------------------------------------------------------------------- C18
LIMITS = ['__SCHAR_MAX__', '__SHRT_MAX__', '__INT_MAX__', '__LONG_MAX__', '__LONG_LONG_MAX__']
NAMED18 = ['a', 'b', 'u', 'w', 'l', 'x', 'y', 'z', 'p', 'q', 'ps', 'E0', 'E1', 'E2']


def jk(chk, jobs, name):
    return judge(chk, jobs, name, 'TraceK')


def c18(chk):
    r = random.Random('c18-%d' % SEED)
    two = trees(chk, 2, ['bin', 'un', 'cast', 'cond'], 'expressions of two operators')
    three = trees(chk, 3, ['bin8', 'neg', 'not', 'cast', 'cond'], 'expressions of three operators')
    if not THOROUGH:
        three = r.sample(three, 1500)
    jobs = []
    for t in two + three:
        for vals in (['a', 'b'], ['u', 'w'], ['l', '( long ) 2'], ['x', 'y', '1.5'], ['a', '7', '2'], ['7', '2', '0']):
            if len(jobs) % 3 and not THOROUGH and len(t) > 5 and r.random() < .6:
                continue
            jobs.append(job(fill(t, r, [v.split() for v in vals]), None, NAMED18))
    jk(chk, jobs, 'enumerated')
    jobs = []
    for i in range(scale(4000, 30000)):
        k = r.randrange(5)
        L = [INTS + NAMED18[:5], FLTS + ['x', 'y', 'z', 'a'], CHRS + ['a', '1'], [['(', *t, ')', x] for t in BASET for x in ('1', 'a', '200')], INTS + FLTS + CHRS + NAMED18][k]
        g = Gen(r, L, cast=.15, size=.08, cond=.08)
        jobs.append(job(g.expr(r.randint(0, 3))[0], None, NAMED18))
    for _ in range(scale(500, 4000)):
        g = Gen(r, LIMITS + r.choice([['1', '2', '1u', '2U'], ['l', 'a', '3'], ['u', 'w'], ['( long ) 2'.split(), '( char ) 3'.split(), "'a'"]]), cast=.15, size=.02)
        jobs.append(job(g.expr(r.randint(0, 2))[0], None, NAMED18))
    jobs += [job([n], None, NAMED18) for n in LIMITS]
    jk(chk, jobs, 'random')
    # what is not constant
    jobs = []
    ts = trees(chk, 2, ['bin8', 'asg', 'inc', 'der', 'idx', 'read', 'ptr', 'sptr', 'call', 'neg', 'cast', 'cond'], 'expressions of two operators, not constant')
    for t in ts if THOROUGH else r.sample(ts, min(len(ts), 6000)):
        jobs.append(job(fill(t, r, ['a', 'b', '1'], [['a'], ['b'], ['u']], ['p', 'q']), None, r.choice([NAMED18 + ['f', 'g', 'h'], NAMED18, ['f', 'g'], NAMED18[:3], []])))
    for b in ['', '{ }', '{ a }', 'a ;', 'if ( a ) b', 'if ( 1 ) { 2 }', 'int v = 1 ;', 'int f ( int a ) ;', 'asm ( "nop" ) ;', '__LINE__', '__FILE__', '__LINE__ + 1',
              'undefined', '1 + undefined', '( undefined )', '( int ) undefined', 'f ( )', 'f ( 1 )', 'sizeof ( int ) + f ( 1 )', '1 ? f ( 1 ) : 2', '- undefined', '"a" f',
              '1 , 2', 'a , b', '1 ;', 'do { a ; } while ( 0 )', '& a', '* p', 'p [ 1 ]', 'ps -> n', '( * ps ) . n', 'a = 1', '++ a', 'a --', '1 2', 'a b', '+', '( int )', 'E0 E1']:
        for ty in (NAMED18 + ['f'], ['f'], []):
            jobs.append(job(T(b) if b else [], None, ty))
    jk(chk, jobs, 'not constant')
    import props_gen
    props_gen.paths(chk, ['const', 'const par', 'const cond'])
    chk.assume += ['comparisons and logical operations are declared as bool, character literals as characters', 'literals are declared without a type',
                   'expressions that rely on implicit conversions are judged only for being constant']


CHECKS['C18'] = c18
