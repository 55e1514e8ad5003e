"""C01-C08, C21: the macro table and macro expansion."""
import itertools, json, random
import gen_cpp, vlib
from vlib import SEED, THOROUGH


def scale(q, t):
    return t if THOROUGH else q


def judge(chk, jobs, name, ek=False, **kw):
    """run the jobs on the real code and have TLC judge the recorded histories"""
    for i, j in enumerate(jobs):
        j['id'] = i
        if ek:
            j['ek'] = True
    ev = vlib.run_jobs(chk.binary, jobs)
    if ev:
        chk.sample(ev[len(ev) // 2]['steps'][:6])
    return vlib.validate(chk, 'TraceHist', ev, name, **kw)


def rand(chk, n, name, kinds=('ex', 'ev'), ek=False, **o):
    jobs = gen_cpp.feasible_worlds(n, '%s-%s-%d' % (chk.pid, name, SEED), kinds, **o)
    return judge(chk, jobs, name, ek)


def export(chk, module, cfgtext, name, env=None, timeout=600):
    """model-check `module` and return the behaviours it prints"""
    import os
    cfg = os.path.join(chk.work, '%s_%s.cfg' % (module, name))
    open(cfg, 'w').write(cfgtext)
    r = vlib.tlc(module, chk.work, env=env, cfg=cfg, timeout=timeout)
    out = [json.loads(l[2:]) for l in r.lines if l.startswith('H ')]
    out.sort(key=lambda x: json.dumps(x, sort_keys=True))
    chk.add(r.distinct, r.generated, 0)
    chk.stages.append((name + ':model', {'states': r.distinct, 'behaviours': len(out)}))
    if not out:
        raise vlib.ToolError('%s exported nothing' % module)
    return out


# ------------------------------------------------------------------------------------------------- C01, C02

TABLE_CFG = '''SPECIFICATION Spec
CONSTANTS Depth = %d NamesC = {%s} BodiesC <- %s ParamsC <- %s ExportC = TRUE
INVARIANTS OneKind LatestDefinition ReportsExact Export
PROPERTY Refines
CHECK_DEADLOCK FALSE
'''


def table_histories(chk, name, depth, names, bodies, params):
    return export(chk, 'MCTable', TABLE_CFG % (depth, ', '.join('"%s"' % n for n in names), bodies, params), name)


def observe(ops, names, every=True):
    """history -> job: after each operation ask for every name as both kinds"""
    st = []
    for i, o in enumerate(ops):
        st.append({'op': o['op'], 'n': o['n'], 'a': o['a'], 'b': o['b']})
        if every or i == len(ops) - 1:
            for n in names:
                st.append({'op': 'ev', 'n': n})
                st.append({'op': 'ef', 'n': n})
    return {'steps': st}


def long_histories(chk, n, length, tag):
    r = random.Random('%s-%s-%d' % (chk.pid, tag, SEED))
    names = ['A', 'B', 'C', 'F', 'G']
    bodies = [[], ['x'], ['x', 'y'], ['A'], ['B', '1'], ['F', '(', 'x', ')'], ['G', '(', 'A', ')'], ['1', '+', '2'],
              ['/* c */', 'x'], ['x', '/* c */'], ['"s"'], ['x', 'y', 'z'], ['F']]
    pars = [[], ['x'], ['y'], ['x', 'y'], ['x', '...'], ['/* p */', 'x']]
    jobs = []
    for _ in range(n):
        st = []
        ns = r.sample(names, r.randint(1, 4))
        for _ in range(r.randint(3, length)):
            m = r.choice(ns)
            k = r.random()
            if k < .28:
                st.append({'op': 'dv', 'n': m, 'b': r.choice(bodies)})
            elif k < .56:
                st.append({'op': 'df', 'n': m, 'a': r.choice(pars), 'b': r.choice(bodies)})
            elif k < .68:
                st.append({'op': 'uv', 'n': m})
            elif k < .8:
                st.append({'op': 'uf', 'n': m})
            elif k < .87:
                st.append({'op': 'ev', 'n': r.choice(names)})
            elif k < .94:
                st.append({'op': 'ef', 'n': r.choice(names)})
            else:
                st.append({'op': 'ex', 'b': r.choice(bodies) + [m]})
        for m in names:
            st += [{'op': 'ev', 'n': m}, {'op': 'ef', 'n': m}]
        j = {'steps': st}
        if gen_cpp.feasible(j):
            jobs.append(j)
    return jobs


def c01(chk):
    hs = table_histories(chk, 'two names, depth 3', 3, ['A', 'B'], 'MCBodies2', 'MCParams2')
    judge(chk, [observe(h, ['A', 'B']) for h in hs], 'replay two names', ek=True)
    hs = table_histories(chk, 'one name, depth %d' % scale(5, 6), scale(5, 6), ['A'], 'MCBodies1', 'MCParams1')
    judge(chk, [observe(h, ['A']) for h in hs], 'replay one name', ek=True)
    judge(chk, long_histories(chk, scale(1500, 15000), scale(14, 40), 'long'), 'long histories', ek=True)
    chk.assume += ['the history of a macro set is sequential (its methods take &mut self)',
                   'names and bodies outside the enumerated ones behave alike']


WS = [[], ['x'], ['y'], ['x', 'y'], ['/* c */'], ['/* c */', 'x'], ['x', '/* c */'], ['x', '/* c */', 'y'],
      ['/* d */', 'x', '/* e */', 'y', '/* f */'], ['xy'], ['1'], ['01'], ['0x1'], ['1u'], ['1U'], ['x', 'x'], ['y', 'x'], ['"x"'], ["'x'"],
      ['+'], ['+', '+'], ['++'], ['x', '+', 'y'], ['x', '+'], ['1.0'], ['1.'], ['" "'], ['"/* */"'], ['(', 'x', ')'],
      ['// c'], ['x', '// c'], ['/**/', '/* c */'], ['x', 'y', 'x'], ['X'], ['L', '"x"'], ['L"x"'],
      ['"\\n"'], ['"\\x0a"'], ['"a"', '"b"'], ['"ab"']]
PARS = [[], ['x'], ['y'], ['x', 'y'], ['y', 'x'], ['/* c */'], ['/* c */', 'x'], ['x', '/* c */'], ['x', '/* c */', 'y'],
        ['...'], ['x', '...'], ['x', '/* c */', '...'], ['y', '...']]


def c02(chk):
    # every ordered pair of definitions: does the second one report a redefinition, does it take effect, and does
    # defining the first one once more report it again?
    ds = [('dv', [], b) for b in WS] + [('df', p, b) for p in PARS for b in WS[:scale(8, 16)]]
    if not THOROUGH:
        ds += [('df', ['x'], b) for b in WS[8:]]
    else:
        ds += [('df', p, b) for p in (['x'], ['x', 'y']) for b in WS[16:]]
    jobs = []
    for x, y in itertools.product(ds, ds):
        mk = lambda d: {'op': d[0], 'n': 'M', 'a': d[1], 'b': d[2]}
        jobs.append({'steps': [mk(x), mk(y), mk(x)]})
    judge(chk, jobs, 'all pairs of definitions')
    hs = table_histories(chk, 'white space variants', scale(3, 4), ['A'], 'MCBodiesWs', 'MCParamsWs')
    judge(chk, [observe(h, ['A'], False) for h in hs], 'replay white space variants')
    r = random.Random('c02-%d' % SEED)
    jobs = []
    for _ in range(scale(2500, 30000)):
        pool = ['x', 'y', '+', '1', '(', ')', '"s"', 'A']
        body = [r.choice(pool) for _ in range(r.randint(0, 9))]
        other = list(body)
        k = r.random()
        if k < .3 and other:
            other[r.randrange(len(other))] = r.choice(pool)
        elif k < .45:
            other.insert(r.randint(0, len(other)), r.choice(pool))
        elif k < .6 and other:
            del other[r.randrange(len(other))]
        elif k < .7:
            r.shuffle(other)
        spr = lambda b: [t for x in b for t in ((['/* %s */' % r.choice('ab')] if r.random() < .25 else []) + [x])]
        a, b = spr(body), spr(other)
        if r.random() < .5:
            jobs.append({'steps': [{'op': 'dv', 'n': 'M', 'b': a}, {'op': 'dv', 'n': 'M', 'b': b}]})
        else:
            pa = [['x'], ['x', 'y'], ['x', '...'], []]
            p = r.choice(pa)
            q = p if r.random() < .7 else r.choice(pa)
            jobs.append({'steps': [{'op': 'df', 'n': 'M', 'a': spr(p), 'b': a}, {'op': 'df', 'n': 'M', 'a': spr(q), 'b': b}]})
    judge(chk, jobs, 'random pairs')
    chk.assume += ['two spellings of the same value are different replacement lists, as in C']


# ------------------------------------------------------------------------------------------------- C03, C04

EXP_CFG = '''SPECIFICATION Spec
CONSTANTS Worlds <- MCWorlds ExportC = TRUE
INVARIANTS NoReentry Painted Agrees Export
PROPERTY Terminates
CHECK_DEADLOCK FALSE
'''


def machine(chk, u):
    ws = export(chk, 'MCExpand', EXP_CFG, 'universe %s' % u, env={'UNIVERSE': str(u)})
    jobs = []
    for x in ws:
        st = []
        for n, d in sorted(x['env'].items()):
            st.append({'op': 'd' + d['k'], 'n': n, 'a': d['a'], 'b': d['b']})
        st.append({'op': 'ex', 'b': x['q']})
        for n, d in sorted(x['env'].items()):
            st.append({'op': 'e' + d['k'], 'n': n})
        jobs.append({'steps': st})
    jobs = [j for j in jobs if gen_cpp.feasible(j, 4000, 150)]
    judge(chk, jobs, 'replay universe %s' % u)


def c03(chk):
    for u in (1, 2):
        machine(chk, u)
    rand(chk, scale(1500, 20000), 'mixed', steps=3)
    rand(chk, scale(700, 8000), 'calls', steps=2, calls=.55, bare=.3, nv=2, nf=3, maxbody=4, empties=.2)
    rand(chk, scale(500, 6000), 'fringe', steps=3, nf=3, maxbody=3, bare=.5, braces=.15)
    rand(chk, scale(400, 6000), 'all', steps=2, strfy=.1, paste=.12, variadic=.3, comments=.08, strs=.1)
    rand(chk, scale(200, 3000), 'deep', steps=1, maxbody=10, depth=4, steps_budget=4000, length=150)
    rand(chk, scale(300, 5000), 'wide', steps=2, wide=.7, nf=3, calls=.45, punct=.1, depth=2, steps_budget=350, length=60)
    chk.assume += ['C leaves open whether a call whose parentheses come from different replacement lists is painted: such cases are not judged',
                   'expansion is compared with an independent hide-set definition, which gcc -E agrees with']


def c04(chk):
    for u in (4, 5):
        machine(chk, u)
    rand(chk, scale(1200, 15000), 'self', steps=3, nv=3, nf=3, bare=.5, calls=.4, punct=.05, maxbody=4, strs=0, empties=.05)
    rand(chk, scale(600, 6000), 'cycles', kinds=('ex', 'ev', 'ef'), steps=2, nv=2, nf=3, bare=.6, calls=.5, punct=0, maxbody=3)
    # long cycles and chains
    jobs = []
    r = random.Random('c04-%d' % SEED)
    for n in range(1, scale(14, 30)):
        names = ['M%d' % i for i in range(n)]
        for back in {0, n // 2, n - 1}:
            st = [{'op': 'dv', 'n': m, 'b': ['x', names[i + 1] if i + 1 < n else names[back], '+']} for i, m in enumerate(names)]
            r.shuffle(st)
            jobs.append({'steps': st + [{'op': 'ev', 'n': names[0]}, {'op': 'ex', 'b': [names[-1], names[0]]}]})
            st = [{'op': 'df', 'n': m, 'a': ['a'], 'b': [names[i + 1] if i + 1 < n else names[back], '(', 'a', m, ')']} for i, m in enumerate(names)]
            r.shuffle(st)
            jobs.append({'steps': st + [{'op': 'ef', 'n': names[0]}, {'op': 'ex', 'b': [names[0], '(', 'x', ')', names[-1], '(', names[0], ')']}]})
    judge(chk, jobs, 'long cycles')
    chk.assume += ['worlds whose expansion is exponentially large are left out (an input filter)']


# ------------------------------------------------------------------------------------------------- C05

def c05(chk):
    toks = ['(', ')', ',', 'x', '[', '}']
    sigs = [[], ['a'], ['a', 'b'], ['...'], ['a', '...'], ['a', 'b', '...']]
    jobs = []
    n = scale(4, 6)
    for k in range(n + 1):
        for seq in itertools.product(toks[:6 if k <= 4 else 4], repeat=k):
            d, ok = 1, True
            for t in seq:
                d += (t == '(') - (t == ')')
                ok = ok and d >= 1
            if not ok:
                continue
            for s in sigs if k < 5 else sigs[1:2] + sigs[4:5]:
                b = ['<'] + [x for p in s for x in (['__VA_ARGS__', '|'] if p == '...' else [p, '|'])] + ['>']
                if d == 1:
                    jobs.append({'steps': [{'op': 'df', 'n': 'F', 'a': s, 'b': b},
                                           {'op': 'ex', 'b': ['F', '('] + list(seq) + [')', 'y']}]})
    judge(chk, jobs, 'all argument lists', ek=True)
    # parameter lists
    pt = ['a', 'b', '...', '1', '+', '__VA_ARGS__', '/* c */', ',', '"s"']
    jobs = []
    for k in range(4):
        for ps in itertools.product(pt, repeat=k):
            real = [p for p in ps if p != '/* c */']
            for b in (['a'], ['__VA_ARGS__'], ['b', 'x']):
                jobs.append({'steps': [{'op': 'df', 'n': 'F', 'a': list(ps), 'b': b}, {'op': 'ef', 'n': 'F'}]})
    judge(chk, jobs, 'all parameter lists', ek=True)
    rand(chk, scale(900, 12000), 'arity', kinds=('ex', 'ev', 'ef'), ek=True, steps=3, arity=.15, calls=.5, variadic=.4, braces=.2, empties=.25)
    rand(chk, scale(400, 5000), 'nested', ek=True, steps=3, arity=.03, calls=.7, variadic=.4, braces=.2, maxbody=4, steps_budget=700, length=60)
    rand(chk, scale(300, 5000), 'wide', kinds=('ex', 'ef'), ek=True, steps=3, wide=.8, arity=.05, calls=.5, variadic=.4, empties=.2, depth=2, steps_budget=350, length=60)
    chk.assume += ['with several errors present C does not say which one is reported; the model reports parameter list, body, then count']


# ------------------------------------------------------------------------------------------------- C06, C07

STRTOK = ['x', 'foo', '1', '0x1F', '1.5', '7u', '"s"', '""', '"a b"', '"q\\"t"', '"\\\\"', '"\\n"', "'c'", "'\\n'", "'\"'",
          "'\\''", 'L"w"', 'u8"e"', "L'x'", '+', '++', '-', '->', '<', '<<', '<<=', '=', '==', '(', ')', '[', ']', '{', '}',
          ';', ':', '?', '#', '##', '.', '...', '/', '*', '%', '&', '&&', '|', '!', '~', '^', '1abc', 'A', 'F', '/* c */', '\u00fcb', '"\u00fc"']


def wrap(args):
    out = []
    for i, a in enumerate(args):
        out += ([','] if i else []) + a
    return out


def balanced(ts):
    d = 0
    for t in ts:
        d += (t == '(') - (t == ')')
        if d < 0:
            return False
    return d == 0


def c06(chk):
    defs = [{'op': 'dv', 'n': 'A', 'b': ['zzz']}, {'op': 'df', 'n': 'F', 'a': ['q'], 'b': ['yyy', 'q']},
            {'op': 'df', 'n': 'S', 'a': ['a'], 'b': ['#', 'a']},
            {'op': 'df', 'n': 'T', 'a': ['a', '...'], 'b': ['#', '__VA_ARGS__', '+', '#', 'a', 'a']},
            {'op': 'df', 'n': 'X', 'a': ['a'], 'b': ['S', '(', 'a', ')']}]
    cases = [[]] + [[t] for t in STRTOK] + [list(p) for p in itertools.product(STRTOK, repeat=2)]
    r = random.Random('c06-%d' % SEED)
    for _ in range(scale(1500, 30000)):
        cases.append([r.choice(STRTOK + [',']) for _ in range(r.randint(3, 7))])
    cases = [c for c in cases if balanced(c)]
    jobs = []
    for i in range(0, len(cases), 6):
        st = list(defs)
        for c in cases[i:i + 6]:
            if ',' not in c:
                st.append({'op': 'ex', 'b': ['S', '('] + c + [')']})
            if len(c) != 2 or THOROUGH:
                st.append({'op': 'ex', 'b': ['T', '(', 'b', ','] + c + [')']})
                if ',' not in c and 'S' not in c:
                    st.append({'op': 'ex', 'b': ['X', '('] + c + [')']})
        jobs.append({'steps': st})
    judge(chk, jobs, 'all one and two token arguments')
    jobs = []
    for t in STRTOK + ['a', '__VA_ARGS__', 'b']:
        for tail in ([], ['a'], ['+']):
            for ps in (['a'], ['a', '...'], []):
                b = ['x', '#', t] + tail
                jobs.append({'steps': [{'op': 'df', 'n': 'F', 'a': ps, 'b': b}, {'op': 'ef', 'n': 'F'},
                                       {'op': 'ex', 'b': ['F', '(', 'y', ')'] if ps else ['F', '(', ')']}]})
        jobs.append({'steps': [{'op': 'df', 'n': 'F', 'a': ['a'], 'b': ['a', '#']}, {'op': 'ef', 'n': 'F'}, {'op': 'ex', 'b': ['F', '(', 'y', ')']}]})
    judge(chk, jobs, '# before every kind of token')
    rand(chk, scale(700, 10000), 'random', kinds=('ex', 'ef'), steps=3, strfy=.35, variadic=.3, strs=.25, comments=.1, calls=.3)
    chk.assume += ['the library sees tokens without the white space between them: a space in the string is required only where '
                   'the neighbouring spellings would otherwise read as different tokens, and allowed elsewhere']


PASTETOK = ['x', 'foo', 'L', 'u', 'u8', 'U', 'A', 'B', 'AB', 'F', '0', '1', '42', '7u', '0x1F', '0x', 'ull', 'L1', 'e5', '1.5', '1.', '.5', '1e', '-',
            '+', '=', '<', '>', '<<', '&', '|', '*', '/', '%', '!', '^', '.', '..', '#', ':', '"s"', '"a\\n"', "'c'", '(', ')', '[', '_', '_x', '__VA_ARGS__', '->', '++', '1abc', '\u00fc']


def c07(chk):
    defs = [{'op': 'dv', 'n': 'A', 'b': ['aa']}, {'op': 'dv', 'n': 'B', 'b': ['bb']}, {'op': 'dv', 'n': 'AB', 'b': ['ab', '!']},
            {'op': 'df', 'n': 'F', 'a': ['q'], 'b': ['ff', 'q']}, {'op': 'dv', 'n': 'Lx', 'b': ['lx']}, {'op': 'dv', 'n': 'x1', 'b': ['X1', 'x1']},
            {'op': 'df', 'n': 'fooF', 'a': ['q'], 'b': ['q', 'q']}]
    jobs = []
    T = [t for t in PASTETOK if t != '..' and t != '__VA_ARGS__']
    pairs = list(itertools.product(T, repeat=2))
    cat = {'op': 'df', 'n': 'CAT', 'a': ['a', 'b'], 'b': ['a', '##', 'b', '(', '1', ')']}
    ok = lambda t: t not in ('(', ')')
    for i in range(0, len(pairs), 5):
        st = defs + [cat]
        for x, y in pairs[i:i + 5]:
            if ok(x) and ok(y):
                st.append({'op': 'ex', 'b': ['CAT', '(', x, ',', y, ')', 'z']})
        jobs.append({'steps': st})
    judge(chk, jobs, 'all pairs of tokens as arguments')
    jobs = []
    for i in range(0, len(pairs), 4):
        st = list(defs)
        for j, (x, y) in enumerate(pairs[i:i + 4]):
            st.append({'op': 'df', 'n': 'P%d' % j, 'a': ['p'], 'b': [x, '##', y, '(', 'p', ')'] if '#' not in (x, y) else ['p']})
            st.append({'op': 'ex', 'b': ['P%d' % j, '(', '1', ')']})
            if THOROUGH and '#' not in (x, y):
                st.append({'op': 'dv', 'n': 'V%d' % j, 'b': ['k', x, '##', y, '(', '1', ')']})
                st.append({'op': 'ev', 'n': 'V%d' % j})
        jobs.append({'steps': st})
    judge(chk, jobs, 'all pairs of tokens in a body')
    # empty operands, chains, operators at the ends, ## from arguments
    jobs = []
    items = ['a', 'b', 'c', 'x', '1', '##', '#', 'A']
    for k in range(1, scale(6, 7)):
        bs = list(itertools.product(items[:8] if k < 5 else ['a', 'b', 'x', '##'], repeat=k))
        for b in bs:
            if '##' not in b:
                continue
            if k == 4 and not THOROUGH and hash(str(b) + str(SEED)) % 1 == 1:
                continue
            st = [{'op': 'dv', 'n': 'A', 'b': ['aa']}, {'op': 'df', 'n': 'P', 'a': ['a', 'b', 'c'], 'b': list(b)}]
            for args in ([['m'], ['A'], []], [[], [], ['1']], [['A', 'n'], [], ['1', 'A']]):
                st.append({'op': 'ex', 'b': ['P', '('] + wrap(args) + [')']})
            st.append({'op': 'ef', 'n': 'P'})
            jobs.append({'steps': st})
    judge(chk, jobs, 'all short replacement lists with ##')
    jobs = []
    for b in itertools.product(['x', '##', '1', 'A', '#'], repeat=3):
        jobs.append({'steps': [{'op': 'dv', 'n': 'A', 'b': ['aa']}, {'op': 'dv', 'n': 'V', 'b': list(b)}, {'op': 'ev', 'n': 'V'},
                               {'op': 'df', 'n': 'P', 'a': ['a', '...'], 'b': ['a', '##', '__VA_ARGS__', 'a', '__VA_ARGS__']},
                               {'op': 'ex', 'b': ['P', '('] + list(b) + [',', 'y', ')']},
                               {'op': 'ex', 'b': ['P', '(', 'y', ','] + list(b) + [',', 'z', ')']}]})
    judge(chk, jobs, 'object-like ## and ## from arguments')
    rand(chk, scale(700, 12000), 'random', kinds=('ex', 'ev'), steps=3, paste=.45, variadic=.2, empties=.3, calls=.3, comments=.03)
    chk.assume += ['where the pasted spelling is not a preprocessing token (undefined in C) no outcome is demanded beyond an ordinary return',
                   'several ## in one replacement list are evaluated left to right']


def c08(chk):
    r = export(chk, 'MCSym', SYM_CFG, 'instantiation law', timeout=800)
    judge(chk, [sym_job(x) for x in r], 'replay instantiation law')
    kinds = ('ef', 'ex')
    rand(chk, scale(700, 10000), 'plain', kinds=kinds, steps=2)
    rand(chk, scale(600, 10000), 'operators', kinds=kinds, steps=2, strfy=.2, paste=.25)
    rand(chk, scale(500, 8000), 'variadic', kinds=kinds, steps=2, variadic=.8, strfy=.08, paste=.08, va=.8)
    rand(chk, scale(400, 6000), 'nested', kinds=kinds, steps=1, calls=.65, strfy=.05, paste=.1, depth=4)
    rand(chk, scale(400, 6000), 'wide', kinds=kinds, steps=2, wide=.8, calls=.55, punct=.1, maxbody=4, variadic=.25, depth=2, steps_budget=350, length=60)
    chk.assume += ['the library keeps a ## or # on a parameter symbolic only as far as the documented interface says; where a symbolic '
                   'argument would have to be split, the outcome is left open']


SYM_CFG = '''SPECIFICATION Spec
CONSTANTS Worlds <- MCWorlds ExportC = TRUE
INVARIANTS Law Export
CHECK_DEADLOCK FALSE
'''


def sym_job(x):
    st = []
    for n, d in sorted(x['env'].items()):
        st.append({'op': 'd' + d['k'], 'n': n, 'a': d['a'], 'b': d['b']})
    for n, d in sorted(x['env'].items()):
        if d['k'] == 'f':
            st.append({'op': 'ef', 'n': n})
    st.append({'op': 'ex', 'b': x['q']})
    return {'steps': st}


CHECKS = {'C01': c01, 'C02': c02, 'C03': c03, 'C04': c04, 'C05': c05, 'C06': c06, 'C07': c07, 'C08': c08}
