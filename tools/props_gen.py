"""C15-C19, C21, C22: the shape of the generated code."""
import json, os, random, re
import vlib
from props_cpp import export, scale
from vlib import SEED, THOROUGH


def judge(chk, jobs, name, module):
    ev = vlib.run_jobs(chk.binary, jobs)
    if ev:
        chk.sample(ev[len(ev) // 2]['steps'][:2])
    return vlib.validate(chk, module, ev, name)


def cx0(**k):
    c = {'target': '', 'ffi': '', 'trait': '', 'types': {}, 'fields': {}, 'enums': {}, 'funcs': {}, 'args': {}}
    c.update(k)
    return c


# ------------------------------------------------------------------------------------------------- C16
TYPE_CFG = '''SPECIFICATION Spec
CONSTANTS MaxW = %d MaxS = %d Alphabet = {%s}
INVARIANTS Symmetric Prints Pointer UsualIsType Export
CHECK_DEADLOCK FALSE
'''
INTW = ['const', 'volatile', 'unsigned', 'signed', 'long', 'short', 'int', 'char']
ALLW = INTW + ['void', 'bool', 'float', 'double', 'struct', 'T']
FFIS = ['', '', '::core::ffi', '::std::os::raw', 'ffi', 'a::b']
TRAITS = ['', '::core', '::std']
TYPES16 = [{'S': 'S', 'T': 'T'}, {'S': 'crate::sys::S', 'T': 'u32'}, {'S': '::m::Tag', 'T': 'uint32_t'}, {'S': 'S_', 'T': 'c_ulong'}, {'S': 'S', 'T': 'i64'}]


def type_job(form, ty, r, ps=()):
    types = r.choice(TYPES16)
    cx = cx0(ffi=r.choice(FFIS), trait=r.choice(TRAITS), types=types, target=r.choice(['', '', '1.50', 'nightly']))
    j = {'cx': cx, 'form': form, 'ty': ty, 'ps': [list(p) for p in ps]}
    if form == 'str':
        t = ty[0] if ty else ''
        for x in ty[1:]:
            t += x if x == '*' and r.random() < .5 else ' ' * r.choice([1, 1, 2]) + x
        cx['types'] = {'S': 'S', 'T': 'T'}
        j['steps'] = [{'op': 'ts', 't': t}]
        return j
    if form in ('cast', 'castfn'):
        a, b = ['x'], ['(', *ty, ')', 'x']
    elif form == 'null':
        a, b = [], ['(', *ty, ')', '0']
    elif form == 'sizeof':
        a, b = [], ['sizeof', '(', *ty, ')']
    elif form == 'decl':
        a, b = ['x'], [*ty, 'v', '=', 'x', ';']
    elif form == 'static':
        a, b = ['x'], ['static', *ty, 'v', '=', 'x', ';']
    elif form == 'fun':
        a, b = [], [*ty, 'f', '(']
        for i, p in enumerate(ps):
            b += ([','] if i else []) + [*p, 'a%d' % (i + 1)]
        b += [')', ';']
    if form == 'castfn':
        cx['args'] = {'M/x': 'f64' if ty[-1:] != ['*'] else '*mut f64'}
    j['steps'] = [{'op': 'df', 'n': 'M', 'a': a, 'b': b}, {'op': 'gf', 'n': 'M'}]
    return j


def c16(chk):
    r = random.Random('c16-%d' % SEED)
    q = lambda l: ','.join('"%s"' % x for x in l)
    a = export(chk, 'MCType', TYPE_CFG % (scale(4, 5), 0, q(INTW)), 'integer types')
    b = export(chk, 'MCType', TYPE_CFG % (scale(3, 3), scale(2, 4), q(ALLW)), 'all types')
    seqs = a + b
    jobs = [type_job('cast', o['t'], r) for o in seqs]
    jobs += [type_job(r.choice(['null', 'sizeof', 'str']), o['t'], r) for o in seqs if not o['ty'] and r.random() < scale(.3, 1)]
    judge(chk, jobs, 'casts', 'TraceTy')
    legal = [o['t'] for o in seqs if o['ty']]
    jobs = []
    for t in legal:
        for f in ('castfn', 'null', 'sizeof', 'decl', 'static', 'str', 'fun'):
            if f in ('decl', 'static') and t == ['void'] :
                continue
            jobs.append(type_job(f, t, r, [r.choice(legal) for _ in range(r.choice([0, 1, 1, 2, 3]))] if f == 'fun' else ()))
    judge(chk, jobs, 'other uses', 'TraceTy')
    # deep pointers
    jobs = []
    heads = [t for t in legal if '*' not in t]
    for _ in range(scale(1500, 12000)):
        t = list(r.choice(heads))
        for _ in range(r.randint(1, 8)):
            t += ['*'] + r.choice([[], [], ['const'], ['volatile'], ['const', 'volatile'], ['volatile', 'const']])
        jobs.append(type_job(r.choice(['cast', 'castfn', 'null', 'sizeof', 'decl', 'str']), t, r))
    judge(chk, jobs, 'deep pointers', 'TraceTy')
    chk.assume += ['long double is f64, the widest type Rust has',
                   'spellings in an unusual order of specifiers may be rejected, as may bare signed and unsigned, _Bool, unions and enumerations',
                   'volatile has no Rust type and is judged by the accesses (C13)']


# ------------------------------------------------------------------------------------------------- types of the caller
RTY_CFG = '''SPECIFICATION Spec
CONSTANTS Names = {"Kind","m","c_int","f64"} MaxLen = %d MaxP = %d Prefixes = {%s}
INVARIANTS Undone Start Export
CHECK_DEADLOCK FALSE
'''
PATHFORMS = {
    'const': ('const', None, ['E'], ['enums E']), 'const par': ('const', None, ['(', 'E', ')'], ['enums E']), 'const cond': ('const', None, ['1', '?', 'E', ':', 'E'], ['enums E']),
    'id': ('both', ['x'], ['x'], ['args M/x']), 'cond': ('both', ['x', 'y'], ['y', '?', 'x', ':', 'x'], ['args M/x', 'int M/y']), 'asg': ('both', ['x'], ['x', '=', 'E'], ['args M/x', 'enums E']),
    'call': ('ret', [], ['f', '(', ')'], ['funcs f']), 'call1': ('ret', ['x'], ['(', 'f', '(', 'x', ')', ')'], ['funcs f', 'int M/x']), 'field': ('ret', ['s'], ['s', '.', 'n'], ['struct M/s', 'fields W/n']),
    'arrow': ('ret', ['s'], ['s', '->', 'n'], ['pstruct M/s', 'fields W/n']), 'deref': ('ret', ['x'], ['*', 'x'], ['ptr M/x']), 'enum': ('ret', [], ['E'], ['enums E']), 'stmt': ('param', ['x'], ['g', '(', 'x', ')', ';'], ['args M/x', 'void g'])}


def paths(chk, forms):
    """whatever type the caller answers with is the one that is declared"""
    r = random.Random('paths-%s-%d' % (chk.pid, SEED))
    tys = export(chk, 'MCRTy', RTY_CFG % (3, 1, '"","m","::m","m::Kind"'), 'types of the caller') + export(chk, 'MCRTy', RTY_CFG % (2, scale(3, 4), '"","::m"'), 'pointer types of the caller')
    jobs = []
    for o in tys:
        for f in forms if THOROUGH else r.sample(forms, min(len(forms), 3)):
            form, args, body, say = PATHFORMS[f]
            cx = cx0(ffi=o['ffi'], trait=r.choice(TRAITS), target=r.choice(['', '', '1.50', 'nightly']))
            for w in say:
                k, n = w.split(' ')
                if k == 'args':
                    cx['args'][n] = o['s']
                elif k == 'int':
                    cx['args'][n] = 'i32'
                elif k == 'ptr':
                    cx['args'][n] = '*mut ' + o['s']
                elif k == 'struct':
                    cx['args'][n] = 'W'
                elif k == 'pstruct':
                    cx['args'][n] = '*mut W'
                elif k == 'enums':
                    cx['enums'][n] = [o['s'], r.choice(['m::E', 'E', '::a::E'])]
                elif k == 'fields':
                    cx['fields'][n] = o['s']
                elif k == 'funcs':
                    cx['funcs'][n] = [['i32'] if f == 'call1' else [], o['s']]
                elif k == 'void':
                    cx['funcs'][n] = [[o['s']], '()']
            jobs.append({'cx': cx, 'form': form, 'want': o['t'], 'ws': o['s'],
                         'steps': [{'op': 'dv', 'n': 'M', 'b': body, 'a': []}, {'op': 'gv', 'n': 'M'}] if args is None else [{'op': 'df', 'n': 'M', 'a': args, 'b': body}, {'op': 'gf', 'n': 'M'}]})
    judge(chk, jobs, 'types of the caller', 'TracePath')


# ------------------------------------------------------------------------------------------------- C17
VER_CFG = '''SPECIFICATION Spec
CONSTANTS Majors = {%s} Minors = {%s} Patches = {%s} Pres = {%s}
INVARIANTS Reads Monotonic NewestHasAll Export
CHECK_DEADLOCK FALSE
'''
NEG = '1000'      # no such part


def versions(chk):
    j = ','.join
    edge = [16, 17, 18, 23, 24, 26, 31, 32, 33, 38, 39, 45, 46, 50, 51, 58, 59, 60, 76, 77, 78, 79, 82, 84, 99]
    ms = range(0, 130) if THOROUGH else edge
    out = export(chk, 'MCVer', VER_CFG % ('0,1,2', j([NEG, '0', '1', '9'] + [str(m) for m in ms]), j([NEG, '0', '1']), '"","nightly","beta.1"'), 'versions')
    return [o['t'] for o in out]


def c17(chk):
    import props_sem as ps
    r = random.Random('c17-%d' % SEED)
    vs = versions(chk)
    T = ps.T
    macros = []
    def var(b, typed=()):
        macros.append(ps.job(b, None, typed))
    def fun(b, args=(), typed=(), at=()):
        macros.append(ps.job(b, list(args), typed, at))
    strs = ['"abc"', '""', '"a" "b"', '"a\\0b"', '"\\xff"', 'u8"x"', 'u"x"', 'U"x"', 'L"x"', 'u8"\u00e9" "z"', 'u"\U0001F34C"', 'L"\u00e9"', '"\u732b"', '( const char * ) "x"',
            '( char * ) "x"', '( char * const ) "x"', '( int * ) "s"', '"\\\\" "\\n"', '"\\0"', '"" ""']
    for s in strs:
        var(T(s))
        fun(T(s))
        fun(T(s), ['a'])
        fun(T('f ( %s )' % s))
    for n in range(scale(20, 200)):
        p = r.choice(['', '', '', 'u8', 'u', 'U', 'L'])
        var([p + '"' + ''.join(r.choice(['a', 'b ', '\\n', '\\0', '\u00e9', '\\x7f', '%', "'"]) for _ in range(r.randint(0, 9))) + '"'])
    for b in ['sizeof ( int )', '( char * ) 0', '( const void * ) 0', 'sizeof ( long ) * 2', 'a ? 1 : 2', 'a ? b : 0', '! a', 'a && b', '( unsigned ) 1', '1', '1.5', "'a'", '- 1',
              '( a ? 1 : 2 ) + b', '( size_t ) a', 'sizeof ( size_t )', '( long double ) 1', '( void ) a', 'a == 1 ? b : 2', '& a', 'undefined', '18446744073709551615']:
        var(T(b), ps.NAMED18)
        fun(T(b), [], ps.NAMED18)
    fx = ['& a', '& * p', '& p [ 1 ]', '& ps -> n', '& s . m', 'f ( & a )', '* & a', '* ++ p', '* p ++', '( * p ) ++', '* p = 1', '* p += 2', 'p [ f ( 1 ) ] += 2', '* p ++ = 3',
          '# a', '# a "x"', '"x" # a', '__FILE__', '__FILE__ "x"', '__LINE__', 'a = b', 'a += 1', 'a ++', '++ a', 'a ? b : 1', 'if ( a ) b = 1 ;', 'do { a ++ ; } while ( a < 3 ) ;', 'int i = a ; b = i ;',
          'static int i = 1 ;', 'int g ( int a ) ;', 'void h ( char * s , const int * t ) ;', 'asm ( "nop" )', 'asm ( "nop" ) ;', 'asm volatile ( "mov %0, %1" : "=r" ( a ) : "r" ( b ) )',
          'asm ( ".globl f" ) ;', '__builtin_offsetof ( S , n )', '__builtin_offsetof ( a , b )', '( size_t ) a', 'sizeof ( size_t )', 'sizeof ( a )', '* ( volatile int * ) p', '* ( volatile int * ) p = 1',
          '* ( volatile int * ) p += 1', '( * ( volatile int * ) p ) ++', '( ( volatile struct S * ) ps ) -> n', '( ( volatile struct S * ) ps ) -> n = 2', '& ( ( volatile struct S * ) ps ) -> n',
          '( char * ) 0', '( const int * ) 0', '- a', '~ a', '! a', 'a , b', '{ a = 1 ; b = 2 ; }', '']
    for b in fx:
        for typed, at in ((ps.NAMED18, ()), ((), ()), (['f', 'p', 'ps', 's'], ['a', 'b'])):
            fun(T(b) if b else [], ['a', 'b'], typed, at)
    ts = ps.trees(chk, 2, ['bin8', 'asg', 'inc', 'der', 'idx', 'ptr', 'neg', 'cast', 'cond'], 'expressions of two operators')
    for t in ts if THOROUGH else r.sample(ts, min(len(ts), 150)):
        b = ps.fill(t, r, ['a', 'b', '1'], [['a'], ['b'], ['*', 'p']], ['p', 'q'])
        fun(b, ['a', 'b'], ps.NAMED18, r.choice([(), ['a', 'b']]))
        var(ps.fill(t, r, ['a', 'b', '1'], [['a'], ['b']], ['p', 'q']), ps.NAMED18)
    def go(ms, targets, name):
        jobs = []
        for m in ms:
            for t in targets:
                j = json.loads(json.dumps(m))
                j['cx'].update(target=t, toks=True)
                jobs.append(j)
        ev = vlib.run_jobs(chk.binary, jobs)
        out = []
        for i in range(0, len(ev) - len(targets) + 1, len(targets)):
            e = ev[i]
            e['runs'] = [{'t': t, 'r': ev[i + k]['steps'][1]['r']} for k, t in enumerate(targets)]
            out.append(e)
        chk.sample(out[0]['steps'][:1])
        return vlib.validate(chk, 'TraceVer', out, name)
    few = ['', 'nightly', '1.16.0', '1.17.0', '1.17', '1.22.1', '1.26.0-beta.1', '1.31.1', '1.33', '1.38.0', '1.39.0', '1.45.2', '1.46.0', '1.50.0', '1.51.0', '1.51.0-nightly', '1.58', '1.58.1', '1.59',
           '1.59.0', '1.59.0-beta.2', '1.60.0-nightly', '1.76.0', '1.77.0', '1.99.9', '2.0.0', '1.9.0', '0.12.0', '1.590.0', '1', '2', '1.59.0-nightly']
    go(macros, few, 'every kind of code, selected targets')
    key = [m for m in macros if m['steps'][0]['b'] in ([['"abc"'], ['u"x"'], ['u8"x"'], ['L"x"'], ['"a\\0b"']] + [T(b) for b in ('& a', 'a ? 1 : 2', 'a ? b : 0', 'asm ( "nop" ) ;', '# a', 'sizeof ( int )', '* p ++ = 3', '__FILE__ "x"')])]
    go(key, [''] + vs, 'selected code, every target')
    chk.assume += ['the paths a caller gives for FFI types and traits exist for the target', 'a pre-release of the version a form appeared in may or may not have it',
                   'targets that are no version of Rust are not judged']



# ------------------------------------------------------------------------------------------------- C15, C22
FN_CFG = '''SPECIFICATION Spec
CONSTANTS Atoms = {%s} Atoms2 = {%s} Pars = {%s}
INVARIANTS Decided Exclusive OwnIsMacro Variadic Export
%sCHECK_DEADLOCK FALSE
'''
NATOMS = 31


def fn_cx(args, known, own=False, ffi=''):
    """a context that knows the parameters, variables and functions in `known`"""
    import props_sem as ps
    pre = lambda t: re.sub(r'\b(c_\w+)', ffi + r'::\1', t) if ffi else t
    cx = cx0(ffi=ffi, types={'S': 'S', **{n: d['r'] for n, d in ps.W['named'].items()}})
    for n in known:
        d = ps.W['vars'].get(n) or ps.W['aggs'].get(n)
        if d and n in args:
            cx['args']['M/' + n] = pre(d['r'])
        elif d:
            cx['enums'][n] = [pre(d['r']), n]
        elif n in ps.W['fns']:
            f = ps.W['fns'][n]
            cx['funcs'][n] = [[pre(t) for t in f['rps']], pre(f['r'])]
        elif n in ps.W['consts']:
            cx['enums'][n] = [pre(ps.W['consts'][n]['r']), ps.W['consts'][n]['e']]
    for f, d in ps.W['fields'].items():
        cx['fields']['S/' + f[2:]] = pre(d['r'])
    if own:
        cx['funcs']['M'] = [[], '()']
    return cx


def fn_job(body, args, known, own=False, ffi=''):
    return {'cx': fn_cx(args, known, own, ffi), 'must': False, 'len': False,
            'steps': [{'op': 'df', 'n': 'M', 'a': list(args), 'b': list(body)}, {'op': 'gf', 'n': 'M'}]}


REST = ['h', 'fl', 'fv', 'fd', 'fp', 'ps']


def fn_worlds(chk, name, atoms, atoms2, pars, prop):
    out = export(chk, 'MCFn', FN_CFG % (','.join(map(str, atoms)), ','.join(map(str, atoms2)), ','.join(map(str, pars)), 'PROPERTY Learning\n' if prop else ''), name, timeout=800)
    jobs = []
    for i, o in enumerate(out):
        k = set(o['th']) - {'own', 'rest'} | {'E0'} | (set(REST) if 'rest' in o['th'] else set())
        jobs.append(fn_job(o['b'], o['a'], k, 'own' in o['th'], ['', '', '::core::ffi', 'ffi'][i % 4]))
    return jobs


FATOMS = ['a', 'b', 'l', 'x', 'y', 'u', 'p', 'E0', 'E2', '1', '2.5', "'a'", '"s"', 'v', 'ps->n', '*p', 'f ( a )', 'f ( u )', 'f ( l )', 'fl ( a )', 'fl ( u )', 'fl ( l )', 'fd ( z )',
          'fd ( x )', 'fd ( 1 )', 'fd ( a )', 'fp ( p )', 'fp ( & a )', 'fp ( ( int * ) 0 )', 'fv ( a )', 'g ( a , 1 )', 'g ( 1 , b )', 'g ( a , l )', 'h ( )', 'a == b', "f ( 'a' )", 'fl ( E0 )', 'fl ( E2 )',
          '( long ) a', 'sizeof ( a )', '- x', '! a', 'k ( a )', 'a = 2', 'u ++', 's . m', 'f ( f ( a ) )', 'f ( ( a ) )', 'fl ( f ( a ) )', 'fl ( a == b )', 'f ( - 1 )', 'fl ( 1L )', 'a ## b', '# l']


def c15(chk):
    import props_sem as ps
    r = random.Random('c15-%d' % SEED)
    al = list(range(1, NATOMS + 1))
    jobs = fn_worlds(chk, 'one thing', al, [], range(1, 10), True)
    ps.judge(chk, jobs, 'one thing', 'TraceFn')
    second = [2, 5, 6, 10] if not THOROUGH else [2, 4, 5, 6, 7, 8, 10, 14, 19, 21, 22, 27]
    jobs = fn_worlds(chk, 'two things', al, r.sample(second, 2) if not THOROUGH else second, [1], False)
    ps.judge(chk, jobs, 'two things', 'TraceFn')
    ps.judge(chk, fn_random(r, scale(3000, 30000)), 'random', 'TraceFn')
    paths(chk, ['id', 'cond', 'stmt', 'asg', 'call'])
    chk.assume += ['a function-like macro with local variables, or whose value has the type of a literal or needs implicit conversions, may be exported in either form']


NAMES15 = ['a', 'b', 'c', 'l', 'x', 'y', 'z', 'u', 'p', 'v', 'ps', 's', 'f', 'g', 'h', 'fl', 'fd', 'fv', 'fp', 'E0', 'E2', 'm']


def fn_random(r, n, known=.8):
    import props_sem as ps
    jobs = []
    for _ in range(n):
        parts = [re.sub(r'([*]|->)', r' \1 ', r.choice(FATOMS)).split() for _ in range(r.choice([1, 1, 2, 2, 3]))]
        k = r.random()
        if k < .5:
            b = parts[0]
            for q in parts[1:]:
                b = ['(', *b, ')', r.choice(['+', '-', '*', '==', '&&', '<<', '|', ',']), '(', *q, ')']
        elif k < .65:
            b = [r.choice(['f', 'fl', 'fd', 'fv', 'k']), '(', *parts[0], ')']
        elif k < .9:
            b = ['{'] + [t for q in parts for t in q + [';']] + ['}']
        else:
            b = ['if', '(', *parts[0], ')', *parts[-1], ';']
        names = [t for t in dict.fromkeys(b) if t in NAMES15]
        args = [t for t in names if t in ps.W['vars'] and r.random() < .7]
        if r.random() < .1:
            args += r.sample([q for q in ['b', 'l', 'w', 'd'] if q not in args], 1)
        if r.random() < .05:
            args += ['f'] if 'f' not in args else []
        r.shuffle(args)
        if r.random() < .06:
            args += ['...']
        kn = {t for t in names + args if r.random() < known}
        jobs.append(fn_job(b, args, kn, r.random() < .05, r.choice(['', '', '::core::ffi'])))
    return jobs


def noise(cx, body, args, r):
    """the same context, answering for names the macro does not use: other names, members, parameters, local variables, tags"""
    c = json.loads(json.dumps(cx))
    ffi = c['ffi'] + '::' if c['ffi'] else ''
    ty = lambda: r.choice([ffi + 'c_int', ffi + 'c_uint', 'f64', 'bool', '*mut ' + ffi + 'c_int', 'S', 'u8'])
    fun = lambda: [[ty() for _ in range(r.choice([0, 1, 1, 2]))], r.choice([ty(), '()'])]
    fresh = ['zz', 'M2', 'aa', 'E', 'f2', 'NULL', 'main', 'i32', 'c_int', 'E00', 'ff']
    members = [body[i + 1] for i in range(len(body) - 1) if body[i] in ('.', '->')]
    members = [m for m in members if not any(body[i] == m and (i == 0 or body[i - 1] not in ('.', '->')) for i in range(len(body)))]
    tags = [body[i + 1] for i in range(len(body) - 1) if body[i] == 'struct']
    tags = [t for t in tags if not any(body[i] == t and (i == 0 or body[i - 1] != 'struct') for i in range(len(body)))]
    locs = [body[i] for i in range(1, len(body) - 1) if body[i + 1] == '=' and body[i - 1] in ('int', 'long', '*', 'unsigned') and body[i] not in args and body.index(body[i]) == i]
    if r.random() < .9:
        locs = []
    for n in r.sample(fresh, 4) + members + tags + [a for a in args if a != '...'] + locs:
        if n not in c['enums']:
            c['enums'][n] = [ty(), r.choice(['W::' + n, '7'])]
        if n not in c['funcs']:
            c['funcs'][n] = fun()
        if n in fresh and n not in ('i32', 'c_int') and n not in c['types'] or n in members:
            c['types'][n] = ty()
    for a in list(args) + fresh[:2]:
        c['args']['M2/' + a] = ty()
        if 'M/' + a in c['args'] or a in fresh:
            c['args']['N/' + a] = c['args']['m/' + a] = ty()
    c['args']['M/zz'] = ty()
    for m in members + ['zz']:
        c['fields']['R/' + m] = ty()
        c['fields']['s/' + m] = ty()
    c['fields']['S/zz'] = ty()
    return c


def two(j, r):
    """generate under the context and under one that answers for other names as well"""
    j['cx']['toks'] = True
    s = j['steps']
    for f in list(j['cx']['fields']):
        if r.random() < .15:
            del j['cx']['fields'][f]
    n = noise(j['cx'], s[0]['b'], s[0].get('a', []), r)
    s.append({**s[1], 'cx': n})
    return j


def c22(chk):
    import props_sem as ps
    r = random.Random('c22-%d' % SEED)
    # calls
    jobs = []
    fs = ['f', 'g', 'h', 'fl', 'fd', 'fv', 'fp', 'k']
    ar = ['a', 'u', 'l', 'x', 'z', 'p', 'E0', 'E2', 'm', '1', '2.5', "'a'", '( int * ) 0', 'a + 1', '( long ) a', 'f ( a )', 'fd ( x )', 's . n', 'ps -> k', '* p', 'a == b', '- 1', '- x', 'v', '"s"', '( char ) a', '0x10', '3u', '1.5f']
    for f in fs:
        for n in range(4):
            for _ in range(scale(60, 400) if n else 2):
                b = [f, '('] + ' , '.join(r.choice(ar) for _ in range(n)).split() + [')']
                if r.random() < .2:
                    b = b + [r.choice(['+', '*', '<', '==', '&&'])] + r.choice(['1', 'a', 'x', 'l', 'E0']).split()
                elif r.random() < .1:
                    b = ['if', '(', *b, ')'] + r.choice(['fv ( a ) ;', 'k ( ) ;']).split()
                names = {t for t in b if ps.ID.match(t)}
                args = [t for t in dict.fromkeys(b) if t in ps.W['vars'] and r.random() < .6]
                kn = {t for t in names if r.random() < .85}
                jobs.append(fn_job(b, args, kn, False, r.choice(['', '', '::core::ffi', 'libc'])))
    # parameters nothing else is known of, passed on
    for f in fs:
        for n in range(1, 4):
            for _ in range(scale(8, 60)):
                q = r.sample(['a', 'u', 'l', 'x', 'z', 'p', 'b', 'v'], n)
                b = [f, '('] + ' , '.join(q).split() + [')']
                if r.random() < .2:
                    b = ['{', *b, ';', '}']
                jobs.append(fn_job(b, r.sample(q, n), {f} | {t for t in q if r.random() < .4}, False, r.choice(['', '::core::ffi'])))
    ps.judge(chk, jobs, 'calls', 'TraceFn')
    ps.judge(chk, fn_random(r, scale(2500, 30000), .95), 'random', 'TraceFn')
    # one thing after the other becomes known
    jobs = fn_worlds(chk, 'one thing', range(1, NATOMS + 1), [], [1, 4, 9], False)
    ps.judge(chk, jobs, 'one thing', 'TraceFn')
    # other names
    pairs = [two(j, r) for j in fn_random(r, scale(2500, 30000), .7) + r.sample(jobs, min(len(jobs), scale(600, 2000)))]
    for b, a in [('{ int i = a ; f ( i ) ; }', 'a'), ('{ int i = 1 ; i ; }', ''), ('int i = 1 ; fv ( i ) ; { int i = 2 ; fv ( i ) ; }', ''), ('{ long n = s . n ; fl ( n ) ; }', ''), ('{ static int q2 = 1 ; q2 += a ; }', 'a'),
                 ('do { int i = a ; f ( i ) ; } while ( a ) ;', 'a'), ('if ( a ) { int i = 1 ; fv ( i ) ; } else { int j = 2 ; fv ( j ) ; }', 'a'), ('( ( struct S * ) p ) -> n', 'p'), ('sizeof ( struct S )', ''),
                 ('s . m + s . n', ''), ('s . r [ 1 ]', ''), ('ps -> o -> n', 'ps'), ('ps -> n = a', 'a'), ('s . m ++', ''), ('& ps -> m', ''), ('a ( 1 )', 'a'), ('( a ) 1', 'a'), ('a . n', 'a'), ('s . a', 'a'),
                 ('int g ( int a , long b ) ;', 'b'), ('# a', 'a'), ('a ## b', 'a b'), ('x ## a', 'a'), ('asm ( "nop" : : "r" ( a ) ) ;', 'a'), ('( ( volatile struct S * ) p ) -> n = 1', 'p')]:
        for kn in ([], ['a', 'f', 'fv', 'fl', 'p', 's', 'ps', 'b', 'i']):
            for _ in range(scale(3, 10)):
                pairs.append(two(fn_job(b.split(), a.split(), kn), r))
    g = ps.Gen(r, ['E0', 'E1', 'E2', 'm', '1', '2L', "'a'", '1.5', ['(', 'T0', ')', '1']])
    for _ in range(scale(1000, 10000)):
        b = g.expr(r.randint(1, 3))[0]
        j = {'cx': fn_cx([], {t for t in b if r.random() < .9}), 'must': False, 'len': False, 'steps': [{'op': 'dv', 'n': 'M', 'b': b}, {'op': 'gv', 'n': 'M'}]}
        pairs.append(two(j, r))
    judge(chk, pairs, 'answers for other names', 'TraceFn')
    paths(chk, [f for f in PATHFORMS if f != 'const par'])
    chk.assume += ['conversions that lose information are not judged', 'a variable, function or type of the same name as another of these cannot exist in C']


CHECKS = {'C15': c15, 'C16': c16, 'C17': c17, 'C22': c22}
