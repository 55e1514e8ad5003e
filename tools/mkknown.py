"""writes known_findings.json (run by hand when a fix or a finding is added)"""
import json, os
F = '''C05 2849e0a brackets and braces grouped macro call arguments (F([,]) was one argument)
C02 fcc7dfd redefinition by a list that is a prefix or extension of the old one was not reported
C07 7176a25 operands of ## were macro-expanded before pasting
C05 13667df missing arguments of a variadic macro panicked
C07 c63f9ff # and ## tokens coming from an argument were treated as operators
C08 985c32e operands of a ## left unevaluated were macro-expanded
C03 f25b889 already finished tokens of an expansion were rescanned together with the following tokens
C21 b1c299a comments between the parts of a call or next to # and ## changed the result
C08 5224b9a ## between a macro argument and an empty argument stayed unevaluated
C06 4208ce6 forwarded variable arguments were stringified as the name __VA_ARGS__
C06 b0af275 order of arguments and text was lost in a stringified argument
C07 362b348 an invalid prefixed literal formed by ## panicked
C06 4081948 # without a parameter was accepted when expanding symbolically
C10 eef9fde hexadecimal escapes stopped after two digits
C10 1cd1803 universal characters were not encoded and too-large escapes were truncated
C10 0a4194c an ordinary string concatenated to a wide one was widened byte by byte
C06 431f2ac a stringified period merged with the following number
C07 4b8b083 ## at the start or end of a symbolically expanded macro was accepted
C07 c1ec99a a period or exponent sign was not pasted onto a preprocessing number
C08 7c09cce ## next to an unevaluated stringification was moved
C10 63d10b6 adjacent strings with different prefixes were joined as UTF-8 bytes
C15 ed12f1d string literals next to # operands were emitted as blocks inside concat!
C21 3dbcc55 wide strings separated by a comment were rejected
C12 f3f227e ! of a non-bool operand was typed bool
C12 0c75668 ~, - and + were applied to bool operands
C12 3d073ab unary plus was emitted
C12 9085056 a parenthesized argument before an operator was parsed as a cast
C19 0fe3f1f a constant division by zero panicked
C12 314c2bd integer and floating-point literals were folded or combined with different types
C12 2b70421 a cast left of < or << was not parenthesized
C12 ff8c77a conditions were cast to bool
C12 becc065 a block followed by an operator was emitted as a statement
C13 18710e9 a macro modifying an argument in place was exported as a function modifying its own copy
C13 233e5c3 the wrong operator was applied when assigning through a volatile pointer
C13 86b183d some compound assignments yielded no value
C13 32105a9 an assigned operand with side effects was evaluated twice; array elements and fields reached through volatile pointers were accessed without volatile
C12 8f69642 a shift was given the combined type of its operands
C14 0e66bfd the semicolon ending a do-while statement was rejected
C14 f7f10aa variables declared in a loop body were visible in its condition
C14 8a2e990 if ( x ) * y without a final semicolon was parsed as a call of if
C20 fdd9715 braces inside of an assembly template were not escaped
C20 efe49d3 % was treated as an operand in basic assembly and %% kept in extended assembly
C20 0f91680 inputs tied to an output were dropped or mixed up and operand references not renumbered
C20 c583970 a macro whose assembly writes to an argument was exported as a function
C20 c527673 clobber_abi was combined with outputs
C20 b0f46b4 asm without a final semicolon was parsed as a call
C20 580f32e assembly with operands or clobbers was emitted as global_asm
C13 5f4cd1e the object at the address of a volatile object or of a conditional volatile pointer was accessed without volatile
C13 2baebb4 an assigned operand was evaluated again after the assignment had changed it
C13 f1ae890 variables named prev or value were hidden in assignments
C13 072942f *++*pp and *(*pp)++ incremented the outer pointer
C16 042da1a const on a pointer was taken as const of what it points to, and const of what it points to was lost one level up
C16 af55425 a repeated volatile was turned into const
C16 643cee5 whatever followed a type in a string was ignored
C16 b5eb553 casts to const void, const bool or a const pointer were treated unlike casts to the type itself
C16 169a12b a declared function returning const void was given the return type c_void
C16 1791374 the generic arguments of a type were dropped
C16 a6a7381 sizeof, type names and other keywords were parsed as names
C18 baff371 assignments were accepted in variable-like macros
C17 d1f44e7 a target such as 1.78 or 1.80.0-nightly was not compared as a version, and function-like macros ignored some thresholds
C17 0d6f21b arrays and byte strings lacked the lifetime needed before 1.17
C17 6a99cf9 addr_of_mut! was used for targets before 1.51
C17 eb62d39 asm! was used for targets before 1.59
C17 c6763a9 conditions were emitted in constants for targets before 1.46
C17 dc05262 str::as_bytes was called in constants for targets before 1.39
C17 fc3a95e a string literal block was emitted as a statement when a cast or operator followed
C18 d026db0 a cast to void was emitted as a constant
C22 a7b3531 the name of a member was resolved as a variable of that name
C15 05e0d41 a parameter used as a type became an expr fragment
C15 eac16d1 stringifying a parameter which is a type or member made it an expression
C22 ab2c4cb arguments of known functions were not converted when their type differs from that of the parameter
C22 74eb7a8 f32, f64 and bool were not recognized when C types have a prefix
C15 57ea426 c_float and c_double were not recognized as the types float and double'''
fixed = []
for l in F.split('\n'):
    p, c, w = l.split(' ', 2)
    fixed.append({'property': p, 'commit': c, 'what': w, 'line': 'fixed: property=%s %s %s' % (p, c, w)})
known = [
    {'property': 'C10', 'key': 'bytes-as-text',
     'what': 'an unprefixed string literal with numeric escapes above \\x7f that form UTF-8, e.g. u"" "\\xc3\\xa9", is decoded when it takes on the '
             'prefix u, U or L of an adjacent literal: LitString::Ordinary holds bytes only, so the origin of the bytes is lost'},
    {'property': 'C12', 'key': 'literal-types',
     'what': 'integer literals are computed as mathematical integers and character literals as c_char, without regard to the types C gives them: '
             '-1U is emitted as -1, 7L - 9UL as -2, ~3u as !3, and operands narrower than int are not promoted'},
    {'property': 'C18', 'key': 'literal-types',
     'what': 'integer literals are computed as mathematical integers and character literals as c_char, without regard to the types C gives them, '
             'so the type declared for a constant made of them is not the type of the C expression: 9UL + w with unsigned int w is declared as c_uint'},
    {'property': 'C12', 'key': 'limits',
     'what': 'the sum or product of __INT_MAX__ and the like and an integer literal is computed in the corresponding unsigned type, which the fixture '
             'tests/fixtures/limits.rs asserts: __SCHAR_MAX__ * 3 overflows and __INT_MAX__ + -1 does not type-check'},
    {'property': 'C18', 'key': 'limits',
     'what': 'the sum or product of __INT_MAX__ and the like and an integer literal is declared as the corresponding unsigned type, which the fixture '
             'tests/fixtures/limits.rs asserts'},
    {'property': 'C17', 'key': 'offsetof',
     'what': 'the macro mem::offsetof! that __builtin_offsetof becomes exists in no version of Rust (it is mem::offset_of!, since 1.77); the '
             'fixture tests/fixtures/offsetof.rs asserts it'},
    {'property': 'C17', 'key': 'const-fn',
     'what': 'constants call mem::size_of, ptr::null, ptr::null_mut (const since 1.24) and as_ptr (const since 1.32) for older targets too'},
    {'property': 'C22', 'key': 'local-names',
     'what': 'the names of local variables are looked up like those of other objects, so a statement such as { int i = 1; f(i); } refers to the '
             'enumerator or function the caller knows by that name instead of the local variable'},
    {'property': 'C12', 'key': 'name-or-type',
     'what': '(name) op x, where the parser cannot tell name from a type, is read as a cast of op x and rewritten to a binary operation afterwards, '
             'which ignores the operators around it: 2 * (E0) + 1 becomes 2 * (E0 + 1)'},
]
d = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
json.dump({'known': known, 'fixed': fixed}, open(os.path.join(d, 'known_findings.json'), 'w'), indent=1)
