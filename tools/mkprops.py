import json
P=[]
def p(id,title,st,over,text,why,files,mech,observe,state=()):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=n,meaning=m,where=w) for n,m,w in state],
        mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None)))
MS='src/macro_set/mod.rs'
tab=[('macro table','which names are currently defined, as which kind, with which parameters and replacement list',MS)]
p('C01','The macro table follows the history of definitions',
 'After any sequence of definitions and undefinitions, expanding a name uses its most recent definition that has not been undefined, and a name is never variable-like and function-like at the same time. Undefining reports true exactly when a macro of that kind was defined, and affects no other name or kind. Expanding a name that is not currently defined as the requested kind reports that the macro was not found.',
 ['histories'],'every sequence of define/undefine/expand calls over both kinds of macros, any names and bodies',
 'The unit tests define each name once or twice in one fixed order; the interplay of the two kinds, undefinition and later use through other macros is a history property.',
 [MS],[('define_var_macro / define_fn_macro remove the other kind before inserting',MS),('undefine_*_macro',MS)],['return values of define/undefine/expand calls'],tab)
p('C02','Redefinitions are reported exactly when the definition changes',
 'Defining a macro reports a redefinition exactly when the name was already defined and the new definition differs in kind, parameter list or replacement list, where white space and comments do not count as a difference. Defining the same macro again is not a redefinition, and the new definition always takes effect.',
 ['histories','inputs'],'every pair of successive definitions of a name in any history, with any parameter and token lists',
 'One unit test per case with single-token edits; it cannot cover prefixes, comment placement and kind changes for all lists.',
 [MS],[('comparison in define_var_macro / define_fn_macro',MS),('is_whitespace',MS)],['bool returned by define_var_macro and define_fn_macro'],tab)
p('C03','Macro expansion is that of the C preprocessor',
 'Expanding a token sequence or a variable-like macro yields exactly the tokens that ISO C macro replacement yields for the same macros: arguments are fully replaced before substitution, the result is rescanned together with the tokens that follow, and a function-like name without an argument list is left alone. No token is lost, added, reordered or altered.',
 ['inputs','programs'],'every set of macro definitions and every token sequence for which ISO C defines the result',
 'The space of mutually nested macro definitions is infinite; the tests contain about forty hand-picked examples.',
 [MS],[('expand_macro_body rescans the unfinished end of an expansion',MS),('expand_arguments',MS)],['MacroSet::expand, MacroSet::expand_var_macro'],tab)
p('C04','Expansion terminates and never re-expands a name inside itself',
 'Every expansion terminates, also when macros refer to themselves or to each other in cycles. A name that comes from the replacement of that same name is left as it is, while other occurrences of the name are still replaced.',
 ['inputs','programs'],'all cyclic and acyclic reference structures between macros, including recursion through arguments and through tokens following a call',
 'Termination and the blue-paint rule quantify over all reference graphs; tests use two or three fixed cycles.',
 [MS],[('set of names not to be replaced, passed down and extended per macro',MS),('NonReplacable tokens',MS)],['MacroSet::expand*'],
 [('names being replaced','names whose replacement is in progress',MS)])
p('C05','Call arguments are collected and counted as in C',
 'A call of a function-like macro is split into arguments at the commas outside nested parentheses only; an ellipsis collects all remaining arguments including their commas. A call with the wrong number of arguments and a malformed parameter list or body are reported as the matching error naming the macro and the counts, and well-formed ones are never rejected.',
 ['inputs'],'every call and every parameter list, including empty, nested and bracketed arguments, variadics and arity 0',
 'The tests cover a few arities with simple arguments.',
 [MS],[('collect_args',MS),('tokenize_arg_names and arity checks in expand_fn_macro_body',MS)],['expansion results and ExpansionError values'])
p('C06','Stringification yields the spelling of the argument',
 'A parameter after # is replaced by one ordinary string literal holding the spelling of the unexpanded argument, with the text of string and character literals kept so that they read the same, comments left out, and white space only where it separates tokens. # in front of anything but a parameter is an error.',
 ['inputs'],'every argument token sequence, including literals with escapes, variadic arguments, empty arguments and nested calls',
 'Tests stringify four short token lists.',
 [MS,'src/ast/stringify.rs'],[('stringify',MS)],['string literal tokens in expansion results'])
p('C07','Concatenation pastes the unexpanded operands into one token',
 'x ## y is replaced by the single preprocessing token whose spelling is the last token of x followed by the first token of y, with the operands not macro-expanded beforehand, empty arguments acting as nothing, and the result available for further replacement. ## at the start or end of a replacement list is reported as an error, and ## coming from an argument is an ordinary token.',
 ['inputs'],'every chain of ## over identifiers, numbers, literals, punctuation, parameters and empty arguments',
 'Tests paste a dozen fixed token pairs.',
 [MS],[('expand_concat and Token::concat',MS)],['expansion results'])
p('C08','A symbolic function macro agrees with every call of it',
 'Expanding a function-like macro without a call reports its parameters in order and a body in which every parameter occurrence is a placeholder with the index of that parameter; a # or ## that depends on an argument stays in place. Putting tokens that are not macro names in place of the placeholders gives the same result as calling the macro with these tokens.',
 ['inputs','programs'],'every function-like macro in every macro set, and every choice of argument tokens that are not macros',
 'Tests compare single hand-expanded bodies.',
 [MS],[('tokenize, expand_fn_macro, detokenize',MS)],['MacroSet::expand_fn_macro and MacroSet::expand'])
L='src/ast/literal/'
p('C09','Integer literals keep their value and type suffix',
 'A token that is a valid C integer literal is read with exactly its mathematical value in every base, and with the type its suffix names. The emitted Rust literal has the same value; values too large are rejected rather than wrapped, and tokens that are not C integer literals are not accepted as integers.',
 ['inputs'],'every digit string, base prefix and suffix combination, also when formed by ##',
 'A handful of literals are tested.',[L+'int.rs'],[('LitInt::parse_str',L+'int.rs')],['literal tokens and the generated Rust constant'])
p('C10','Character and string literals keep their exact units',
 'A character or string literal with any encoding prefix and any escape sequences denotes exactly the code units C gives it, and adjacent strings are concatenated unit by unit. The generated Rust constant contains exactly these units followed by one terminating zero, and nothing is dropped, re-encoded or escaped twice.',
 ['inputs'],'all sequences of characters and escapes under all five prefixes, and all concatenations of strings',
 'Tests check single escapes and ASCII text.',[L+'char.rs',L+'string.rs'],[('escaped_char, LitString parsing and concatenation',L+'string.rs'),('string emission',L+'string.rs')],['literal tokens and generated byte/array literals'])
p('C11','Floating-point literals keep their value and width',
 'A valid C decimal floating literal is read as the nearest value of the type its suffix names, and the emitted Rust literal parses back to that same value. Other spellings are not accepted as floating literals.',
 ['inputs'],'all digit, fraction, exponent and suffix combinations within the range of the type',
 'A few literals are tested.',[L+'float.rs'],[('LitFloat::parse',L+'float.rs')],['literal tokens and the generated Rust constant'])
p('C12','Operators keep precedence, grouping and value',
 'The Rust expression generated for a C constant expression groups operands as C precedence and associativity do, and evaluates to the value the C expression has; folding constants never changes the value. Parentheses in the source are never lost when they matter.',
 ['inputs','programs'],'all expressions over the supported operators, of any nesting, with values for which C defines the result',
 'Tests check pairs of operators; grouping errors need particular triples and nestings.',
 ['src/ast/expr.rs','src/ast/binary_expr.rs','src/ast/unary_expr.rs','src/ast/ternary_expr.rs'],[('parse_term_prec1..14','src/ast/expr.rs'),('folding in finish','src/ast/binary_expr.rs')],['generated Rust expressions'])
p('C13','Assignments and increments keep their effect and value',
 'For assignments, compound assignments, increments and decrements, also nested inside other expressions and through pointers, fields and array elements, the generated Rust performs the same reads and writes of the same objects in the same order and yields the same value as the C expression. Accesses through volatile pointers stay volatile.',
 ['inputs','programs'],'all lvalue forms and assignment operators, prefix and postfix, nested in expressions, from any initial store',
 'Tests compare token output of a few forms.',
 ['src/ast/binary_expr.rs','src/ast/unary_expr.rs','src/ast/expr.rs'],[('assignment emission','src/ast/binary_expr.rs'),('increment emission','src/ast/unary_expr.rs')],['generated Rust code'])
p('C14','Statements keep their control flow',
 'The Rust generated for a macro body made of blocks, conditionals, loops, declarations and expression statements executes the same sequence of effects as the C statements: the same branch is taken, loops run their bodies the same number of times and in the right order relative to the test, and an else belongs to the nearest if.',
 ['inputs','programs'],'all statement trees over the supported forms and all initial stores',
 'Tests parse single statements.',
 ['src/ast/statement.rs','src/ast/var_decl.rs','src/macro_body.rs'],[('Statement::parse / to_tokens','src/ast/statement.rs')],['generated Rust code'])
p('C15','Function-like macros are exported in the right form',
 'A function-like macro becomes a Rust function exactly when all its parameter types are known, it is not variadic, and its body refers only to things a function can refer to; otherwise it becomes a Rust macro. The export has the name of the C macro, one parameter per C parameter in order with the matching type or fragment, every use of a parameter refers to that parameter, and a function has the type of its value as return type.',
 ['inputs','configurations'],'all macro bodies and all answers of the code generation context about types, functions and variables',
 'Tests cover a few signatures with a fixed context.',
 ['src/fn_macro.rs','src/ast/macro_arg.rs','src/ast/var.rs'],[('FnMacro::generate','src/fn_macro.rs'),('argument type inference','src/ast/mod.rs')],['FnMacro::generate output'])
p('C16','C types translate to the matching Rust types',
 'Every C type name the library accepts is translated to the Rust type of the same meaning: signedness and width as spelled in any order of specifiers, each pointer level with the constness of what it points to, and tagged and named types under their own name. Casts, sizeof and declarations use that same translation, and sequences that are not C types are not accepted as types.',
 ['inputs','configurations'],'all specifier orders, qualifiers, pointer depths and named types, with and without a prefix for the C types',
 'Tests check the common spellings.',
 ['src/ast/ty.rs','src/ast/cast.rs'],[('Type::parse','src/ast/ty.rs'),('Type::to_tokens','src/ast/ty.rs')],['Type parsing and generated types'])
p('C17','Generated code respects the Rust version targeted',
 'Code generated for a given minimum Rust version uses only forms available in that version and, for strings, the most specific constant type that version supports. The choice depends on the version only, and changing the version never changes the value denoted.',
 ['configurations','inputs'],'all version strings and all string constants',
 'Tests use one or two versions.',
 ['src/codegen/mod.rs',L+'string.rs','src/ast/unary_expr.rs','src/context.rs'],[('rust_target comparisons','src/context.rs')],['generated code per rust_target'])
p('C18','The declared type of a constant fits its value',
 'The type generated for a variable-like macro is the type of the C expression as the usual rules give it, whenever a type is generated, and the generated value is of that type. A macro whose value is not a constant expression is rejected rather than emitted as a constant.',
 ['inputs','programs'],'all constant expressions over literals, casts, operators and names known to the context',
 'Tests check the type of single literals.',
 ['src/var_macro.rs','src/ast/expr.rs','src/ast/ty.rs'],[('VarMacro::generate','src/var_macro.rs')],['type and value returned by VarMacro::generate'])
p('C19','No input makes the library panic or emit malformed Rust',
 'For every sequence of tokens, whatever its content, each operation returns a result or an error and never panics or hangs. Whatever code it does generate is accepted by the Rust parser as an item, a type or an expression.',
 ['inputs','programs'],'all token sequences and macro sets, well-formed or not',
 'Tests use well-formed input.',
 ['src/macro_set/mod.rs','src/ast','src/fn_macro.rs','src/var_macro.rs'],[('error returns','src/error.rs')],['all public calls'])
p('C20','Inline assembly keeps its template and operands',
 'An inline assembly statement is translated to one Rust asm invocation with the same instruction text, in which every operand reference denotes the same operand as in C, with the direction, register class, clobbers and options the constraints express. An unsupported constraint is rejected rather than mistranslated.',
 ['inputs'],'all templates, operand lists and constraint strings in the supported language',
 'Tests cover a few statements.',
 ['src/ast/asm.rs'],[('Asm::parse / to_tokens','src/ast/asm.rs')],['generated asm! invocation'])
p('C21','Comments never change the result',
 'Inserting comments between any two tokens of a definition, parameter list, call or expression changes neither whether it is accepted nor what is generated for it. Only the comment tokens themselves may appear additionally in an expansion.',
 ['inputs'],'all token sequences and all positions of comments',
 'Tests place comments at a few positions.',
 ['src/ast/tokens.rs',MS,'src/ast'],[('meta','src/ast/tokens.rs')],['expansion results and generated code with and without comments'])
p('C22','Names are resolved through the caller-supplied context only',
 'Variables, functions, types, fields and parameters are typed and called exactly as the context answers for their names: a known function is called with each argument converted to the parameter type and gives its result type, a known variable or field has the given type, and unknown names stay symbolic. Answers for one name never influence another name.',
 ['configurations','inputs'],'all contexts over a set of names and all expressions using them',
 'Tests use one trivial context.',
 ['src/context.rs','src/ast/function_call.rs','src/ast/identifier_expr.rs'],[('LocalContext','src/context.rs'),('FunctionCall::finish','src/ast/function_call.rs')],['generated code under different contexts'])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P), max(len(x['title']) for x in P))
