------------------------------- MODULE World -------------------------------
(* The objects, functions and constants the judged macro bodies talk about (world.json, shared with the driver): *)
(* four valuations of the variables, arrays the pointers point into, a structure, functions with fixed results.  *)
EXTENDS RSem, IOUtils

W == JsonDeserialize("world.json")
NV == 4
G0 == [ty |-> {}, alt |-> {}]
CT(c) == TypeName(G0, c, 1).a
VarTy == TLCEval([n \in DOMAIN W.vars |-> CT(W.vars[n].c)])
AggTy == TLCEval([n \in DOMAIN W.aggs |-> CT(W.aggs[n].c)])
FieldTy == TLCEval([n \in DOMAIN W.fields |-> CT(W.fields[n].c)])
FnTy == TLCEval([n \in DOMAIN W.fns |-> [ps |-> [i \in 1..Len(W.fns[n].ps) |-> CT(W.fns[n].ps[i])], r |-> CT(W.fns[n].c)]])
Named == TLCEval([n \in DOMAIN W.named |-> CT(W.named[n].c)])
Consts == TLCEval([n \in DOMAIN W.consts |-> VI(W.consts[n].t, ZI(W.consts[n].v))])
ConstPaths == {W.consts[n].e : n \in DOMAIN W.consts}
ByPath == TLCEval([q \in ConstPaths |-> Consts[CHOOSE n \in DOMAIN W.consts : W.consts[n].e = q]])
RustTypes == ("S" :> TT("struct", "S")) @@ Named

ValOf(d, t, n) == CASE t.k = "p" -> VP(t.t, d.o, n)
                    [] t.k = "b" /\ t.n \in FltTys -> VF(t.n, FMk(ZI(n), 0 - 2))
                    [] OTHER -> VI(t.n, ZI(n))
AggLocs(n) == {<<i, f>> : i \in 0..(W.aggs[n].n - 1), f \in DOMAIN W.fields}
FName(f) == SubSeq(f, 3, Len(f))
Merge(a, b) == a @@ b
Store(v) ==
  LET vs == TLCEval([l \in {Loc(n, 0) : n \in DOMAIN W.vars} |->
               LET n == CHOOSE m \in DOMAIN W.vars : Loc(m, 0) = l IN ValOf(W.vars[n], VarTy[n], W.vars[n].v[v])])
      arr == TLCEval([l \in UNION {{Loc(n, i) : i \in 0..(Len(W.objs[n].v) - 1)} : n \in DOMAIN W.objs} |->
               LET pr == CHOOSE pr \in {<<n, i>> : n \in DOMAIN W.objs, i \in 0..7} : Loc(pr[1], pr[2]) = l
               IN VI("int", ZI(W.objs[pr[1]].v[pr[2] + 1] + v))])
      ag == TLCEval([l \in {Loc(Loc(n, i) \o "." \o FName(f), 0) : n \in DOMAIN W.aggs, i \in 0..1, f \in DOMAIN W.fields} |->
               LET tr == CHOOSE tr \in {<<n, i, f>> : n \in DOMAIN W.aggs, i \in 0..1, f \in DOMAIN W.fields} :
                           Loc(Loc(tr[1], tr[2]) \o "." \o FName(tr[3]), 0) = l
               IN ValOf(W.fields[tr[3]], FieldTy[tr[3]], W.fields[tr[3]].v + (IF FieldTy[tr[3]].k = "p" THEN 0 ELSE 3 * tr[2] + v))])
  IN TLCEval(vs @@ arr @@ ag)
\* TLC does not keep the value of a definition that rests on recursive operators; the registers do
ASSUME TLCSet(41, <<Store(1), Store(2), Store(3), Store(4)>>)
Stores == TLCGet(41)
ASSUME TLCSet(42, TLCEval([n \in DOMAIN W.vars |-> [t |-> VarTy[n], o |-> n]] @@ [n \in DOMAIN W.aggs |-> [t |-> AggTy[n], o |-> n]]))
Env0 == TLCGet(42)
S0(v) == [st |-> Stores[v], env |-> Env0, tr |-> <<>>, rd |-> {}, wr |-> {}, bag |-> FALSE, n |-> 0, f |-> 40]

ASSUME TLCSet(43, TLCEval([ty |-> DOMAIN Named, alt |-> {}, len |-> FALSE, params |-> {}, lw |-> 64, vars |-> Env0, fields |-> FieldTy, fns |-> FnTy,
                  consts |-> Consts, named |-> Named, rty |-> RustTypes, rconsts |-> ByPath]))
GBase == TLCGet(43)
=============================================================================
