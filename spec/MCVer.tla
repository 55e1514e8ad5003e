-------------------------------- MODULE MCVer --------------------------------
(* Every spelling of the versions in Majors x Minors x Patches; what one version supports, every later one does. *)
EXTENDS Ver, Json
CONSTANTS Majors, Minors, Patches, Pres
VARIABLES s, t, v
Spell(m, n, p, q) == ToString(m) \o (IF n = 1000 THEN "" ELSE "." \o ToString(n) \o (IF p = 1000 THEN "" ELSE "." \o ToString(p))) \o (IF q = "" THEN "" ELSE "-" \o q)
N(x) == IF x = 1000 THEN 0 ELSE x
Init == \E m \in Majors, n \in Minors, p \in Patches, q \in Pres :
          /\ (n = 1000 => p = 1000) /\ s = Spell(m, n, p, q) /\ v = [ok |-> TRUE, new |-> FALSE, p |-> <<m, N(n), N(p)>>, pre |-> q # ""]
          /\ \E m2 \in Majors, n2 \in Minors : t = Spell(m2, n2, 0, "")
Next == FALSE /\ UNCHANGED <<s, t, v>>
Spec == Init /\ [][Next]_<<s, t, v>>
Reads == VParse(s) = v
Monotonic == LET a == VParse(s) b == VParse(t) IN
             AtLeast(b, a.p) => \A f \in AllForms : Supports(a, f) # "no" => Supports(b, f) # "no"
NewestHasAll == \A f \in AllForms : Supports(Newest, f) = "yes"
Export == t = Spell(1, 0, 0, "") => PrintT("H " \o ToJson([t |-> s]))
=============================================================================
