----------------------------- MODULE ViewsModel -----------------------------
(* The layout itself, for all small parameters: the parts of every view are
   disjoint, tile what the single parts do not, and stay inside the object.      *)
EXTENDS Views, FiniteSets
Kinds == {"LweList","Lev","LweKsk","LwePk","PolyList","GlweSk","Glwe","GlweFft","GlweList","Glev","GlevFft","Ggsw",
          "GgswFft","GlweKsk","GlweKskFft","Automorphism","AutomorphismFft","Shift","ShiftFft","Bootstrap",
          "BootstrapFft","PrivateFks","CbsKsk","PublicFks","SchemeSwitch","SchemeSwitchFft"}
Params == [n : 1..3, n2 : 1..2, N : {2, 4, 8}, k : 1..4, l : 1..3, c : 0..3]
Rest(kd, p) == IF kd \in {"Glwe", "GlweFft"} THEN Body(kd, p)[2] ELSE 0
Tiles(kd, p) == LET v == View(kd, p) IN v[1] = 0 /\ v[2] > 0 /\ v[2] * v[3] + Rest(kd, p) = Size(kd, p)
Init == VInit /\ par = [n |-> 1, n2 |-> 1, N |-> 2, k |-> 1, l |-> 1, c |-> 1]
Next == \E p \in Params : Setup(p)
Spec == Init /\ [][Next]_vvars
TilesAll == \A kd \in Kinds : Tiles(kd, par)
BodyAfterMask == /\ Body("Lwe", par)[1] = Mask("Lwe", par)[2]
                 /\ \A kd \in {"Glwe", "GlweFft"} : Body(kd, par)[1] = View(kd, par)[2] * View(kd, par)[3]
PairsBijective == LET n == par.k  ij == {<<i, j>> \in (0..(n-1)) \X (0..(n-1)) : i <= j} IN
    /\ {PairIndex(q[1], q[2], n) : q \in ij} = 0..(Tri(n) - 1)
    /\ \A i, j \in 0..(n-1) : PairIndex(i, j, n) = PairIndex(j, i, n)
    /\ Cardinality({Pairs(n)[x] : x \in 1..Tri(n)}) = Tri(n)
=============================================================================
