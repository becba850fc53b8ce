------------------------------ MODULE PackModel ------------------------------
(***************************************************************************)
(* Triangulated disks, grown from a wheel by putting a new circle into a   *)
(* triangle and by exchanging the two diagonals of a quadrangle; and the   *)
(* placement of the circles of such a disk: a circle is placed next to a   *)
(* placed internal circle and a placed circle that follows it in the       *)
(* flower.  Placement from any two touching circles, in any order, reaches *)
(* every circle exactly when the internal circles hang together.           *)
(***************************************************************************)
EXTENDS Packing, Json, IOUtils
CONSTANTS Rim, Grow, Swaps
VARIABLES tri, size, swaps, placed
vars == <<tri, size, swaps, placed>>
Wheel(k) == Close({<<1, i, IF i = k + 1 THEN 2 ELSE i + 1>> : i \in 2..(k + 1)})
Init == \E k \in Rim : tri = Wheel(k) /\ size = k + 1 /\ swaps = 0 /\ placed = {}
Split == /\ placed = {} /\ size < Grow /\ size' = size + 1
         /\ \E t \in tri : /\ t[1] < t[2] /\ t[1] < t[3]
                           /\ tri' = (tri \ Turns(t)) \cup Close({<<t[1], t[2], size + 1>>, <<t[2], t[3], size + 1>>, <<t[3], t[1], size + 1>>})
         /\ UNCHANGED <<swaps, placed>>
Swap == /\ placed = {} /\ swaps < Swaps /\ swaps' = swaps + 1
        /\ \E t \in tri : \E u \in tri :
              /\ u[1] = t[2] /\ u[2] = t[1] /\ t[1] < t[2]       \* t = <<a, b, c>>, u = <<b, a, d>>
              /\ {t[3], u[3]} \notin Links(tri)
              /\ Inner(tri, t[3]) \/ Inner(tri, u[3])
              /\ \A v \in {t[1], t[2]} : Inner(tri, v) => Cardinality(Linked(tri, v)) > 3
              /\ tri' = (tri \ (Turns(t) \cup Turns(u))) \cup Close({<<t[3], u[3], t[2]>>, <<u[3], t[3], t[1]>>})
        /\ UNCHANGED <<size, placed>>
Inners == {v \in VertsOf(tri) : Inner(tri, v)}
Begin == /\ placed = {} /\ \E v \in Inners : \E w \in Linked(tri, v) : placed' = {v, w}
         /\ UNCHANGED <<tri, size, swaps>>
Put == /\ placed # {}
       /\ \E v \in placed : \E w \in placed :
             /\ v \in Inners /\ w \in Linked(tri, v)
             /\ \E x \in NextAround(tri, v, w) : x \notin placed /\ placed' = placed \cup {x}
       /\ UNCHANGED <<tri, size, swaps>>
Next == Split \/ Swap \/ Begin \/ Put
Spec == Init /\ [][Next]_vars

Disk == placed = {} =>
        /\ VertsOf(tri) = 1..size
        /\ \A v \in Inners : /\ Cardinality(Linked(tri, v)) >= 3
                             /\ LET f == FlowerOf(tri, v) IN
                                /\ ToSet(f) = Linked(tri, v)
                                /\ f[1] \in NextAround(tri, v, f[Len(f)])
        /\ \A a \in 1..size : \A b \in 1..size : Cardinality(NextAround(tri, a, b)) <= 1
        /\ size - Cardinality(Links(tri)) + Cardinality(tri) \div 3 = 1
RECURSIVE Spread(_, _)
Spread(S, V) == LET T == S \cup {w \in V : \E v \in S : {v, w} \in Links(tri)} IN IF T = S THEN S ELSE Spread(T, V)
Together == Spread({Min(Inners)}, Inners) = Inners
Stuck == ~\E v \in placed : \E w \in placed : v \in Inners /\ w \in Linked(tri, v) /\ ~(NextAround(tri, v, w) \subseteq placed)
Reaches == placed # {} /\ Stuck /\ Together => placed = 1..size
Emit == IF IOEnv.EMIT = "1" /\ placed = {} /\ Together
        THEN PrintT("GEN " \o ToJson([n |-> size, flower |-> [v \in 1..size |-> IF v \in Inners THEN FlowerOf(tri, v) ELSE <<>>]])) ELSE TRUE

(* long numbers against the numbers of the language *)
Val(a) == FoldRight(LAMBDA d, s : d + Base * s, a, 0)
Long(x) == IF x >= 0 THEN <<x % Base, x \div Base>> ELSE <<-((-x) % Base), -((-x) \div Base)>>
Some == {-10000, 10000, 9999, -19998, -20321, -1001, -1000, -999, -1, 0, 1, 7, 999, 1000, 1001, 21999}
ASSUME \A a \in Some : \A b \in Some :
          /\ Val(LAdd(Long(a), Long(b))) = a + b
          /\ Val(LSub(Long(a), Long(b))) = a - b
          /\ Val(LNorm(LMul(Long(a), Long(b)))) = a * b
          /\ LSign(Long(a)) = (IF a < 0 THEN -1 ELSE IF a = 0 THEN 0 ELSE 1)
          /\ LLeq(Long(a), Long(b)) <=> a <= b
          /\ LEq(Long(a), LAdd(LSub(Long(a), Long(b)), Long(b)))
(* circles with whole numbers: tangency from outside and within, and going around *)
Circ(x, y, r) == [x |-> Long(x), y |-> Long(y), r |-> Long(r)]
ASSUME /\ Outside(Circ(0, 0, 2000), Circ(3000, 4000, 3000)) /\ ~Outside(Circ(0, 0, 2000), Circ(3000, 4000, 2999))
       /\ Within(Circ(0, 0, 9000), Circ(3000, 4000, 4000)) /\ ~Within(Circ(0, 0, 9001), Circ(3000, 4000, 4000))
       /\ Encloses(Circ(0, 0, 9001), Circ(3000, 4000, 4000)) /\ ~Encloses(Circ(0, 0, 8990), Circ(3000, 4000, 4000))
       /\ Around(Circ(0, 0, 1), <<Circ(9, 1, 1), Circ(-5, 8, 1), Circ(-4, -7, 1)>>, 1)
       /\ Around(Circ(0, 0, 1), <<Circ(9, 1, 1), Circ(-4, -7, 1), Circ(-5, 8, 1)>>, -1)
       /\ ~Around(Circ(0, 0, 1), <<Circ(9, 1, 1), Circ(-5, 8, 1), Circ(-5, 9, 1)>>, 1)
       /\ ~Around(Circ(0, 0, 1), <<Circ(9, 1, 1), Circ(-9, 2, 1), Circ(2, -9, 1), Circ(9, 3, 1), Circ(-9, 1, 1), Circ(2, -8, 1)>>, 1)
=============================================================================
