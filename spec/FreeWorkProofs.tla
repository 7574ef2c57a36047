---------------------------- MODULE FreeWorkProofs ----------------------------
(***************************************************************************)
(* For any number of threads, buffers, calls and depth of nesting, and any *)
(* capacity of the list: a held buffer is one thread's, it keeps what the  *)
(* thread put there, and it is not on the list.  Checked by tlapm.         *)
(***************************************************************************)
EXTENDS FreeWork, TLAPS

ASSUME Sizes == /\ Threads \in Nat /\ Bufs \in Nat /\ Cap \in Nat /\ Calls \in Nat /\ Depth \in Nat
                /\ Record \in BOOLEAN

Buf == 1 .. Bufs
TypeOK == /\ list \in Seq(Buf)
          /\ stack \in [Th -> Seq([b : Buf, v : Int])]
          /\ content \in [Buf -> Int]
          /\ done \in [Th -> Nat]

Alone == \A t, u \in Th : \A i \in 1 .. Len(stack[t]), j \in 1 .. Len(stack[u]) :
           stack[t][i].b = stack[u][j].b => t = u /\ i = j
Kept == \A t \in Th : \A i \in 1 .. Len(stack[t]) : content[stack[t][i].b] = stack[t][i].v
Once == \A k, m \in 1 .. Len(list) : list[k] = list[m] => k = m
Apart == \A k \in 1 .. Len(list) : \A t \in Th : \A i \in 1 .. Len(stack[t]) : list[k] # stack[t][i].b
Room == Len(list) <= Cap

Inv == TypeOK /\ Alone /\ Kept /\ Once /\ Apart /\ Room

LEMMA Start == Init => Inv
  <1> USE Sizes
  <1> SUFFICES ASSUME Init PROVE Inv
    OBVIOUS
  <1>1. list = <<>> /\ Len(list) = 0 /\ list \in Seq(Buf)
    BY DEF Init
  <1>2. \A t \in Th : stack[t] = <<>> /\ Len(stack[t]) = 0
    BY DEF Init
  <1>3. TypeOK
    BY <1>1 DEF Init, TypeOK, Buf
  <1>4. \A t \in Th : 1 .. Len(stack[t]) = {}
    BY <1>2
  <1>5. 1 .. Len(list) = {}
    BY <1>1
  <1> QED BY <1>1, <1>3, <1>4, <1>5 DEF Inv, Alone, Kept, Once, Apart, Room

Takes(t, b) ==
  /\ \A u \in Th : \A i \in 1 .. Len(stack[u]) : stack[u][i].b # b
  /\ list' = (IF list # <<>> THEN Tail(list) ELSE list)
  /\ list # <<>> => b = Head(list)
  /\ content' = [content EXCEPT ![b] = Value(t)]
  /\ stack' = [stack EXCEPT ![t] = Append(stack[t], [b |-> b, v |-> Value(t)])]

\* what a thread borrows nobody has
LEMMA Borrowed == \A t \in Th : Inv /\ Enter(t) =>
   \E b \in Buf : Takes(t, b)
  <1> USE Sizes
  <1> SUFFICES ASSUME NEW t \in Th, Inv, Enter(t)
               PROVE \E b \in Buf : Takes(t, b)
    OBVIOUS
  <1>1. CASE list # <<>>
    <2>1. Len(list) \in Nat /\ Len(list) > 0 /\ Head(list) = list[1] /\ list[1] \in Buf
      BY <1>1 DEF Inv, TypeOK
    <2>2. \A u \in Th : \A i \in 1 .. Len(stack[u]) : stack[u][i].b # list[1]
      BY <2>1 DEF Inv, Apart
    <2> QED BY <1>1, <2>1, <2>2 DEF Enter, Takes
  <1>2. CASE list = <<>>
    <2> DEFINE c == CHOOSE x \in Fresh : TRUE
    <2>1. Fresh # {}
      BY <1>2 DEF Enter
    <2>2. c \in Fresh
      BY <2>1
    <2>3. c \in Buf /\ c \notin AllHeld /\ c \notin OnList
      BY <2>2 DEF Fresh, Buf
    <2>4. \A u \in Th : \A i \in 1 .. Len(stack[u]) : stack[u][i].b # c
      <3> SUFFICES ASSUME NEW u \in Th, NEW i \in 1 .. Len(stack[u]), stack[u][i].b = c PROVE FALSE
        OBVIOUS
      <3>1. i \in DOMAIN stack[u]
        BY DEF Inv, TypeOK
      <3>2. c \in HeldBy(u)
        BY <3>1 DEF HeldBy
      <3>3. c \in AllHeld
        BY <3>2 DEF AllHeld
      <3> QED BY <2>3, <3>3
    <2>5. /\ list' = list
          /\ content' = [content EXCEPT ![c] = Value(t)]
          /\ stack' = [stack EXCEPT ![t] = Append(@, [b |-> c, v |-> Value(t)])]
      BY <1>2 DEF Enter
    <2> HIDE DEF c
    <2> QED BY <1>2, <2>3, <2>4, <2>5 DEF Takes
  <1> QED BY <1>1, <1>2

LEMMA Valued == \A t \in Th : Inv => Value(t) \in Int
  BY Sizes DEF Inv, TypeOK, Value, Th

LEMMA Entering == \A t \in Th : Inv /\ Enter(t) => Inv'
  <1> USE Sizes
  <1> SUFFICES ASSUME NEW t \in Th, Inv, Enter(t) PROVE Inv'
    OBVIOUS
  <1>0. PICK b \in Buf : Takes(t, b)
    BY Borrowed
  <1>1. /\ \A u \in Th : \A i \in 1 .. Len(stack[u]) : stack[u][i].b # b
        /\ list # <<>> => list' = Tail(list) /\ b = Head(list)
        /\ list = <<>> => list' = list
        /\ content' = [content EXCEPT ![b] = Value(t)]
    BY <1>0 DEF Takes
  <1>2. Value(t) \in Int
    BY Valued
  <1> DEFINE e == [b |-> b, v |-> Value(t)]
  <1>3. e \in [b : Buf, v : Int] /\ e.b = b /\ e.v = Value(t)
    BY <1>2
  <1>4. done' = done
    BY DEF Enter
  <1>5. stack' = [stack EXCEPT ![t] = Append(stack[t], e)]
    BY <1>0 DEF Takes
  <1> HIDE DEF e
  <1>6. stack[t] \in Seq([b : Buf, v : Int]) /\ Len(stack[t]) \in Nat
    BY DEF Inv, TypeOK
  <1>7. stack' \in [Th -> Seq([b : Buf, v : Int])]
    BY <1>3, <1>5, <1>6 DEF Inv, TypeOK
  <1>8. /\ \A u \in Th : u # t => stack'[u] = stack[u]
        /\ Len(stack'[t]) = Len(stack[t]) + 1
        /\ \A i \in 1 .. Len(stack[t]) : stack'[t][i] = stack[t][i]
        /\ stack'[t][Len(stack[t]) + 1] = e
    BY <1>3, <1>5, <1>6 DEF Inv, TypeOK
  <1>9. \* an entry after the step is an entry before, or the new one
        \A u \in Th : \A i \in 1 .. Len(stack'[u]) :
          \/ i \in 1 .. Len(stack[u]) /\ stack'[u][i] = stack[u][i]
          \/ u = t /\ i = Len(stack[t]) + 1 /\ stack'[u][i] = e
    BY <1>6, <1>8
  <1>10. list' \in Seq(Buf) /\ Len(list') <= Len(list)
         /\ \A k \in 1 .. Len(list') : \E m \in 1 .. Len(list) : list'[k] = list[m] /\ (list # <<>> => m = k + 1)
    <2>1. CASE list # <<>>
      BY <1>1, <2>1 DEF Inv, TypeOK
    <2>2. CASE list = <<>>
      BY <1>1, <2>2 DEF Inv, TypeOK
    <2> QED BY <2>1, <2>2
  <1>11. \A k \in 1 .. Len(list') : list'[k] # b
    <2>1. CASE list # <<>>
      <3>1. list[1] = b /\ 1 \in 1 .. Len(list)
        BY <1>1, <2>1 DEF Inv, TypeOK
      <3> QED BY <1>10, <2>1, <3>1 DEF Inv, Once
    <2>2. CASE list = <<>>
      BY <1>1, <2>2
    <2> QED BY <2>1, <2>2
  <1>12. TypeOK'
    BY <1>1, <1>2, <1>4, <1>7, <1>10 DEF Inv, TypeOK
  <1>13. Alone'
    <2> SUFFICES ASSUME NEW u \in Th, NEW w \in Th, NEW i \in 1 .. Len(stack'[u]), NEW j \in 1 .. Len(stack'[w]),
                        stack'[u][i].b = stack'[w][j].b
                 PROVE u = w /\ i = j
      BY DEF Alone
    <2> QED BY <1>1, <1>3, <1>9 DEF Inv, Alone
  <1>14. Kept'
    <2> SUFFICES ASSUME NEW u \in Th, NEW i \in 1 .. Len(stack'[u])
                 PROVE content'[stack'[u][i].b] = stack'[u][i].v
      BY DEF Kept
    <2>1. CASE i \in 1 .. Len(stack[u]) /\ stack'[u][i] = stack[u][i]
      <3>1. stack[u][i].b # b /\ stack[u][i].b \in Buf
        BY <1>1, <2>1 DEF Inv, TypeOK
      <3> QED BY <1>1, <2>1, <3>1 DEF Inv, TypeOK, Kept
    <2>2. CASE stack'[u][i] = e
      BY <1>1, <1>3, <2>2 DEF Inv, TypeOK
    <2> QED BY <1>9, <2>1, <2>2
  <1>15. Once'
    <2> SUFFICES ASSUME NEW k \in 1 .. Len(list'), NEW m \in 1 .. Len(list'), list'[k] = list'[m] PROVE k = m
      BY DEF Once
    <2>1. CASE list # <<>>
      <3>1. /\ k + 1 \in 1 .. Len(list) /\ m + 1 \in 1 .. Len(list)
            /\ list'[k] = list[k + 1] /\ list'[m] = list[m + 1]
        BY <1>10, <2>1
      <3> QED BY <3>1 DEF Inv, Once
    <2>2. CASE list = <<>>
      BY <1>1, <2>2 DEF Inv, Once
    <2> QED BY <2>1, <2>2
  <1>16. Apart'
    <2> SUFFICES ASSUME NEW k \in 1 .. Len(list'), NEW u \in Th, NEW i \in 1 .. Len(stack'[u])
                 PROVE list'[k] # stack'[u][i].b
      BY DEF Apart
    <2>1. CASE i \in 1 .. Len(stack[u]) /\ stack'[u][i] = stack[u][i]
      BY <1>10, <2>1 DEF Inv, Apart
    <2>2. CASE stack'[u][i] = e
      BY <1>3, <1>11, <2>2
    <2> QED BY <1>9, <2>1, <2>2
  <1>17. Room'
    BY <1>10 DEF Inv, Room, TypeOK
  <1> QED BY <1>12, <1>13, <1>14, <1>15, <1>16, <1>17 DEF Inv

LEMMA Leaving == \A t \in Th : Inv /\ Leave(t) => Inv'
  <1> USE Sizes
  <1> SUFFICES ASSUME NEW t \in Th, Inv, Leave(t) PROVE Inv'
    OBVIOUS
  <1> DEFINE n == Len(stack[t])
             e == stack[t][n]
             c == e.b
  <1>1. stack[t] \in Seq([b : Buf, v : Int]) /\ stack[t] # <<>>
    BY DEF Inv, TypeOK, Leave
  <1>2. n \in Nat /\ n > 0 /\ e \in [b : Buf, v : Int]
    BY <1>1
  <1>3. c \in Buf
    BY <1>2
  <1>4. /\ list' = IF Len(list) < Cap THEN Append(list, c) ELSE list
        /\ stack' = [stack EXCEPT ![t] = SubSeq(stack[t], 1, n - 1)]
        /\ done' = [done EXCEPT ![t] = done[t] + 1]
        /\ content' = [content EXCEPT ![c] = 0]
    BY DEF Leave
  <1>5. n \in 1 .. Len(stack[t])
    BY <1>2
  <1> HIDE DEF e, c
  <1>6. /\ SubSeq(stack[t], 1, n - 1) \in Seq([b : Buf, v : Int])
        /\ Len(SubSeq(stack[t], 1, n - 1)) = n - 1
        /\ \A i \in 1 .. n - 1 : SubSeq(stack[t], 1, n - 1)[i] = stack[t][i]
    BY <1>1, <1>2
  <1>7. /\ \A u \in Th : u # t => stack'[u] = stack[u]
        /\ stack'[t] = SubSeq(stack[t], 1, n - 1)
        /\ stack' \in [Th -> Seq([b : Buf, v : Int])]
    BY <1>4, <1>6 DEF Inv, TypeOK
  <1>8. \A u \in Th : \A i \in 1 .. Len(stack'[u]) :
           i \in 1 .. Len(stack[u]) /\ stack'[u][i] = stack[u][i] /\ (u = t => i # n)
    <2> SUFFICES ASSUME NEW u \in Th, NEW i \in 1 .. Len(stack'[u])
                 PROVE i \in 1 .. Len(stack[u]) /\ stack'[u][i] = stack[u][i] /\ (u = t => i # n)
      OBVIOUS
    <2>1. CASE u = t
      BY <1>2, <1>6, <1>7, <2>1
    <2>2. CASE u # t
      BY <1>7, <2>2
    <2> QED BY <2>1, <2>2
  <1>9. \* nobody holds what was returned
        \A u \in Th : \A i \in 1 .. Len(stack'[u]) : stack'[u][i].b # c
    BY <1>5, <1>8 DEF Inv, Alone, e, c
  <1>10. \* it was not on the list
         \A k \in 1 .. Len(list) : list[k] # c
    BY <1>5 DEF Inv, Apart, e, c
  <1>11. list \in Seq(Buf) /\ Len(list) \in Nat
    BY DEF Inv, TypeOK
  <1>12. /\ list' \in Seq(Buf)
         /\ \A k \in 1 .. Len(list') : \/ k \in 1 .. Len(list) /\ list'[k] = list[k]
                                       \/ k = Len(list) + 1 /\ list'[k] = c
         /\ Len(list') <= Cap
    <2>1. CASE Len(list) < Cap
      BY <1>3, <1>4, <1>11, <2>1
    <2>2. CASE ~(Len(list) < Cap)
      BY <1>4, <1>11, <2>2 DEF Inv, Room
    <2> QED BY <2>1, <2>2
  <1>13. TypeOK'
    BY <1>3, <1>4, <1>7, <1>12 DEF Inv, TypeOK
  <1>14. Alone'
    BY <1>8 DEF Inv, Alone
  <1>15. Kept'
    <2> SUFFICES ASSUME NEW u \in Th, NEW i \in 1 .. Len(stack'[u])
                 PROVE content'[stack'[u][i].b] = stack'[u][i].v
      BY DEF Kept
    <2>1. i \in 1 .. Len(stack[u]) /\ stack'[u][i] = stack[u][i] /\ stack[u][i].b # c
      BY <1>8, <1>9
    <2>2. stack[u][i].b \in Buf
      BY <2>1 DEF Inv, TypeOK
    <2>3. content[stack[u][i].b] = stack[u][i].v
      BY <2>1 DEF Inv, Kept
    <2> QED BY <1>4, <2>1, <2>2, <2>3 DEF Inv, TypeOK
  <1>16. Once'
    BY <1>10, <1>12 DEF Inv, Once
  <1>17. Apart'
    BY <1>8, <1>9, <1>12 DEF Inv, Apart
  <1>18. Room'
    BY <1>12 DEF Room
  <1> QED BY <1>13, <1>14, <1>15, <1>16, <1>17, <1>18 DEF Inv

THEOREM Invariant == Spec => []Inv
  <1>1. Inv /\ [Next]_vars => Inv'
    <2> SUFFICES ASSUME Inv, [Next]_vars PROVE Inv'
      OBVIOUS
    <2>1. CASE UNCHANGED vars
      BY <2>1 DEF vars, Inv, TypeOK, Alone, Kept, Once, Apart, Room
    <2>2. CASE Next
      BY <2>2, Entering, Leaving DEF Next
    <2> QED BY <2>1, <2>2
  <1> QED BY <1>1, Start, PTL DEF Spec

THEOREM Safe == Spec => [](Exclusive /\ Stable /\ ListOK)
  <1>1. Inv => Exclusive /\ Stable /\ ListOK
    <2> SUFFICES ASSUME Inv PROVE Exclusive /\ Stable /\ ListOK
      OBVIOUS
    <2>1. \A t \in Th : DOMAIN stack[t] = 1 .. Len(stack[t])
      BY DEF Inv, TypeOK
    <2>2. DOMAIN list = 1 .. Len(list)
      BY DEF Inv, TypeOK
    <2>3. Exclusive
      BY <2>1 DEF Inv, Alone, Exclusive
    <2>4. Stable
      BY <2>1 DEF Inv, Kept, Stable
    <2>5. OnList \cap AllHeld = {}
      <3> SUFFICES ASSUME NEW x \in OnList, x \in AllHeld PROVE FALSE
        OBVIOUS
      <3>1. PICK k \in 1 .. Len(list) : x = list[k]
        BY <2>2 DEF OnList
      <3>2. PICK t \in Th : x \in HeldBy(t)
        BY DEF AllHeld
      <3>3. PICK i \in 1 .. Len(stack[t]) : x = stack[t][i].b
        BY <2>1, <3>2 DEF HeldBy
      <3> QED BY <3>1, <3>2, <3>3 DEF Inv, Apart
    <2>6. ListOK
      BY <2>2, <2>5 DEF Inv, Once, Room, ListOK
    <2> QED BY <2>3, <2>4, <2>6
  <1> QED BY <1>1, Invariant, PTL
===============================================================================
