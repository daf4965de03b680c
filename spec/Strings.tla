------------------------------ MODULE Strings ------------------------------
(***************************************************************************)
(* Operations on strings which the other modules need.                     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, TLC

Ch(s, i) == SubSeq(s, i, i)
Chars(s) == [i \in 1..Len(s) |-> SubSeq(s, i, i)]
Concat(ss) == FoldLeft(LAMBDA a, b : a \o b, "", ss)
Num(n) == ToString(n)

RECURSIVE Repeat(_, _)
Repeat(s, n) == IF n <= 0 THEN "" ELSE s \o Repeat(s, n - 1)

\* the parts of s between the separators (single characters)
Split(s, sep) ==
  FoldLeft(LAMBDA acc, c : IF c = sep THEN Append(acc, "")
                           ELSE [acc EXCEPT ![Len(acc)] = @ \o c],
           <<"">>, Chars(s))

JoinWith(ss, sep) ==
  IF ss = <<>> THEN ""
  ELSE FoldLeft(LAMBDA a, b : a \o sep \o b, ss[1], Tail(ss))

RECURSIVE TrimRightC(_, _)
TrimRightC(s, c) ==
  IF s # "" /\ Ch(s, Len(s)) = c THEN TrimRightC(SubSeq(s, 1, Len(s) - 1), c) ELSE s

HasPrefix(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p

Contains_(s, c) == \E i \in 1..Len(s) : Ch(s, i) = c

RECURSIVE ReplaceAll_(_, _, _)
ReplaceAll_(s, old, new) ==
  LET n == Len(old)
      I == {i \in 1..(Len(s) - n + 1) : SubSeq(s, i, i + n - 1) = old}
  IN IF Len(s) < n \/ I = {} THEN s
     ELSE LET i == CHOOSE j \in I : \A k \in I : j <= k IN
          SubSeq(s, 1, i - 1) \o new \o ReplaceAll_(SubSeq(s, i + n, Len(s)), old, new)

Uppers == <<"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z">>
Lowers == <<"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z">>
UpperSet == ToSet(Uppers)
LowerSet == ToSet(Lowers)
Digits == {"0","1","2","3","4","5","6","7","8","9"}
Spaces == {" ", "\t", "\n", "\r", "\f"}
LowerOf(c) == IF c \in UpperSet THEN Lowers[CHOOSE i \in 1..26 : Uppers[i] = c] ELSE c

\* position of s in the sequence of strings, lexicographic order on ASCII
AsciiOrder == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
Code(c) == LET I == {i \in 1..Len(AsciiOrder) : Ch(AsciiOrder, i) = c} IN
           IF I = {} THEN 1000 ELSE CHOOSE i \in I : TRUE
RECURSIVE StrLess(_, _)
StrLess(a, b) ==
  IF b = "" THEN FALSE
  ELSE IF a = "" THEN TRUE
  ELSE LET x == Code(Ch(a, 1))  y == Code(Ch(b, 1)) IN
       IF x # y THEN x < y ELSE StrLess(SubSeq(a, 2, Len(a)), SubSeq(b, 2, Len(b)))

\* Levenshtein distance, row by row
Levenshtein(a, b) ==
  LET A == Chars(a)
      B == Chars(b)
      Min3(x, y, z) == IF x <= y /\ x <= z THEN x ELSE IF y <= z THEN y ELSE z
      row0 == [j \in 1..(Len(B) + 1) |-> j - 1]
      next(row, i) ==
        FoldLeftDomain(
          LAMBDA acc, j : Append(acc, Min3(row[j + 1] + 1, acc[j] + 1,
                                            row[j] + IF A[i] = B[j] THEN 0 ELSE 1)),
          <<i>>, B)
      rows == FoldLeftDomain(LAMBDA row, i : next(row, i), row0, A)
  IN rows[Len(B) + 1]

\* names count as similar when less than half of the longer has to be changed
Similar(a, b) ==
  LET m == IF Len(a) > Len(b) THEN Len(a) ELSE Len(b) IN
  m > 0 /\ 2 * Levenshtein(a, b) < m

-----------------------------------------------------------------------------
\* file paths

\* path segments, "." and "" removed, ".." resolved
CleanSegs(segs) ==
  FoldLeft(LAMBDA acc, s :
             IF s = "" \/ s = "." THEN acc
             ELSE IF s = ".." /\ acc # <<>> /\ acc[Len(acc)] # ".."
                  THEN SubSeq(acc, 1, Len(acc) - 1)
             ELSE Append(acc, s),
           <<>>, segs)
\* the path p, relative to the directory of file f
RelativeTo(f, p) ==
  LET fs == Split(f, "/")
      dir == SubSeq(fs, 1, Len(fs) - 1)
  IN JoinWith(CleanSegs(dir \o Split(p, "/")), "/")
=============================================================================
