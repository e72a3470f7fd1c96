---------------------------- MODULE DiskFormats ----------------------------
(* The bytes VeriBetrKV keeps on the disk, and what they mean.  A number of n bits is the list of its bytes, lowest first. *)
(* One step is one call of the code; the step is allowed when what the code did is what the formats prescribe.            *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt, Bitwise, TLC
CONSTANTS MaxWeight          \* how much the buckets of a node may weigh
Init0 == { "ready" }
Big == 2000000000
(* the value of a list of bytes, or Big *)
RECURSIVE Val(_, _)
Val(b, i) == IF i > Len(b) THEN 0 ELSE LET hi == Val(b, i + 1) IN IF hi >= 7812500 THEN Big ELSE b[i] + 256 * hi
Num(b) == Val(b, 1)
Cut(d, at, n) == SubSeq(d, at + 1, at + n)          \* n bytes from offset at
Left(d, at) == Len(d) - at

(* -------- values of a grammar -------- *)
Fail == [ok |-> FALSE, v |-> 0, at |-> 0]
Good(v, at) == [ok |-> TRUE, v |-> v, at |-> at]
Word(d, at, n) == IF Left(d, at) < n THEN Fail ELSE Good(Cut(d, at, n), at + n)
Words(d, at, w) == LET l == Word(d, at, 8) IN
  IF ~l.ok THEN Fail ELSE LET n == Num(l.v) IN
  IF n > (Left(d, at) - 8) \div w THEN Fail ELSE Good([i \in 1..n |-> Cut(d, at + 8 + (i - 1) * w, w)], at + 8 + n * w)
RECURSIVE Parse(_, _, _), ParseAll(_, _, _, _)
ParseAll(gs, n, d, at) ==      \* n values; gs a list of grammars, or of one grammar for all
  LET step(acc, i) == IF ~acc.ok THEN acc ELSE LET r == Parse(IF Len(gs) = 1 THEN gs[1] ELSE gs[i], d, acc.at) IN IF r.ok THEN Good(Append(acc.v, r.v), r.at) ELSE Fail
  IN FoldLeft(step, Good(<< >>, at), [i \in 1..n |-> i])
Parse(g, d, at) ==
  CASE g.t = "const" -> Good(<< >>, at)
    [] g.t = "u32" -> Word(d, at, 4)
    [] g.t = "u64" -> Word(d, at, 8)
    [] g.t = "bytes" -> LET l == Word(d, at, 8) IN IF ~l.ok \/ Num(l.v) > Left(d, at + 8) THEN Fail ELSE Good(Cut(d, at + 8, Num(l.v)), at + 8 + Num(l.v))
    [] g.t = "u32s" -> Words(d, at, 4)
    [] g.t = "u64s" -> Words(d, at, 8)
    [] g.t = "arr" -> LET l == Word(d, at, 8) IN IF ~l.ok \/ Num(l.v) > 100000 THEN Fail ELSE ParseAll(<< g.e >>, Num(l.v), d, at + 8)
    [] g.t = "tup" -> IF g.es = << >> THEN Good(<< >>, at) ELSE ParseAll(g.es, Len(g.es), d, at)
    [] g.t = "case" -> LET l == Word(d, at, 8) IN IF ~l.ok \/ Num(l.v) >= Len(g.cs) THEN Fail
                       ELSE LET r == Parse(g.cs[Num(l.v) + 1], d, at + 8) IN IF r.ok THEN Good(<< Num(l.v), r.v >>, r.at) ELSE Fail
Result(r) == IF r.ok THEN << r.v >> ELSE << >>
RECURSIVE Size(_, _)
Size(g, v) ==
  CASE g.t = "const" -> 0
    [] g.t \in {"u32", "u64"} -> Len(v)
    [] g.t = "bytes" -> 8 + Len(v)
    [] g.t = "u32s" -> 8 + 4 * Len(v)
    [] g.t = "u64s" -> 8 + 8 * Len(v)
    [] g.t = "arr" -> 8 + FoldLeft(LAMBDA a, x : a + Size(g.e, x), 0, v)
    [] g.t = "tup" -> FoldLeft(LAMBDA a, i : a + Size(g.es[i], v[i]), 0, [i \in 1..Len(v) |-> i])
    [] g.t = "case" -> 8 + Size(g.cs[v[1] + 1], v[2])

(* -------- checksums: CRC-32C, the remainder of division by the polynomial 0x11EDC6F41, bits reflected -------- *)
Poly == << 120, 59, 246, 130 >>          \* 0x82F63B78
Xor4(a, b) == << a[1] ^^ b[1], a[2] ^^ b[2], a[3] ^^ b[3], a[4] ^^ b[4] >>
Half(c) == << (c[1] \div 2) + 128 * (c[2] % 2), (c[2] \div 2) + 128 * (c[3] % 2), (c[3] \div 2) + 128 * (c[4] % 2), c[4] \div 2 >>
Shift(c) == IF c[1] % 2 = 0 THEN Half(c) ELSE Xor4(Half(c), Poly)
Table == [n \in 0..255 |-> Shift(Shift(Shift(Shift(Shift(Shift(Shift(Shift(<< n, 0, 0, 0 >>))))))))]
Ones == << 255, 255, 255, 255 >>
Crc(d) == LET step(c, b) == Xor4(<< c[2], c[3], c[4], 0 >>, Table[c[1] ^^ b]) IN Xor4(FoldLeft(step, Ones, d), Ones)
Zeros(n) == [i \in 1..n |-> 0]
Checksum(d) == Crc(d) \o Zeros(28)
Whole(b) == Len(b) >= 32 /\ Cut(b, 0, 32) = Checksum(Cut(b, 32, Len(b) - 32))

(* -------- packed strings and buckets -------- *)
Strings == [t |-> "tup", es |-> << [t |-> "u32s"], [t |-> "bytes"] >>]
Ends(v) == [i \in 1..Len(v[1]) |-> Num(v[1][i])]
WFStrings(v) == LET e == Ends(v) n == Len(e) IN (IF n = 0 THEN v[2] = << >> ELSE e[n] = Len(v[2])) /\ \A i \in 1..(n - 1) : e[i] <= e[i + 1]
Items(v) == LET e == Ends(v) IN [i \in 1..Len(e) |-> SubSeq(v[2], (IF i = 1 THEN 0 ELSE e[i - 1]) + 1, e[i])]
BucketG == [t |-> "tup", es |-> << Strings, Strings >>]
WFBucket(v) == /\ WFStrings(v[1]) /\ WFStrings(v[2]) /\ Len(v[1][1]) = Len(v[2][1])
               /\ LET k == Items(v[1])  m == Items(v[2]) IN \A i \in 1..Len(k) : Len(k[i]) <= 1024 /\ Len(m[i]) <= 1024
Bucket(v) == LET k == Items(v[1])  m == Items(v[2]) IN [i \in 1..Len(k) |-> << k[i], m[i] >>]
WeightOf(v) == 8 * Len(v[1][1]) + Len(v[1][2]) + Len(v[2][2])

(* -------- nodes -------- *)
TopKey == << 256 >>
Lt(a, b) == LET n == IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)
                D == { i \in 1..n : a[i] # b[i] }
            IN IF D = {} THEN Len(a) < Len(b) ELSE LET i == CHOOSE i \in D : \A j \in D : i <= j IN a[i] < b[i]
EdgeG == [t |-> "case", cs |-> << [t |-> "const"], [t |-> "bytes"] >>]
NodeG == [t |-> "tup", es |-> << [t |-> "arr", e |-> [t |-> "bytes"]], [t |-> "arr", e |-> EdgeG], [t |-> "u64s"], [t |-> "arr", e |-> BucketG] >>]
Pivots(v) == [i \in 1..Len(v) |-> IF i > 1 /\ v[i] = << >> THEN TopKey ELSE v[i]]
(* the keys of the range from l up to, but excluding, r have a prefix in common *)
Together(l, r) == l # << >> /\ IF r = TopKey THEN l[1] = 255 ELSE r[1] = l[1] \/ (r = << l[1] + 1 >>)
WFNode(v) == LET p == Pivots(v[1])  n == Len(p) - 1 IN
  /\ n >= 1 /\ n <= 8
  /\ \A i \in 1..Len(v[1]) : Len(v[1][i]) <= 1024
  /\ \A i \in 1..n : Lt(p[i], p[i + 1])
  /\ Len(v[2]) = n /\ Len(v[4]) = n /\ Len(v[3]) \in {0, n}
  /\ \A i \in 1..n : v[2][i][1] = 1 => Len(v[2][i][2]) <= 1024 /\ Together(p[i], p[i + 1])
  /\ \A i \in 1..n : WFBucket(v[4][i])
  /\ FoldLeft(LAMBDA a, b : a + WeightOf(b), 0, v[4]) <= MaxWeight
Node(v) == [pivots |-> Pivots(v[1]), edges |-> [i \in 1..Len(v[2]) |-> IF v[2][i][1] = 0 THEN << >> ELSE << v[2][i][2] >>],
            children |-> IF v[3] = << >> THEN << >> ELSE << v[3] >>, buckets |-> [i \in 1..Len(v[4]) |-> Bucket(v[4][i])]]

(* -------- places on the disk: two superblocks, the journal, two indirection tables, nodes -------- *)
Block == 4096
JournalBlocks == 65536
TableRoom == 24 * 1024 * 1024
Table1 == 2 * Block + JournalBlocks * Block
Table2 == Table1 + TableRoom
NodeRoom == 2 * 1024 * 1024
FirstNode == (Table2 + TableRoom + NodeRoom - 1) \div NodeRoom
(* how many times NodeRoom an address is, when it is a multiple of it; else -1 *)
NodeIndex(b) == IF b[1] # 0 \/ b[2] # 0 \/ b[3] % 32 # 0 THEN -1 ELSE IF \E i \in 6..8 : b[i] # 0 THEN Big ELSE (b[3] \div 32) + 8 * b[4] + 2048 * b[5]
NodePlace(addr, len) == NodeIndex(addr) >= FirstNode /\ Num(len) <= NodeRoom

(* -------- indirection tables: a graph of references, and where each node is -------- *)
RowG == [t |-> "tup", es |-> << [t |-> "u64"], [t |-> "u64"], [t |-> "u64"], [t |-> "u64s"] >>]
TableG == [t |-> "arr", e |-> RowG]
Root == Zeros(8)
WFTable(v) == LET refs == { v[i][1] : i \in 1..Len(v) } IN
  /\ Cardinality(refs) = Len(v) /\ Root \in refs
  /\ \A i \in 1..Len(v) : NodePlace(v[i][2], v[i][3]) /\ Len(v[i][4]) <= 8 /\ \A j \in 1..Len(v[i][4]) : v[i][4][j] \in refs
Rows(v) == { v[i] : i \in 1..Len(v) }

(* -------- superblocks -------- *)
SuperG == [t |-> "tup", es |-> << [t |-> "u64"], [t |-> "u64"], [t |-> "u64"], [t |-> "u64"], [t |-> "u64"] >>]
WFSuper(v) == Num(v[2]) < JournalBlocks /\ Num(v[3]) <= JournalBlocks /\ Num(v[4]) \in {Table1, Table2} /\ Num(v[5]) > 0 /\ Num(v[5]) <= TableRoom

SectorG == [t |-> "case", cs |-> << SuperG, TableG, NodeG >>]
(* what a block says: << >> if it says nothing *)
Sector(b, at) == LET r == Parse(SectorG, b, at) IN
  IF ~r.ok THEN << >> ELSE LET v == r.v[2] IN
  CASE r.v[1] = 0 -> IF WFSuper(v) THEN << "super", v >> ELSE << >>
    [] r.v[1] = 1 -> IF WFTable(v) THEN << "table", Rows(v) >> ELSE << >>
    [] r.v[1] = 2 -> IF WFNode(v) THEN << "node", Node(v) >> ELSE << >>
Said(b) == IF Whole(b) THEN Sector(b, 32) ELSE << >>
(* what the code says it has read, with the rows of a table as a list *)
Told(s) == IF s = << >> \/ s[1] # "table" THEN s ELSE << "table", Rows(s[2]) >>
OnceEach(s) == s = << >> \/ s[1] # "table" \/ Cardinality(Rows(s[2])) = Len(s[2])

(* -------- the journal: runs of blocks, each with its checksum; a run begins with how many entries and blocks it has -------- *)
Payload(bs) == FoldLeft(LAMBDA a, b : a \o b, << >>, bs)
Blocks(b) == [i \in 1..(Len(b) \div Block) |-> Cut(b, (i - 1) * Block, Block)]
RangeOf(b) == IF Len(b) % Block # 0 \/ \E i \in 1..(Len(b) \div Block) : ~Whole(Blocks(b)[i]) THEN << >>
            ELSE << [i \in 1..(Len(b) \div Block) |-> Cut(Blocks(b)[i], 32, Block - 32)] >>
Entry(d, at) ==
  LET l == Word(d, at, 4) IN IF ~l.ok THEN Fail ELSE
  LET n == Num(l.v)  clone == n >= 4096  k == IF clone /\ n < Big THEN n - 4096 ELSE n IN
  IF k > 1024 \/ k + 8 > Left(d, at) THEN Fail ELSE
  LET m == Num(Cut(d, at + 4 + k, 4))  p == at + 8 + k IN
  IF m > Left(d, p) \/ m > 1024 THEN Fail ELSE Good(<< clone, Cut(d, at + 4, k), Cut(d, p, m) >>, p + m)
Entries(d, n) == LET step(acc, i) == IF ~acc.ok THEN acc ELSE LET r == Entry(d, acc.at) IN IF r.ok THEN Good(Append(acc.v, r.v), r.at) ELSE Fail
                 IN FoldLeft(step, Good(<< >>, 8), [i \in 1..n |-> i])
RECURSIVE Journal(_)
Journal(bs) == IF bs = << >> THEN << << >> >> ELSE
  LET n == Num(Cut(bs[1], 0, 4))  m == Num(Cut(bs[1], 4, 4)) IN
  IF m < 1 \/ m > Len(bs) \/ n > 100000 THEN << >> ELSE
  LET r == Entries(Payload(SubSeq(bs, 1, m)), n) IN
  IF ~r.ok THEN << >> ELSE LET rest == Journal(SubSeq(bs, m + 1, Len(bs))) IN IF rest = << >> THEN << >> ELSE << r.v \o rest[1] >>

(* -------- data made by a formula, to keep long inputs short -------- *)
Made(s, n) == [i \in 1..n |-> ((s * i + (i * i) \div 7 + s \div 3) % 256)]

Holds(l) ==
  CASE l.op = "marshal" -> LET n == Size(l.g, l.v)  r == Parse(l.g, Cut(l.after, l.at, n), 0) IN
         /\ l.n = n /\ Len(l.after) = Len(l.before)
         /\ Cut(l.after, 0, l.at) = Cut(l.before, 0, l.at) /\ Cut(l.after, l.at + n, Left(l.after, l.at + n)) = Cut(l.before, l.at + n, Left(l.after, l.at + n))
         /\ r.ok /\ r.at = n /\ r.v = l.v
    [] l.op = "sizeof" -> l.n = Size(l.g, l.v)
    [] l.op = "whole" -> LET r == Parse(l.g, l.b, 0) IN r.ok /\ r.at = Len(l.b) /\ r.v = l.v
    [] l.op = "parse" -> LET r == Parse(l.g, l.b, l.at) IN l.res = Result(r) /\ (r.ok => l.rest = r.at)
    [] l.op = "demarshal" -> LET r == Parse(l.g, l.b, 0) IN l.res = (IF r.ok /\ r.at = Len(l.b) THEN << r.v >> ELSE << >>)
    [] l.op = "strings" -> l.res = (IF WFStrings(l.v) THEN << Items(l.v) >> ELSE << >>)
    [] l.op = "bucket" -> l.res = (IF WFBucket(l.v) THEN << Bucket(l.v) >> ELSE << >>)
    [] l.op = "packed" -> LET r == Parse(BucketG, l.b, 0) IN r.ok /\ r.at = Len(l.b) /\ WFBucket(r.v) /\ Bucket(r.v) = l.items
    [] l.op = "read" -> OnceEach(l.res) /\ Told(l.res) = Said(l.b)
    [] l.op = "write" -> Said(l.b) = Told(l.s) /\ (l.s[1] = "super" => Len(l.b) = Block)
    [] l.op = "rewrite" -> Said(l.b2) = Said(l.b)
    [] l.op = "crc" -> l.res = Checksum(Cut(Made(l.s, l.n), l.from, l.len))
    [] l.op = "journal" -> LET r == RangeOf(l.b) IN Len(l.b) = l.blocks * Block /\ r # << >> /\ Journal(r[1]) = << l.entries >>
    [] l.op = "range" -> LET r == RangeOf(l.b) IN l.res = (r # << >>) /\ l.same
    [] l.op = "replay" -> l.res = Journal(l.bs)
    [] l.op = "place" -> l.res = (CASE l.what = "node" -> NodePlace(l.addr, l.len)
                                    [] l.what = "table" -> Num(l.addr) \in {Table1, Table2} /\ Num(l.len) > 0 /\ Num(l.len) <= TableRoom
                                    [] l.what = "journal" -> LET a == Num(l.addr)  n == Num(l.len) IN
                                         a # Big /\ n # Big /\ a % Block = 0 /\ n % Block = 0 /\ a >= 2 * Block /\ a < (2 + JournalBlocks) * Block /\ n <= (2 + JournalBlocks) * Block - a
                                    [] l.what = "super1" -> Num(l.addr) = 0 /\ Num(l.len) = Block
                                    [] l.what = "super2" -> Num(l.addr) = Block /\ Num(l.len) = Block)
    [] OTHER -> FALSE
Succ(x, l) == IF Holds(l) THEN {x} ELSE {}
Agree(x, v) == TRUE
=============================================================================
