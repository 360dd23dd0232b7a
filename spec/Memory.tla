------------------------------ MODULE Memory ------------------------------
(* Memory resources and allocators as state machines.

   A block is [loc, size, al, data]: where it is, its size in bytes, the
   alignment asked for, and the bytes written to it (-1: never written).
   Locations:  <<"l", off>>      in the buffer of the linear resource
               <<"i", off>>      inside the allocator object itself
               <<"u", id, off>>  in block id of the underlying resource
               <<"m", rem>>      in the heap, rem = address modulo 4096
   up: the blocks of the underlying resource that are in use. *)
EXTENDS Bytes
EmptyFn == [x \in {} |-> 0]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
AlignUp(a, al) == ((a + al - 1) \div al) * al
IsPow2(n) == n \in {1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096}
Blk(loc, size, al, data) == [loc |-> loc, size |-> size, al |-> al, data |-> data]
Fresh(n) == Rep(-1, n)
Resized(data, n) == [k \in 1..n |-> IF k <= Len(data) THEN data[k] ELSE -1]
\* an observed content agrees with what was written
SameData(obs, data) == Len(obs) = Len(data) /\ \A k \in 1..Len(data) : data[k] = -1 \/ obs[k] = data[k]

\* ----- the linear resource: [base, cap, pos, own, blocks]
\* base is the address of its buffer, modulo 64 or more
MaxAlign == 16
LinNone == [base |-> 0, cap |-> 0, pos |-> 0, own |-> FALSE, blocks |-> EmptyFn]
LinWith(base, cap, own) == [base |-> base, cap |-> cap, pos |-> 0, own |-> own, blocks |-> EmptyFn]
LinPlace(s, al) == AlignUp(s.base + s.pos, al) - s.base
LinFits(s, sz, al) == sz > 0 /\ LinPlace(s, al) + sz <= s.cap
LinAlloc(s, id, sz, al) ==
  LET off == LinPlace(s, al) IN
  [s EXCEPT !.pos = off + sz, !.blocks = Put(@, id, Blk(<<"l", off>>, sz, al, Fresh(sz)))]
LinIsLast(s, id) == s.blocks[id].loc[2] + s.blocks[id].size = s.pos
LinGrowsInPlace(s, id, n) == LinIsLast(s, id) /\ s.blocks[id].loc[2] + n <= s.cap
LinReallocFits(s, id, n) ==
  n <= s.blocks[id].size \/ LinGrowsInPlace(s, id, n) \/ LinFits(s, n, s.blocks[id].al)
LinRealloc(s, id, n) ==
  LET b == s.blocks[id] d == Resized(b.data, n) IN
  IF n <= b.size \/ LinGrowsInPlace(s, id, n) THEN
    [s EXCEPT !.pos = IF LinIsLast(s, id) THEN b.loc[2] + n ELSE @,
              !.blocks = Put(@, id, [b EXCEPT !.size = n, !.data = d])]
  ELSE LET t == LinAlloc(s, id, n, b.al) IN [t EXCEPT !.blocks[id].data = d]
LinFree(s, id) == [s EXCEPT !.blocks = Del(@, id)]
LinWrite(s, id, c) == [s EXCEPT !.blocks[id].data = Rep(c, s.blocks[id].size)]
LinClear(s) == [s EXCEPT !.pos = 0, !.blocks = EmptyFn]

Range(off, n) == off .. (off + n - 1)
LinInside(s) == s.pos <= s.cap /\ \A k \in DOMAIN s.blocks : LET b == s.blocks[k] IN b.size > 0 => b.loc[2] >= 0 /\ b.loc[2] + b.size <= s.pos
LinAligned(s) == \A k \in DOMAIN s.blocks : LET b == s.blocks[k] IN (s.base + b.loc[2]) % b.al = 0
LinDisjoint(s) == \A k, m \in DOMAIN s.blocks : k # m =>
  Range(s.blocks[k].loc[2], s.blocks[k].size) \cap Range(s.blocks[m].loc[2], s.blocks[m].size) = {}

\* ----- allocation counts <<curr allocs, curr size, total allocs, total size, max allocs, max size>>
CntZero == <<0, 0, 0, 0, 0, 0>>
CntMax(c) == [c EXCEPT ![5] = Max2(@, c[1]), ![6] = Max2(@, c[2])]
CntAdd(c, sz) == CntMax([c EXCEPT ![1] = @ + 1, ![2] = @ + sz, ![3] = @ + 1, ![4] = @ + sz])
CntRem(c, sz) == [c EXCEPT ![1] = @ - 1, ![2] = @ - sz]
CntRe(c, o, n) == CntAdd(CntRem(c, o), n)

\* ----- the underlying resource: what a log of requests does to its blocks
\* <<"A", id, size, al>>  <<"F", id, size, al>>  <<"R", id, newid, oldsize, newsize, al>>  <<"X">> (a request that failed)
UpOk(up, e) ==
  CASE e[1] = "A" -> e[2] \notin DOMAIN up
    [] e[1] = "F" -> e[2] \in DOMAIN up /\ up[e[2]] = <<e[3], e[4]>>
    [] e[1] = "R" -> e[2] \in DOMAIN up /\ up[e[2]] = <<e[4], e[6]>> /\ e[3] \notin DOMAIN up
    [] OTHER -> e[1] = "X"
UpAfter(up, e) ==
  CASE e[1] = "A" -> Put(up, e[2], <<e[3], e[4]>>)
    [] e[1] = "F" -> Del(up, e[2])
    [] e[1] = "R" -> Put(Del(up, e[2]), e[3], <<e[5], e[6]>>)
    [] OTHER -> up
RECURSIVE UpAll(_, _), UpLogOk(_, _)
UpAll(up, log) == IF log = <<>> THEN up ELSE UpAll(UpAfter(up, Head(log)), Tail(log))
UpLogOk(up, log) == log = <<>> \/ (UpOk(up, Head(log)) /\ UpLogOk(UpAfter(up, Head(log)), Tail(log)))

\* ----- an allocator with room for n objects inside itself
InlineOf(blocks) == {k \in DOMAIN blocks : blocks[k].loc[1] = "i"}
InlineDisjoint(blocks, off, sz) ==
  \A k \in InlineOf(blocks) : Range(blocks[k].loc[2], blocks[k].size) \cap Range(off, sz) = {}
\* the blocks taken from the resource are exactly those in use
UpMatches(blocks, up) ==
  LET us == {k \in DOMAIN blocks : blocks[k].loc[1] = "u"} IN
  /\ {blocks[k].loc[2] : k \in us} = DOMAIN up
  /\ \A k \in us : blocks[k].loc[3] = 0 /\ up[blocks[k].loc[2]] = <<blocks[k].size, blocks[k].al>>
  /\ \A k, m \in us : k # m => blocks[k].loc[2] # blocks[m].loc[2]
=============================================================================
