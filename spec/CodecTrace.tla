----------------------------- MODULE CodecTrace -----------------------------
(***************************************************************************)
(* Validation of recorded traces.  Each line of the trace is one call into *)
(* the real library with its arguments and what came of it; the            *)
(* specification says what may come of it.  Lines of a session (a          *)
(* connection, a message history, a map history) are taken in order by the *)
(* actions of that machine.                                                *)
(*                                                                         *)
(* A line that the specification does not allow is printed with the name   *)
(* of the clause it breaks, and the rest of its session is skipped.  Only  *)
(* the clauses named in the first line (the header) count.                 *)
(***************************************************************************)
EXTENDS Instants, Making, Stream, Equality, Json, IOUtils
TK == INSTANCE TextKeys

Lines == ndJsonDeserialize(IOEnv.TRACE)
Clauses == Range(Lines[1].clauses)
N == Len(Lines)

VARIABLES taken,   \* lines taken
          ended,    \* the current session has gone wrong (or has ended)
          cur      \* state of the current session's machine
vars == <<taken, ended, cur>>

Has(r, f) == f \in DOMAIN r
(* A clause: its name if it counts and does not hold. *)
C(name, holds) == IF name \notin Clauses THEN <<>> ELSE IF holds THEN <<>> ELSE <<name>>
Broken(cs) == FlattenSeq(cs)

(* ---------------------------------------------------------------------- *)
(* Decoding                                                                *)
(* ---------------------------------------------------------------------- *)
Orderly(e) == e.res \in {"ok", "err", "none", "item", "skip"}
(* Live memory while decoding, per input byte: the largest object of the   *)
(* library is a few hundred bytes and takes at least one byte of input.    *)
MemoryBound(n) == 65536 + 1024 * n

SectionsMatch(T, r, o) ==      \* a decoded message, observed
  LET c == FromSections(T[2], r[2]) IN
  /\ EncodesTo(c, o.enc)
  /\ Shows(IF T[2] = "out" /\ c.app # <<>> /\ o.app # <<>> THEN [c EXCEPT !.app = <<o.app[1][2]>>] ELSE c, o)
SpecOf(e) == IF e.ty[1] = "message" THEN DecMessage(e.in, 1, Len(e.in)) ELSE Decode(e.ty, e.in)
Agrees(e, r) ==
  /\ e.res = "ok"
  /\ e.rem = Len(e.in) + 1 - r[3]
  /\ IF e.ty[1] = "message" THEN SectionsMatch(e.ty, r, e.obs) ELSE ValEq(r[2], e.val)

NamedClasses == {"code", "option", "descriptor", "utf8", "char", "required", "frametype"}
DecClauses(e) ==
  LET r == SpecOf(e) IN
  << C("value", IsOk(r) /\ ~r[4] => Agrees(e, r)),
     C("tolerated", IsOk(r) /\ r[4] => e.res = "err" \/ Agrees(e, r)),
     C("reject", IsErr(r) => e.res = "err"),
     C("kind", IsErr(r) /\ Has(e, "single") /\ r[2] \in NamedClasses
               => e.res = "err" /\ e.cls = r[2] /\ (r[3] # "" => e.arg = r[3])),
     C("expected", Has(e, "want") => e.want = r[1] \/ (r[1] = "ok" /\ r[4])),
     C("orderly", Orderly(e)),
     C("memory", Has(e, "peak") => e.peak <= MemoryBound(Len(e.in))) >>

(* ---------------------------------------------------------------------- *)
(* Encoding                                                                *)
(* ---------------------------------------------------------------------- *)
(* The bytes of a frame's body, after its length prefix; <<>> if the prefix *)
(* is wrong.                                                               *)
Unframe(out) == IF Len(out) >= 8 /\ BE4(out, 1) = Len(out) THEN SubSeq(out, 5, Len(out)) ELSE <<>>
(* A descriptor is written with the constructor that introduces it.        *)
Undescribe(out) == IF out # <<>> /\ out[1] = DescribedCode THEN Tail(out) ELSE <<>>
Framing(T) == T[1] \in {"amqpframe", "saslframe"}

BuiltContent(p) == ApplyEdits(Empty(p[2][1]), p[2][2], <<>>)
IsTransfer(v) == v[1] = "Transfer" /\ Len(v[2]) = 12
(* A payload given as a message is received as bytes that encode it.       *)
ReceivedAs(v, got) ==
  IF IsTransfer(v) /\ v[2][12][1] = "built" /\ got[1] = "Transfer" /\ got[2][12][1] = "binary"
     /\ EncodesTo(BuiltContent(v[2][12]), got[2][12][2])
  THEN <<v[1], [v[2] EXCEPT ![12] = got[2][12]]>>
  ELSE IF IsTransfer(v) /\ v[2][12] = <<"binary", <<>>>> THEN <<v[1], [v[2] EXCEPT ![12] = NullV]>>
  ELSE v
Stands(v, got) ==
  IF v[1] = "frame" /\ got[1] = "frame"
  THEN ValEq(v[2][1], got[2][1]) /\ ValEq(ReceivedAs(v[2][2], got[2][2]), got[2][2])
  ELSE ValEq(ReceivedAs(v, got), got)
ShownAs(v) ==
  IF v[1] = "frame" THEN <<"frame", <<v[2][1], IF IsTransfer(v[2][2]) /\ v[2][2][2][12][1] = "built"
        THEN <<"Transfer", [v[2][2][2] EXCEPT ![12] = <<"payload-" \o @[2][1], <<>>>>]>> ELSE v[2][2]>>>>
  ELSE IF IsTransfer(v) /\ v[2][12][1] = "built"
  THEN <<"Transfer", [v[2] EXCEPT ![12] = <<"payload-" \o @[2][1], <<>>>>]>>
  ELSE v

EncClauses(e) ==
  IF e.res # "ok" THEN << C("wellformed", FALSE), C("size", FALSE), C("back", FALSE), C("orderly", FALSE) >>
  ELSE
  LET body == IF Framing(e.ty) THEN Unframe(e.out)
              ELSE IF e.ty[1] = "descriptor" THEN Undescribe(e.out) ELSE e.out
      r == Decode(e.ty, body)
  IN
  << C("wellformed", /\ IsOk(r) /\ ~r[4]
                     /\ r[3] = Len(body) + 1
                     /\ Stands(e.val, r[2])),
     C("size", e.size = Len(e.out) /\ e.pre_ok /\ e.tight),
     C("back", Has(e, "back") => /\ e.back.res = "ok"
                                 /\ e.back.rem = Len(e.tail)
                                 /\ Stands(e.val, e.back.val)),
     C("acc", Has(e, "acc") => ValEq(ShownAs(e.val), e.acc)),
     C("payload", (e.val[1] = "frame" /\ IsTransfer(e.val[2][2])) =>
          /\ IsOk(r) /\ r[2][1] = "frame" /\ IsTransfer(r[2][2][2])
          /\ ValEq(ReceivedAs(e.val[2][2], r[2][2][2])[2][12], r[2][2][2][2][12])
          /\ e.back.res = "ok" /\ Stands(e.val, e.back.val)) >>

(* ---------------------------------------------------------------------- *)
(* Equality                                                                *)
(* ---------------------------------------------------------------------- *)
AllAre(s, x) == \A k \in 1..Len(s) : s[k] = x
SameClauses(e) ==
  IF e.res # "ok" THEN << C("alike", FALSE) >>
  ELSE LET same == Alike(e.ty, e.a, e.b) IN
       << C("alike", /\ AllAre(e.eq, same)
                     /\ Has(e, "hash") => (same => e.hash)
                     /\ Has(e, "found") => AllAre(e.found, same)) >>

(* ---------------------------------------------------------------------- *)
(* Instants                                                                *)
(* ---------------------------------------------------------------------- *)
TimeClauses(e) ==
  IF e.dir = "dec" THEN
    << C("instant", IF InCalendar(e.ms) THEN e.res = "ok" /\ e.rem = 0 /\ Denotes(e.ms, e.val)
                    ELSE e.res = "err" \/ (e.res = "ok" /\ Denotes(e.ms, e.val))),
       C("orderly", Orderly(e)) >>
  ELSE
    << C("instant", /\ e.res = "ok"
                    /\ IF Has(e, "arr") THEN Len(e.out) >= 8 /\ SubSeq(e.out, Len(e.out) - 7, Len(e.out)) = CountOf(e.at)
                       ELSE e.out = <<131>> \o CountOf(e.at)),
       C("size", e.res = "ok" /\ e.size = Len(e.out) /\ e.pre_ok /\ e.tight) >>

(* ---------------------------------------------------------------------- *)
(* Texts: st is the map                                                    *)
(* ---------------------------------------------------------------------- *)
TextState(s, e) ==
  CASE e.do = "ins" -> TK!Insert(s, e.t, e.v)
    [] e.do = "del" -> TK!DropKey(s, e.t)
    [] OTHER -> s
TextClauses(s, e) ==
  IF e.res # "ok" THEN << C("text", FALSE) >>
  ELSE
  << C("text",
     CASE e.do = "cmp" -> LET a == <<e.ra, e.a>>  b == <<e.rb, e.b>> IN
                          /\ AllAre(e.eq, TK!SameText(a, b))
                          /\ TK!SameText(a, b) => AllAre(e.hash, TRUE)
                          /\ AllAre(e.ord, TK!Order(a, b))
                          /\ AllAre(e.same, TRUE)
       [] e.do = "keys" -> /\ Len(e.keys) = Len(s)
                           /\ Range(e.keys) = TK!Keys(s)
                           /\ e.sorted => TK!Sorted(e.keys)
       [] OTHER -> e.got = TK!Lookup(s, e.t)) >>

(* ---------------------------------------------------------------------- *)
(* Connections: st = [tx, rx, dead, owed, pure, mid]                       *)
(*   tx   bytes written and not delivered     rx   delivered, not consumed *)
(*   dead a length that cannot be has been met, or a reader was put aside  *)
(*        in the middle of a frame: nothing more is promised               *)
(*   mid  the reader that has seen part of a frame, if any                 *)
(*   owed items written and not yet read, when nothing else was sent       *)
(* ---------------------------------------------------------------------- *)
ConnStart(e) == [tx |-> e.prefill, rx |-> <<>>, dead |-> FALSE,
                 owed |-> <<>>, pure |-> e.prefill = <<>>, mid |-> ""]
Outcome(s, e) == Take(e.codec, s.rx)
Aside(s, e) == s.mid \notin {"", e.codec}
ConnState(s, e) ==
  CASE e.do = "w" -> IF e.res = "ok" THEN [s EXCEPT !.tx = @ \o e.out, !.owed = Append(@, e.val)]
                     ELSE [s EXCEPT !.pure = FALSE]
    [] e.do = "b" -> s                       \* what is written back is no concern of what is read
    [] e.do = "i" -> [s EXCEPT !.tx = @ \o e.in, !.pure = FALSE]
    [] e.do = "d" -> LET k == Min2(e.k, Len(s.tx))
                     IN  [s EXCEPT !.tx = SubSeq(s.tx, k + 1, Len(s.tx)), !.rx = @ \o SubSeq(s.tx, 1, k)]
    [] OTHER ->
         IF s.dead THEN s
         ELSE IF Aside(s, e) THEN [s EXCEPT !.dead = TRUE]
         ELSE LET t == Outcome(s, e) IN
              CASE t[1] = "none" -> IF e.codec # "proto" /\ Len(s.rx) >= 4 THEN [s EXCEPT !.mid = e.codec] ELSE s
                [] t[1] = "badlen" -> IF e.res = "none" THEN [s EXCEPT !.mid = e.codec] ELSE [s EXCEPT !.dead = TRUE]
                [] OTHER -> [s EXCEPT !.mid = "", !.rx = SubSeq(s.rx, t[2] + 1, Len(s.rx)),
                                      !.owed = IF @ = <<>> THEN @ ELSE Tail(@)]
ConnClauses(s, e) ==
  CASE e.do \in {"w", "b"} ->
         << C("written", /\ e.res = "ok" /\ e.pre_ok
                         /\ WritesItem(e.codec, e.val, e.out)
                         /\ e.codec # "proto" => Stands(e.val, Take(e.codec, e.out)[3])),
            C("orderly", Orderly(e) \/ e.res = "ok") >>
    [] e.do = "i" -> <<>>
    [] e.do = "d" -> << C("harness", e.moved = Min2(e.k, Len(s.tx))) >>
    [] s.dead \/ Aside(s, e) -> << C("orderly", Orderly(e)), C("memory", e.peak <= MemoryBound(e.had)) >>
    [] OTHER ->
      LET t == Outcome(s, e)
          end == e.do = "e"
          whole == << C("orderly", Orderly(e)), C("memory", e.peak <= MemoryBound(e.had)) >>
          consumed(n) == e.rx = Len(s.rx) - n
      IN  CASE t[1] = "none" ->
                 whole \o
                 IF end /\ s.rx # <<>> THEN << C("stream", e.res = "err") >>
                 ELSE << C("stream", e.res = "none"),
                         C("untouched", e.codec = "proto" => consumed(0)) >>
            [] t[1] = "badlen" ->
                 whole \o << C("badlength", e.res = "err" \/ (~t[3] /\ e.res = "none")) >>
            [] t[1] = "item" ->
                 whole \o
                 << C("stream", \/ e.res = "item" /\ ValEq(t[3], e.val) /\ consumed(t[2])
                                \/ t[4] /\ e.res = "err"),
                    C("arrives", s.pure /\ s.owed # <<>> =>
                         e.res = "item" /\ IF e.codec = "proto" THEN e.val = s.owed[1] ELSE Stands(s.owed[1], e.val)) >>
            [] t[1] = "err" ->
                 whole \o << C("badframe", e.res = "err"),
                             C("protoerr", e.codec = "proto" => e.res = "err" /\ e.cls = t[3] /\ consumed(8)) >>
            [] OTHER -> whole \o << C("stream", e.res \in {"item", "err"}) >>

(* ---------------------------------------------------------------------- *)
(* Message histories: st is the sequence of slots                          *)
(* ---------------------------------------------------------------------- *)
Slots == 4
FromPayload(p, slots) == PayloadOf(p, slots)
MsgInput(e) == e.input
(* A decoded outgoing message shows its application properties in some order. *)
OrderedAs(c, o) ==
  IF c.kind = "out" /\ c.app # <<>> /\ Has(o, "app") /\ o.app # <<>>
     /\ Len(o.app[1][2]) = Len(c.app[1])
     /\ ValEq(<<"map", c.app[1]>>, <<"map", o.app[1][2]>>)
  THEN [c EXCEPT !.app = <<o.app[1][2]>>] ELSE c
MsgNext(s, e) ==     \* content of e.slot after the step
  CASE e.do = "new" -> Empty(e.kind)
    [] e.do = "with_body" -> [Empty(e.kind) EXCEPT !.data = <<e.val>>]
    [] e.do = "with_messages" -> [Empty(e.kind) EXCEPT !.msgs = [k \in 1..Len(e.ps) |-> PayloadOf(e.ps[k], s)]]
    [] e.do = "edit" -> ApplyEdit(s[e.slot + 1], e.e, s)
    [] e.do = "clone" -> s[e.from + 1]
    [] e.do = "reply" -> Reply(s[e.from + 1])
    [] e.do = "decode" ->
         IF e.res # "ok" THEN NoMsg
         ELSE LET r == DecMessage(MsgInput(e), 1, Len(MsgInput(e)))
              IN  IF IsOk(r) THEN OrderedAs(FromSections(e.kind, r[2]), e.obs) ELSE NoMsg
    [] OTHER -> s[e.slot + 1]
MsgState(s, e) == IF e.res = "skip" THEN s ELSE [s EXCEPT ![e.slot + 1] = MsgNext(s, e)]
MsgClauses(s, e) ==
  IF e.res = "skip" THEN <<>>
  ELSE IF e.res \notin {"ok", "err"} THEN << C("builds", FALSE), C("sized", FALSE), C("orderly", FALSE), C("sections", FALSE) >>
  ELSE
  LET m == MsgNext(s, e)
      shown == /\ Has(e, "obs") /\ Shows(m, e.obs)
      encoded == Has(e, "obs") /\ EncodesTo(m, e.obs.enc)
  IN
  CASE e.do = "decode" ->
         LET input == IF Has(e, "input") THEN e.input ELSE e.in
             r == DecMessage(input, 1, Len(input))
         IN  << C("sections",
                  IF IsOk(r) /\ ~r[4] THEN e.res = "ok" /\ e.rem = 0 /\ shown /\ encoded
                  ELSE IF IsOk(r) THEN e.res = "err" \/ (e.rem = 0 /\ shown /\ encoded)
                  ELSE IF IsErr(r) THEN e.res = "err" ELSE TRUE),
                \* what one slot encodes to is what the other decodes
                C("roundtrip", Has(e, "from") => IsOk(r) /\ EncodesTo(s[e.from + 1], input)) >>
    [] e.do = "size" -> << C("sized", e.size = Len(e.obs.enc)), C("same", shown /\ encoded) >>
    [] e.do = "enc" -> << C("sized", e.size = Len(e.out) /\ e.pre_ok /\ e.tight),
                          C("same", shown /\ EncodesTo(m, e.out) /\ encoded),
                          C("sections", EncodesTo(m, e.out)) >>
    [] e.do = "eq" -> << C("same", shown /\ e.eq = ContentEq(s[e.slot + 1], s[e.from + 1])) >>
    [] e.do = "clone" -> << C("same", shown /\ encoded), C("builds", shown) >>
    [] OTHER -> << C("builds", shown /\ encoded), C("sections", encoded) >>

(* ---------------------------------------------------------------------- *)
(* Taking a line                                                           *)
(* ---------------------------------------------------------------------- *)
Judge(s, e) ==
  CASE e.op = "dec" -> DecClauses(e)
    [] e.op = "enc" -> EncClauses(e)
    [] e.op = "same" -> SameClauses(e)
    [] e.op = "time" -> TimeClauses(e)
    [] e.op = "make" -> << C("made", AsMade(e)) >>
    [] e.op = "text" -> TextClauses(s, e)
    [] e.op = "pipe" -> ConnClauses(s, e)
    [] e.op = "msg" -> MsgClauses(s, e)
    [] OTHER -> << C("orderly", FALSE) >>
StartOf(e) ==
  CASE e.op = "text" -> <<>>
    [] e.op = "pipe" -> ConnStart(e)
    [] e.op = "msg" -> [k \in 1..Slots |-> NoMsg]
    [] OTHER -> <<>>
After(s, e) ==
  CASE e.op = "text" -> TextState(s, e)
    [] e.op = "pipe" -> ConnState(s, e)
    [] e.op = "msg" -> MsgState(s, e)
    [] OTHER -> <<>>

Init == taken = 1 /\ ended = FALSE /\ cur = <<>>
Next ==
  /\ taken < N
  /\ taken' = taken + 1
  /\ LET e == Lines[taken + 1]
         s == IF Has(e, "new") THEN StartOf(e) ELSE cur
         go == Has(e, "new") \/ ~ended
         b == IF go THEN Broken(Judge(s, e)) ELSE <<>>
     IN  /\ b # <<>> => PrintT(<<"MISMATCH", ToJson(<<e.i, e.k, b>>)>>)
         /\ ended' = (~go \/ b # <<>> \/ e.res \in {"panic", "abort", "hang"})
         /\ cur' = IF go /\ ~ended' THEN After(s, e) ELSE <<>>
         /\ (taken' = N) => PrintT(<<"JUDGED", N - 1>>)
Spec == Init /\ [][Next]_vars
=============================================================================
