------------------------------- MODULE Making -------------------------------
(***************************************************************************)
(* Conversions and constructors: what comes of making one object of others *)
(* without going over the wire.                                            *)
(*                                                                         *)
(*   Made(way, args)   <<"gives", values read off the product>> or         *)
(*                     <<"rejects", class, what>>                          *)
(***************************************************************************)
EXTENDS MessageBuilder

Gives(vs) == <<"gives", vs>>
Num(n) == <<"n", <<n>>>>
Name(n) == <<"name", <<n>>>>
Truth(b) == <<"bool", <<IF b THEN 1 ELSE 0>>>>

(* The plain SASL response: identities and password, set apart by NULs.    *)
Response(authz, authn, password) == authz \o <<0>> \o authn \o <<0>> \o password

Choices1(name) == ChoiceTable[name][2]
Groups1 == {"AmqpError", "ConnectionError", "SessionError", "LinkError"}
ChoiceOf(name, v) ==
  IF name \in Groups1 THEN
    IF v[2] \in DOMAIN Conditions /\ Conditions[v[2]][1] = name THEN Gives(<< <<"cond", Conditions[v[2]]>> >>)
    ELSE <<"rejects", "option", name>>
  ELSE IF v[2] \in DOMAIN Choices1(name) THEN Gives(<<Choice(name, Choices1(name)[v[2]])>>)
  ELSE <<"rejects", "option", name>>

Made(way, args) ==
  CASE way = "variant" -> Gives(args)
    [] way = "messageid" -> Gives(args)
    [] way = "reading" -> LET b == args[1][2] IN     \* a text, in all the ways it can be read
         Gives(<< <<"string", b>>, <<"string", b>>, Num(Len(b)), args[1] >>)
    [] way = "worded" ->     \* any value, read as a text if it is one, and compared with a text
         LET w == IF args[1][1] \in {"string", "symbol"} THEN <<"string", args[1][2]>> ELSE NullV IN
         Gives(<< w, w, Truth(w = args[2]), args[1], args[2] >>)
    [] way = "cond" -> Gives(IF args[1][1] = "symbol" THEN << <<"custom-cond", args[1][2]>> >> ELSE args)
    [] way = "frame" -> Gives(<<args[1], Name(args[1][1])>>)
    [] way = "saslframe" -> Gives(<< <<"saslframe", args>> >>)
    [] way = "amqpframe" -> Gives(args \o args)
    [] way = "payload" -> Gives(<<args[1], Num(Len(args[1][2])), NullV>>)
    [] way = "response" -> Gives(<< <<"binary", Response(args[1][2], args[2][2], args[3][2])>> >>)
    [] way = "seq" -> Gives(<<args[1], Num(Len(args[1][2])), Truth(args[1][2] = <<>>)>> \o args[1][2])
    [] way = "properties" -> Gives(<<NoProps>>)
    [] OTHER -> ChoiceOf(way, args[1])

(* A payload made of a message under construction: its length is that of   *)
(* its encoding, its format the message's.                                 *)
BuiltPayload(p, got) ==
  LET m == ApplyEdits(Empty(p[2][1]), p[2][2], <<>>) IN
  /\ Len(got) = 4
  /\ EncodesTo(m, got[1][2])
  /\ got[2] = Num(Len(got[1][2]))
  /\ got[3] = IF m.fmt = <<>> THEN NullV ELSE m.fmt[1]
  /\ got[4] = Name(p[2][1])

AsMade(e) ==     \* does what was observed agree?
  IF e.way = "payload" /\ e.args[1][1] = "built" THEN e.res = "ok" /\ BuiltPayload(e.args[1], e.got)
  ELSE LET w == Made(e.way, e.args) IN
       IF w[1] = "gives" THEN e.res = "ok" /\ SeqEq(w[2], e.got)
       ELSE e.res = "err" /\ e.cls = w[2] /\ e.arg = w[3]

(* What the arguments were, as far as the product tells.                   *)
Cut1(b) == CHOOSE k \in 1..Len(b) : b[k] = 0 /\ \A j \in 1..(k - 1) : b[j] # 0
Unmade(way, vs) ==
  CASE way = "response" ->
         LET b == vs[1][2]  x == Cut1(b)  r == SubSeq(b, x + 1, Len(b))  y == Cut1(r) IN
         << <<"string", SubSeq(b, 1, x - 1)>>, <<"string", SubSeq(r, 1, y - 1)>>, <<"string", SubSeq(r, y + 1, Len(r))>> >>
    [] way = "saslframe" -> vs[1][2]
    [] way = "cond" -> IF vs[1][1] = "custom-cond" THEN << <<"symbol", vs[1][2]>> >> ELSE vs
    [] way = "amqpframe" -> SubSeq(vs, 1, 2)
    [] way = "reading" -> <<vs[4]>>
    [] way = "worded" -> <<vs[4], vs[5]>>
    [] way \in {"frame", "payload", "seq"} -> <<vs[1]>>
    [] way = "properties" -> <<>>
    [] way \in DOMAIN ChoiceTable \ Groups1 ->
         << <<ChoiceTable[way][1], CHOOSE b \in DOMAIN Choices1(way) : Choices1(way)[b] = vs[1][2][2]>> >>
    [] way \in Groups1 -> << <<"symbol", CHOOSE b \in DOMAIN Conditions : Conditions[b] = vs[1][2]>> >>
    [] OTHER -> vs
=============================================================================
