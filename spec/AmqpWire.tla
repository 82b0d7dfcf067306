------------------------------ MODULE AmqpWire ------------------------------
(***************************************************************************)
(* The AMQP 1.0 type system and its wire format, as this library uses it.  *)
(*                                                                         *)
(* Abstract values.  A value is a pair <<kind, payload>>:                  *)
(*   <<"null", <<>> >>, <<"bool", <<0>> >>, <<"bool", <<1>> >>             *)
(*   <<k, bytes>> for the fixed-width kinds: the value's canonical         *)
(*       big-endian bytes (uint: 4 bytes, ulong: 8 bytes, ...), so that    *)
(*       64-bit quantities never meet TLC's 32-bit integers                *)
(*   <<"binary"|"string"|"symbol", bytes>>                                 *)
(*   <<"list", <<v1, ..., vn>> >>, <<"array", <<v1, ..., vn>> >>           *)
(*   <<"map", << <<k1, v1>>, ..., <<kn, vn>> >> >>   (order immaterial)    *)
(*   <<"desc", <<descriptor, v>> >>                                        *)
(*   <<composite name, <<field1, ..., fieldn>> >>    (see AmqpSchema)      *)
(*                                                                         *)
(* Decoding.  Dec(T, s, p, e, d) decodes one value of type T from the      *)
(* bytes s[p..e] at nesting depth d and is a 4-tuple                       *)
(*   <<"ok",  value, next position, lax>>   or                             *)
(*   <<"err", class, detail, FALSE>>   or   <<"deep", "", 0, FALSE>>.      *)
(* "deep" marks nesting beyond MaxDepth, where an implementation may give  *)
(* up: any orderly outcome is allowed.                                     *)
(* lax = TRUE marks an encoding that the AMQP standard calls malformed but *)
(* that a receiver may tolerate (bytes left over in a declared extent, odd *)
(* map counts, duplicate keys, ...): an implementation may either reject   *)
(* such input or produce exactly this value.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

Byte == 0..255

(* ---------------------------------------------------------------------- *)
(* Results                                                                 *)
(* ---------------------------------------------------------------------- *)
Ok(v, p, lax) == <<"ok", v, p, lax>>
Err(class)    == <<"err", class, "", FALSE>>
Err2(class, detail) == <<"err", class, detail, FALSE>>
CodeErr(code) == Err2("code", ToString(code))
Deep          == <<"deep", "", 0, FALSE>>
MaxDepth      == 64
IsOk(r)  == r[1] = "ok"
IsErr(r) == r[1] = "err"
MaybeLax(r, c) == IF IsOk(r) /\ c THEN <<r[1], r[2], r[3], TRUE>> ELSE r

(* ---------------------------------------------------------------------- *)
(* Integers and texts as bytes                                             *)
(* ---------------------------------------------------------------------- *)
MaxInt == 2147483647
(* Big-endian u32, capped at MaxInt: no input is that long, so a capped    *)
(* size or count is as much out of bounds as the true one.                 *)
BE4(s, p) == IF s[p] >= 128 THEN MaxInt
             ELSE s[p] * 16777216 + s[p+1] * 65536 + s[p+2] * 256 + s[p+3]
BE2(s, p) == s[p] * 256 + s[p+1]
U4(n) == <<n \div 16777216, (n \div 65536) % 256, (n \div 256) % 256, n % 256>>
U2(n) == <<n \div 256, n % 256>>
Zeros(n) == [i \in 1..n |-> 0]
Sign(b) == IF b >= 128 THEN 255 ELSE 0
Ext(fill, n, b) == [i \in 1..n |-> IF i = n THEN b ELSE fill]

CharCode ==
  LET from(cs, base) == [c \in {cs[i] : i \in 1..Len(cs)} |->
                           base - 1 + CHOOSE i \in 1..Len(cs) : cs[i] = c]
  IN  from(<<"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p",
             "q","r","s","t","u","v","w","x","y","z">>, 97)
      @@ from(<<"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P",
             "Q","R","S","T","U","V","W","X","Y","Z">>, 65)
      @@ (":" :> 58) @@ ("-" :> 45) @@ ("*" :> 42)
StrBytes(str) == [i \in 1..Len(str) |-> CharCode[SubSeq(str, i, i)]]

(* Well-formed UTF-8 in s[p..q] (Unicode table 3-7), stated position by    *)
(* position so that TLC needs no recursion.                                *)
LeadLen(b) == IF b < 128 THEN 1 ELSE IF b < 194 THEN 0 ELSE IF b < 224 THEN 2
              ELSE IF b < 240 THEN 3 ELSE IF b < 245 THEN 4 ELSE 0
Cont(b) == b >= 128 /\ b < 192
Utf8(s, p, q) ==
  \A i \in p..q :
    LET b == s[i] IN
    \/ b < 128
    \/ /\ Cont(b)
       /\ \E k \in 1..3 : /\ i - k >= p
                          /\ LeadLen(s[i-k]) > k
                          /\ \A j \in 1..(k-1) : Cont(s[i-j])
    \/ /\ LeadLen(b) >= 2
       /\ i + LeadLen(b) - 1 <= q
       /\ \A k \in 1..(LeadLen(b)-1) : Cont(s[i+k])
       /\ b = 224 => s[i+1] >= 160
       /\ b = 237 => s[i+1] <= 159
       /\ b = 240 => s[i+1] >= 144
       /\ b = 244 => s[i+1] <= 143
Ascii(s, p, q) == \A i \in p..q : s[i] < 128
(* A code point that is a character: not a surrogate, at most 10FFFF.      *)
CharOk(s, p) == /\ s[p] = 0 /\ s[p+1] <= 16
                /\ ~(s[p+1] = 0 /\ s[p+2] >= 216 /\ s[p+2] <= 223)

(* ---------------------------------------------------------------------- *)
(* Format codes                                                            *)
(* ---------------------------------------------------------------------- *)
FixedCodes ==      \* code |-> <<kind, bytes on the wire, canonical width>>
     ( 64 :> <<"null", 0, 0>>)      @@ ( 86 :> <<"bool", 1, 1>>)
  @@ ( 65 :> <<"bool", 0, 1>>)      @@ ( 66 :> <<"bool", 0, 1>>)
  @@ ( 80 :> <<"ubyte", 1, 1>>)     @@ ( 96 :> <<"ushort", 2, 2>>)
  @@ (112 :> <<"uint", 4, 4>>)      @@ ( 82 :> <<"uint", 1, 4>>)
  @@ ( 67 :> <<"uint", 0, 4>>)      @@ (128 :> <<"ulong", 8, 8>>)
  @@ ( 83 :> <<"ulong", 1, 8>>)     @@ ( 68 :> <<"ulong", 0, 8>>)
  @@ ( 81 :> <<"byte", 1, 1>>)      @@ ( 97 :> <<"short", 2, 2>>)
  @@ (113 :> <<"int", 4, 4>>)       @@ ( 84 :> <<"int", 1, 4>>)
  @@ (129 :> <<"long", 8, 8>>)      @@ ( 85 :> <<"long", 1, 8>>)
  @@ (114 :> <<"float", 4, 4>>)     @@ (130 :> <<"double", 8, 8>>)
  @@ (115 :> <<"char", 4, 4>>)      @@ (131 :> <<"timestamp", 8, 8>>)
  @@ (152 :> <<"uuid", 16, 16>>)
VarCodes ==        \* code |-> <<kind, width of the length>>
     (160 :> <<"binary", 1>>) @@ (176 :> <<"binary", 4>>)
  @@ (161 :> <<"string", 1>>) @@ (177 :> <<"string", 4>>)
  @@ (163 :> <<"symbol", 1>>) @@ (179 :> <<"symbol", 4>>)
CompoundCodes ==   \* code |-> <<kind, width of size and count>>
     ( 69 :> <<"list", 0>>)
  @@ (192 :> <<"list", 1>>)   @@ (208 :> <<"list", 4>>)
  @@ (193 :> <<"map", 1>>)    @@ (209 :> <<"map", 4>>)
  @@ (224 :> <<"array", 1>>)  @@ (240 :> <<"array", 4>>)
DescribedCode == 0

KindOf(code) ==
  IF code \in DOMAIN FixedCodes THEN FixedCodes[code][1]
  ELSE IF code \in DOMAIN VarCodes THEN VarCodes[code][1]
  ELSE IF code \in DOMAIN CompoundCodes THEN CompoundCodes[code][1]
  ELSE IF code = DescribedCode THEN "desc" ELSE "none"

(* ---------------------------------------------------------------------- *)
(* Scalars: constructor already read, body at s[p..e]                      *)
(* ---------------------------------------------------------------------- *)
DecFixed(code, s, p, e) ==
  LET k == FixedCodes[code][1]  w == FixedCodes[code][2]  c == FixedCodes[code][3] IN
  IF e - p + 1 < w THEN Err("length")
  ELSE CASE code = 65 -> Ok(<<"bool", <<1>>>>, p, FALSE)
         [] code = 66 -> Ok(<<"bool", <<0>>>>, p, FALSE)
         [] code = 86 -> Ok(<<"bool", <<IF s[p] = 0 THEN 0 ELSE 1>>>>, p + 1, s[p] > 1)
         [] w = 0 -> Ok(<<k, Zeros(c)>>, p, FALSE)
         [] w = 1 /\ c > 1 -> Ok(<<k, Ext(IF k \in {"int", "long"} THEN Sign(s[p]) ELSE 0, c, s[p])>>,
                                 p + 1, FALSE)
         [] k = "char" -> IF CharOk(s, p) THEN Ok(<<k, SubSeq(s, p, p + 3)>>, p + 4, FALSE)
                          ELSE Err("char")
         [] OTHER -> Ok(<<k, SubSeq(s, p, p + w - 1)>>, p + w, FALSE)

DecVarBody(kind, w, s, p, e) ==   \* length of width w, then that many bytes
  IF e - p + 1 < w THEN Err("length")
  ELSE LET n == IF w = 1 THEN s[p] ELSE BE4(s, p)
           q == p + w
       IN  IF n > e - q + 1 THEN Err("length")
           ELSE IF kind # "binary" /\ ~Utf8(s, q, q + n - 1) THEN Err("utf8")
           ELSE Ok(<<kind, SubSeq(s, q, q + n - 1)>>, q + n,
                   kind = "symbol" /\ ~Ascii(s, q, q + n - 1))

(* Header of a compound: <<"ok", count, first content position, last        *)
(* position of the extent>> or an error.                                   *)
CompoundHeader(code, s, p, e) ==
  LET w == CompoundCodes[code][2] IN
  IF w = 0 THEN <<"ok", 0, p, p - 1>>
  ELSE IF e - p + 1 < 2 * w THEN Err("length")
  ELSE LET size  == IF w = 1 THEN s[p] ELSE BE4(s, p)
           count == IF w = 1 THEN s[p+1] ELSE BE4(s, p + 4)
           q     == p + 2 * w
       IN  IF size < w THEN Err("length")
           ELSE IF size - w > e - q + 1 THEN Err("length")
           ELSE <<"ok", count, q, q + (size - w) - 1>>

=============================================================================
