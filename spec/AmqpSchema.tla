----------------------------- MODULE AmqpSchema -----------------------------
(***************************************************************************)
(* The AMQP 1.0 composite and restricted types (transport, security and    *)
(* messaging layers) as the standard defines them, restricted to the field *)
(* types this library supports.                                            *)
(*                                                                         *)
(* A type is a tuple <<name, parameters...>>.  A field is                  *)
(*   <<name, type, "req">>            mandatory                            *)
(*   <<name, type, "opt">>            optional, absent when null           *)
(*   <<name, type, "def", value>>     optional, value when null            *)
(***************************************************************************)
EXTENDS AmqpWire

\* Scalar types
TBool == <<"bool">>      TUbyte == <<"ubyte">>    TUshort == <<"ushort">>
TUint == <<"uint">>      TUlong == <<"ulong">>    TBinary == <<"binary">>
TString == <<"string">>  TSymbol == <<"symbol">>  TTimestamp == <<"timestamp">>
TVariant == <<"variant">>
TOpt(T) == <<"opt", T>>
TMap(K, V) == <<"map", K, V>>
TChoice(n) == <<"choice", n>>
TComp(n) == <<"comp", n>>
TUnion(n) == <<"union", n>>
TMessageId == <<"messageid">>
TCond == <<"cond">>
TDistMode == <<"distmode">>
\* Types the standard restricts
TFields == TMap(TSymbol, TVariant)
TAnnotations == TMap(TSymbol, TVariant)
TAppProps == TMap(TString, TVariant)
TAnyMap == TMap(TVariant, TVariant)
TFilterSet == TMap(TSymbol, TOpt(TString))
TSymbols == <<"multiple", TSymbol>>

False == <<"bool", <<0>>>>
True  == <<"bool", <<1>>>>
UintV(n) == <<"uint", U4(n)>>
MaxUint == <<"uint", <<255, 255, 255, 255>>>>
MaxUshort == <<"ushort", <<255, 255>>>>
Choice(n, c) == <<"choice", <<n, c>>>>
NullV == <<"null", <<>>>>

(* ---------------------------------------------------------------------- *)
(* Restricted types with choices: name |-> <<base kind, wire value |-> choice>> *)
(* ---------------------------------------------------------------------- *)
PlainChoices ==
     ("Role" :> <<"bool", (<<0>> :> "Sender") @@ (<<1>> :> "Receiver")>>)
  @@ ("SenderSettleMode" :> <<"ubyte",
        (<<0>> :> "Unsettled") @@ (<<1>> :> "Settled") @@ (<<2>> :> "Mixed")>>)
  @@ ("ReceiverSettleMode" :> <<"ubyte", (<<0>> :> "First") @@ (<<1>> :> "Second")>>)
  @@ ("SaslCode" :> <<"ubyte",
        (<<0>> :> "Ok") @@ (<<1>> :> "Auth") @@ (<<2>> :> "Sys") @@ (<<3>> :> "SysPerm")
        @@ (<<4>> :> "SysTemp")>>)
  @@ ("TerminusDurability" :> <<"uint",
        (U4(0) :> "None") @@ (U4(1) :> "Configuration") @@ (U4(2) :> "UnsettledState")>>)
  @@ ("TerminusExpiryPolicy" :> <<"symbol",
        (StrBytes("link-detach") :> "LinkDetach") @@ (StrBytes("session-end") :> "SessionEnd")
        @@ (StrBytes("connection-close") :> "ConnectionClose") @@ (StrBytes("never") :> "Never")>>)

(* Predefined error conditions: symbol |-> <<group, name>>; any other       *)
(* symbol is a custom condition.                                           *)
Conditions ==
     (StrBytes("amqp:internal-error") :> <<"AmqpError", "InternalError">>)
  @@ (StrBytes("amqp:not-found") :> <<"AmqpError", "NotFound">>)
  @@ (StrBytes("amqp:unauthorized-access") :> <<"AmqpError", "UnauthorizedAccess">>)
  @@ (StrBytes("amqp:decode-error") :> <<"AmqpError", "DecodeError">>)
  @@ (StrBytes("amqp:resource-limit-exceeded") :> <<"AmqpError", "ResourceLimitExceeded">>)
  @@ (StrBytes("amqp:not-allowed") :> <<"AmqpError", "NotAllowed">>)
  @@ (StrBytes("amqp:invalid-field") :> <<"AmqpError", "InvalidField">>)
  @@ (StrBytes("amqp:not-implemented") :> <<"AmqpError", "NotImplemented">>)
  @@ (StrBytes("amqp:resource-locked") :> <<"AmqpError", "ResourceLocked">>)
  @@ (StrBytes("amqp:precondition-failed") :> <<"AmqpError", "PreconditionFailed">>)
  @@ (StrBytes("amqp:resource-deleted") :> <<"AmqpError", "ResourceDeleted">>)
  @@ (StrBytes("amqp:illegal-state") :> <<"AmqpError", "IllegalState">>)
  @@ (StrBytes("amqp:frame-size-too-small") :> <<"AmqpError", "FrameSizeTooSmall">>)
  @@ (StrBytes("amqp:connection:forced") :> <<"ConnectionError", "ConnectionForced">>)
  @@ (StrBytes("amqp:connection:framing-error") :> <<"ConnectionError", "FramingError">>)
  @@ (StrBytes("amqp:connection:redirect") :> <<"ConnectionError", "Redirect">>)
  @@ (StrBytes("amqp:session:window-violation") :> <<"SessionError", "WindowViolation">>)
  @@ (StrBytes("amqp:session:errant-link") :> <<"SessionError", "ErrantLink">>)
  @@ (StrBytes("amqp:session:handle-in-use") :> <<"SessionError", "HandleInUse">>)
  @@ (StrBytes("amqp:session:unattached-handle") :> <<"SessionError", "UnattachedHandle">>)
  @@ (StrBytes("amqp:link:detach-forced") :> <<"LinkError", "DetachForced">>)
  @@ (StrBytes("amqp:link:transfer-limit-exceeded") :> <<"LinkError", "TransferLimitExceeded">>)
  @@ (StrBytes("amqp:link:message-size-exceeded") :> <<"LinkError", "MessageSizeExceeded">>)
  @@ (StrBytes("amqp:link:redirect") :> <<"LinkError", "Redirect">>)
  @@ (StrBytes("amqp:link:stolen") :> <<"LinkError", "Stolen">>)
(* Each group of conditions is a type of its own, which takes no other.     *)
ConditionGroups == {Conditions[b][1] : b \in DOMAIN Conditions}
ChoiceTable == TLCEval(PlainChoices @@
  [g \in ConditionGroups |-> <<"symbol", [b \in {x \in DOMAIN Conditions : Conditions[x][1] = g} |-> Conditions[b][2]]>>])
CondValue(b) == IF b \in DOMAIN Conditions THEN <<"cond", Conditions[b]>>
                ELSE <<"custom-cond", b>>

DistModes == (StrBytes("move") :> "Move") @@ (StrBytes("copy") :> "Copy")
DistValue(b) == IF b \in DOMAIN DistModes THEN <<"distmode", <<DistModes[b]>>>>
                ELSE <<"custom-distmode", b>>

(* ---------------------------------------------------------------------- *)
(* Composite types                                                         *)
(* ---------------------------------------------------------------------- *)
Comp(code, sym, fields) == [code |-> code, sym |-> StrBytes(sym), fields |-> fields]

Composites == [
  Error |-> Comp(29, "amqp:error:list", <<
    <<"condition", TCond, "req">>,
    <<"description", TString, "opt">>,
    <<"info", TFields, "opt">> >>),
  Open |-> Comp(16, "amqp:open:list", <<
    <<"container_id", TString, "req">>,
    <<"hostname", TString, "opt">>,
    <<"max_frame_size", TUint, "def", MaxUint>>,
    <<"channel_max", TUshort, "def", MaxUshort>>,
    <<"idle_time_out", TUint, "opt">>,
    <<"outgoing_locales", TSymbols, "opt">>,
    <<"incoming_locales", TSymbols, "opt">>,
    <<"offered_capabilities", TSymbols, "opt">>,
    <<"desired_capabilities", TSymbols, "opt">>,
    <<"properties", TFields, "opt">> >>),
  Begin |-> Comp(17, "amqp:begin:list", <<
    <<"remote_channel", TUshort, "opt">>,
    <<"next_outgoing_id", TUint, "req">>,
    <<"incoming_window", TUint, "req">>,
    <<"outgoing_window", TUint, "req">>,
    <<"handle_max", TUint, "def", MaxUint>>,
    <<"offered_capabilities", TSymbols, "opt">>,
    <<"desired_capabilities", TSymbols, "opt">>,
    <<"properties", TFields, "opt">> >>),
  Attach |-> Comp(18, "amqp:attach:list", <<
    <<"name", TString, "req">>,
    <<"handle", TUint, "req">>,
    <<"role", TChoice("Role"), "req">>,
    <<"snd_settle_mode", TChoice("SenderSettleMode"), "def", Choice("SenderSettleMode", "Mixed")>>,
    <<"rcv_settle_mode", TChoice("ReceiverSettleMode"), "def", Choice("ReceiverSettleMode", "First")>>,
    <<"source", TComp("Source"), "opt">>,
    <<"target", TComp("Target"), "opt">>,
    <<"unsettled", TAnyMap, "opt">>,
    <<"incomplete_unsettled", TBool, "def", False>>,
    <<"initial_delivery_count", TUint, "opt">>,
    <<"max_message_size", TUlong, "opt">>,
    <<"offered_capabilities", TSymbols, "opt">>,
    <<"desired_capabilities", TSymbols, "opt">>,
    <<"properties", TFields, "opt">> >>),
  Flow |-> Comp(19, "amqp:flow:list", <<
    <<"next_incoming_id", TUint, "opt">>,
    <<"incoming_window", TUint, "req">>,
    <<"next_outgoing_id", TUint, "req">>,
    <<"outgoing_window", TUint, "req">>,
    <<"handle", TUint, "opt">>,
    <<"delivery_count", TUint, "opt">>,
    <<"link_credit", TUint, "opt">>,
    <<"available", TUint, "opt">>,
    <<"drain", TBool, "def", False>>,
    <<"echo", TBool, "def", False>>,
    <<"properties", TFields, "opt">> >>),
  Transfer |-> Comp(20, "amqp:transfer:list", <<
    <<"handle", TUint, "req">>,
    <<"delivery_id", TUint, "opt">>,
    <<"delivery_tag", TBinary, "opt">>,
    <<"message_format", TUint, "opt">>,
    <<"settled", TBool, "opt">>,
    <<"more", TBool, "def", False>>,
    <<"rcv_settle_mode", TChoice("ReceiverSettleMode"), "opt">>,
    <<"state", TUnion("DeliveryState"), "opt">>,
    <<"resume", TBool, "def", False>>,
    <<"aborted", TBool, "def", False>>,
    <<"batchable", TBool, "def", False>> >>),
  Disposition |-> Comp(21, "amqp:disposition:list", <<
    <<"role", TChoice("Role"), "req">>,
    <<"first", TUint, "req">>,
    <<"last", TUint, "opt">>,
    <<"settled", TBool, "def", False>>,
    <<"state", TUnion("DeliveryState"), "opt">>,
    <<"batchable", TBool, "def", False>> >>),
  Detach |-> Comp(22, "amqp:detach:list", <<
    <<"handle", TUint, "req">>,
    <<"closed", TBool, "def", False>>,
    <<"error", TComp("Error"), "opt">> >>),
  End |-> Comp(23, "amqp:end:list", << <<"error", TComp("Error"), "opt">> >>),
  Close |-> Comp(24, "amqp:close:list", << <<"error", TComp("Error"), "opt">> >>),
  SaslMechanisms |-> Comp(64, "amqp:sasl-mechanisms:list",
    << <<"sasl_server_mechanisms", TSymbols, "req">> >>),
  SaslInit |-> Comp(65, "amqp:sasl-init:list", <<
    <<"mechanism", TSymbol, "req">>,
    <<"initial_response", TBinary, "opt">>,
    <<"hostname", TString, "opt">> >>),
  SaslChallenge |-> Comp(66, "amqp:sasl-challenge:list", << <<"challenge", TBinary, "req">> >>),
  SaslResponse |-> Comp(67, "amqp:sasl-response:list", << <<"response", TBinary, "req">> >>),
  SaslOutcome |-> Comp(68, "amqp:sasl-outcome:list", <<
    <<"code", TChoice("SaslCode"), "req">>,
    <<"additional_data", TBinary, "opt">> >>),
  Source |-> Comp(40, "amqp:source:list", <<
    <<"address", TString, "opt">>,
    <<"durable", TChoice("TerminusDurability"), "def", Choice("TerminusDurability", "None")>>,
    <<"expiry_policy", TChoice("TerminusExpiryPolicy"), "def",
        Choice("TerminusExpiryPolicy", "SessionEnd")>>,
    <<"timeout", TUint, "def", UintV(0)>>,
    <<"dynamic", TBool, "def", False>>,
    <<"dynamic_node_properties", TFields, "opt">>,
    <<"distribution_mode", TDistMode, "opt">>,
    <<"filter", TFilterSet, "opt">>,
    <<"default_outcome", TUnion("Outcome"), "opt">>,
    <<"outcomes", TSymbols, "opt">>,
    <<"capabilities", TSymbols, "opt">> >>),
  Target |-> Comp(41, "amqp:target:list", <<
    <<"address", TString, "opt">>,
    <<"durable", TChoice("TerminusDurability"), "def", Choice("TerminusDurability", "None")>>,
    <<"expiry_policy", TChoice("TerminusExpiryPolicy"), "def",
        Choice("TerminusExpiryPolicy", "SessionEnd")>>,
    <<"timeout", TUint, "def", UintV(0)>>,
    <<"dynamic", TBool, "def", False>>,
    <<"dynamic_node_properties", TFields, "opt">>,
    <<"capabilities", TSymbols, "opt">> >>),
  Header |-> Comp(112, "amqp:header:list", <<
    <<"durable", TBool, "def", False>>,
    <<"priority", TUbyte, "def", <<"ubyte", <<4>>>> >>,
    <<"ttl", TUint, "opt">>,
    <<"first_acquirer", TBool, "def", False>>,
    <<"delivery_count", TUint, "def", UintV(0)>> >>),
  Properties |-> Comp(115, "amqp:properties:list", <<
    <<"message_id", TMessageId, "opt">>,
    <<"user_id", TBinary, "opt">>,
    <<"to", TString, "opt">>,
    <<"subject", TString, "opt">>,
    <<"reply_to", TString, "opt">>,
    <<"correlation_id", TMessageId, "opt">>,
    <<"content_type", TSymbol, "opt">>,
    <<"content_encoding", TSymbol, "opt">>,
    <<"absolute_expiry_time", TTimestamp, "opt">>,
    <<"creation_time", TTimestamp, "opt">>,
    <<"group_id", TString, "opt">>,
    <<"group_sequence", TUint, "opt">>,
    <<"reply_to_group_id", TString, "opt">> >>),
  Received |-> Comp(35, "amqp:received:list", <<
    <<"section_number", TUint, "req">>,
    <<"section_offset", TUlong, "req">> >>),
  Accepted |-> Comp(36, "amqp:accepted:list", <<>>),
  Rejected |-> Comp(37, "amqp:rejected:list", << <<"error", TComp("Error"), "opt">> >>),
  Released |-> Comp(38, "amqp:released:list", <<>>),
  Modified |-> Comp(39, "amqp:modified:list", <<
    <<"delivery_failed", TBool, "opt">>,
    <<"undeliverable_here", TBool, "opt">>,
    <<"message_annotations", TFields, "opt">> >>)
]

(* Sections of a message that are not composites: described primitive values *)
SimpleSections == [
  DeliveryAnnotations   |-> [code |-> 113, sym |-> StrBytes("amqp:delivery-annotations:map"), type |-> TAnnotations],
  MessageAnnotations    |-> [code |-> 114, sym |-> StrBytes("amqp:message-annotations:map"), type |-> TAnnotations],
  ApplicationProperties |-> [code |-> 116, sym |-> StrBytes("amqp:application-properties:map"), type |-> TAppProps],
  Data                  |-> [code |-> 117, sym |-> StrBytes("amqp:data:binary"), type |-> TBinary],
  AmqpSequence          |-> [code |-> 118, sym |-> StrBytes("amqp:amqp-sequence:list"), type |-> <<"list">>],
  AmqpValue             |-> [code |-> 119, sym |-> StrBytes("amqp:amqp-value:*"), type |-> TVariant],
  Footer                |-> [code |-> 120, sym |-> StrBytes("amqp:footer:map"), type |-> TAnnotations]
]

Unions == [
  Performative  |-> {"Open", "Begin", "Attach", "Flow", "Transfer", "Disposition", "Detach",
                     "End", "Close"},
  SaslFrameBody |-> {"SaslMechanisms", "SaslInit", "SaslChallenge", "SaslResponse", "SaslOutcome"},
  DeliveryState |-> {"Received", "Accepted", "Rejected", "Released", "Modified"},
  Outcome       |-> {"Accepted", "Rejected", "Released", "Modified"},
  Section       |-> {"Header", "Properties"} \cup DOMAIN SimpleSections
]

CodeOf(n) == IF n \in DOMAIN Composites THEN Composites[n].code ELSE SimpleSections[n].code
SymOf(n)  == IF n \in DOMAIN Composites THEN Composites[n].sym ELSE SimpleSections[n].sym

(* union |-> descriptor value |-> member, by numeric code and by symbol     *)
ByDescriptor(names) ==
  [d \in {<<"ulong", Zeros(7) \o <<CodeOf(n)>>>> : n \in names}
         \cup {<<"symbol", SymOf(n)>> : n \in names} |->
     CHOOSE n \in names : d = <<"ulong", Zeros(7) \o <<CodeOf(n)>>>> \/ d = <<"symbol", SymOf(n)>>]
UnionTable == [u \in DOMAIN Unions |-> ByDescriptor(Unions[u])]
CompTable  == [n \in DOMAIN Composites |-> ByDescriptor({n})]

(* ---------------------------------------------------------------------- *)
(* Does b stand for a?  Maps are unordered, all NaNs are one value, and     *)
(* restricted symbols given by their text come back as the predefined ones. *)
(* ---------------------------------------------------------------------- *)
ScalarKinds == {"bool", "ubyte", "ushort", "uint", "ulong", "byte", "short", "int", "long",
                "float", "double", "char", "timestamp", "uuid"}
LeafKinds == ScalarKinds \cup {"null", "binary", "string", "symbol", "ssymbol", "choice", "cond",
                "custom-cond", "distmode", "custom-distmode", "instant"}
IsNaN(k, b) ==
  CASE k = "float"  -> b[1] % 128 = 127 /\ b[2] >= 128 /\ (b[2] % 128) + b[3] + b[4] > 0
    [] k = "double" -> b[1] % 128 = 127 /\ b[2] >= 240 /\ (b[2] % 16) + b[3] + b[4] + b[5] + b[6] + b[7] + b[8] > 0
    [] OTHER -> FALSE

RECURSIVE ValEq(_, _)
ValEq(a, b) ==
  \/ a = b
  \/ a[1] = "ssymbol" /\ b[1] = "symbol" /\ a[2] = b[2]   \* statically backed symbols
  \/ a[1] = "custom-cond" /\ b = CondValue(a[2])
  \/ a[1] = "custom-distmode" /\ b = DistValue(a[2])
  \/ /\ a[1] = b[1]
     /\ CASE a[1] \in {"float", "double"} -> IsNaN(a[1], a[2]) /\ IsNaN(b[1], b[2])
          [] a[1] \in LeafKinds -> FALSE
          [] a[1] = "map" ->
               /\ Len(a[2]) = Len(b[2])
               /\ IF Len(a[2]) > 2000     \* such maps are made of plain values only
                  THEN {a[2][i] : i \in 1..Len(a[2])} = {b[2][i] : i \in 1..Len(b[2])}
                  ELSE \A i \in 1..Len(a[2]) : \E j \in 1..Len(b[2]) :
                         ValEq(a[2][i][1], b[2][j][1]) /\ ValEq(a[2][i][2], b[2][j][2])
          [] a[1] = "vecmap" ->
               /\ Len(a[2]) = Len(b[2])
               /\ \A i \in 1..Len(a[2]) :
                    ValEq(a[2][i][1], b[2][i][1]) /\ ValEq(a[2][i][2], b[2][i][2])
          [] OTHER ->
               /\ Len(a[2]) = Len(b[2])
               /\ \A i \in 1..Len(a[2]) : ValEq(a[2][i], b[2][i])

(* The keys the library's map type regards as one: equal values, and +0.0  *)
(* and -0.0.                                                               *)
IsZero(b) == b[1] \in {0, 128} /\ \A i \in 2..Len(b) : b[i] = 0
SameKey(a, b) == \/ ValEq(a, b)
                 \/ /\ a[1] = b[1] /\ a[1] \in {"float", "double"}
                    /\ IsZero(a[2]) /\ IsZero(b[2])
=============================================================================
