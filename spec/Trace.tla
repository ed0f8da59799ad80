-------------------------------- MODULE Trace -------------------------------
(* Conformance: every recorded execution of the library must be a behaviour *)
(* of the specification.  TRACE: file with one case per line; PROP: the     *)
(* property that is decided; KNOWN: names of recorded findings.             *)
(* A case is accepted or rejected event by event; a rejection states what   *)
(* was expected.                                                            *)
EXTENDS Decode, Access, Sequence, Json, IOUtils

EntryFormats ==
  << [n |-> "V2", anchor |-> <<95, 83, 77, 95>>, min |-> 31, lenAt |-> 5, majAt |-> 6],
     [n |-> "V3", anchor |-> <<95, 83, 77, 51, 95>>, min |-> 24, lenAt |-> 6, majAt |-> 7] >>
EP == INSTANCE EntryPoint WITH Chunk <- 16, Modulus <- 256, MinMajor <- 2, Formats <- EntryFormats
WK == INSTANCE Walk WITH H <- 4, EndType <- 127
SP == INSTANCE Sparse WITH H <- 4, EndType <- 127, Base <- 65536, Filler <- 120
SS == INSTANCE SparseSearch WITH H <- 4, EndType <- 127, Base <- 65536, Filler <- 120, Chunk <- 16, Formats <- EntryFormats, Reach <- 300

Cases == ndJsonDeserialize(IOEnv.TRACE)
P == IOEnv.PROP
KnownRomUnit == IOEnv.KNOWN = "rom-unit"

(* variable names must not be field names elsewhere: TLC would not cache constants *)
VARIABLES case, event, walker, verdict
vars == <<case, event, walker, verdict>>

---------------------------------------------------------------------------
(* Structures of a table case                                               *)
Version(c) == Ver(c.v[1], c.v[2])
StructAt(c, buf, f) ==
  [v |-> Version(c), t |-> ByteAt(buf, f.o), len |-> f.x, h |-> WordAt(buf, f.o + 2),
   b |-> Slice(buf, f.o, f.x), ss |-> StringSet(Slice(buf, f.o + f.x, f.z - f.o - f.x))]

(* Which observations a property is about *)
AllGroups == {"n", "s", "e", "b", "g", "l", "d", "t"}
Groups ==
  CASE P \in {"C14"} -> {"n"} [] P = "C16" -> {"e"} [] P = "C17" -> {"t"} [] P = "C19" -> {"g"}
    [] P = "C21" -> {"d"} [] P \in {"C11", "C20"} -> {"l"} [] P = "C10" -> {"s", "d", "e"}
    [] P \in {"C09", "C12", "C13", "C15", "C25", "C27", "C02"} -> AllGroups
    [] P = "C23" -> {"n", "e"} [] P = "C06" -> {"n", "e"} [] OTHER -> {}
OptionalNames == TLCEval([t \in Decoded |-> LET rs == Rows[t] IN {rs[i].n : i \in {j \in DOMAIN rs : rs[j].p = "o"}}])
LongestOf == TLCEval([t \in Decoded |-> Longest[t]])
Counted(S, e) ==   \* the entries of the groups that the property is about
  CASE P = "C10" -> e[1] = "s" \/ (e[4] = "x" /\ S.t = 22)
    [] P = "C11" -> e[2] = "strings"
    [] P = "C20" -> e[2] # "strings"
    [] P = "C15" -> e[4] = "x" \/ e[1] = "n"   \* every other value is reported unchanged
    [] P \in {"C12"} -> e[4] \in {"o", "x"}
    [] P = "C13" -> e[4] \in {"o", "x"} \/ (S.t \in Decoded /\ S.len > LongestOf[S.t])
    [] P = "C23" -> S.t \notin Decoded
    [] P = "C06" -> S.t \notin Decoded \/ e[2] = "handle"
    [] OTHER -> TRUE
(* only whether a field is there, for the properties about presence *)
Optional(S, e) ==
  \/ e[1] \in {"n", "s", "b", "e", "g", "d"} /\ S.t \in Decoded /\ e[2] \in OptionalNames[S.t]
  \/ e[2] \in {"maximum_cache_size_2", "installed_size_2", "slot_information", "slot_physical_width", "slot_pitch",
               "peer_devices", "contained_elements", "sku_number", "core_count", "core_enabled", "thread_count",
               "descriptors", "extended_maximum_capacity"}
  \/ S.t \in {0, 13} /\ e[2] \in {"bios_revision", "firmware_revision", "flags"}
Got(e, ev) == CASE e[1] = "ta" -> ev.g["t"][e[2]][1] [] e[1] = "tb" -> ev.g["t"][e[2]][2] [] OTHER -> ev.g[e[1]][e[2]]
Agrees(S, e, ev) ==
  IF P \in {"C12", "C13"} /\ Optional(S, e) /\ ~(P = "C13" /\ S.t \in Decoded /\ S.len > LongestOf[S.t])
  THEN Len(Got(e, ev)) = Len(e[3])
  ELSE Got(e, ev) = e[3]
Entries(S) == SelectSeq(Expected(S, Groups), LAMBDA e : Counted(S, e))
Wrong(S, ev) == SelectSeq(Entries(S), LAMBDA e : ~Agrees(S, e, ev))
ViewsRight(S, ev) ==
  LET vs == ViewsOf(S) IN \A i \in 1..Len(vs) : ev.w[vs[i][1]] = View(Layouts[vs[i][1]], vs[i][2])
ContentRight(S, ev) ==
  /\ Wrong(S, ev) = <<>>
  /\ P \in {"C18", "C09", "C27"} => ViewsRight(S, ev)

---------------------------------------------------------------------------
(* Errors                                                                   *)
FramingKinds == {"BadSize", "UnterminatedStrings"}
LengthKinds == {"InvalidSlice", "InvalidFormattedSectionLength"}
NamesIt(S, ev) == ev.i = Name("InfoType", S.t) /\ ev.h = S.h
(* a length error asks for a length that the layout really requires and this structure does not have *)
LengthClaimRight(S, ev) ==
  LET r == Lengths(S.t, S.v) IN
  CASE ev.q = "" -> ev.x = r[1] /\ r[1] = r[2] /\ S.len # ev.x
    [] ev.q \in {"minimum of ", "at least "} -> S.len < ev.x /\ ev.x <= r[1]
    [] ev.q = "17h+(x*y) = " -> /\ S.t = 15 /\ S.v >= V21 /\ S.len >= 23
                                /\ LET n == 23 + LogX(S) * LogY(S) IN n # S.len /\ (n <= 255 => ev.x = n)
    [] OTHER -> FALSE
ErrorRight(S, ev, errs) ==
  \/ /\ ev.k = "InvalidStringIndex"
     /\ NamesIt(S, ev)
     /\ <<"String", ev.x>> \in errs
  \/ /\ ev.k \in LengthKinds
     /\ ev.k = "InvalidFormattedSectionLength" => NamesIt(S, ev) /\ (P = "C13" => LengthClaimRight(S, ev))
     /\ <<"Length", 0>> \in errs
MessageRight(ev) ==
  CASE ev.k = "BadSize" -> ev.m = "Structure at offset " \o DecSeq(ev.o) \o " with length " \o Dec(ev.x) \o " extends beyond SMBIOS"
    [] ev.k = "UnterminatedStrings" -> ev.m = "Structure at offset " \o DecSeq(ev.o) \o " with unterminated strings"
    [] ev.k = "InvalidStringIndex" ->
         ev.m = "Structure " \o ev.i \o " with handle " \o Dec(ev.h) \o " has invalid string index " \o Dec(ev.x)
    [] ev.k = "InvalidFormattedSectionLength" ->
         ev.m = "Formatted section length of structure " \o ev.i \o " with handle " \o Dec(ev.h) \o " should be "
                  \o ev.q \o Dec(ev.x) \o " bytes"
    [] ev.k = "InvalidSlice" -> ev.c # <<>> /\ ev.m = ev.c[1]
CauseRight(ev) == (ev.k = "InvalidSlice") = (ev.c # <<>>)

---------------------------------------------------------------------------
(* One event at a structure that fits                                       *)
DecodeRight(S, ev) ==
  LET errs == Errors(S)
      onlyStrings == errs # {} /\ <<"Length", 0>> \notin errs
      okThen(C) == ev.t = "ok" /\ ev.k = Kind(S.t) /\ C
  IN CASE P \in {"C07", "C08"} -> ev.t = "ok" \/ (ev.t = "err" /\ ev.k \notin FramingKinds)
       [] P = "C26" -> ev.t = "err" => MessageRight(ev) /\ CauseRight(ev) /\ ("i" \in DOMAIN ev => NamesIt(S, ev))
       [] P = "C01" -> TRUE
       [] P = "C02" -> TRUE
       [] P = "C06" ->
            \/ ev.t = "ok" /\ ev.k = Kind(S.t) /\ Wrong(S, ev) = <<>>
            \/ ev.t = "err" /\ ev.k \notin FramingKinds /\ S.t \in Decoded /\ ("i" \in DOMAIN ev => NamesIt(S, ev))
       [] P = "C23" ->
            \/ ev.t = "ok" /\ ev.k = Kind(S.t) /\ Wrong(S, ev) = <<>>
            \/ ev.t = "err" /\ errs # {} /\ ("i" \in DOMAIN ev => NamesIt(S, ev))
       [] P \in {"C09", "C27"} ->
            IF errs = {} THEN okThen(ContentRight(S, ev)) ELSE ev.t = "err" /\ ErrorRight(S, ev, errs)
       [] P = "C10" ->
            IF errs = {} THEN okThen(ContentRight(S, ev))
            ELSE IF onlyStrings THEN ev.t = "err" /\ ErrorRight(S, ev, errs)
            ELSE (ev.t = "err" /\ ev.k = "InvalidStringIndex") => ErrorRight(S, ev, errs)
       [] P = "C11" ->
            IF errs = {} THEN okThen(ContentRight(S, ev))
            ELSE IF CountErrors(S) # {} /\ onlyStrings THEN ev.t = "err" /\ ErrorRight(S, ev, errs)
            ELSE TRUE
       [] P \in {"C12", "C13"} ->
            IF errs = {} THEN okThen(ContentRight(S, ev))
            ELSE IF onlyStrings THEN ev.t = "err" => ev.k \notin LengthKinds
            ELSE ev.t = "err" /\ ErrorRight(S, ev, errs)
       [] OTHER -> errs = {} => okThen(ContentRight(S, ev))

(* Tables of gigabytes (op G) are given as filler with parts, see Sparse *)
Giant(c) == c.op = "G"
Started(c) == IF Giant(c) THEN SP!Begin ELSE WK!Begin
FrameAt(c, s) == IF Giant(c) THEN SP!Frame(c.buf, c.dw, s.pos) ELSE WK!Frame(c.buf, DwordCapped(c.dl), s.pos)
Onward(c, s) == IF Giant(c) THEN SP!Advance(c.buf, c.dw, c.v[1], s) ELSE WK!Advance(c.buf, DwordCapped(c.dl), c.v[1], s)
StructOf(c, f) ==
  IF Giant(c) THEN LET b == SP!Bytes2(c.buf, f.o, f.x) IN
                   [v |-> Version(c), t |-> b[1], len |-> f.x, h |-> WordAt(b, 2), b |-> b, ss |-> <<>>]
  ELSE StructAt(c, c.buf, f)
OffsetIs(c, q, o) == IF Giant(c) THEN <<q[3] + 256 * q[4], q[1] + 256 * q[2]>> = o ELSE DwordCapped(q) = o

(* One event of a table *)
EventRight(c, s, ev) ==
  LET f == FrameAt(c, s)
  IN IF P = "C01" /\ ev.t \in {"ok", "err", "none"} THEN TRUE
     ELSE IF ev.t \in {"panic", "endless", "noentry"} THEN FALSE
     ELSE IF ~s.live \/ f.k = "end" THEN P \in {"C06", "C07", "C08", "C09", "C02", "C27"} => ev.t = "none"
     ELSE IF f.k \in {"size", "open"} THEN
            IF P \in {"C08", "C09", "C27", "C02"} THEN
              /\ ev.t = "err"
              /\ ev.k = (IF f.k = "size" THEN "BadSize" ELSE "UnterminatedStrings")
              /\ OffsetIs(c, ev.o, f.o)
              /\ (f.k = "size" /\ f.seen) => ev.x = f.x
            ELSE IF P = "C26" THEN ev.t = "err" => MessageRight(ev) /\ CauseRight(ev)
            ELSE ev.t = "err"
     ELSE IF ev.t = "none" THEN FALSE
     ELSE DecodeRight(StructOf(c, f), ev)

(* Panics while a decoded value is rendered, converted or walked *)
KnownPanic(c, s, ev) ==
  LET f == WK!Frame(c.buf, DwordCapped(c.dl), s.pos) IN
  /\ KnownRomUnit /\ s.live /\ f.k = "fit"
  /\ LET S == StructAt(c, c.buf, f) IN
     S.t = 0 /\ ~RomDefined(B(S, 9), When(Since(S, V31, 26), W(S, 24)))
NoPanic(c, s, ev) ==
  (P = "C01" /\ ev.t = "ok" /\ ~Giant(c)) =>
    \A i \in 1..Len(ev.p) : ev.p[i] = "u64::from(RomSize)" /\ KnownPanic(c, s, ev)

---------------------------------------------------------------------------
(* Search                                                                   *)
Field2(q, n) ==
  CASE n = "signature" -> Slice(q, 0, 4) [] n = "checksum" -> q[5] [] n = "len" -> q[6] [] n = "major" -> q[7]
    [] n = "minor" -> q[8] [] n = "struct_max" -> WordAt(q, 8) [] n = "revision" -> q[11] [] n = "formatted" -> Slice(q, 11, 5)
    [] n = "dmi_signature" -> Slice(q, 16, 5) [] n = "dmi_checksum" -> q[22] [] n = "smbios_len" -> WordAt(q, 22)
    [] n = "smbios_address" -> Slice(q, 24, 4) [] n = "smbios_count" -> WordAt(q, 28) [] n = "bcd_revision" -> q[31]
Field3(q, n) ==
  CASE n = "signature" -> Slice(q, 0, 5) [] n = "checksum" -> q[6] [] n = "len" -> q[7] [] n = "major" -> q[8]
    [] n = "minor" -> q[9] [] n = "docrev" -> q[10] [] n = "revision" -> q[11]
    [] n = "smbios_len_max" -> Slice(q, 12, 4) [] n = "smbios_address" -> Slice(q, 16, 8)
Fields2 == {"signature", "checksum", "len", "major", "minor", "struct_max", "revision", "formatted", "dmi_signature",
            "dmi_checksum", "smbios_len", "smbios_address", "smbios_count", "bcd_revision"}
Fields3 == {"signature", "checksum", "len", "major", "minor", "docrev", "revision", "smbios_len_max", "smbios_address"}
Accessor2(q, n) ==
  CASE n = "len" -> q[6] [] n = "major" -> q[7] [] n = "minor" -> q[8] [] n = "revision" -> q[11]
    [] n = "smbios_address" -> Widen(Slice(q, 24, 4), 8) [] n = "smbios_len" -> Widen(Slice(q, 22, 2), 4)
    [] n = "version" -> <<q[7], q[8]>>
Accessor3(q, n) ==
  CASE n = "len" -> q[7] [] n = "major" -> q[8] [] n = "minor" -> q[9] [] n = "revision" -> q[11]
    [] n = "smbios_address" -> Slice(q, 16, 8) [] n = "smbios_len" -> Slice(q, 12, 4) [] n = "version" -> <<q[8], q[9]>>
Accessors == {"len", "major", "minor", "revision", "smbios_address", "smbios_len", "version"}
SearchMessage(r) ==
  CASE r.k = "NotFound" -> "Input did not contain a valid SMBIOS entry point"
    [] r.k = "TooOldVersion" -> "Input version number was below 2.0: " \o Dec(r.x)
    [] r.k = "BadSize" -> "Input contained an invalid-sized SMBIOS entry: " \o Dec(r.x)
    [] r.k = "BadChecksum" -> "SMBIOS entry point has an invalid checksum: " \o Dec(r.x)
(* buffers of gigabytes (op H): what lies from the first anchor on *)
Searched(c) == IF c.op = "H" THEN SS!Window(c.buf) ELSE c.buf
SearchRight(c) ==
  LET r == c.res
      buf == Searched(c)
      s == EP!Run(buf, EP!Start)
      fi == EP!FormatAt(buf, s.p)
      f == EntryFormats[fi]
      bad == EP!Violations(buf, s.p, f)
      q == Slice(buf, s.p, f.min)
      okField(n) == IF fi = 1 THEN r.f[n] = Field2(q, n) ELSE r.f[n] = Field3(q, n)
      okAcc(n) == IF fi = 1 THEN r.a[n] = Accessor2(q, n) ELSE r.a[n] = Accessor3(q, n)
      found == s.out = "Anchor"
      good == found /\ bad = {}
  IN IF r.t = "panic" THEN FALSE
     ELSE CASE P = "C01" -> TRUE
       [] P = "C02" -> TRUE
       [] P = "C03" -> IF good THEN r.t = "ok" /\ r.k = f.n /\ \A n \in {"signature", "checksum", "len", "major"} : okField(n)
                       ELSE r.t = "err"
       [] P = "C04" -> good => /\ r.t = "ok" /\ r.k = f.n
                               /\ \A n \in (IF fi = 1 THEN Fields2 ELSE Fields3) : okField(n)
                               /\ \A n \in Accessors : okAcc(n)
       [] P = "C05" -> /\ ~found => r.t = "err" /\ r.k = "NotFound"
                       /\ (found /\ bad # {}) => r.t = "err" /\ <<r.k, r.x>> \in bad
                       /\ good => r.t = "ok"
       [] P = "C26" -> r.t = "err" => r.m = SearchMessage(r) /\ r.c = <<>>
       [] P = "C27" -> IF good THEN r.t = "ok" /\ r.k = f.n /\ \A n \in Accessors : okAcc(n)
                       ELSE r.t = "err" /\ (found => <<r.k, r.x>> \in bad)
       [] OTHER -> TRUE
SearchExpect(c) ==
  LET buf == Searched(c)
      s == EP!Run(buf, EP!Start) IN
  IF s.out = "NotFound" THEN <<"NotFound">>
  ELSE <<s.p, EntryFormats[EP!FormatAt(buf, s.p)].n, EP!Violations(buf, s.p, EntryFormats[EP!FormatAt(buf, s.p)])>>

---------------------------------------------------------------------------
(* Accessors of a raw structure                                             *)
StringOp(S, o, n) ==
  IF Resolves(S.ss, n) THEN o.t = "ok" /\ o.v = StringNo(S.ss, n)
  ELSE o.t = "err" /\ o.v.k = "InvalidStringIndex" /\ NamesIt(S, o.v) /\ o.v.x = n
OpRight(S, o) ==
  CASE o.o \in {"g1", "g2", "g4", "g8", "g16"} ->
         IF Inside(S, o.a, WidthOf(o.o)) THEN o.t = "ok" /\ o.v = Slice(S.b, Num3(o.a), WidthOf(o.o))
         ELSE o.t = "err" /\ o.v.k = "InvalidSlice"
    [] o.o \in {"c1", "c2", "c4", "c8", "c16"} ->
         IF Converts(o.o, o.b) THEN o.t = "ok" /\ o.v = Slice(S.b, 4 + Num3(o.a), WidthOf(o.o)) ELSE o.t = "none"
    [] o.o = "s" ->
         IF Small(o.b) /\ Inside(S, o.a, Num3(o.b)) THEN o.t = "ok" /\ o.v = Slice(S.b, Num3(o.a), Num3(o.b))
         ELSE o.t = "none"
    [] o.o = "t" ->
         IF Inside(S, o.a, 1) THEN StringOp(S, o, B(S, Num3(o.a))) ELSE o.t = "err" /\ o.v.k = "InvalidSlice"
    [] o.o = "f" -> StringOp(S, o, o.a[1])
RawStruct(c, buf) == StructAt(c, buf, WK!Frame(buf, Len(buf), 0))
RawRight(c) ==
  LET S == RawStruct(c, c.buf) IN
  /\ c.t = "ok"
  /\ \A i \in 1..Len(c.ops) : OpRight(S, c.ops[i])
RawWrong(c) == LET S == RawStruct(c, c.buf) IN IF c.t # "ok" THEN <<c.t>> ELSE SelectSeq(c.ops, LAMBDA o : ~OpRight(S, o))

---------------------------------------------------------------------------
(* Equality, hash, copies                                                   *)
Contents(S) == Expected(S, {"n", "s", "e", "b", "g", "l", "d"})
EqualRight(c) ==
  LET fa == WK!Frame(c.a, Len(c.a), 0)
      fb == WK!Frame(c.b, Len(c.b), 0)
      A == StructAt(c, c.a, fa)
      Z == [StructAt(c, c.b, fb) EXCEPT !.v = Ver(c.v2[1], c.v2[2])]
      raw == A.t \notin Decoded
      decodes == fa.k = "fit" /\ fb.k = "fit" /\ Decodes(A) /\ Decodes(Z)
  IN decodes =>
       /\ c.t = "ok"
       /\ c.eq # <<>> /\ c.ne # <<>> /\ c.heq # <<>> /\ c.ceq = <<1>>
       /\ c.ne[1] = 1 - c.eq[1]
       /\ c.eq = <<1>> => c.heq = <<1>>
       /\ (c.a = c.b /\ c.v = c.v2) => c.eq = <<1>>
       /\ (A.t = Z.t /\ raw /\ (A.v # Z.v \/ A.len # Z.len \/ A.b # Z.b \/ A.ss # Z.ss)) => c.eq = <<0>>
       /\ (A.t # Z.t \/ A.h # Z.h) => c.eq = <<0>>
       /\ (A.t = Z.t /\ Contents(A) # Contents(Z)) => c.eq = <<0>>
(* entry points: equal exactly when every reported field is; the reserved byte is not reported *)
EntryEqualRight(c) ==
  LET sa == EP!Run(c.a, EP!Start)
      sb == EP!Run(c.b, EP!Start)
      fa == EP!FormatAt(c.a, sa.p)
      fb == EP!FormatAt(c.b, sb.p)
      good == /\ sa.out = "Anchor" /\ sb.out = "Anchor"
              /\ EP!Violations(c.a, sa.p, EntryFormats[fa]) = {} /\ EP!Violations(c.b, sb.p, EntryFormats[fb]) = {}
      qa == Slice(c.a, sa.p, EntryFormats[fa].min)
      qb == Slice(c.b, sb.p, EntryFormats[fb].min)
      same == IF fa # fb THEN FALSE
              ELSE IF fa = 1 THEN \A n \in Fields2 : Field2(qa, n) = Field2(qb, n)
              ELSE \A n \in Fields3 : Field3(qa, n) = Field3(qb, n)
  IN good => /\ c.t = "ok" /\ c.ceq = 1 /\ c.ne = 1 - c.eq
             /\ c.eq = 1 => c.heq = 1
             /\ ~same => c.eq = 0
             /\ qa = qb => c.eq = 1
(* lists of peer devices straight from bytes *)
PeersEqualRight(c) ==
  LET items(q) == [i \in 1..(Len(q) \div 5) |-> DeviceOf(Slice(q, 5 * (i - 1), 5))]
  IN /\ c.ne = 1 - c.eq
     /\ c.eq = 1 => c.heq = 1
     /\ c.a = c.b => c.eq = 1
     /\ items(c.a) # items(c.b) => c.eq = 0
CopyRight(c) ==
  /\ c.ieq = 1 /\ c.nest = 1
  /\ \A i \in 1..Len(c.copy) : c.copy[i].t # "panic" /\ c.copy[i].t # "endless"
  /\ Len(c.copy) = Len(c.ev) - c.k
  /\ \A i \in 1..Len(c.copy) : c.copy[i] = c.ev[c.k + i]

---------------------------------------------------------------------------
(* Sequences under programs of operations: one event per operation          *)
(* how many items a table has *)
RECURSIVE HandedOut(_, _)
HandedOut(c, s) ==
  IF ~s.live \/ WK!Frame(c.buf, DwordCapped(c.dl), s.pos).k = "end" THEN 0
  ELSE 1 + HandedOut(c, WK!Advance(c.buf, DwordCapped(c.dl), c.v[1], s))
RECURSIVE ProgramRight(_, _, _, _)
ProgramRight(base, ops, j, i) ==
  \/ j > Len(ops)
  \/ LET p == ops[j] IN
     /\ p.t = "ok"
     /\ IF p.o = "hint" THEN HintRight(base, i, p.v) ELSE p.v = Answer(base, i, p.o, p.k)
     /\ ProgramRight(base, ops, j + 1, Moved(base, i, p.o, p.k))
SequencesRight(c) ==
  /\ Len(c.seqs[1].base) = HandedOut(c, WK!Begin)
  /\ \A j \in 1..Len(c.seqs) : ProgramRight(c.seqs[j].base, c.seqs[j].ops, 1, 0)
(* the views of a bit-field: one flag per bit, as many as the view has *)
ViewsStepRight(c) ==
  LET w == View(CustomLayout(c.lay, Width(c.val)), c.val) IN
  /\ Len(c.seqs[1].base) = Width(c.val)
  /\ Len(c.seqs[2].base) = Len(w.sig) /\ Len(c.seqs[3].base) = Len(w.res)
  /\ \A j \in 1..Len(c.seqs) : ProgramRight(c.seqs[j].base, c.seqs[j].ops, 1, 0)

---------------------------------------------------------------------------
(* Values                                                                   *)
Pages(c, f(_)) == \A i \in 1..Len(c.r) : f(i)
CodeName(n, x) == IF n = "ContainedElementType" THEN ContainedType(x)[1] ELSE Name(n, x)
CodeTexts(n, x) == IF n = "ContainedElementType" THEN <<ContainedType(x)[2], ContainedType(x)[3]>>
                   ELSE IF n \in NoText THEN <<"", "">> ELSE Texts(n, x)
ValueRight(c) ==
  CASE c.op = "X" ->
         /\ P = "C16" => \A i \in 1..Len(c.r) : c.r[i][1] = CodeName(c.n, i - 1)
         /\ P = "C17" => \A i \in 1..Len(c.r) : <<c.r[i][2], c.r[i][3]>> = CodeTexts(c.n, i - 1)
    [] c.op = "F" ->
         /\ P = "C16" => /\ \A i \in 1..Len(c.r) : c.r[i][1] = Name("ProcessorFamily", c.lo + i - 1)
                         /\ "r8" \in DOMAIN c => \A i \in 1..Len(c.r8) : c.r8[i] = Name("ProcessorFamily", c.lo + i - 1)
         /\ P = "C17" => \A i \in 1..Len(c.r) : <<c.r[i][2], c.r[i][3]>> = Texts("ProcessorFamily", c.lo + i - 1)
    [] c.op = "VDF" -> \A i \in 1..Len(c.r) :
         /\ P = "C16" => c.r[i][1] = DataFormat(i - 1)[1]
         /\ P = "C17" => c.r[i][2] = DataFormatTexts(i - 1)
         /\ P = "C22" => c.r[i][3] = i - 1
    [] c.op = "ELT" -> P = "C22" => \A i \in 1..Len(c.r) : c.r[i] = i - 1
    [] c.op = "DFN" -> P = "C22" => \A i \in 1..Len(c.r) : c.r[i] = i - 1
    [] c.op = "ELD" -> \A i \in 1..Len(c.r) :
         /\ P = "C22" => c.r[i][1] = <<c.a, i - 1>>
         /\ P \in {"C16", "C20"} => c.r[i] = DescriptorOf(<<c.a, i - 1>>)
    [] c.op = "A" ->
         /\ P \in {"C14", "C16", "C21"} => c.v = AccessMethod(c.m, c.a)
         /\ P = "C17" => c.t = <<AccessText(c.m, c.a), AccessAlt(c.m, c.a)>>
         /\ P = "C22" => c.b = <<AccessAddress(c.m, c.a)>>
    [] c.op = "M" ->
         /\ P = "C16" => c.v = <<SmType(c.a)[1], SmType(c.a)[2]>>
         /\ P = "C17" => c.t = T2(SmType(c.a)[3])
    [] c.op = "V" -> LET q == Widen(c.buf, 5) IN
         /\ P \in {"C20", "C21", "C22", "C02"} => c.v = DeviceOf(q)
         /\ P \in {"C22", "C02"} => c.b = q
         /\ P = "C17" => c.t = T2(DeviceText(q))
    [] c.op = "PD" ->
         P \in {"C20", "C02"} => c.v = [i \in 1..(Len(c.buf) \div 5) |-> DeviceOf(Slice(c.buf, 5 * (i - 1), 5))]
    [] c.op = "PE" -> P = "C25" => PeersEqualRight(c)
    [] c.op = "L" ->
         P \in {"C17", "C20"} => c.t = T2(ElementText(Widen(c.buf, 3)))
    [] c.op = "Q" -> P = "C21" => (RomDefined(c.a, c.b) => c.v = <<RomBytes(c.a, c.b)>>)
    [] c.op = "D" -> P = "C21" => c.v = <<IF c.a = <<>> THEN Zeros(8) ELSE CapacityBytes(c.a[1][1], c.a[1][2])>>
    [] c.op = "CS" -> P = "C21" => \A i \in 1..Len(c.r) : c.r[i] = CacheSize(c.lo + i - 1)
    [] c.op = "CS2" -> P = "C21" => c.v = CacheSize2(c.a)
    [] c.op = "CC" -> P \in {"C16", "C21"} => \A i \in 1..Len(c.r) : c.r[i] = <<CacheConf(c.lo + i - 1)>>
    [] c.op = "VO" -> \A i \in 1..Len(c.r) :
         /\ P \in {"C19", "C21"} => c.r[i][1] = VoltageOf(i - 1)
         /\ P = "C17" => c.r[i][2] = T2(VoltageText(i - 1))
    [] c.op = "BN" -> P = "C19" => c.r = NamedFlags
    [] c.op = "SP" -> P = "C17" => \A i \in 1..Len(c.r) : c.r[i] = PitchText(c.lo + i - 1)
    [] c.op = "RV" -> P = "C17" => c.v = <<T2(RevText(c.a)), T2(RevText(c.a))>>
    [] c.op = "ME" -> P = "C26" => MessageRight(c.e) /\ CauseRight(c.e)
    [] c.op = "MS" -> P = "C26" => c.e.m = SearchMessage(c.e) /\ c.e.c = <<>>
    [] c.op = "Y" ->
         LET lt == c.a[1] < c.b[1] \/ (c.a[1] = c.b[1] /\ c.a[2] < c.b[2])
             eq == c.a = c.b
             n(x) == IF x THEN 1 ELSE 0
         IN P = "C12" => c.v = <<n(lt), n(eq), n(~lt /\ ~eq), n(lt \/ eq), n(~lt)>>
    [] c.op = "B" -> P = "C18" => c.w = View(Layouts[c.n], c.val)
    [] c.op = "C" -> P = "C18" => c.w = View(CustomLayout(c.lay, Width(c.val)), c.val)
ValuePanic(c) ==
  \E i \in 1..Len(c.p) :
    ~(KnownRomUnit /\ c.p[i] = "u64::from(RomSize)" /\ c.op = "Q" /\ ~RomDefined(c.a, c.b))
(* the same case under other circumstances (place in memory, order, build) *)
SameEverywhere(c) == P \in {"C02", "C27"} => c.alt = <<>> /\ c.again = <<>>

OneStep(c) ==
  CASE c.op \in {"S", "H"} -> SearchRight(c) /\ SameEverywhere(c)
    [] c.op = "R" -> P = "C24" => RawRight(c)
    [] c.op = "E" -> EqualRight(c)
    [] c.op = "EE" -> EntryEqualRight(c)
    [] c.op = "I" -> c.p = <<>> /\ (P = "C28" => SequencesRight(c))
    [] c.op = "J" -> c.p = <<>> /\ (P = "C28" => ViewsStepRight(c))
    [] c.op = "CRASH" -> FALSE
    [] OTHER -> ~ValuePanic(c) /\ ValueRight(c) /\ (P \in {"C02", "C27"} => c.again = <<>>)
Detail(c) ==
  CASE c.op \in {"S", "H"} -> SearchExpect(c)
    [] c.op = "R" -> RawWrong(c)
    [] c.op = "CRASH" -> <<"crash or hang">>
    [] c.op = "I" -> <<HandedOut(c, WK!Begin), {c.seqs[j].n : j \in {m \in 1..Len(c.seqs) : ~ProgramRight(c.seqs[m].base, c.seqs[m].ops, 1, 0)}}>>
    [] OTHER -> <<c.op>>
EventDetail(c, s, ev) ==
  LET f == FrameAt(c, s) IN
  IF s.live /\ f.k = "fit" THEN
    LET S == StructOf(c, f) IN
    <<f.k, S.t, S.len, Errors(S), IF ev.t = "ok" /\ Errors(S) = {} /\ ev.k = Kind(S.t) THEN Wrong(S, ev) ELSE <<>> >>
  ELSE <<f.k, f.o, f.x, s.live>>

---------------------------------------------------------------------------
Tables2 == {"T", "K", "G"}
Init ==
  /\ case \in 1..Len(Cases)
  /\ event = 1
  /\ walker = Started(Cases[case])
  /\ verdict = "run"
Judge(ok, detail) == IF ok THEN "run" ELSE IF PrintT("MISMATCH " \o ToString(<<case, event, detail>>)) THEN "rejected" ELSE "rejected"
(* one event of a table: consumes it and advances the walker *)
TableStep ==
  LET c == Cases[case]  ev == c.ev[event] IN
  /\ verdict = "run" /\ c.op \in Tables2 /\ event <= Len(c.ev)
  /\ verdict' = Judge(EventRight(c, walker, ev) /\ NoPanic(c, walker, ev), EventDetail(c, walker, ev))
  /\ walker' = Onward(c, walker)
  /\ event' = event + 1
  /\ UNCHANGED case
(* the end of a table: nothing is missing, and the whole agrees *)
TableEnd ==
  LET c == Cases[case] IN
  /\ verdict = "run" /\ c.op \in Tables2 /\ event = Len(c.ev) + 1
  /\ verdict' = IF Judge(((P = "C25" /\ c.op = "K") => CopyRight(c)) /\ (c.op = "T" => SameEverywhere(c)), <<"whole", c.op>>) = "run"
           THEN "done" ELSE "rejected"
  /\ event' = event + 1
  /\ UNCHANGED <<case, walker>>
Single ==
  LET c == Cases[case] IN
  /\ verdict = "run" /\ c.op \notin Tables2
  /\ verdict' = IF Judge(OneStep(c), Detail(c)) = "run" THEN "done" ELSE "rejected"
  /\ event' = event + 1
  /\ UNCHANGED <<case, walker>>
(* every case must get here: a case that gets stuck is a deadlock *)
Finished == verdict # "run" /\ UNCHANGED vars
Next == TableStep \/ TableEnd \/ Single \/ Finished
Spec == Init /\ [][Next]_vars
Accepted == verdict # "rejected"
=============================================================================
