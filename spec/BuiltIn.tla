------------------------------ MODULE BuiltIn ------------------------------
(* Types of the standard library and of supported crates that have schemas: *)
(* how serde writes their values, how much their schemas may admit, and how *)
(* schemars builds those schemas.                                           *)
(*  type: <<"leaf",name>> <<"opt",t>> <<"w",kind,t>> <<"seq",kind,t>>        *)
(*   <<"set",kind,t>> <<"map",kind,leaf,t>> <<"arr",n,t>> <<"avec",n,t>>     *)
(*   <<"tup",ts>> <<"res",a,b>> <<"bound",t>> <<"range",kind,t>>             *)
(*   <<"either",a,b>>                                                        *)
EXTENDS Wrappers

Num(s) == Dec(StartsWith(s, "-"), IF StartsWith(s, "-") THEN DropN(s, 1) ELSE s, "")
----------------------------------------------------------------------------
(* Integers: signedness, bits, whether zero is excluded *)
Ints == [u8 |-> <<"u", 8, FALSE>>, u16 |-> <<"u", 16, FALSE>>, u32 |-> <<"u", 32, FALSE>>, u64 |-> <<"u", 64, FALSE>>, u128 |-> <<"u", 128, FALSE>>, usize |-> <<"u", 64, FALSE>>,
         i8 |-> <<"i", 8, FALSE>>, i16 |-> <<"i", 16, FALSE>>, i32 |-> <<"i", 32, FALSE>>, i64 |-> <<"i", 64, FALSE>>, i128 |-> <<"i", 128, FALSE>>, isize |-> <<"i", 64, FALSE>>,
         NonZeroU8 |-> <<"u", 8, TRUE>>, NonZeroU16 |-> <<"u", 16, TRUE>>, NonZeroU32 |-> <<"u", 32, TRUE>>, NonZeroU64 |-> <<"u", 64, TRUE>>,
         NonZeroU128 |-> <<"u", 128, TRUE>>, NonZeroUsize |-> <<"u", 64, TRUE>>,
         NonZeroI8 |-> <<"i", 8, TRUE>>, NonZeroI16 |-> <<"i", 16, TRUE>>, NonZeroI32 |-> <<"i", 32, TRUE>>, NonZeroI64 |-> <<"i", 64, TRUE>>,
         NonZeroI128 |-> <<"i", 128, TRUE>>, NonZeroIsize |-> <<"i", 64, TRUE>>]
AtomicInts == [AtomicU8 |-> "u8", AtomicU16 |-> "u16", AtomicU32 |-> "u32", AtomicU64 |-> "u64", AtomicUsize |-> "usize",
               AtomicI8 |-> "i8", AtomicI16 |-> "i16", AtomicI32 |-> "i32", AtomicI64 |-> "i64", AtomicIsize |-> "isize"]
IntNames == DOMAIN Ints \cup DOMAIN AtomicInts
IntOf(n) == Ints[IF n \in DOMAIN AtomicInts THEN AtomicInts[n] ELSE n]
Pow == [u8 |-> "255", u16 |-> "65535", u32 |-> "4294967295", u64 |-> "18446744073709551615",
        i8 |-> "127", i16 |-> "32767", i32 |-> "2147483647", i64 |-> "9223372036854775807",
        m8 |-> "-128", m16 |-> "-32768", m32 |-> "-2147483648", m64 |-> "-9223372036854775808"]
Bits(i) == IF i[2] = 128 THEN 64 ELSE i[2]      \* 128-bit values beyond 64 bits cannot be held by a JSON value here
IntMax(i) == Num(Pow[i[1] \o ToString(Bits(i))])
IntMin(i) == IF i[1] = "u" THEN Nu(0) ELSE Num(Pow["m" \o ToString(Bits(i))])
InIntRange(i, v) == IsInteger(v) /\ NumLe(IntMin(i), v) /\ NumLe(v, IntMax(i)) /\ (i[3] => v # Nu(0))
(* bounds that the schema states *)
StatedOk(i, v) == IsInteger(v) /\ (i[1] = "u" => NumLe(Nu(IF i[3] THEN 1 ELSE 0), v))
                  /\ (i[2] \in {8, 16} => InIntRange(<<i[1], i[2], FALSE>>, v)) /\ (i[3] => v # Nu(0))
IntFormat(n) == LET i == IntOf(n)
                    b == IF n \in {"usize", "NonZeroUsize", "AtomicUsize", "isize", "NonZeroIsize", "AtomicIsize"} THEN "" ELSE ToString(i[2])
                IN (IF i[1] = "u" THEN "uint" ELSE "int") \o b
IntSchema(n) ==
    LET i == IntOf(n)
        s == Obj(("type" :> Str("integer")) @@ ("format" :> Str(IntFormat(n))))
        lo == WithIf(s, i[1] = "u" \/ i[2] \in {8, 16}, "minimum", IF i[1] = "u" THEN Nu(IF i[3] THEN 1 ELSE 0) ELSE IntMin(i))
        hi == WithIf(lo, i[2] \in {8, 16}, "maximum", IntMax(i))
    IN WithIf(hi, i[1] = "i" /\ i[3], "not", Obj1("const", Nu(0)))

(* Strings: some values, and how the schema narrows them *)
Days == {"Mon", "Tue", "Wed", "Thu", "Fri", "Sat", "Sun"}
StrVals == [String |-> {"", "a", "b c", "x/y", ChrOf(233), "null", "0", "abcdefghijklmnop"}, SmolStr02 |-> {"", "ab"}, SmolStr03 |-> {"", "ab"},
            ArrayString4 |-> {"", "abcd"}, ArrayString64 |-> {"", "abcdefghijklmnop"}, PathBuf |-> {"", "/a/b", "c"}, BoxStr |-> {"", "ab"}, RcStr |-> {"", "ab"}, CowStr |-> {"", "ab"}, BoxPath |-> {"a/b"},
            char |-> {"a", " ", "0", ChrOf(233)},
            IpAddr |-> {"127.0.0.1", "::1", "2001:db8::1"}, Ipv4Addr |-> {"127.0.0.1", "0.0.0.0"}, Ipv6Addr |-> {"::", "::1", "2001:db8::ff00:42:8329"},
            SocketAddr |-> {"127.0.0.1:80", "[::1]:8080"}, SocketAddrV4 |-> {"127.0.0.1:80"}, SocketAddrV6 |-> {"[::1]:8080"},
            NaiveDate |-> {"2024-02-29", "0001-01-01"}, NaiveDateTime |-> {"2024-02-29T12:30:00", "2024-02-29T12:30:00.123456"}, NaiveTime |-> {"12:30:00", "23:59:59.999"},
            DateTimeUtc |-> {"2024-02-29T12:30:00Z", "1969-12-31T23:59:59.5Z"}, DateTimeFixed |-> {"2024-02-29T12:30:00+02:00", "2024-02-29T12:30:00.25-11:30"},
            Weekday |-> Days,
            SignedDuration |-> {"PT1H30M", "-PT5S", "PT0S"}, Span |-> {"P1DT2H", "P1Y2M"}, Timestamp |-> {"2024-01-01T00:00:00Z"},
            Zoned |-> {"2024-01-01T00:00:00+00:00[+00:00]"}, JDate |-> {"2024-02-29"}, JTime |-> {"12:30:00"}, JDateTime |-> {"2024-02-29T12:30:00"},
            Version |-> {"1.2.3", "0.0.1-rc.1+b.5", "10.20.30-a-b"}, Url |-> {"https://example.com/", "https://example.com/a?b#c", "mailto:a@b.c"},
            Uuid |-> {"67e55044-10b1-426f-9247-bb680e5fe0c8", "00000000-0000-0000-0000-000000000000"},
            Decimal |-> {"1", "-1", "0", "1.50", "-0.001", "12345.678"}, BigDecimal |-> {"1", "-1", "0", "1.50", "-0.001", "12345.678"}]
Formats == [IpAddr |-> "ip", Ipv4Addr |-> "ipv4", Ipv6Addr |-> "ipv6", NaiveDate |-> "date", NaiveDateTime |-> "partial-date-time", NaiveTime |-> "partial-time",
            DateTimeUtc |-> "date-time", DateTimeFixed |-> "date-time", SignedDuration |-> "duration", Span |-> "duration", Timestamp |-> "date-time",
            Zoned |-> "zoned-date-time", JDate |-> "date", JTime |-> "partial-time", JDateTime |-> "partial-date-time", Url |-> "uri", Uuid |-> "uuid"]
FreeStr == {"String", "SmolStr02", "SmolStr03", "PathBuf", "BoxStr", "RcStr", "CowStr", "BoxPath"}
IsDec(n) == n \in {"Decimal", "BigDecimal"}
SerDecPat == "^-?\\d+(\\.\\d+)?$"
DeDecPat == "^-?\\d+(\\.\\d+)?([eE]\\d+)?$"
StrWire(n, s) == CASE n \in FreeStr -> TRUE [] n = "char" -> Len(s) = 1
                   [] n = "ArrayString4" -> Len(s) <= 4 /\ \A i \in 1..Len(s) : Ch(s, i) \in DOMAIN OrdTab [] n = "ArrayString64" -> Len(s) <= 16
                   [] OTHER -> s \in StrVals[n]
StrUpper(m, n, s) == CASE n = "char" -> Len(s) = 1 [] n = "Weekday" -> s \in Days [] n = "Version" -> SemverStr(s)
                       [] IsDec(n) -> (IF m = "ser" THEN DecimalStr(s) ELSE DecimalExpStr(s)) [] OTHER -> TRUE
StrSchema(m, n) ==
    LET s == Obj1("type", Str("string")) IN
    CASE n = "char" -> Obj(("type" :> Str("string")) @@ ("minLength" :> Nu(1)) @@ ("maxLength" :> Nu(1)))
      [] n = "Weekday" -> With(s, "enum", StrArr(<<"Mon", "Tue", "Wed", "Thu", "Fri", "Sat", "Sun">>))
      [] n = "Version" -> With(s, "pattern", Str(SemverPat))
      [] IsDec(n) -> IF m = "ser" THEN With(s, "pattern", Str(SerDecPat)) ELSE Obj(("type" :> StrArr(<<"string", "number">>)) @@ ("pattern" :> Str(DeDecPat)))
      [] n \in DOMAIN Formats -> With(s, "format", Str(Formats[n]))
      [] OTHER -> s

(* Other leaves *)
U8s == [u |-> IntOf("u8")].u
IsBytes(v) == IsArr(v) /\ \A x \in Elems(v) : InIntRange(IntOf("u8"), x)
IsCBytes(v) == IsBytes(v) /\ Nu(0) \notin Elems(v)
ObjWith(v, names) == IsObj(v) /\ \A k \in names : Has(v, k)
Simple == {"bool", "AtomicBool", "f32", "f64", "unit", "Phantom", "Value", "RawValue", "JMap", "Number", "Schema", "Duration", "SystemTime", "TimeDelta", "OsString", "CString", "Bytes", "ArrEmpty"}
Leaves == IntNames \cup DOMAIN StrVals \cup Simple
Secs(n) == IF n = "Duration" THEN <<"secs", "nanos">> ELSE <<"secs_since_epoch", "nanos_since_epoch">>
Billion == Num("1000000000")
LeafWire(m, n, v) ==
    CASE n \in IntNames -> InIntRange(IntOf(n), v)
      [] n \in DOMAIN StrVals -> (IsStr(v) /\ StrWire(n, v[2])) \/ (m = "de" /\ IsDec(n) /\ v \in {Nu(0), Nu(1), Nu(0 - 1), Dec(FALSE, "1", "5")})
      [] n \in {"bool", "AtomicBool"} -> IsBool(v)
      [] n \in {"f32", "f64", "Number"} -> IsNum(v)
      [] n \in {"unit", "Phantom"} -> IsNull(v)
      [] n \in {"Value", "RawValue"} -> TRUE
      [] n = "JMap" -> IsObj(v)
      [] n = "Schema" -> IsObj(v) \/ IsBool(v)
      [] n \in {"Duration", "SystemTime"} -> LET s == Secs(n) IN IsObj(v) /\ Keys(v) = {s[1], s[2]} /\ InIntRange(IntOf(IF n = "Duration" THEN "u64" ELSE "u32"), Get(v, s[1]))
                                             /\ InIntRange(IntOf("u32"), Get(v, s[2])) /\ NumLt(Get(v, s[2]), Billion)
      [] n = "TimeDelta" -> IsArr(v) /\ Len(v[2]) = 2 /\ InIntRange(IntOf("i32"), v[2][1]) /\ InIntRange(IntOf("u32"), v[2][2]) /\ NumLt(v[2][2], Billion)
      [] n = "OsString" -> IsObj(v) /\ Keys(v) = {"Unix"} /\ IsBytes(Get(v, "Unix"))
      [] n = "CString" -> IsCBytes(v) \/ (m = "de" /\ IsStr(v))
      [] n = "Bytes" -> IsBytes(v) \/ (m = "de" /\ IsStr(v))
      [] n = "ArrEmpty" -> v = Arr(<<>>)
LeafUpper(m, n, v) ==
    CASE n \in IntNames -> StatedOk(IntOf(n), v)
      [] n \in DOMAIN StrVals -> (IsStr(v) /\ StrUpper(m, n, v[2])) \/ (m = "de" /\ IsDec(n) /\ IsNum(v))
      [] n \in {"Duration", "SystemTime"} -> LET s == Secs(n) IN ObjWith(v, {s[1], s[2]}) /\ StatedOk(IntOf("u64"), Get(v, s[1])) /\ StatedOk(IntOf("u32"), Get(v, s[2]))
      [] n = "TimeDelta" -> IsArr(v) /\ Len(v[2]) = 2 /\ IsInteger(v[2][1]) /\ IsInteger(v[2][2]) /\ NumLe(Nu(0), v[2][2]) /\ NumLt(v[2][2], Billion)
      [] n = "OsString" -> (ObjWith(v, {"Unix"}) /\ IsBytes(Get(v, "Unix")))
                           \/ (ObjWith(v, {"Windows"}) /\ IsArr(Get(v, "Windows")) /\ \A x \in Elems(Get(v, "Windows")) : InIntRange(IntOf("u16"), x))
      [] OTHER -> LeafWire(m, n, v)
Ref0(k, s) == Obj1(k, s)
LeafSchema(m, n) ==
    CASE n \in IntNames -> IntSchema(n)
      [] n \in DOMAIN StrVals -> StrSchema(m, n)
      [] n \in {"bool", "AtomicBool"} -> Obj1("type", Str("boolean"))
      [] n \in {"f32", "f64"} -> Obj(("type" :> Str("number")) @@ ("format" :> Str(IF n = "f32" THEN "float" ELSE "double")))
      [] n = "Number" -> Obj1("type", Str("number"))
      [] n \in {"unit", "Phantom"} -> Obj1("type", Str("null"))
      [] n \in {"Value", "RawValue"} -> True
      [] n = "JMap" -> Obj(("type" :> Str("object")) @@ ("additionalProperties" :> True))
      [] n = "Schema" -> Obj1("type", StrArr(<<"object", "boolean">>))
      [] n \in {"Duration", "SystemTime"} -> LET s == Secs(n) IN
            Obj(("type" :> Str("object")) @@ ("properties" :> Obj((s[1] :> IntSchema("u64")) @@ (s[2] :> IntSchema("u32")))) @@ ("required" :> StrArr(s)))
      [] n = "TimeDelta" -> Obj(("type" :> Str("array")) @@ ("minItems" :> Nu(2)) @@ ("maxItems" :> Nu(2))
            @@ ("prefixItems" :> Arr(<<Obj(("type" :> Str("integer")) @@ ("format" :> Str("int64"))), Obj(("type" :> Str("integer")) @@ ("minimum" :> Nu(0)) @@ ("exclusiveMaximum" :> Billion))>>)))
      [] n = "OsString" -> Obj1("oneOf", Arr([i \in 1..2 |-> LET k == <<"Unix", "Windows">>[i] IN
            Obj(("type" :> Str("object")) @@ ("required" :> StrArr(<<k>>)) @@ ("properties" :> Obj1(k, Obj(("type" :> Str("array")) @@ ("items" :> IntSchema(<<"u8", "u16">>[i]))))))]))
      [] n = "CString" -> Obj(("type" :> IF m = "ser" THEN Str("array") ELSE StrArr(<<"array", "string">>))
            @@ ("items" :> Obj(("type" :> Str("integer")) @@ ("minimum" :> Nu(1)) @@ ("maximum" :> Nu(255)))))
      [] n = "Bytes" -> Obj(("type" :> IF m = "ser" THEN Str("array") ELSE StrArr(<<"array", "string">>)) @@ ("items" :> IntSchema("u8")))
      [] n = "ArrEmpty" -> Obj(("type" :> Str("array")) @@ ("maxItems" :> Nu(0)))

(* Map keys *)
KeyWire(n, s) == CASE n \in IntNames -> CanonInt(s) /\ InIntRange(IntOf(n), NumOf(s))
                   [] n = "bool" -> s \in {"true", "false"}
                   [] OTHER -> StrWire(n, s)
KeyUpper(m, n, s) == CASE n \in IntNames -> (IF IntOf(n)[1] = "u" THEN AllDigits(s) ELSE IntStr(s))
                       [] n \in {"Weekday", "Version"} -> StrUpper(m, n, s)
                       [] IsDec(n) -> m = "ser" => DecimalStr(s)
                       [] OTHER -> TRUE

----------------------------------------------------------------------------
Distinct(s) == Cardinality(SeqSet(s)) = Len(s)
(* v is written for (m = "ser") / must be readable as (m = "de") a value of the type *)
RECURSIVE Wire(_, _, _), Upper_(_, _, _), SchemaOf(_, _)
Wire(m, t, v) ==
    LET All(x) == \A y \in Elems(v) : Wire(m, x, y) IN
    CASE t[1] = "leaf" -> LeafWire(m, t[2], v)
      [] t[1] = "opt" -> IsNull(v) \/ Wire(m, t[2], v)
      [] t[1] = "w" -> Wire(m, t[3], v) \/ (t[2] \in {"RcWeak", "ArcWeak"} /\ IsNull(v))
      [] t[1] = "seq" -> IsArr(v) /\ All(t[3])
      [] t[1] = "set" -> IsArr(v) /\ All(t[3]) /\ Distinct(v[2])
      [] t[1] = "map" -> IsObj(v) /\ \A k \in Keys(v) : KeyWire(t[3], k) /\ Wire(m, t[4], Get(v, k))
      [] t[1] = "arr" -> IsArr(v) /\ Len(v[2]) = t[2] /\ All(t[3])
      [] t[1] = "avec" -> IsArr(v) /\ Len(v[2]) <= t[2] /\ All(t[3])
      [] t[1] = "tup" -> IsArr(v) /\ Len(v[2]) = Len(t[2]) /\ \A i \in 1..Len(t[2]) : Wire(m, t[2][i], v[2][i])
      [] t[1] = "res" -> IsObj(v) /\ ((Keys(v) = {"Ok"} /\ Wire(m, t[2], Get(v, "Ok"))) \/ (Keys(v) = {"Err"} /\ Wire(m, t[3], Get(v, "Err"))))
      [] t[1] = "bound" -> v = Str("Unbounded") \/ (IsObj(v) /\ \E k \in {"Included", "Excluded"} : Keys(v) = {k} /\ Wire(m, t[2], Get(v, k)))
      [] t[1] = "range" -> IsObj(v) /\ Keys(v) = {"start", "end"} /\ Wire(m, t[3], Get(v, "start")) /\ Wire(m, t[3], Get(v, "end"))
      [] t[1] = "either" -> IsObj(v) /\ ((Keys(v) = {"Left"} /\ Wire(m, t[2], Get(v, "Left"))) \/ (Keys(v) = {"Right"} /\ Wire(m, t[3], Get(v, "Right"))))
(* the most that a schema may admit: the right kind, required members, stated bounds (extra members only where serde's own verdict is not promised) *)
Upper_(m, t, v) ==
    LET All(x) == \A y \in Elems(v) : Upper_(m, x, y)
        Tagged(k, x) == ObjWith(v, {k}) /\ Upper_(m, x, Get(v, k)) IN
    CASE t[1] = "leaf" -> LeafUpper(m, t[2], v)
      [] t[1] = "opt" -> IsNull(v) \/ Upper_(m, t[2], v)
      [] t[1] = "w" -> Upper_(m, t[3], v) \/ (t[2] \in {"RcWeak", "ArcWeak"} /\ IsNull(v))
      [] t[1] = "seq" -> IsArr(v) /\ All(t[3])
      [] t[1] = "set" -> IsArr(v) /\ All(t[3]) /\ Distinct(v[2])
      [] t[1] = "map" -> IsObj(v) /\ \A k \in Keys(v) : KeyUpper(m, t[3], k) /\ Upper_(m, t[4], Get(v, k))
      [] t[1] = "arr" -> IsArr(v) /\ Len(v[2]) = t[2] /\ All(t[3])
      [] t[1] = "avec" -> IsArr(v) /\ Len(v[2]) <= t[2] /\ All(t[3])
      [] t[1] = "tup" -> IsArr(v) /\ Len(v[2]) = Len(t[2]) /\ \A i \in 1..Len(t[2]) : Upper_(m, t[2][i], v[2][i])
      [] t[1] = "res" -> Tagged("Ok", t[2]) \/ Tagged("Err", t[3])
      [] t[1] = "bound" -> v = Str("Unbounded") \/ Tagged("Included", t[2]) \/ Tagged("Excluded", t[2])
      [] t[1] = "range" -> Tagged("start", t[3]) /\ Tagged("end", t[3])
      [] t[1] = "either" -> (Tagged("Left", t[2]) /\ Keys(v) = {"Left"}) \/ (Tagged("Right", t[3]) /\ Keys(v) = {"Right"})
Of(ty, more) == Obj(("type" :> Str(ty)) @@ more)
Alt(k, s, closed) == LET o == Of("object", ("required" :> StrArr(<<k>>)) @@ ("properties" :> Obj1(k, s))) IN IF closed THEN With(o, "additionalProperties", False) ELSE o
SchemaOf(m, t) ==
    CASE t[1] = "leaf" -> LeafSchema(m, t[2])
      [] t[1] = "opt" -> AllowNull(SchemaOf(m, t[2]))
      [] t[1] = "w" -> IF t[2] \in {"RcWeak", "ArcWeak"} THEN AllowNull(SchemaOf(m, t[3])) ELSE SchemaOf(m, t[3])
      [] t[1] = "seq" -> Of("array", "items" :> SchemaOf(m, t[3]))
      [] t[1] = "set" -> Of("array", ("items" :> SchemaOf(m, t[3])) @@ ("uniqueItems" :> True))
      [] t[1] = "map" -> MapSchema(LeafSchema(m, t[3]), SchemaOf(m, t[4]))
      [] t[1] = "arr" -> IF t[2] = 0 THEN Of("array", "maxItems" :> Nu(0)) ELSE Of("array", ("items" :> SchemaOf(m, t[3])) @@ ("minItems" :> Nu(t[2])) @@ ("maxItems" :> Nu(t[2])))
      [] t[1] = "avec" -> Of("array", ("items" :> SchemaOf(m, t[3])) @@ ("maxItems" :> Nu(t[2])))
      [] t[1] = "tup" -> Of("array", ("prefixItems" :> Arr([i \in 1..Len(t[2]) |-> SchemaOf(m, t[2][i])])) @@ ("minItems" :> Nu(Len(t[2]))) @@ ("maxItems" :> Nu(Len(t[2]))))
      [] t[1] = "res" -> Obj1("oneOf", Arr(<<Alt("Ok", SchemaOf(m, t[2]), FALSE), Alt("Err", SchemaOf(m, t[3]), FALSE)>>))
      [] t[1] = "bound" -> Obj1("oneOf", Arr(<<Alt("Included", SchemaOf(m, t[2]), FALSE), Alt("Excluded", SchemaOf(m, t[2]), FALSE), Of("string", "const" :> Str("Unbounded"))>>))
      [] t[1] = "range" -> LET s == SchemaOf(m, t[3]) IN Of("object", ("properties" :> Obj(("start" :> s) @@ ("end" :> s))) @@ ("required" :> StrArr(<<"start", "end">>)))
      [] t[1] = "either" -> Obj1("oneOf", Arr(<<Alt("Left", SchemaOf(m, t[2]), TRUE), Alt("Right", SchemaOf(m, t[3]), TRUE)>>))

(* Formats with a fixed grammar: what a value written under them looks like *)
FmtPat == [date |-> "^\\d{4}-\\d\\d-\\d\\d$", uuid |-> "^[0-9a-f]{8}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{12}$",
           ipv4 |-> "^\\d+\\.\\d+\\.\\d+\\.\\d+$", ipv6 |-> "^[0-9a-f:.]*:[0-9a-f:.]*$", uri |-> "^[a-z][a-z0-9+.-]*:", time |-> "^\\d\\d:\\d\\d:\\d\\d(\\.\\d+)?(Z|[+-]\\d\\d:\\d\\d)$",
           duration |-> "^-?P", email |-> "^[^@]+@[^@]+$", regex |-> "", hostname |-> "^[a-zA-Z0-9.-]+$"]
DateTimePat == "^\\d{4}-\\d\\d-\\d\\dT\\d\\d:\\d\\d:\\d\\d(\\.\\d+)?(Z|[+-]\\d\\d:\\d\\d)$"
IntFmt == [uint8 |-> "u8", uint16 |-> "u16", uint32 |-> "u32", uint64 |-> "u64", uint128 |-> "u128", uint |-> "usize",
           int8 |-> "i8", int16 |-> "i16", int32 |-> "i32", int64 |-> "i64", int128 |-> "i128", int |-> "isize"]
FmtOk(f, v) == IF f \in DOMAIN IntFmt THEN IsNum(v) => (IntFmt[f] = "i128" \/ InIntRange(Ints[IntFmt[f]], v))
               ELSE IF ~IsStr(v) THEN TRUE
               ELSE IF f = "date-time" THEN MatchesRegex(DateTimePat, v[2])
               ELSE IF f \in DOMAIN FmtPat THEN MatchesRegex(FmtPat[f], v[2]) ELSE TRUE
=============================================================================
