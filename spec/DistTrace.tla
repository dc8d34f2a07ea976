------------------------------ MODULE DistTrace ------------------------------
(* What the real code says about search paths with dist-info directories.   *)
EXTENDS Dist, Json, IOUtils

Cases == JsonDeserialize(IOEnv.BATCH)
VARIABLES cid, k
vars == <<cid, k>>
C == Cases[cid]

F(cl, a, x, y) == ToJson([cl |-> cl, a |-> a, b |-> "", exp |-> x, obs |-> y])
If(b, f) == IF b THEN {f} ELSE {}

DistFails(d, x) ==
       If(d.name # x.name, F("name", d.id, d.name, x.name))
  \cup If(d.version # x.version, F("version", d.id, d.version, x.version))
  \cup {F("file-missing", d.id, f, "") : f \in d.files \ Rng(x.files)}
  \cup {F("file-extra", d.id, "", f) : f \in Rng(x.files) \ d.files}
  \cup {F("import-missing", d.id, n, "") : n \in d.mods \ Rng(x.mods)}
  \cup {F("import-extra", d.id, "", n) : n \in Rng(x.mods) \ d.mods}

Verdict ==
    LET ds == Listing(Rng(C.suffixes), C.rk, C.path)
        ids(s) == [i \in DOMAIN s |-> s[i].id]
        ob == C.obs
    IN If(ob.raised # "", F("raised", "", "", ob.raised))
       \cup IF ob.raised # "" THEN {} ELSE
            If(ids(ds) # ids(ob.listing), F("listing", "", ids(ds), ids(ob.listing)))
            \cup UNION {DistFails(ds[i], (CHOOSE x \in Rng(ob.listing) : x.id = ds[i].id)) :
                        i \in {i \in DOMAIN ds : \E x \in Rng(ob.listing) : x.id = ds[i].id}}
            \cup UNION {If(Named(ds, l.name) # l.id, F("lookup", l.name, Named(ds, l.name), l.id)) : l \in Rng(ob.lookups)}
            \cup UNION {If(ForFile(ds, l.name) # l.id, F("for-file", l.name, ForFile(ds, l.name), l.id)) : l \in Rng(ob.forfile)}
            \cup UNION {If(d.contains # "", F("contains", d.id, "", d.contains)) : d \in Rng(ob.listing)}

Init == cid \in DOMAIN Cases /\ k = 0
Next == /\ k = 0 /\ k' = 1 /\ UNCHANGED cid
        /\ LET v == Verdict IN PrintT(ToJson([kind |-> IF v = {} THEN "DONE" ELSE "FAIL", tid |-> cid, op |-> 1, fails |-> v]))
Spec == Init /\ [][Next]_vars
=============================================================================
