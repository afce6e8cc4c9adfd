------------------------------ MODULE GenRegistry ------------------------------
(* Behaviours of the registry: after every change, all reads and writes.      *)
EXTENDS Registry, Json, IOUtils
CONSTANTS Seed, NRand, Out, Shard, NShards, Focus
MM == 46337
Mix(a, b) == LET x == ((a % MM) * 30103 + (b % MM) * 171 + 12345) % MM IN (((x * x) % MM) + 7 * x + b) % MM
R(key, i) == Mix(Mix(key, 17 * i + 3), i * i + 11)
Pick(s, r) == s[(r % Len(s)) + 1]

Fmts == <<"fa", "fb", "fc">>
Exts == <<".q", ".gz", ".q.gz", ".r">>
ExtSets == << <<".q">>, <<".gz">>, <<".q.gz">>, <<".q", ".r">>, <<".q.gz", ".q">>, <<".r", ".gz">>, <<>> >>
\* file names: stem and suffixes as written / in lower case
PathPool == << [name |-> "m.q", low |-> <<".q">>], [name |-> "m.Q", low |-> <<".q">>], [name |-> "m.q.gz", low |-> <<".q", ".gz">>],
            [name |-> "a.b.r", low |-> <<".b", ".r">>], [name |-> "m.Q.Gz", low |-> <<".q", ".gz">>], [name |-> "m.gz", low |-> <<".gz">>],
            [name |-> "m", low |-> <<>>], [name |-> ".q", low |-> <<>>], [name |-> "d.q/m", low |-> <<>>], [name |-> "d.q/m.r", low |-> <<".r">>],
            [name |-> "m.zz", low |-> <<".zz">>], [name |-> "sp ace.q.r", low |-> <<".q", ".r">>], [name |-> "m.q.zz", low |-> <<".q", ".zz">>] >>
Beh(r) == Pick(<<"accept", "accept", "reject", "reject", "crash", "none">>, r)
WBeh(r) == Pick(<<"accept", "accept", "accept", "crash">>, r)

Change(key) ==
   IF R(key, 1) % 4 = 0 THEN [op |-> "dereg", n |-> Pick(Fmts, R(key, 2))]
   ELSE LET n == Pick(Fmts, R(key, 2)) b == WBeh(R(key, 4)) IN
        [op |-> "reg", n |-> n, xs |-> Pick(ExtSets, R(key, 3)), r |-> Beh(R(key, 5)),
         ws |-> Pick(<< <<>>, << <<n, b>> >>, << <<n, b>> >>, << <<n, b>>, <<n \o "22", "accept">> >> >>, R(key, 6))]
Probe(key, j) ==
   LET p == Pick(PathPool, R(key, 10 + j))
       f == Pick(<<"", "", "", "fa", "fb", "fc", "fa22", "nosuch">>, R(key, 40 + j))
       buf == IF R(key, 70 + j) % 9 = 0 THEN 1 ELSE 0
       how == Pick(<<"str", "path", "method", "wpc">>, R(key, 90 + j))
   IN IF R(key, 120 + j) % 2 = 0
      THEN [op |-> "read", name |-> p.name, low |-> p.low, fmt |-> f, exists |-> IF R(key, 150 + j) % 6 = 0 THEN 0 ELSE 1, buffer |-> buf, how |-> how]
      ELSE [op |-> "write", name |-> p.name, low |-> p.low, fmt |-> f, buffer |-> buf, how |-> how,
            shape |-> Pick(<<"ok", "ok", "ok", "ok", "few", "many">>, R(key, 170 + j)), kwn |-> Pick(<<"", "binary", "other">>, R(key, 190 + j))]
Case(k) ==
   LET key == Mix(Mix(Seed, 3), 10 * k + Shard)
   IN [id |-> "reg/" \o ToString(Shard) \o "/" \o ToString(k), fam |-> "registry",
       ops |-> FlattenSeq([c \in 1..6 |-> <<Change(R(key, 200 + c))>> \o [j \in 1..7 |-> Probe(R(key, 300 + c), j)]])]
Cases == [k \in 1..NRand |-> Case(k)]
ASSUME ndJsonSerialize(Out, Cases)
ASSUME PrintT(<<"GENERATED", Len(Cases)>>)
=============================================================================
