-------------------------------- MODULE Admin --------------------------------
(* Who may do what to a server: control commands by where they come from, and commands known to crash servers.
   A command has a kind and identifying values; a report of a crash names a kind and the values that identified it.  Every node
   keeps the reports it was told; a crash is told to all that are connected, and a node that logs in is told by all it meets.       *)
EXTENDS Naturals, FiniteSets
CONSTANTS Nodes, Kinds, Values, MaxCrashes, MISTAKE
Keys == {"who", "where"}
\* a report: kind and a set of <<key, value>>
Vals == {{}} \cup {{<<"who", v>>} : v \in Values} \cup {{<<"who", v>>, <<"where", w>>} : v \in Values, w \in Values}
Cmds == {[kind |-> k, vals |-> {<<"who", v>>, <<"where", w>>}] : k \in Kinds, v \in Values, w \in Values} \cup {[kind |-> k, vals |-> {<<"who", v>>}] : k \in Kinds, v \in Values}
VARIABLES list,     \* node -> kind -> set of value sets
          up,       \* nodes running
          conf,     \* node -> what an administrator set
          ran,      \* last thing that happened: a command and how it went
          crashes
vars == <<list, up, conf, ran, crashes>>
None == [k \in Kinds |-> {}]
Would(L, c) == \/ Cardinality(L[c.kind]) > 1
               \/ \E r \in L[c.kind] : r \subseteq c.vals
\* what the code does
Refuses(L, c) ==
    CASE MISTAKE = "anyKey" -> Cardinality(L[c.kind]) > 1 \/ \E r \in L[c.kind] : r = {} \/ r \cap c.vals # {}
      [] MISTAKE = "onlyExact" -> Cardinality(L[c.kind]) > 1 \/ c.vals \in L[c.kind]
      [] MISTAKE = "acrossKinds" -> (\E k \in Kinds : Cardinality(L[k]) > 1) \/ \E r \in L[c.kind] : r \subseteq c.vals
      [] MISTAKE = "neverWhole" -> \E r \in L[c.kind] : r \subseteq c.vals
      [] OTHER -> Would(L, c)
Init == list = [n \in Nodes |-> None] /\ up = Nodes /\ conf = [n \in Nodes |-> 0] /\ ran = [what |-> "nothing"] /\ crashes = 0
Add(L, k, r) == [L EXCEPT ![k] = @ \cup {r}]
\* node n crashes on c; everybody connected is told
Crash(n, c) ==
    /\ n \in up /\ Cardinality(up) > 1 /\ crashes < MaxCrashes /\ ~Refuses(list[n], c)
    /\ list' = [m \in Nodes |-> IF m = n THEN None ELSE IF m \in up THEN Add(list[m], c.kind, c.vals) ELSE list[m]]
    /\ up' = up \ {n} /\ crashes' = crashes + 1 /\ ran' = [what |-> "crash", node |-> n, c |-> c] /\ UNCHANGED conf
\* told by hand, perhaps with fewer values
Report(n, k, r) == n \in up /\ crashes < MaxCrashes /\ crashes' = crashes + 1 /\ list' = [list EXCEPT ![n] = Add(@, k, r)] /\ ran' = [what |-> "report"] /\ UNCHANGED <<up, conf>>
Back(n) ==
    /\ n \notin up /\ up' = up \cup {n}
    /\ list' = (IF MISTAKE = "notOnLogin" THEN list ELSE [list EXCEPT ![n] = [k \in Kinds |-> @[k] \cup UNION {list[m][k] : m \in up}]])
    /\ ran' = [what |-> "back", node |-> n] /\ UNCHANGED <<conf, crashes>>
Clear(n) == n \in up /\ list' = [list EXCEPT ![n] = None] /\ ran' = [what |-> "clear"] /\ UNCHANGED <<up, conf, crashes>>
Run(n, c) == n \in up /\ ran' = [what |-> "run", node |-> n, c |-> c, refused |-> Refuses(list[n], c)] /\ UNCHANGED <<list, up, conf, crashes>>
Trusted(from) == from \in {"local", "private"}
Control(n, from, v) ==
    /\ n \in up
    /\ LET yes == IF MISTAKE = "everywhere" THEN TRUE ELSE IF MISTAKE = "afterwards" THEN Trusted(from) ELSE Trusted(from)
       IN /\ conf' = (IF yes \/ MISTAKE = "afterwards" THEN [conf EXCEPT ![n] = v] ELSE conf)
          /\ ran' = [what |-> "control", node |-> n, from |-> from, done |-> yes, was |-> conf[n]]
    /\ UNCHANGED <<list, up, crashes>>
Next == \E n \in Nodes : \/ Back(n) \/ Clear(n)
                         \/ \E c \in Cmds : Crash(n, c) \/ Run(n, c)
                         \/ \E k \in Kinds, r \in Vals : Report(n, k, r)
                         \/ \E from \in {"local", "private", "outside"}, v \in {0, 1} : Control(n, from, v)
Spec == Init /\ [][Next]_vars
\* refused exactly if known to crash
Refused == ran.what = "run" => (ran.refused <=> Would(list[ran.node], ran.c))
\* who comes back knows what the others know
Told == ran.what = "back" => \A m \in up, k \in Kinds : list[m][k] \subseteq list[ran.node][k]
\* nobody crashes twice over the same while it is remembered
Learns == [][ran'.what = "crash" => \A m \in up \ {ran'.node} : Would(list'[m], ran'.c)]_vars
\* only the trusted change anything
Safe == [][ran'.what = "control" /\ ran'.from = "outside" => conf' = conf /\ ~ran'.done]_vars
Obeys == [][ran'.what = "control" /\ ran'.from # "outside" => ran'.done]_vars
=============================================================================
