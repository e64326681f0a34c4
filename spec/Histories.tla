------------------------------- MODULE Histories -------------------------------
(***************************************************************************)
(* Environments as functions of their own history.                         *)
(* The history of an environment is a term: what it is made of, its seed   *)
(* and what was done to it since.  Terms are interned as numbers (0 is the *)
(* empty history).  A state of the specification:                          *)
(*   env    the live environments: id -> [term, root, seed]; seed is the    *)
(*          one given since the last reset ("" if none)                    *)
(*   next   <<term, operation>> -> term                                    *)
(*   dig    term -> what the environment showed with this history          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
Empty == [env |-> << >>, next |-> << >>, dig |-> << >>]
With(f, x, y) == [z \in DOMAIN f \cup {x} |-> IF z = x THEN y ELSE f[z]]
Without(f, x) == [z \in DOMAIN f \ {x} |-> f[z]]
\* the term of history (t, op), with the dictionary extended when it is new
Intern(next, t, op) == IF <<t, op>> \in DOMAIN next THEN [next |-> next, term |-> next[<<t, op>>]]
                       ELSE [next |-> next @@ (<<t, op>> :> Cardinality(DOMAIN next) + 1), term |-> Cardinality(DOMAIN next) + 1]
\* ---- what each operation does to the history of environment id
Apply(st, e) ==
    CASE e.kind = "process" -> [st EXCEPT !.env = << >>]
      [] e.kind = "make" ->
            LET a == Intern(st.next, 0, e.root)  b == Intern(a.next, a.term, e.op)
            IN [st EXCEPT !.next = b.next, !.env = With(st.env, e.id, [term |-> b.term, root |-> a.term, seed |-> ""])]
      [] e.kind = "seed" -> LET b == Intern(st.next, st.env[e.id].term, e.op)
            IN [st EXCEPT !.next = b.next, !.env[e.id].term = b.term, !.env[e.id].seed = e.op]
      [] e.kind = "reset" ->           \* a reset after seeding forgets all that happened before
            LET x == st.env[e.id]
                b == IF x.seed # "" THEN Intern(st.next, x.root, x.seed) ELSE Intern(st.next, x.term, e.op)
            IN [st EXCEPT !.next = b.next, !.env[e.id].term = b.term, !.env[e.id].seed = ""]
      [] e.kind = "step" -> LET b == Intern(st.next, st.env[e.id].term, e.op)    \* it may consume randomness
            IN [st EXCEPT !.next = b.next, !.env[e.id].term = b.term, !.env[e.id].seed = ""]
      [] e.kind = "close" -> LET b == Intern(st.next, st.env[e.id].term, e.op)
            IN [st EXCEPT !.next = b.next, !.env[e.id].term = b.term]
      [] e.kind \in {"configure", "tweak"} ->       \* a lasting change: it survives seeding and resets
            LET a == Intern(st.next, st.env[e.id].root, e.op)  b == Intern(a.next, st.env[e.id].term, e.op)
            IN [st EXCEPT !.next = b.next, !.env[e.id].term = b.term, !.env[e.id].root = a.term]
      [] e.kind = "copy" -> [st EXCEPT !.env = With(st.env, e.id, st.env[e.from])]
      [] e.kind = "derive" -> LET b == Intern(st.next, st.env[e.from].term, e.op)
            IN [st EXCEPT !.next = b.next, !.env = With(st.env, e.id, [st.env[e.from] EXCEPT !.term = b.term, !.seed = ""])]
      [] e.kind = "drop" -> [st EXCEPT !.env = Without(st.env, e.id)]
      [] OTHER -> st                    \* drawing, observing, and whatever happens elsewhere: nothing
=============================================================================
