------------------------------- MODULE Threads -------------------------------
(* The parallel loop behind every run (C07): a team of threads shares the rows  *)
(* of the terms, each thread has its own copy of the nodes and sums it fills    *)
(* for a row, the spectrum and the settings are only read.  Every schedule of   *)
(* the steps (take a row; fill the scratch for it; add up, term by term; write) *)
(* and every assignment of rows to threads is explored.  The constants share    *)
(* what is private: those designs must be rejected.                             *)
EXTENDS Integers, FiniteSets, Sequences, TLC
CONSTANTS Threads_, NRows, NTerms,
          OwnScratch,   \* the nodes are a thread's own
          OwnSum,       \* the sums are a thread's own
          Reset         \* the sums start at zero for every row
VARIABLES todo, pc, row, scratch, sum, at, col
vars == <<todo, pc, row, scratch, sum, at, col>>
Who(t, own) == IF own THEN t ELSE CHOOSE x \in Threads_ : TRUE
Rows_ == 1 .. NRows
(* what term j contributes for the nodes of row r: distinguishable, not commuting   *)
Term(r, j) == <<r, j>>
Value(r) == [j \in 1 .. NTerms |-> Term(r, j)]
Init == /\ todo = Rows_ /\ pc = [t \in Threads_ |-> "take"] /\ row = [t \in Threads_ |-> 0] /\ scratch = [t \in Threads_ |-> 0]
        /\ sum = [t \in Threads_ |-> <<>>] /\ at = [t \in Threads_ |-> 0] /\ col = [r \in Rows_ |-> <<"zero">>]
Take(t) == /\ pc[t] = "take"
           /\ IF todo = {} THEN pc' = [pc EXCEPT ![t] = "done"] /\ UNCHANGED <<todo, row>>
              ELSE \E r \in todo : todo' = todo \ {r} /\ row' = [row EXCEPT ![t] = r] /\ pc' = [pc EXCEPT ![t] = "fill"]
           /\ UNCHANGED <<scratch, sum, at, col>>
Fill(t) == /\ pc[t] = "fill"
           /\ scratch' = [scratch EXCEPT ![Who(t, OwnScratch)] = row[t]]
           /\ sum' = IF Reset THEN [sum EXCEPT ![Who(t, OwnSum)] = <<>>] ELSE sum
           /\ at' = [at EXCEPT ![t] = 1] /\ pc' = [pc EXCEPT ![t] = "add"]
           /\ UNCHANGED <<todo, row, col>>
Add(t) == /\ pc[t] = "add"
          /\ sum' = [sum EXCEPT ![Who(t, OwnSum)] = Append(@, Term(scratch[Who(t, OwnScratch)], at[t]))]
          /\ at' = [at EXCEPT ![t] = @ + 1]
          /\ pc' = [pc EXCEPT ![t] = IF at[t] = NTerms THEN "write" ELSE "add"]
          /\ UNCHANGED <<todo, row, scratch, col>>
Put(t) == /\ pc[t] = "write"
            /\ col' = [col EXCEPT ![row[t]] = sum[Who(t, OwnSum)]]
            /\ pc' = [pc EXCEPT ![t] = "take"]
            /\ UNCHANGED <<todo, row, scratch, sum, at>>
Next == \E t \in Threads_ : Take(t) \/ Fill(t) \/ Add(t) \/ Put(t)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Over == \A t \in Threads_ : pc[t] = "done"
(* every row written is the row's own value, whoever computed it, and all are in the end *)
RowsRight == \A r \in Rows_ : col[r] \in {<<"zero">>, Value(r)}
AllWritten == Over => \A r \in Rows_ : col[r] = Value(r)
OneThreadEach == \A s, t \in Threads_ : s # t /\ row[s] = row[t] /\ row[s] # 0 => FALSE
Ends == <>Over
Alike == Permutations(Threads_)
=============================================================================
