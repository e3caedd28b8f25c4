------------------------------- MODULE AlgMC --------------------------------
(* Instances of PapayaAlg, and the states that must be reachable in them.     *)
EXTENDS PapayaAlg

\* <<length of the table, keys present, keys removed, length of the next table if there is a resize>>
StartsSmall == {<<2, {1, 2}, {}, 2>>, <<2, {1, 2}, {}, 4>>, <<2, {1}, {2}, 0>>, <<2, {1}, {}, 2>>, <<2, {1}, {2}, 2>>}
StartsFull == {<<2, {1, 2}, {}, 2>>}
StartsWide == {<<4, {1, 2, 3}, {}, 2>>}
StartsAbort == {<<4, {1, 2, 3}, {4}, 2>>}

\* Each of these is false in some state: the instances have what they are there for.
NoPromotion == tables[2].status # "promoted"
NoAbort == \A x \in Tables : tables[x].status # "aborted"
NoDeferral == \A x \in Tables : tables[x].deferred = {}
NoRelease == \A x \in Tables : life[TableObj(x)] # "freed"
NoChain == ~(tables[2].status = "promoted" /\ tables[3].status = "promoted")
\* A table that resizes while its own entries are still being copied to it.
NoNesting == ~(start[4] > 0 /\ tables[3].len > 0 /\ tables[2].status = "pending" /\ tables[2].copied < tables[1].len)
=============================================================================
