-------------------------- MODULE StatelessWriter --------------------------
(***************************************************************************)
(* A stateless writer: it numbers the changes it makes and keeps the list  *)
(* of reader locators.                                                     *)
(***************************************************************************)
EXTENDS Bytes

VARIABLES guid, last,     \* its GUID, the number of its last change
          locators        \* in the order they were added

wvars == <<guid, last, locators>>

WriterInit(g, n) == guid = g /\ last = n /\ locators = <<>>

(* above the highest number nothing is specified *)
CanMake == CheckedAddNat(last, 1, TRUE) # None

MakeChange(kind, handle) ==
    /\ CanMake
    /\ last' = CheckedAddNat(last, 1, TRUE)
    /\ UNCHANGED <<guid, locators>>

(* the change made by MakeChange *)
MadeChange(kind, handle) == [sn |-> CheckedAddNat(last, 1, TRUE), k |-> kind, g |-> guid, h |-> handle]

AddLocator(x) == locators' = Append(locators, x) /\ UNCHANGED <<guid, last>>

RemoveLocator(x) ==
    /\ locators' = SelectSeq(locators, LAMBDA y : y # x)
    /\ UNCHANGED <<guid, last>>
=============================================================================
