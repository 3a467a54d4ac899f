SPECIFICATION Spec
INVARIANTS QuietInv SubsetInv SameInv RaiseInv BadInv NoFalseResult
