SPECIFICATION Spec
INVARIANT Accepted
