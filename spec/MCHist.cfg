CONSTANTS
  Domain = "ctx"
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Handed Resolved Scopes Sharing Unbuilt Least LeastCTEs Misused Rejected Styles Clauses Ordered
PROPERTIES Accumulates Separate Derives Pures Keeps Owned
