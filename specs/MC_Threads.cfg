CONSTANTS Locks = {1, 2}
 Threads = {1, 2}
 MaxLen = 5
SPECIFICATION Spec
INVARIANT Exclusive
