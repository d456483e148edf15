CONSTANTS Locks = {1, 2}
 Threads = {1, 2, 3}
 MaxLen = 4
SPECIFICATION Spec
INVARIANT Exclusive
