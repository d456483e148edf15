CONSTANTS Locks = {1, 2}
 Threads = {1, 2}
 MaxLen = 6
SPECIFICATION Spec
INVARIANT Exclusive
