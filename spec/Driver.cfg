INIT MInit
NEXT MNext
INVARIANT OwnAnswer
INVARIANT OnlyCalled
