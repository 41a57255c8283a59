SPECIFICATION MCSpec
INVARIANT Untouched
INVARIANT Legal
INVARIANT LegalBlocks
INVARIANT NotTwice
INVARIANT AllGone
PROPERTY Ends
CONSTANTS
 Sessions = {1}
 Writers = {3, 4}
 NVals = 3
 Fault = "copy"
