INIT MCInit
NEXT MCNext
VIEW View
PROPERTY Once FirstStays NoSoundBefore Kept Rejected
CONSTRAINT EmitInit
ACTION_CONSTRAINT Emit
