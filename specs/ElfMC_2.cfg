SPECIFICATION Spec
CONSTANT MaxSecs = 2
INVARIANT ReadsWhatIsWritten ImageLaws QueryLaws
