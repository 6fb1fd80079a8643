SPECIFICATION Spec
CONSTANT MaxSecs = 3
INVARIANT ReadsWhatIsWritten ImageLaws QueryLaws
