// Assumed contracts of library functions.
extern fmt.Errorf(format, a) { ensures result != nil; }
extern errors.New(text) { ensures result != nil; }
