// Assumed contracts on dependencies (standard library, project-flogo/core).

extern os.LookupEnv(key) -> (v, ok) { pure }
extern os.Getenv(key) -> (v) { pure }
extern coerce.ToBool(v) -> (b, err) { pure
  ensures err == nil ==> b == tobool(v)
  ensures (err == nil) == boolable(v) }
ufun tobool(any) bool
ufun boolable(any) bool
extern fmt.Errorf(f, a) -> (e) { ensures e != nil }
extern errors.New(s) -> (e) { ensures e != nil }
