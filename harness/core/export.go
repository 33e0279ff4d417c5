package core

// Entry points for harnesses outside the package (enters through the build overlay).

func VerifCommitCycle(w *Worker)   { w.runCommitCycle() }
func VerifFinalFlush(w *Worker)    { w.runFinalFlush() }
func VerifEvictionCycle(w *Worker) { w.runEvictionCycle() }

// VerifHas tells whether the store holds a counter for the key, without creating it.
func VerifHas(s *Store, key string) bool {
	found := false
	s.ForEach(func(k string, _ *managedVSA) {
		if k == key {
			found = true
		}
	})
	return found
}
