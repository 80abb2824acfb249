package main

func (s *session) extra(op string, c M, r M) bool { return false }

// missing reports that the file a command works on does not exist because the
// parse that should have made it failed.
func (s *session) missing(c M) bool {
	if _, ok := s.files[str(c, "f")]; !ok {
		return true
	}
	if str(c, "op") == "equal" {
		_, ok := s.files[str(c, "g")]
		return !ok
	}
	return false
}
