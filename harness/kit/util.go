package kit

// Cls returns s if b holds, for optional class labels.
func Cls(b bool, s string) string {
	if b {
		return s
	}
	return ""
}
