package verifbins_test

import (
	"fmt"
	"time"

	"pgregory.net/rapid"
)

// patience is how long anything that has to happen may take.
const patience = time.Minute

func tail(s string) string {
	if len(s) > 3000 {
		return "..." + s[len(s)-3000:]
	}
	return s
}

// spell writes a number in one of its decimal forms.
func spell(t *rapid.T, n int64) string {
	sign, a := "", fmt.Sprint(n)
	if a[0] == '-' {
		sign, a = "-", a[1:]
	}
	switch rapid.IntRange(0, 9).Draw(t, "spelling") {
	case 0:
		return sign + "0" + a
	case 1:
		return sign + "000" + a
	case 2:
		if sign == "" {
			return "+" + a
		}
	}
	return sign + a
}
