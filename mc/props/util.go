package props

import (
	"github.com/lyraproj/issue/issue"
)

func errText(e error) string {
	if e == nil {
		return "accepted"
	}
	return e.Error()
}

// code is the issue code of an error
func code(e error) string {
	if r, ok := e.(issue.Reported); ok {
		return string(r.Code())
	}
	return "error"
}
