package routerp

import (
	"context"
	"net/http"
)

func withTrace(r *http.Request, tr *[]int) context.Context {
	return context.WithValue(r.Context(), traceKey{}, tr)
}
