package main

import (
	"encoding/json"
	"fmt"
	"strings"
)

type aboutDoc struct{ ServerID, Version string }

// aboutBody explains why r is not an about document, or returns it.
func aboutBody(r *Resp) (aboutDoc, string) {
	var d aboutDoc
	if r.Code != 200 {
		return d, fmt.Sprintf("status %d", r.Code)
	}
	if ct := r.H.All("Content-Type"); len(ct) != 1 || !strings.HasPrefix(ct[0], "application/json") {
		return d, fmt.Sprintf("content type %q", ct)
	}
	b, err := r.decode()
	if err != nil {
		return d, err.Error()
	}
	var e errBody
	if err := json.Unmarshal(b, &e); err != nil {
		return d, fmt.Sprintf("not json: %v %q", err, clip(b))
	}
	if e.J8a == nil || *e.J8a == "" || e.ServerID == nil || *e.ServerID == "" || e.Version == nil || *e.Version == "" {
		return d, fmt.Sprintf("incomplete: %q", clip(b))
	}
	d.ServerID, d.Version = *e.ServerID, *e.Version
	if sv := r.H.All("Server"); len(sv) != 1 || sv[0] != "j8a "+d.Version+" "+d.ServerID {
		return d, fmt.Sprintf("server header %q does not match %q", sv, clip(b))
	}
	return d, ""
}
