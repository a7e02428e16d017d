package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"sort"
	"strings"
)

// Renderings of one configuration in the many ways YAML and JSON allow.

var styles = []string{"json", "json-indent", "json-tabs", "yaml", "yaml-single", "yaml-double", "yaml-flow", "yaml-doc", "yaml-comments", "yaml-anchors", "yaml-crlf", "yaml-wide"}

func norm(v any) any {
	b, _ := json.Marshal(v)
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	var o any
	d.Decode(&o)
	return o
}

// render writes v in a style; key order is random.
func render(v any, style string, r *rand.Rand) string {
	v = norm(v)
	switch style {
	case "json":
		return jsonShuffled(v, r, "", "", 0)
	case "json-indent":
		return jsonShuffled(v, r, "\n", "  ", 0) + "\n"
	case "json-tabs":
		return jsonShuffled(v, r, "\n", "\t", 0) + "\n"
	}
	y := &yamler{r: r, style: style, ind: 2}
	if style == "yaml-wide" {
		y.ind = 5
	}
	var b strings.Builder
	if style == "yaml-doc" || style == "yaml-comments" {
		b.WriteString("---\n")
	}
	if style == "yaml-comments" {
		b.WriteString("# a comment: with colon\n")
	}
	if style == "yaml-flow" {
		b.WriteString(jsonShuffled(v, r, " ", "", 0) + "\n")
		return b.String()
	}
	if style == "yaml-anchors" {
		// the resources are defined first under another key and referenced
		m := v.(map[string]any)
		if rs, ok := m["resources"]; ok {
			b.WriteString("x-defs: &res\n")
			y.block(&b, rs, 1)
			c := map[string]any{}
			for k, x := range m {
				if k != "resources" {
					c[k] = x
				}
			}
			v = c
			b.WriteString("resources: *res\n")
		}
	}
	y.block(&b, v, 0)
	if style == "yaml-doc" {
		b.WriteString("...\n")
	}
	if style == "yaml-crlf" {
		return strings.ReplaceAll(b.String(), "\n", "\r\n")
	}
	return b.String()
}

func shuffledKeys(m map[string]any, r *rand.Rand) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	r.Shuffle(len(ks), func(i, j int) { ks[i], ks[j] = ks[j], ks[i] })
	return ks
}

func jsonShuffled(v any, r *rand.Rand, nl, ind string, d int) string {
	pad := strings.Repeat(ind, d+1)
	end := strings.Repeat(ind, d)
	if nl != "\n" {
		pad, end = "", ""
	}
	switch x := v.(type) {
	case map[string]any:
		if len(x) == 0 {
			return "{}"
		}
		var p []string
		for _, k := range shuffledKeys(x, r) {
			kb, _ := json.Marshal(k)
			sep := ":"
			if nl != "" {
				sep = ": "
			}
			p = append(p, pad+string(kb)+sep+jsonShuffled(x[k], r, nl, ind, d+1))
		}
		return "{" + nl + strings.Join(p, ","+nl) + nl + end + "}"
	case []any:
		if len(x) == 0 {
			return "[]"
		}
		var p []string
		for _, e := range x {
			p = append(p, pad+jsonShuffled(e, r, nl, ind, d+1))
		}
		return "[" + nl + strings.Join(p, ","+nl) + nl + end + "]"
	}
	b, _ := json.Marshal(v)
	return string(b)
}

type yamler struct {
	r     *rand.Rand
	style string
	ind   int
}

func (y *yamler) scalar(v any) string {
	s, ok := v.(string)
	if !ok {
		b, _ := json.Marshal(v)
		return string(b)
	}
	b, _ := json.Marshal(s)
	switch {
	case y.style == "yaml-double" || strings.ContainsAny(s, "\n\\\"'\t"):
		return string(b)
	case y.style == "yaml-single":
		return "'" + s + "'"
	}
	plain := s != ""
	for i, c := range s {
		ok := c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || i > 0 && (c == '-' || c == '.' || c == '/' || c == '_' || c >= '0' && c <= '9') || c == '/'
		if !ok {
			plain = false
		}
	}
	switch strings.ToLower(s) {
	case "y", "n", "yes", "no", "on", "off", "true", "false", "null":
		plain = false
	}
	if plain {
		return s
	}
	return string(b)
}

func (y *yamler) block(b *strings.Builder, v any, d int) {
	pad := strings.Repeat(" ", d*y.ind)
	switch x := v.(type) {
	case map[string]any:
		for _, k := range shuffledKeys(x, y.r) {
			b.WriteString(pad + y.key(k) + ":")
			y.value(b, x[k], d)
		}
	case []any:
		for _, e := range x {
			switch z := e.(type) {
			case map[string]any:
				if len(z) == 0 {
					b.WriteString(pad + "- {}\n")
					continue
				}
				var sub strings.Builder
				y.block(&sub, z, d+1)
				t := sub.String()
				w := (d + 1) * y.ind
				b.WriteString(pad + "-" + strings.Repeat(" ", y.ind-1) + t[w:])
			default:
				b.WriteString(pad + "- " + y.scalar(e) + "\n")
			}
		}
	}
}

func (y *yamler) key(k string) string {
	switch y.style {
	case "yaml-double":
		return fmt.Sprintf("%q", k)
	case "yaml-single":
		return "'" + k + "'"
	}
	return k
}

func (y *yamler) value(b *strings.Builder, v any, d int) {
	cm := ""
	if y.style == "yaml-comments" && y.r.Intn(2) == 0 {
		cm = " # note: here"
	}
	switch x := v.(type) {
	case map[string]any:
		if len(x) == 0 {
			b.WriteString(" {}\n")
			return
		}
		b.WriteString(cm + "\n")
		y.block(b, v, d+1)
	case []any:
		if len(x) == 0 {
			b.WriteString(" []\n")
			return
		}
		b.WriteString(cm + "\n")
		y.block(b, v, d+1)
	case string:
		if strings.Contains(x, "\n") && strings.HasSuffix(x, "\n") && !strings.Contains(x, "\n\n") {
			b.WriteString(" |\n")
			pad := strings.Repeat(" ", (d+1)*y.ind)
			for _, l := range strings.Split(strings.TrimSuffix(x, "\n"), "\n") {
				b.WriteString(pad + l + "\n")
			}
			return
		}
		b.WriteString(" " + y.scalar(v) + cm + "\n")
	default:
		b.WriteString(" " + y.scalar(v) + cm + "\n")
	}
}
