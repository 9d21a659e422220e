package hx

import (
	"math/rand"
	"strings"
	"time"
	"unicode/utf8"
)

var idParts = []string{"a", "b", "key", "user", "X", "9", "_", "中", "é", "id"}

// GenID makes the name of a variable
func GenID(rng *rand.Rand) string {
	out := ""
	for i := 1 + rng.Intn(3); i > 0; i-- {
		out += idParts[rng.Intn(len(idParts))]
	}
	return out
}

// GenLiteral makes literal text, which never has the left curly
func GenLiteral(rng *rand.Rand, max int) string {
	text := strings.Replace(GenString(rng, max), "{", "(", -1)
	if rng.Intn(12) == 0 {
		text += string([]byte{byte(128 + rng.Intn(128)), byte(rng.Intn(128))})
		text = strings.Replace(text, "{", "(", -1)
	}
	return text
}

// TimeLayouts can be used with goTime
var TimeLayouts = []string{time.RFC3339, "2006-01-02 15:04:05", "15:04:05.000000", "Mon Jan _2 15:04:05 2006", "Jan _2 06", time.RFC3339Nano, time.RFC1123, "Monday, January 2, 2006", ",2006,,01", time.RFC850}

var moments = []time.Time{time.Unix(0, 0), time.Unix(1500000000, 0), time.Unix(1500000000, 1), time.Unix(951782400, 999999999), time.Date(1, 1, 1, 0, 0, 0, 0, time.UTC), time.Unix(1704067199, 0)}

// GenTime has no monotonic clock reading
func GenTime(rng *rand.Rand) time.Time {
	t := time.Unix(rng.Int63n(4e9), rng.Int63n(1e9))
	if rng.Intn(2) == 0 {
		// the same moments again, in other time zones
		t = moments[rng.Intn(len(moments))]
	}
	switch rng.Intn(3) {
	case 0:
		return t.UTC()
	case 1:
		return t.In(time.FixedZone("Z", (rng.Intn(24)-12)*3600))
	}
	return t
}

// Part is a piece of template with its own spelling
type Part struct {
	Text string // as written in the template
	// exactly one of
	Literal  string
	Variable string
	// of Variable
	GoTime bool
	Layout string
}

// GenParts makes a template of the named variables, times are the ones that are time.Time
func GenParts(rng *rand.Rand, names []string, times map[string]bool, max int) []Part {
	var parts []Part
	pad := func() string { return []string{"", "", "", " ", "  ", "\t"}[rng.Intn(6)] }
	for i := rng.Intn(max + 1); i > 0; i-- {
		if len(names) == 0 || rng.Intn(2) == 0 {
			if len(parts) > 0 && parts[len(parts)-1].Variable == "" {
				continue
			}
			literal := GenLiteral(rng, 10)
			if literal == "" {
				continue
			}
			parts = append(parts, Part{Text: literal, Literal: literal})
			continue
		}
		name := names[rng.Intn(len(names))]
		if times[name] && rng.Intn(2) == 0 {
			part := Part{Variable: name, GoTime: true, Layout: time.RFC3339}
			if rng.Intn(3) == 0 {
				part.Text = "{" + pad() + name + pad() + "," + pad() + "goTime}"
			} else {
				part.Layout = TimeLayouts[rng.Intn(len(TimeLayouts))]
				part.Text = "{" + pad() + name + pad() + "," + pad() + "goTime," + pad() + part.Layout + "}"
			}
			parts = append(parts, part)
			continue
		}
		parts = append(parts, Part{Text: "{" + pad() + name + pad() + "}", Variable: name})
	}
	return parts
}

// PartsTemplate is the template text
func PartsTemplate(parts []Part) string {
	var out strings.Builder
	for _, part := range parts {
		out.WriteString(part.Text)
	}
	return out.String()
}

// RefParts renders the parts with the first value of every name, ok is false if one is missing
// or not of the right type
func RefParts(parts []Part, kv []interface{}) (text string, ok bool) {
	var out strings.Builder
	for _, part := range parts {
		if part.Variable == "" {
			out.WriteString(part.Literal)
			continue
		}
		found := false
		for i := 0; i+1 < len(kv) && !found; i += 2 {
			if name, isStr := kv[i].(string); !isStr || name != part.Variable {
				continue
			}
			found = true
			if !part.GoTime {
				out.WriteString(RefText(kv[i+1]))
			} else if at, isTime := kv[i+1].(time.Time); isTime {
				out.WriteString(at.Format(part.Layout))
			} else {
				return "", false
			}
		}
		if !found {
			return "", false
		}
	}
	return out.String(), true
}

// ValidText tells if text is worth comparing as characters
func ValidText(text string) bool { return utf8.ValidString(text) }
