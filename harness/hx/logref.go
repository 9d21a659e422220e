package hx

import (
	"fmt"
	"regexp"
	"strings"
)

// LevelNames are the names in the output
var LevelNames = map[int]string{5: "TRACE", 10: "TRACE", 15: "DEBUG", 20: "DEBUG", 25: "INFO", 30: "INFO", 40: "WARN", 50: "ERROR", 60: "FATAL"}

// RefEventText is the message of event: prefixed names are fixed text
func RefEventText(event string, pieces []Piece, props []interface{}, calleePrefix string) (string, bool) {
	if strings.HasPrefix(event, "event!") {
		return event[len("event!"):], true
	}
	if strings.HasPrefix(event, "callee!") {
		return calleePrefix + event[len("callee!"):], true
	}
	return RefMessage(pieces, props)
}

// CompactHead is level, timestamp and location of a compact line
var CompactHead = regexp.MustCompile(`^\[([A-Z]+)\] \[([^\]]*)\]\[([^ ]+) @ ([^:]+):(\d+)\] `)

// SplitCompact takes the head off a compact line
func SplitCompact(line string) (level, timestamp, body string, ok bool) {
	m := CompactHead.FindStringSubmatchIndex(line)
	if m == nil {
		return "", "", "", false
	}
	return line[m[2]:m[3]], line[m[4]:m[5]], line[m[1]:], true
}

// RefCompactBody is what follows the head
func RefCompactBody(text string, err error, props []interface{}) string {
	var out strings.Builder
	out.WriteString(text)
	if err != nil && err.Error() != "" {
		out.WriteString(" error:" + err.Error())
	}
	for i := 0; i < len(props); i += 2 {
		fmt.Fprintf(&out, "||%s=%s", props[i], RefText(props[i+1]))
	}
	out.WriteString("\n")
	return out.String()
}
