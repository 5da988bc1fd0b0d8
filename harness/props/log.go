package props

import (
	"fmt"
	"reflect"
	"strings"
)

type entry struct {
	formatted bool
	format    string
	args      []interface{}
	text      string
}

// capture records every message.
type capture struct{ msgs []entry }

func (l *capture) Write(msg string) { l.msgs = append(l.msgs, entry{text: msg}) }
func (l *capture) Writef(format string, args ...interface{}) {
	l.msgs = append(l.msgs, entry{true, format, args, fmt.Sprintf(format, args...)})
}

// badFormat reports a mismatch between a format and its arguments. The
// arguments are replaced by harmless ones of the same type first, so that
// data that merely looks like a formatting error does not count.
func (e entry) badFormat() string {
	if !e.formatted {
		return ""
	}
	args := make([]interface{}, len(e.args))
	for i, a := range e.args {
		args[i] = a
		if a == nil {
			continue
		}
		v := reflect.ValueOf(a)
		switch v.Kind() {
		case reflect.String:
			args[i] = reflect.ValueOf("x").Convert(v.Type()).Interface()
		case reflect.Slice:
			args[i] = reflect.MakeSlice(v.Type(), 0, 0).Interface()
		}
	}
	if s := fmt.Sprintf(e.format, args...); strings.Contains(s, "%!") {
		return s
	}
	return ""
}

// dumpLines is the reference hex dump, one entry per line, blanks trimmed.
func dumpLines(data []byte) []string {
	if len(data) == 0 {
		return []string{"00000000"}
	}
	var out []string
	for i := 0; i < len(data); i += 4 {
		s := fmt.Sprintf("%08X ", i)
		for j := i; j < len(data) && j < i+4; j++ {
			s += fmt.Sprintf(" %02X", data[j])
		}
		out = append(out, s)
	}
	return out
}

// hasDump tells whether some message contains the complete dump of data: its
// lines one after another and nothing that continues it.
func (l *capture) hasDump(data []byte) bool {
	want := dumpLines(data)
	for _, m := range l.msgs {
		if !strings.Contains(m.text, want[0]) {
			continue
		}
		lines := strings.Split(m.text, "\n")
		for i := 0; i+len(want) <= len(lines); i++ {
			ok := true
			for k, w := range want {
				if strings.TrimSpace(lines[i+k]) != w {
					ok = false
					break
				}
			}
			next := fmt.Sprintf("%08X", (len(data)+3)/4*4)
			if ok && (i+len(want) == len(lines) || !strings.HasPrefix(strings.TrimSpace(lines[i+len(want)]), next)) {
				return true
			}
		}
	}
	return false
}

func (l *capture) failures() (n int, first string) {
	for _, m := range l.msgs {
		if strings.HasPrefix(m.text, "!!!") {
			if n == 0 {
				first = m.text
			}
			n++
		}
	}
	return
}

func (l *capture) text() string {
	var sb strings.Builder
	for _, m := range l.msgs {
		sb.WriteString(m.text)
		sb.WriteByte('\n')
		if sb.Len() > 5000 {
			break
		}
	}
	return sb.String()
}

// dumpLinesWith is the hex dump of data[i1:i2] by definition.
func dumpLinesWith(prefix string, data []byte, i1, i2 int) []string {
	if i1 == i2 {
		return []string{fmt.Sprintf("%s%08X  ", prefix, i1)}
	}
	var out []string
	for i := i1; i < i2; i += 4 {
		s := fmt.Sprintf("%s%08X  ", prefix, i)
		for k := i; k < min(i+4, i2); k++ {
			s += fmt.Sprintf("%02X ", data[k])
		}
		out = append(out, s)
	}
	return out
}
