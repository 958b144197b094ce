package main

import (
	"fmt"
	"strconv"
	"strings"
)

// emit writes a document the way a person might; the style picks among
// equivalent notations.
func emit(file string, doc V, style int) string {
	if strings.HasSuffix(file, ".json") {
		switch style % 3 {
		case 0:
			return emitJSON(doc, "", "  ") + "\n"
		case 1:
			return emitJSON(doc, "", "")
		}
		return "\n" + emitJSON(doc, "", "\t") + "\n\n"
	}
	e := &yamlEmitter{r: newRng(uint64(style) + 99), style: style}
	if m, ok := doc.(M); ok && len(m) == 0 {
		return "{}\n"
	}
	if style%6 == 3 {
		e.count, e.anchors = map[string]int{}, map[string]string{}
		e.repeated(doc)
	}
	s := e.block(doc, 0)
	if style%5 == 3 {
		s = "---\n" + s
	}
	if style%4 == 2 {
		s = "# specification\n" + s
	}
	if style%10 == 7 {
		s += "...\n"
	}
	if style%13 == 6 {
		s = strings.Replace(s, "\n", "\r\n", -1)
	}
	if style%11 == 4 && !strings.Contains(s, "|\n") && !strings.Contains(s, "|\r\n") && !strings.Contains(s, "|+") {
		s = strings.TrimRight(s, "\r\n")
	}
	return s
}

func emitJSON(v V, ind, step string) string {
	nl, sp := "", ""
	if step != "" {
		nl, sp = "\n", " "
	}
	switch x := v.(type) {
	case M:
		if len(x) == 0 {
			return "{}"
		}
		var b strings.Builder
		b.WriteString("{" + nl)
		for i, k := range keysOf(x) {
			if i > 0 {
				b.WriteString("," + nl)
			}
			if step != "" {
				b.WriteString(ind + step)
			}
			b.WriteString(mustJSON(k) + ":" + sp + emitJSON(x[k], ind+step, step))
		}
		b.WriteString(nl)
		if step != "" {
			b.WriteString(ind)
		}
		b.WriteString("}")
		return b.String()
	case []interface{}:
		if len(x) == 0 {
			return "[]"
		}
		var b strings.Builder
		b.WriteString("[" + nl)
		for i, y := range x {
			if i > 0 {
				b.WriteString("," + nl)
			}
			if step != "" {
				b.WriteString(ind + step)
			}
			b.WriteString(emitJSON(y, ind+step, step))
		}
		b.WriteString(nl)
		if step != "" {
			b.WriteString(ind)
		}
		b.WriteString("]")
		return b.String()
	}
	return mustJSON(v)
}

type yamlEmitter struct {
	r     *Rng
	style int

	count   map[string]int // what occurs how often, where anchors are used
	anchors map[string]string
}

// repeated counts what a document holds.
func (e *yamlEmitter) repeated(v V) {
	switch x := v.(type) {
	case M:
		if len(x) > 0 {
			e.count[mustJSON(x)]++
		}
		for _, k := range keysOf(x) {
			e.repeated(x[k])
		}
	case []interface{}:
		if len(x) > 0 {
			e.count[mustJSON(x)]++
		}
		for _, y := range x {
			e.repeated(y)
		}
	case string:
		if len(x) > 3 {
			e.count[mustJSON(x)]++
		}
	}
}

// alias names what was written before, or what will be needed again.
func (e *yamlEmitter) alias(v V) (anchor string, done bool) {
	if e.count == nil {
		return "", false
	}
	k := mustJSON(v)
	if e.count[k] < 2 {
		return "", false
	}
	if a := e.anchors[k]; a != "" {
		return " *" + a, true
	}
	a := fmt.Sprintf("a%d", len(e.anchors))
	e.anchors[k] = a
	return " &" + a, false
}

func (e *yamlEmitter) key(k string) string {
	if _, err := strconv.Atoi(k); err == nil && e.style%3 == 1 && (k == "0" || k[0] != '0') && k[0] != '-' && k[0] != '+' && len(k) < 6 {
		return k // an integer key, read back as a string
	}
	if f, err := strconv.ParseFloat(k, 64); err == nil && e.style%3 == 1 && strings.Contains(k, ".") && fmt.Sprint(f) == k && k[0] >= '1' && k[0] <= '9' && len(k) < 9 {
		return k // so does a number
	}
	if (k == "true" || k == "false") && e.style%3 == 1 {
		return k
	}
	if plainOK(k) && e.r.P(80) || blockPlain(k) && e.r.P(60) {
		return k
	}
	return e.quote(k)
}

// blockPlain: a string as well when written without quotes, outside of
// brackets, though it holds what means something elsewhere.
func blockPlain(s string) bool {
	if len(s) < 2 || len(s) > 60 || strings.TrimSpace(s) != s || strings.Contains(s, ": ") || strings.Contains(s, " #") || strings.Contains(s, "  ") || strings.HasSuffix(s, ":") {
		return false
	}
	letter := false
	for _, r := range s {
		if r < 0x20 || r > 0x7e && (r < 0xa1 || r > 0x17f) {
			return false
		}
		letter = letter || r >= 'g' && r <= 'z' && r != 'o' && r != 'x' && r != 'y' && r != 'n'
	}
	if !letter { // numbers, dates, words of another meaning
		return false
	}
	switch strings.ToLower(strings.Trim(s, "+-.")) {
	case "yes", "no", "on", "off", "true", "false", "null", "nan", "inf":
		return false
	}
	if strings.HasPrefix(s, "-") && s[1] != ' ' && s[1] != '\t' {
		return !(strings.HasPrefix(s, "---") && (len(s) == 3 || s[3] == ' '))
	}
	if strings.ContainsRune("-?:,[]{}#&*!|>'\"%@`<=~", rune(s[0])) {
		return false
	}
	return !strings.HasPrefix(s, "... ") && s != "..."
}

func (e *yamlEmitter) quote(s string) string {
	if e.r.P(50) && singleOK(s) {
		return "'" + strings.Replace(s, "'", "''", -1) + "'"
	}
	return yamlDQ(s)
}

func singleOK(s string) bool {
	for _, r := range s {
		if r < 0x20 || r == 0x7f || r > 0x7e {
			return false
		}
	}
	return true
}

func yamlDQ(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for _, r := range s {
		switch {
		case r == '"' || r == '\\':
			b.WriteByte('\\')
			b.WriteRune(r)
		case r == '\n':
			b.WriteString(`\n`)
		case r == '\t':
			b.WriteString(`\t`)
		case r == '\r':
			b.WriteString(`\r`)
		case r < 0x20 || r >= 0x7f && r <= 0xa0 || r == 0x2028 || r == 0x2029 || r == 0xfeff:
			if r > 0xff {
				fmt.Fprintf(&b, `\u%04x`, r)
			} else {
				fmt.Fprintf(&b, `\x%02x`, r)
			}
		default:
			b.WriteRune(r)
		}
	}
	b.WriteByte('"')
	return b.String()
}

// plainOK: surely a string when written without quotes.
func plainOK(s string) bool {
	if s == "" || len(s) > 60 {
		return false
	}
	for i, r := range s {
		ok := r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r == '_' || (i > 0 && (r >= '0' && r <= '9' || r == '-' || r == '.' || r == '/' || r == ' ' && i < len(s)-1)) || (i == 0 && r == '/')
		if !ok {
			return false
		}
	}
	switch strings.ToLower(s) {
	case "y", "n", "yes", "no", "on", "off", "true", "false", "null", "nan", "inf", "e":
		return false
	}
	if strings.HasPrefix(s, "/ ") || s == "/" {
		return false
	}
	return true
}

func (e *yamlEmitter) scalar(v V) string {
	switch x := v.(type) {
	case nil:
		if e.r.P(50) {
			return "null"
		}
		return e.r.S("~", "~", "Null", "NULL")
	case bool:
		words := []string{"false", "no", "off", "False", "FALSE"}
		if x {
			words = []string{"true", "yes", "on", "True", "TRUE"}
		}
		if e.r.P(25) {
			return words[e.r.N(len(words))]
		}
		return words[0]
	case float64:
		if x >= 1 && x < 1e6 && x == float64(int(x)) && e.r.P(12) {
			switch e.r.N(4) {
			case 0:
				return fmt.Sprintf("0x%X", int(x))
			case 1:
				return fmt.Sprintf("0%o", int(x))
			case 2:
				return fmt.Sprintf("0b%b", int(x))
			}
			return fmt.Sprintf("+%d", int(x))
		}
		return mustJSON(x)
	case string:
		if plainOK(x) && e.r.P(70) || blockPlain(x) && e.r.P(40) {
			return x
		}
		if len(x) > 0 && strings.Trim(x, "0123456789.-") == "" && e.r.P(20) && x[0] != '-' && x != "." && x != ".." && x != "..." {
			return "!!str " + x
		}
		return e.quote(x)
	}
	panic(fmt.Sprintf("scalar %T", v))
}

func isScalar(v V) bool {
	switch x := v.(type) {
	case M:
		return len(x) == 0
	case []interface{}:
		return len(x) == 0
	}
	return true
}

func (e *yamlEmitter) flow(v V) string {
	switch x := v.(type) {
	case M:
		var p []string
		for _, k := range keysOf(x) {
			kk := k
			if !plainOK(k) || strings.ContainsAny(k, " /.") {
				kk = e.quote(k)
			}
			p = append(p, kk+": "+e.flow(x[k]))
		}
		return "{" + strings.Join(p, ", ") + "}"
	case []interface{}:
		var p []string
		for _, y := range x {
			p = append(p, e.flow(y))
		}
		return "[" + strings.Join(p, ", ") + "]"
	case string:
		return e.quote(x)
	}
	return e.scalar(v)
}

func (e *yamlEmitter) literalOK(s string) bool {
	if !strings.Contains(s, "\n") || strings.HasPrefix(s, " ") || strings.HasPrefix(s, "\n") || strings.HasPrefix(s, "\t") {
		return false
	}
	for _, r := range s {
		if r != '\n' && (r < 0x20 || r > 0x7e) {
			return false
		}
	}
	return true
}

func (e *yamlEmitter) block(v V, ind int) string {
	pad := strings.Repeat(" ", ind)
	switch x := v.(type) {
	case M:
		ks := keysOf(x)
		if e.style%7 == 5 {
			e.r.Shuffle(len(ks), func(i, j int) { ks[i], ks[j] = ks[j], ks[i] })
		}
		var b strings.Builder
		for i, k := range ks {
			if i > 0 && e.style%8 == 1 && e.r.P(10) {
				b.WriteString(e.r.S(pad+"# see below\n", "\n", "#: what?\n", pad+"#\n"))
			}
			b.WriteString(pad + e.key(k) + ":" + e.value(x[k], ind))
		}
		return b.String()
	case []interface{}:
		var b strings.Builder
		for _, y := range x {
			if m, ok := y.(M); ok && len(m) > 0 && e.count == nil && e.r.P(70) {
				s := e.block(m, ind+2)
				b.WriteString(pad + "- " + s[ind+2:])
				continue
			}
			b.WriteString(pad + "-" + e.value(y, ind))
		}
		return b.String()
	}
	return pad + e.scalar(v) + "\n"
}

func (e *yamlEmitter) value(v V, ind int) string {
	at, done := e.alias(v)
	if done {
		return at + "\n"
	}
	return at + e.bare(v, ind)
}

func (e *yamlEmitter) bare(v V, ind int) string {
	switch x := v.(type) {
	case nil:
		if e.r.P(20) {
			return "\n"
		}
	case M:
		if len(x) == 0 {
			return " {}\n"
		}
		if e.r.P(12) {
			return " " + e.flow(x) + "\n"
		}
		step := 2
		if e.style%6 == 4 {
			step = 4
		}
		return "\n" + e.block(x, ind+step)
	case []interface{}:
		if len(x) == 0 {
			return " []\n"
		}
		if e.r.P(15) {
			return " " + e.flow(x) + "\n"
		}
		return "\n" + e.block(x, ind+2)
	case string:
		if e.literalOK(x) && e.r.P(60) && (e.style%8 != 1 || !strings.HasSuffix(x, "\n\n")) {
			pad := strings.Repeat(" ", ind+2)
			head := "|-"
			body := x
			if strings.HasSuffix(x, "\n") {
				head = "|"
				body = x[:len(x)-1]
				if strings.HasSuffix(body, "\n") {
					head = "|+"
				}
			}
			return " " + head + "\n" + pad + strings.Replace(body, "\n", "\n"+pad, -1) + "\n"
		}
		if strings.Contains(x, " ") && !strings.Contains(x, "  ") && strings.TrimSpace(x) == x && singleOK(x) && e.r.P(10) {
			// folded
			pad := strings.Repeat(" ", ind+2)
			return " >-\n" + pad + strings.Replace(x, " ", e.r.S("\n"+pad, " ", "\n"+pad), 1) + "\n"
		}
	}
	return " " + e.scalar(v) + "\n"
}
