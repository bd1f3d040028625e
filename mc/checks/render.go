package checks

import (
	"fmt"
	"strings"
	"unicode"
)

// variant is a scalar text in one presentation.
type variant struct {
	style byte
	text  string
}

// Presentation styles of scalars.
const (
	stPlain    = 'p'
	stPlainML  = 'P' // plain over several lines
	stSingle   = '\''
	stSingleML = 'S'
	stDouble   = '"'
	stDoubleML = 'D'
	stDoubleEs = 'E' // every character escaped
	stDoubleCn = 'C' // line continued after an escaped line break
	stLiteral  = 'l'
	stLiteralX = 'L' // literal with explicit indentation
	stFolded   = 'f'
	stFoldedX  = 'F' // folded with a space turned into a line break
)

const allStyles = "p'\"PSDECfFlL"

// where a scalar stands
const (
	inBlock = iota
	inBlockKey
	inFlow
	inFlowKey
)

func isIndicator(r byte) bool { return strings.IndexByte("-?:,[]{}#&*!|>'\"%@`", r) >= 0 }

func refPlainOK(s string, where int) bool {
	if s == "" || strings.ContainsAny(s, "\n\r") || strings.HasPrefix(s, "---") || strings.HasPrefix(s, "...") {
		return false
	}
	if s != strings.TrimSpace(s) || s[len(s)-1] == ':' {
		return false
	}
	if isIndicator(s[0]) && !(strings.IndexByte("-?:", s[0]) >= 0 && len(s) > 1 && s[1] != ' ') {
		return false
	}
	if strings.Contains(s, ": ") || strings.Contains(s, " #") || strings.Contains(s, ":\t") || strings.Contains(s, "\t#") {
		return false
	}
	for _, r := range s {
		if !unicode.IsPrint(r) && r != '\t' {
			return false
		}
	}
	if where == inFlow || where == inFlowKey {
		if strings.ContainsAny(s, ",[]{}") {
			return false
		}
	}
	return true
}

// foldable tells whether the spaces and line breaks of s may be presented as
// line folds: no blank at either end of any line.
func foldable(s string) bool {
	if s == "" || !strings.ContainsAny(s, " \n") || strings.Contains(s, "\t") {
		return false
	}
	for _, l := range strings.Split(s, "\n") {
		if l != strings.TrimSpace(l) {
			return false
		}
	}
	lines := strings.Split(s, "\n")
	return lines[0] != "" && lines[len(lines)-1] != "" && !strings.Contains(s, "  ")
}

// fold presents the first space and all line breaks of s as line folds.
func fold(s, indent string, withSpace bool) string {
	if withSpace {
		if i := strings.IndexByte(s, ' '); i >= 0 {
			s = s[:i] + "\x00" + s[i+1:]
		}
	}
	var sb strings.Builder
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case 0:
			sb.WriteString("\n" + indent)
		case '\n':
			k := 1
			for i+1 < len(s) && s[i+1] == '\n' {
				k++
				i++
			}
			sb.WriteString(strings.Repeat("\n", k+1) + indent)
		default:
			sb.WriteByte(s[i])
		}
	}
	return sb.String()
}

func validVariant(v variant, where int) bool {
	s := v.text
	oneLine := !strings.ContainsAny(s, "\n\r")
	printable := true
	for _, r := range s {
		if !unicode.IsPrint(r) && r != '\n' && r != '\t' {
			printable = false
		}
	}
	key := where == inBlockKey || where == inFlowKey
	flow := where == inFlow || where == inFlowKey
	switch v.style {
	case stPlain:
		return refPlainOK(s, where)
	case stPlainML:
		if key || !foldable(s) || !printable {
			return false
		}
		for _, w := range strings.FieldsFunc(s, func(r rune) bool { return r == ' ' || r == '\n' }) {
			if isIndicator(w[0]) || strings.HasSuffix(w, ":") || !refPlainOK(w, where) {
				return false
			}
		}
		return true
	case stSingle:
		return oneLine && printable
	case stSingleML, stDoubleML:
		return !key && foldable(s) && printable
	case stDouble, stDoubleEs:
		return true
	case stDoubleCn:
		return !key && len([]rune(s)) >= 2
	case stLiteral, stLiteralX:
		return !key && !flow && printable
	case stFolded, stFoldedX:
		if key || flow || !printable {
			return false
		}
		prevSpaced := false
		for _, l := range strings.Split(s, "\n") {
			if l == "" {
				continue
			}
			sp := l[0] == ' ' || l[0] == '\t'
			if sp && prevSpaced {
				return false // the known finding about adjacent indented lines of folded scalars
			}
			prevSpaced = sp
		}
		if v.style == stFoldedX {
			for _, l := range strings.Split(s, "\n") {
				if strings.HasPrefix(l, " ") || strings.HasPrefix(l, "\t") {
					return false
				}
			}
			i := strings.IndexByte(s, ' ')
			return i > 0 && i+1 < len(s) && s[i+1] != ' ' && s[i+1] != '\n' && s[i+1] != '\t' && s[i-1] != '\t' && s[i-1] != '\n'
		}
		return true
	}
	return false
}

func refEscape(s string, all bool) string {
	var sb strings.Builder
	for _, r := range s {
		switch {
		case all && r < 0x100:
			fmt.Fprintf(&sb, "\\x%02x", r)
		case all && r < 0x10000:
			fmt.Fprintf(&sb, "\\u%04X", r)
		case all:
			fmt.Fprintf(&sb, "\\U%08x", r)
		case r == '"' || r == '\\':
			sb.WriteString("\\" + string(r))
		case r == '\n':
			sb.WriteString("\\n")
		case r == '\t':
			sb.WriteString("\\t")
		case r < 0x20 || r == 0x7f:
			fmt.Fprintf(&sb, "\\x%02X", r)
		case !unicode.IsPrint(r) && r < 0x10000:
			fmt.Fprintf(&sb, "\\u%04x", r)
		case !unicode.IsPrint(r):
			fmt.Fprintf(&sb, "\\U%08X", r)
		default:
			sb.WriteRune(r)
		}
	}
	return sb.String()
}

// inlineScalar presents a scalar that is not a block scalar; indent is put
// before its continuation lines.
func inlineScalar(v variant, indent string) string {
	s := v.text
	switch v.style {
	case stPlain:
		return s
	case stPlainML:
		return fold(s, indent, true)
	case stSingle:
		return "'" + strings.ReplaceAll(s, "'", "''") + "'"
	case stSingleML:
		return "'" + fold(strings.ReplaceAll(s, "'", "''"), indent, true) + "'"
	case stDouble:
		return "\"" + refEscape(s, false) + "\""
	case stDoubleML:
		return "\"" + fold(strings.ReplaceAll(strings.ReplaceAll(s, "\\", "\\\\"), "\"", "\\\""), indent, true) + "\""
	case stDoubleEs:
		return "\"" + refEscape(s, true) + "\""
	case stDoubleCn:
		r := []rune(s)
		h := len(r) / 2
		b := refEscape(string(r[h:]), false)
		if b[0] == ' ' {
			b = "\\" + b
		}
		return "\"" + refEscape(string(r[:h]), false) + "\\\n" + indent + b + "\""
	}
	panic("style")
}

// foldBlock presents the lines of a folded block scalar: line breaks between
// lines that start with no blank are doubled, all others stand for themselves.
func foldBlock(body, indent string, withSpace bool) string {
	if withSpace {
		i := strings.IndexByte(body, ' ')
		body = body[:i] + "\x00" + body[i+1:]
	}
	spaced := func(l string) bool { return strings.HasPrefix(l, " ") || strings.HasPrefix(l, "\t") }
	var sb strings.Builder
	prev := ""
	gap := 0
	for _, l := range strings.Split(body, "\n") {
		if l == "" {
			gap++
			continue
		}
		if prev != "" && gap >= 0 && !spaced(prev) && !spaced(l) {
			gap++
		}
		sb.WriteString(strings.Repeat("\n", gap))
		gap = 0
		sb.WriteString(indent + strings.Replace(l, "\x00", "\n"+indent, 1) + "\n")
		prev = l
	}
	return sb.String()
}

// blockScalarText presents a scalar as a block scalar whose content stands d
// columns right of parent indentation base.
//
// decor adds what does not change the content: 1 a comment behind the header, 2 an empty line and 3 a blank line as
// wide as the indentation at the end, 4 a comment at the end, 5 blanks on inner empty lines.
func blockScalarText(v variant, base, d int, explicit bool, decor int) string {
	s := v.text
	body := strings.TrimRight(s, "\n")
	k := len(s) - len(body)
	head := "|"
	if v.style == stFolded || v.style == stFoldedX {
		head = ">"
	}
	if explicit {
		head += fmt.Sprint(d)
	}
	switch {
	case k == 0:
		head += "-"
	case k == 1 && body != "":
	default:
		head += "+"
	}
	indent := strings.Repeat(" ", base+d)
	var sb strings.Builder
	sb.WriteString(head)
	if decor == 1 {
		sb.WriteString(" # c")
	}
	sb.WriteString("\n")
	if body == "" {
		sb.WriteString(strings.Repeat("\n", k))
		return sb.String()
	}
	if v.style == stLiteral || v.style == stLiteralX {
		for i, l := range strings.Split(body, "\n") {
			if l != "" || decor == 5 && (i > 0 || explicit) {
				sb.WriteString(indent + l)
			}
			sb.WriteString("\n")
		}
	} else {
		sb.WriteString(foldBlock(body, indent, v.style == stFoldedX))
	}
	if k > 1 {
		sb.WriteString(strings.Repeat("\n", k-1))
	}
	switch keep := strings.HasSuffix(head, "+"); {
	case decor == 2 && !keep:
		sb.WriteString("\n")
	case decor == 3 && !keep:
		sb.WriteString(indent + "\n\n" + indent + "\n")
	case decor == 4:
		sb.WriteString(spaces(base) + "# c\n")
	}
	return sb.String()
}

// renderer presents a tree, taking presentation decisions from a chooser.
type renderer struct {
	ch    *Chooser
	sb    strings.Builder
	pools [4][]variant // alternatives to the default scalar, per place
	// infeasible: the chosen presentation cannot express the tree
	infeasible bool
	endsBlock  bool // the last line belongs to a block scalar
	noDecor    bool // no comments and blank lines
}

func newRenderer(ch *Chooser, texts []string, styles string) *renderer {
	r := &renderer{ch: ch}
	r.pools = poolsFor(texts, styles)
	return r
}

func poolsFor(texts []string, styles string) (p [4][]variant) {
	for where := 0; where < 4; where++ {
		for _, t := range texts {
			for i := 0; i < len(styles); i++ {
				v := variant{styles[i], t}
				if validVariant(v, where) {
					p[where] = append(p[where], v)
				}
			}
		}
	}
	return
}

func (r *renderer) w(s string) {
	r.sb.WriteString(s)
	r.endsBlock = false
}

// scalar decides the presentation of a scalar; a deviation may also replace its
// text by one of the pool's.
func (r *renderer) scalar(n *T, where int) variant {
	pool := r.pools[where]
	if i := r.ch.Dev(1 + len(pool)); i > 0 {
		n.Text = pool[i-1].text
		return pool[i-1]
	}
	v := variant{stPlain, n.Text}
	if !validVariant(v, where) {
		v.style = stDouble
	}
	return v
}

func (r *renderer) props(n *T) string {
	a, t := n.Anchor, n.Tag
	if a != "" {
		a = "&" + a
	}
	if t != "" {
		if t == "!" {
			t = ""
		}
		t = "!" + t
	}
	switch {
	case a != "" && t != "":
		if r.ch.Dev(2) == 1 {
			return t + " " + a
		}
		return a + " " + t
	default:
		return a + t
	}
}

// eol ends a line of structure: possibly with trailing blanks, comments or
// empty lines.
func (r *renderer) eol(ind int) {
	if r.noDecor {
		r.w("\n")
		return
	}
	if ind < 0 {
		ind = 0
	}
	switch r.ch.Dev(7) {
	case 0:
		r.w("\n")
	case 1:
		r.w(" # c\n")
	case 2:
		r.w("  \n")
	case 3:
		r.w("\n\n")
	case 4:
		r.w("\n# c\n")
	case 5:
		r.w("\n" + strings.Repeat(" ", ind+2) + "# c: - 'd\n")
	case 6:
		r.w(" # c\n   \n#\n")
	}
}

func spaces(n int) string {
	if n < 0 {
		n = 0
	}
	return strings.Repeat(" ", n)
}

func join(parts ...string) string {
	var l []string
	for _, p := range parts {
		if p != "" {
			l = append(l, p)
		}
	}
	return strings.Join(l, " ")
}

// block presents a node in block context. The cursor stands behind the
// indicator that introduces it (or at the start of the document, ctx 'r'); ind
// is the indentation its content has to exceed. ctx: r root, m root after a
// marker, s sequence item, v mapping value, k explicit key, e explicit value.
func (r *renderer) block(n *T, ind int, ctx byte) {
	sep := " "
	if ctx == 'r' {
		sep = ""
	}
	if n.Kind == 'a' {
		r.w(sep + "*" + n.Text)
		r.eol(ind)
		return
	}
	props := r.props(n)
	switch n.Kind {
	case 'n':
		if props != "" {
			r.w(sep + props)
		} else if ctx == 'r' {
			r.infeasible = true
		}
		r.eol(ind)
	case 's':
		v := r.scalar(n, inBlock)
		switch v.style {
		case stLiteral, stLiteralX, stFolded, stFoldedX:
			base := ind
			if base < 0 {
				base = 0
			}
			body := strings.TrimLeft(v.text, "\n")
			explicit := v.style == stLiteralX || strings.HasPrefix(body, " ") || body == "" && v.text != ""
			d := []int{2, 1, 4}[r.ch.Dev(3)]
			if ctx == 'r' || ctx == 'm' {
				if d == 1 {
					d = 3
				}
			}
			r.w(sep + join(props, blockScalarText(v, base, d, explicit, r.ch.Dev(6))))
			r.endsBlock = true
		default:
			cont := spaces(ind + 1 + []int{1, 0, 3}[r.ch.Dev(3)])
			text := inlineScalar(v, cont)
			if ctx != 'r' && ctx != 'k' && r.ch.Dev(2) == 1 {
				// on its own line
				if props != "" {
					r.w(sep + props)
				}
				r.eol(ind)
				r.w(cont + text)
			} else {
				r.w(sep + join(props, text))
			}
			r.eol(ind)
		}
	case 'q', 'm':
		if len(n.Kids) == 0 || r.ch.Dev(2) == 1 {
			r.w(sep + join(props, r.flowBody(n, ind+1)))
			r.eol(ind)
			return
		}
		if props == "" {
			switch ctx {
			case 'r':
				r.entries(n, []int{0, 2}[r.ch.Dev(2)], true)
				return
			case 's', 'k', 'e':
				if i := r.ch.Dev(4); i < 3 {
					gap := i + 1
					r.w(spaces(gap))
					r.entries(n, ind+1+gap, false)
					return
				}
			}
		}
		if props != "" {
			r.w(sep + props)
		}
		r.eol(ind)
		opts := []int{ind + 2, ind + 1, ind + 4}
		if ind < 0 {
			opts = []int{0, 2, 3}
		} else if n.Kind == 'q' && ctx == 'v' {
			opts = append(opts, ind)
		}
		r.entries(n, opts[r.ch.Dev(len(opts))], true)
	}
}

func (r *renderer) entries(n *T, m int, indentFirst bool) {
	start := func(i int) {
		if i > 0 || indentFirst {
			r.w(spaces(m))
		}
	}
	if n.Kind == 'q' {
		for i, k := range n.Kids {
			start(i)
			r.w("-")
			r.block(k, m, 's')
		}
		return
	}
	for i := 0; i < len(n.Kids); i += 2 {
		start(i)
		k, v := n.Kids[i], n.Kids[i+1]
		explicit := r.ch.Dev(2) == 1
		if len(k.Kids) > 0 {
			explicit = !explicit
		}
		if explicit {
			r.w("?")
			r.block(k, m, 'k')
			if v.Kind == 'n' && v.Anchor == "" && v.Tag == "" && r.ch.Dev(2) == 1 {
				continue
			}
			r.w(spaces(m) + ":")
			r.block(v, m, 'e')
			continue
		}
		switch k.Kind {
		case 'a':
			r.w("*" + k.Text + " :")
		case 'n':
			if p := r.props(k); p != "" {
				r.w(p + " ")
			}
			r.w(":")
		case 's':
			p := r.props(k)
			r.w(join(p, inlineScalar(r.scalar(k, inBlockKey), "")) + []string{":", " :"}[r.ch.Dev(2)])
		default:
			p := r.props(k)
			save := r.noDecor
			r.noDecor = true // a key has one line
			r.w(join(p, r.flowBody(k, -100)) + []string{":", " :"}[r.ch.Dev(2)])
			r.noDecor = save
		}
		r.block(v, m, 'v')
	}
}

// flow presents a node in flow context; ind is the indentation of lines it may
// be continued on (negative: none).
func (r *renderer) flow(n *T, ind int) string {
	switch n.Kind {
	case 'a':
		return "*" + n.Text
	case 'n':
		p := r.props(n)
		if p == "" {
			r.infeasible = true
		}
		return p + " "
	case 's':
		return r.flowScalar(n, ind, inFlow)
	}
	props := r.props(n)
	return join(props, r.flowBody(n, ind))
}

// flowBody presents a flow collection without its properties.
func (r *renderer) flowBody(n *T, ind int) string {
	open, end := "[", "]"
	if n.Kind == 'm' {
		open, end = "{", "}"
	}
	if len(n.Kids) == 0 {
		return open + []string{"", " "}[r.ch.Dev(2)] + end
	}
	seps := []string{", ", ",", " , "}
	pads := []string{"", " "}
	tails := []string{"", ",", " ", ", "}
	if ind >= 0 {
		nl := "\n" + spaces(ind+1)
		seps = append(seps, ","+nl, nl+", ", ", # c"+nl)
		pads = append(pads, nl, " # c"+nl)
		tails = append(tails, nl, ","+nl)
	}
	sep := seps[r.ch.Dev(len(seps))]
	pad := pads[r.ch.Dev(len(pads))]
	tail := tails[r.ch.Dev(len(tails))]
	var items []string
	if n.Kind == 'q' {
		for _, k := range n.Kids {
			if k.Kind == 'm' && len(k.Kids) == 2 && k.Anchor == "" && k.Tag == "" && r.ch.Dev(2) == 1 {
				items = append(items, r.flowPair(k.Kids[0], k.Kids[1], ind, true))
				continue
			}
			items = append(items, r.flow(k, ind))
		}
	} else {
		for i := 0; i < len(n.Kids); i += 2 {
			items = append(items, r.flowPair(n.Kids[i], n.Kids[i+1], ind, false))
		}
	}
	// a compact separator must not glue to the entry before or after it
	return open + pad + strings.Join(items, sep) + tail + end
}

func (r *renderer) flowScalar(n *T, ind, where int) string {
	props := r.props(n)
	if ind < 0 && where == inFlow {
		where = inFlowKey
	}
	return join(props, inlineScalar(r.scalar(n, where), spaces(ind+1)))
}

func (r *renderer) flowPair(k, v *T, ind int, single bool) string {
	explicit := r.ch.Dev(2) == 1
	var key string
	quoted := false
	switch k.Kind {
	case 'n':
		if key = r.props(k); key != "" {
			key += " "
		}
	case 's':
		key = r.flowScalar(k, ind, inFlowKey)
		quoted = strings.HasSuffix(key, "\"") || strings.HasSuffix(key, "'")
	default:
		key = r.flow(k, -100)
		quoted = k.Kind == 'q' || k.Kind == 'm'
	}
	val := ""
	if v.Kind == 'n' {
		if val = r.props(v); val != "" {
			val += " "
		}
	} else {
		val = r.flow(v, ind)
	}
	if val == "" && key != "" && !single && k.Kind != 'a' && r.ch.Dev(2) == 1 {
		if explicit {
			return "? " + key
		}
		return key
	}
	colon := ": "
	switch r.ch.Dev(4) {
	case 1:
		colon = " : "
	case 2:
		if ind >= 0 && !single {
			colon = ":\n" + spaces(ind+1)
		} else {
			colon = ":  "
		}
	case 3:
		if quoted && !explicit {
			colon = ":"
		} else {
			colon = " :  "
		}
	}
	if (key == "" || k.Kind == 'a' || k.Kind == 'n') && strings.HasPrefix(colon, ":") && key != "" {
		colon = " " + colon
	}
	if explicit {
		return "? " + key + " " + strings.TrimLeft(colon, " ") + val
	}
	return key + colon + val
}

var directives = []string{
	"%YAML 1.2\n", "%YAML 10.12 # c\n", "%YAML 1.2\n%TAG ! tag:e.com,2000:\n", "%TAG !! !x\n", "%TAG !e! !x-\n%YAML 1.1\n", "%FOO\n",
	"%FOO a b: [c # d\n\n", "%FOO 'a\n%BAR -\n", "%TAG !e! tag:x\n%TAG !f! tag:y\n",
}

// stream presents a list of documents.
func (r *renderer) stream(docs []*T) string {
	open := false // the previous document was not closed by a suffix
	for i, d := range docs {
		marker := i > 0 && open
		lead := r.ch.Dev(8 + len(directives))
		switch lead {
		case 1:
			r.w("# c\n")
		case 2:
			r.w("\n")
		case 3:
			if !open {
				r.w("%YAML 1.1\n")
				marker = true
			}
		case 4:
			if !open {
				r.w("%TAG !e! tag:example.com,2000:\n# c\n")
				marker = true
			}
		case 5:
			if i == 0 {
				r.w("\ufeff")
			}
		case 6:
			marker = true
		case 7:
			r.w("# c\n\n  # d\n")
		default:
			if lead > 7 && !open {
				r.w(directives[lead-8])
				marker = true
			}
		}
		if d.Kind == 'n' && d.Anchor == "" && d.Tag == "" {
			marker = true
		}
		if marker {
			r.w("---")
			r.block(d, -1, 'm')
		} else {
			r.block(d, -1, 'r')
		}
		open = true
		switch r.ch.Dev(4) {
		case 1:
			r.w("...\n")
			open = false
		case 2:
			r.w("...\n# c\n")
			open = false
		case 3:
			r.w("... # c\n")
			open = false
		}
	}
	s := r.sb.String()
	switch r.ch.Dev(4) {
	case 1:
		s = strings.ReplaceAll(s, "\n", "\r\n")
	case 2:
		s = strings.ReplaceAll(s, "\n", "\r")
	case 3:
		if !r.endsBlock {
			s = strings.TrimSuffix(s, "\n")
		}
	}
	return s
}
