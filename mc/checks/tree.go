package checks

import (
	"fmt"
	"strings"

	"github.com/KSpaceer/yamly/engines/yayamls/ast"
	"gopkg.in/yaml.v3"
)

// T is the model of a YAML node: what a document denotes.
type T struct {
	Kind   byte // s scalar, n null (empty node), q sequence, m mapping (keys and values alternate), a alias
	Text   string
	Anchor string
	Tag    string
	Kids   []*T
}

func (t *T) write(sb *strings.Builder) {
	if t == nil {
		sb.WriteString("<nil>")
		return
	}
	if t.Anchor != "" {
		sb.WriteString("&" + t.Anchor + " ")
	}
	if t.Tag != "" {
		sb.WriteString("!" + t.Tag + " ")
	}
	switch t.Kind {
	case 's':
		fmt.Fprintf(sb, "%q", t.Text)
	case 'n':
		sb.WriteString("~")
	case 'a':
		sb.WriteString("*" + t.Text)
	case 'q':
		sb.WriteString("[")
		for i, k := range t.Kids {
			if i > 0 {
				sb.WriteString(", ")
			}
			k.write(sb)
		}
		sb.WriteString("]")
	case 'm':
		sb.WriteString("{")
		for i, k := range t.Kids {
			if i > 0 {
				if i%2 == 1 {
					sb.WriteString(": ")
				} else {
					sb.WriteString(", ")
				}
			}
			k.write(sb)
		}
		sb.WriteString("}")
	default:
		fmt.Fprintf(sb, "<kind %d>", t.Kind)
	}
}

// String is the canonical form.
func (t *T) String() string {
	var sb strings.Builder
	t.write(&sb)
	return sb.String()
}

func (t *T) size() int {
	n := 1
	for _, k := range t.Kids {
		n += k.size()
	}
	return n
}

func (t *T) clone() *T {
	c := *t
	c.Kids = nil
	for _, k := range t.Kids {
		c.Kids = append(c.Kids, k.clone())
	}
	return &c
}

func (t *T) walk(f func(*T)) {
	f(t)
	for _, k := range t.Kids {
		k.walk(f)
	}
}

func sc(s string) *T         { return &T{Kind: 's', Text: s} }
func nul() *T                { return &T{Kind: 'n'} }
func sq(kids ...*T) *T       { return &T{Kind: 'q', Kids: kids} }
func mp(kids ...*T) *T       { return &T{Kind: 'm', Kids: kids} }
func alias(s string) *T      { return &T{Kind: 'a', Text: s} }
func anch(a string, t *T) *T { t.Anchor = a; return t }
func tagd(a string, t *T) *T { t.Tag = a; return t }

// fromAST reads a yayamls node back into the model.
func fromAST(n ast.Node) (*T, error) {
	return astWith(n, func(n *ast.TextNode) *T { return sc(n.Text()) })
}

// typedAST is like fromAST, but unquoted texts which spell null are nulls.
func typedAST(n ast.Node) (*T, error) {
	return astWith(n, func(n *ast.TextNode) *T {
		if q := n.QuotingType(); q != ast.SingleQuotingType && q != ast.DoubleQuotingType && n.Text() != "" && refNull(n.Text()) {
			return nul()
		}
		return sc(n.Text())
	})
}

func astWith(n ast.Node, text func(*ast.TextNode) *T) (*T, error) {
	switch n := n.(type) {
	case nil:
		return nil, fmt.Errorf("nil node")
	case *ast.TextNode:
		return text(n), nil
	case *ast.NullNode:
		return nul(), nil
	case *ast.AliasNode:
		return alias(n.Text()), nil
	case *ast.SequenceNode:
		t := sq()
		for _, e := range n.Entries() {
			if p, ok := e.(*ast.MappingEntryNode); ok { // single pair of a flow sequence
				e = ast.NewMappingNode([]ast.Node{p})
			}
			k, err := astWith(e, text)
			if err != nil {
				return nil, err
			}
			t.Kids = append(t.Kids, k)
		}
		return t, nil
	case *ast.MappingNode:
		t := mp()
		for _, e := range n.Entries() {
			en, ok := e.(*ast.MappingEntryNode)
			if !ok {
				return nil, fmt.Errorf("mapping entry is %T", e)
			}
			k, err := astWith(en.Key(), text)
			if err != nil {
				return nil, fmt.Errorf("key: %w", err)
			}
			v, err := astWith(en.Value(), text)
			if err != nil {
				return nil, fmt.Errorf("value: %w", err)
			}
			t.Kids = append(t.Kids, k, v)
		}
		return t, nil
	case *ast.ContentNode:
		t, err := astWith(n.Content(), text)
		if err != nil {
			return nil, err
		}
		if p, ok := n.Properties().(*ast.PropertiesNode); ok {
			if a, ok := p.Anchor().(*ast.AnchorNode); ok {
				t.Anchor = a.Text()
			}
			if a, ok := p.Tag().(*ast.TagNode); ok {
				t.Tag = a.Text()
				if t.Tag == "" {
					t.Tag = "!"
				}
			}
		}
		return t, nil
	default:
		return nil, fmt.Errorf("unexpected node %T", n)
	}
}

// docsFromAST reads a parsed stream.
func docsFromAST(n ast.Node) ([]*T, error) {
	if s, ok := n.(*ast.StreamNode); ok {
		var l []*T
		for _, d := range s.Documents() {
			t, err := fromAST(d)
			if err != nil {
				return nil, err
			}
			l = append(l, t)
		}
		return l, nil
	}
	t, err := fromAST(n)
	if err != nil {
		return nil, err
	}
	return []*T{t}, nil
}

// fromYaml3 reads a yaml.v3 node into the model.
func fromYaml3(n *yaml.Node) *T {
	var t *T
	switch n.Kind {
	case yaml.DocumentNode:
		return fromYaml3(n.Content[0])
	case yaml.ScalarNode:
		if n.Value == "" && n.Style&(yaml.DoubleQuotedStyle|yaml.SingleQuotedStyle|yaml.LiteralStyle|yaml.FoldedStyle) == 0 {
			t = nul()
		} else {
			t = sc(n.Value)
		}
	case yaml.AliasNode:
		return alias(n.Value)
	case yaml.SequenceNode:
		t = sq()
		for _, k := range n.Content {
			t.Kids = append(t.Kids, fromYaml3(k))
		}
	case yaml.MappingNode:
		t = mp()
		for _, k := range n.Content {
			t.Kids = append(t.Kids, fromYaml3(k))
		}
	default:
		return nil
	}
	t.Anchor = n.Anchor
	if n.Style&yaml.TaggedStyle != 0 {
		t.Tag = strings.TrimPrefix(strings.TrimPrefix(n.Tag, "!"), "!")
		if t.Tag == "" {
			t.Tag = "!"
		}
	}
	return t
}

// yaml3Docs parses a stream with yaml.v3.
func yaml3Docs(src string) (l []*T, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("yaml.v3 panics: %v", r)
		}
	}()
	dec := yaml.NewDecoder(strings.NewReader(src))
	for {
		var n yaml.Node
		if e := dec.Decode(&n); e != nil {
			if e.Error() == "EOF" {
				return l, nil
			}
			return nil, e
		}
		if n.Kind == 0 || n.Kind == yaml.DocumentNode && len(n.Content) == 0 {
			l = append(l, nul())
			continue
		}
		l = append(l, fromYaml3(&n))
	}
}

func showDocs(l []*T) string {
	var s []string
	for _, t := range l {
		s = append(s, t.String())
	}
	return strings.Join(s, " --- ")
}

// shapes lists every tree of exactly n nodes. Leaves are scalars, and
// empty collections and nulls when wanted; keys are scalars unless complex keys
// are wanted.
func shapes(n int, leaves string, complexKeys bool) []*T {
	type key struct {
		n int
	}
	memo := map[key][]*T{}
	var rec func(n int) []*T
	var forests func(n int) [][]*T
	rec = func(n int) []*T {
		if l, ok := memo[key{n}]; ok {
			return l
		}
		var l []*T
		if n == 1 {
			for _, k := range leaves {
				l = append(l, &T{Kind: byte(k)})
			}
		} else {
			for _, f := range forests(n - 1) {
				l = append(l, &T{Kind: 'q', Kids: f})
				if len(f)%2 == 0 {
					ok := true
					for i := 0; i < len(f); i += 2 {
						if !complexKeys && f[i].Kind != 's' {
							ok = false
						}
					}
					if ok {
						l = append(l, &T{Kind: 'm', Kids: f})
					}
				}
			}
		}
		memo[key{n}] = l
		return l
	}
	fmemo := map[int][][]*T{}
	forests = func(n int) [][]*T {
		if l, ok := fmemo[n]; ok {
			return l
		}
		var l [][]*T
		for first := 1; first <= n; first++ {
			for _, h := range rec(first) {
				if first == n {
					l = append(l, []*T{h})
					continue
				}
				for _, rest := range forests(n - first) {
					l = append(l, append([]*T{h}, rest...))
				}
			}
		}
		fmemo[n] = l
		return l
	}
	return rec(n)
}

// label gives every scalar of a tree its own text.
func label(t *T) *T {
	t = t.clone()
	i := 0
	names := "abcdefghijklmnopqrstuvwxyz"
	t.walk(func(n *T) {
		if n.Kind == 's' && n.Text == "" {
			n.Text = string(names[i%26])
			if i >= 26 {
				n.Text += fmt.Sprint(i / 26)
			}
			i++
		}
	})
	return t
}
