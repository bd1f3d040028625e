package checks

import (
	"errors"
	"fmt"
	"math"
	"sort"
	"strings"
	"time"

	"github.com/KSpaceer/yamly"
	gdecode "github.com/KSpaceer/yamly/engines/goyaml/decode"
	"github.com/KSpaceer/yamly/engines/yayamls/ast"
	ydecode "github.com/KSpaceer/yamly/engines/yayamls/decode"
	"github.com/KSpaceer/yamly/engines/yayamls/parser"
	"gopkg.in/yaml.v3"
)

// engine hides the differences between the two engines' readers.
type engine struct {
	name string
	// parse gives a function which makes fresh readers of one parsed document.
	parse func(src string) (func(multi bool) yamly.Decoder, error)
	// scalar makes a reader of a tree which is one scalar.
	scalar func(text string, quoted bool) yamly.Decoder
	// tree makes readers of a tree built from the model.
	tree func(t *T) func(multi bool) yamly.Decoder
}

func yReader(n ast.Node, multi bool) yamly.Decoder {
	if multi {
		return ydecode.NewASTReader(n, ydecode.WithMultipleDenyErrors())
	}
	return ydecode.NewASTReader(n)
}

func gReader(n *yaml.Node, multi bool) yamly.Decoder {
	if multi {
		return gdecode.NewASTReader(n, gdecode.WithMultipleDenyErrors())
	}
	return gdecode.NewASTReader(n)
}

var yEngine = engine{
	name: "yayamls",
	parse: func(src string) (func(bool) yamly.Decoder, error) {
		n, err := parser.ParseString(src, parser.WithOmitStream(), parser.WithUnquoting())
		if err != nil {
			return nil, err
		}
		return func(multi bool) yamly.Decoder { return yReader(n, multi) }, nil
	},
	scalar: func(text string, quoted bool) yamly.Decoder {
		q := ast.AbsentQuotingType
		if quoted {
			q = ast.DoubleQuotingType
		}
		return ydecode.NewASTReader(ast.NewTextNode(text, ast.WithQuotingType(q)))
	},
	tree: func(t *T) func(bool) yamly.Decoder {
		n := t.toAST()
		return func(multi bool) yamly.Decoder { return yReader(n, multi) }
	},
}

var gEngine = engine{
	name: "goyaml",
	parse: func(src string) (func(bool) yamly.Decoder, error) {
		var n yaml.Node
		if err := yaml.Unmarshal([]byte(src), &n); err != nil {
			return nil, err
		}
		if n.Kind == 0 {
			return nil, errors.New("empty document")
		}
		return func(multi bool) yamly.Decoder { return gReader(&n, multi) }, nil
	},
	scalar: func(text string, quoted bool) yamly.Decoder {
		n := &yaml.Node{Kind: yaml.ScalarNode, Value: text}
		if quoted {
			n.Style, n.Tag = yaml.DoubleQuotedStyle, "!!str"
		}
		return gdecode.NewASTReader(n)
	},
	tree: func(t *T) func(bool) yamly.Decoder {
		n := t.toYaml3()
		return func(multi bool) yamly.Decoder { return gReader(n, multi) }
	},
}

var engines = []engine{yEngine, gEngine}

// toAST builds the syntax tree of a model tree.
func (t *T) toAST() ast.Node {
	var n ast.Node
	switch t.Kind {
	case 's':
		n = ast.NewTextNode(t.Text, ast.WithQuotingType(ast.DoubleQuotingType))
	case 'p': // plain scalar
		n = ast.NewTextNode(t.Text, ast.WithQuotingType(ast.AbsentQuotingType))
	case 'S': // single quoted
		n = ast.NewTextNode(t.Text, ast.WithQuotingType(ast.SingleQuotingType))
	case 'u': // without known quoting
		n = ast.NewTextNode(t.Text)
	case 'e': // a single pair of a flow sequence
		n = ast.NewMappingEntryNode(t.Kids[0].toAST(), t.Kids[1].toAST())
	case 'n':
		n = ast.NewNullNode()
	case 'a':
		return ast.NewAliasNode(t.Text)
	case 'q':
		var l []ast.Node
		for _, k := range t.Kids {
			l = append(l, k.toAST())
		}
		n = ast.NewSequenceNode(l)
	case 'm':
		var l []ast.Node
		for i := 0; i+1 < len(t.Kids); i += 2 {
			l = append(l, ast.NewMappingEntryNode(t.Kids[i].toAST(), t.Kids[i+1].toAST()))
		}
		n = ast.NewMappingNode(l)
	}
	if t.Anchor != "" || t.Tag != "" {
		var a, g ast.Node
		if t.Anchor != "" {
			a = ast.NewAnchorNode(t.Anchor)
		}
		if t.Tag != "" {
			g = ast.NewTagNode(map[bool]string{true: "", false: t.Tag}[t.Tag == "!"])
		}
		n = ast.NewContentNode(ast.NewPropertiesNode(g, a), n)
	}
	return n
}

// toYaml3 builds the yaml.v3 node of a model tree.
func (t *T) toYaml3() *yaml.Node {
	return t.yaml3(map[string]*yaml.Node{})
}

func (t *T) yaml3(anchors map[string]*yaml.Node) *yaml.Node {
	n := &yaml.Node{Value: t.Text, Anchor: t.Anchor}
	if t.Anchor != "" {
		anchors[t.Anchor] = n
	}
	switch t.Kind {
	case 's':
		n.Kind, n.Style, n.Tag = yaml.ScalarNode, yaml.DoubleQuotedStyle, "!!str"
	case 'p':
		n.Kind = yaml.ScalarNode
		n.Tag = n.ShortTag()
	case 'n':
		n.Kind, n.Tag, n.Value = yaml.ScalarNode, "!!null", "null"
	case 'a':
		n.Kind, n.Alias = yaml.AliasNode, anchors[t.Text]
	case 'q':
		n.Kind, n.Tag = yaml.SequenceNode, "!!seq"
	case 'm':
		n.Kind, n.Tag = yaml.MappingNode, "!!map"
	}
	for _, k := range t.Kids {
		n.Content = append(n.Content, k.yaml3(anchors))
	}
	if t.Tag != "" {
		n.Tag = "!" + t.Tag
		n.Style |= yaml.TaggedStyle
	}
	return n
}

// showVal is a canonical form of a decoded value.
func showVal(v any) string {
	switch v := v.(type) {
	case nil:
		return "nil"
	case time.Time:
		_, off := v.Zone()
		return fmt.Sprintf("time(%s %d)", v.UTC().Format(time.RFC3339Nano), off)
	case float64:
		if math.IsNaN(v) {
			return "float64(NaN)"
		}
		return fmt.Sprintf("float64(%x)", v)
	case []any:
		var s []string
		for _, x := range v {
			s = append(s, showVal(x))
		}
		return "[" + strings.Join(s, ", ") + "]"
	case map[string]any:
		var s []string
		for k, x := range v {
			s = append(s, fmt.Sprintf("%q: %s", k, showVal(x)))
		}
		sort.Strings(s)
		return "{" + strings.Join(s, ", ") + "}"
	case string:
		return fmt.Sprintf("%q", v)
	default:
		return fmt.Sprintf("%T(%v)", v, v)
	}
}
