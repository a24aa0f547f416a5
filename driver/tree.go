package main

import (
	"fmt"
	"reflect"
	"sort"
	"strings"

	"github.com/AfterShip/clickhouse-sql-parser/parser"
)

// Node is the generic form of a syntax tree, used both for the tree a
// behaviour of the specification prescribes and for the tree the parser
// returned (obtained by reflection over exported fields).
type Node struct {
	Type  string
	Names []string         // field names in order of first use
	Vals  map[string][]Val // field values
	First int              // first source token (specification side)
	Last  int              // last source token, inclusive
	Leaf  string           // lexeme class of a leaf
	Real  reflect.Value    // the real node (implementation side)
}

// Val is a scalar or a node.
type Val struct {
	Node *Node
	S    string
}

func newNode(t string) *Node {
	return &Node{Type: t, Vals: map[string][]Val{}, First: -1, Last: -1}
}

func (n *Node) add(f string, v Val) {
	if _, ok := n.Vals[f]; !ok {
		n.Names = append(n.Names, f)
	}
	n.Vals[f] = append(n.Vals[f], v)
}

// write renders a node canonically: type, then its fields sorted by name.
func (n *Node) write(b *strings.Builder, fold map[string]bool) {
	if n == nil {
		b.WriteString("<nil>")
		return
	}
	b.WriteString(n.Type)
	b.WriteByte('{')
	names := append([]string(nil), n.Names...)
	sort.Strings(names)
	for i, f := range names {
		if i > 0 {
			b.WriteByte(' ')
		}
		b.WriteString(f)
		b.WriteByte('=')
		vs := n.Vals[f]
		for j, v := range vs {
			if j > 0 {
				b.WriteByte(',')
			}
			if v.Node != nil {
				v.Node.write(b, fold)
			} else if fold != nil && n.Type == "Ident" && f == "Name" && fold[strings.ToUpper(v.S)] {
				fmt.Fprintf(b, "%q", strings.ToUpper(v.S))
			} else if fold != nil && n.Leaf == "" && n.Type != "Ident" && n.Type != "StringLiteral" && n.Type != "NumberLiteral" {
				fmt.Fprintf(b, "%q", strings.ToUpper(v.S))
			} else {
				fmt.Fprintf(b, "%q", v.S)
			}
		}
	}
	b.WriteByte('}')
}

func (n *Node) String() string { var b strings.Builder; n.write(&b, nil); return b.String() }

// Fold renders with the spelling of recorded keywords folded to upper case, as
// well as identifiers spelled like one of words.
func (n *Node) Fold(words map[string]bool) string {
	var b strings.Builder
	n.write(&b, words)
	return b.String()
}

var posType = reflect.TypeOf(parser.Pos(0))
var exprType = reflect.TypeOf((*parser.Expr)(nil)).Elem()

// dump converts a real tree into its generic form.  Positions and zero
// values are left out; INTERVAL literals keep the one position that records
// how they were written.
func dump(x interface{}) *Node {
	v := reflect.ValueOf(x)
	return dumpValue(v)
}

func dumpValue(v reflect.Value) *Node {
	for v.IsValid() && (v.Kind() == reflect.Ptr || v.Kind() == reflect.Interface) {
		if v.IsNil() {
			return nil
		}
		if v.Kind() == reflect.Ptr && v.Elem().Kind() == reflect.Struct {
			n := dumpStruct(v.Elem())
			n.Real = v
			return n
		}
		v = v.Elem()
	}
	if !v.IsValid() {
		return nil
	}
	if v.Kind() == reflect.Struct {
		n := dumpStruct(v)
		if v.CanAddr() {
			n.Real = v.Addr()
		}
		return n
	}
	return nil
}

func dumpStruct(v reflect.Value) *Node {
	t := v.Type()
	n := newNode(t.Name())
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		if f.PkgPath != "" {
			continue
		}
		fv := v.Field(i)
		if f.Type == posType {
			if (t.Name() == "IntervalExpr" && f.Name == "IntervalPos" || t.Name() == "DictionaryArgExpr" && f.Name == "LParenPos") && fv.Int() != 0 {
				n.add(f.Name, Val{S: "set"})
			}
			continue
		}
		dumpField(n, f.Name, fv)
	}
	return n
}

func dumpField(n *Node, name string, fv reflect.Value) {
	switch fv.Kind() {
	case reflect.Slice, reflect.Array:
		for j := 0; j < fv.Len(); j++ {
			e := fv.Index(j)
			if d := dumpValue(e); d != nil {
				n.add(name, Val{Node: d})
			} else if e.Kind() == reflect.String {
				n.add(name, Val{S: e.String()})
			} else {
				n.add(name, Val{S: "<nil>"})
			}
		}
	case reflect.Ptr, reflect.Interface, reflect.Struct:
		if d := dumpValue(fv); d != nil {
			n.add(name, Val{Node: d})
		}
	case reflect.String:
		if fv.String() != "" {
			n.add(name, Val{S: fv.String()})
		}
	default:
		if !fv.IsZero() {
			n.add(name, Val{S: fmt.Sprint(fv.Interface())})
		}
	}
}

// children lists the child nodes of a generic node in field order.
func (n *Node) children() []*Node {
	var out []*Node
	for _, f := range n.Names {
		for _, v := range n.Vals[f] {
			if v.Node != nil {
				out = append(out, v.Node)
			}
		}
	}
	return out
}

// diff describes the first difference between two trees, or "".
func diff(want, got *Node, path string) string {
	if want == nil || got == nil {
		if want == got {
			return ""
		}
		return fmt.Sprintf("%s: want %s, got %s", path, short(want), short(got))
	}
	if want.Type != got.Type {
		return fmt.Sprintf("%s: want a %s, got a %s", path, want.Type, got.Type)
	}
	seen := map[string]bool{}
	for _, f := range append(append([]string(nil), want.Names...), got.Names...) {
		if seen[f] {
			continue
		}
		seen[f] = true
		a, b := want.Vals[f], got.Vals[f]
		if len(a) != len(b) {
			return fmt.Sprintf("%s.%s: want %s, got %s", path+"/"+want.Type, f, shortVals(a), shortVals(b))
		}
		for i := range a {
			p := fmt.Sprintf("%s/%s.%s[%d]", path, want.Type, f, i)
			if (a[i].Node == nil) != (b[i].Node == nil) {
				return fmt.Sprintf("%s: want %s, got %s", p, shortVals(a[i:i+1]), shortVals(b[i:i+1]))
			}
			if a[i].Node != nil {
				if d := diff(a[i].Node, b[i].Node, p); d != "" {
					return d
				}
			} else if a[i].S != b[i].S {
				return fmt.Sprintf("%s: want %q, got %q", p, a[i].S, b[i].S)
			}
		}
	}
	return ""
}

func short(n *Node) string {
	if n == nil {
		return "nothing"
	}
	s := n.String()
	if len(s) > 160 {
		s = s[:160] + "..."
	}
	return s
}

func shortVals(vs []Val) string {
	if len(vs) == 0 {
		return "nothing"
	}
	var p []string
	for _, v := range vs {
		if v.Node != nil {
			p = append(p, short(v.Node))
		} else {
			p = append(p, fmt.Sprintf("%q", v.S))
		}
	}
	return "[" + strings.Join(p, ", ") + "]"
}
