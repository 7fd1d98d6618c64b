package main

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"
)

// inst writes out one text a shape stands for, with placeholders for the
// inputs, under one choice for the conditions. Checks read the text's syntax
// and map the placeholders back to the inputs.
type inst struct {
	assign map[string]bool
	ids    map[string]string // input path -> placeholder
	paths  map[string]string // placeholder -> input path
	err    string
	n      int // elements per list
}

type sub struct{ from, to string }

type item struct {
	x  *shp
	su []sub
}

func newInst(assign map[string]bool) *inst {
	return &inst{assign: assign, ids: map[string]string{}, paths: map[string]string{}, n: 2}
}

func (in *inst) fail(f string, a ...interface{}) {
	if in.err == "" {
		in.err = fmt.Sprintf(f, a...)
		if len(in.err) > 300 {
			in.err = in.err[:300] + "..."
		}
	}
}

func concrete(p string, su []sub) string {
	for _, s := range su {
		p = strings.ReplaceAll(p, s.from, s.to)
	}
	return p
}

func (in *inst) place(path string, t types.Type) string {
	if id, ok := in.ids[path]; ok {
		return id
	}
	id := "x" + strconv.Itoa(len(in.ids))
	if t != nil {
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			id = strconv.Itoa(70001 + len(in.ids))
		}
	}
	in.ids[path] = id
	in.paths[id] = path
	return id
}

func (in *inst) holds(d [][]gatom) bool {
	for _, c := range d {
		ok := true
		for _, a := range c {
			if in.is(a.key) != a.pol {
				ok = false
			}
		}
		if ok {
			return true
		}
	}
	return false
}

// is: the truth of a condition.
func (in *inst) is(key string) bool {
	x := composed[key]
	if x == nil {
		return in.assign[key]
	}
	if x.k == sMap {
		return len(in.list(x, nil)) == 0
	}
	return in.text(x, nil) == ""
}

// pick chooses the alternative that applies; nil when this combination of
// conditions cannot be.
func (in *inst) pick(x *shp) *shp {
	var r *shp
	for _, a := range x.alts {
		if in.holds(a.dnf) {
			if r != nil && r != a.v && r.String() != a.v.String() {
				in.fail("!two alternatives")
				return nil
			}
			r = a.v
		}
	}
	if r == nil {
		in.fail("!no alternative")
	}
	return r
}

func (in *inst) text(x *shp, su []sub) string {
	if in.err != "" {
		return ""
	}
	switch x.k {
	case sLit, sConst:
		return x.s
	case sNil:
		return "nil"
	case sHole:
		return in.place(concrete(x.s, su), x.typ)
	case sBin, sLen:
		return in.place(concrete(x.String(), su), x.typ)
	case sCat:
		var sb strings.Builder
		for _, y := range x.sub {
			sb.WriteString(in.text(y, su))
		}
		return sb.String()
	case sAlt:
		y := in.pick(x)
		if y == nil {
			return ""
		}
		return in.text(y, su)
	case sQuote:
		return strconv.Quote(in.text(x.sub[0], su))
	case sJoin:
		var l []string
		for _, i := range in.list(x.sub[0], su) {
			l = append(l, in.text(i.x, i.su))
		}
		return strings.Join(l, x.s)
	case sStmts:
		var sb strings.Builder
		last := ""
		for _, i := range in.list(x.sub[0], su) {
			t := in.text(i.x, i.su)
			if t == "" {
				continue
			}
			if last != "" && !strings.HasSuffix(last, ";") && !strings.HasSuffix(last, "\n") {
				sb.WriteString(";")
			}
			last = t
			sb.WriteString(t)
		}
		return sb.String()
	}
	in.fail("undecided text %s", x)
	return ""
}

// list gives the elements of a list shape.
func (in *inst) list(x *shp, su []sub) []item {
	if in.err != "" {
		return nil
	}
	switch x.k {
	case sNil:
		return nil
	case sList:
		var l []item
		for _, y := range x.sub {
			l = append(l, item{y, su})
		}
		return l
	case sPlus:
		var l []item
		for _, y := range x.sub {
			l = append(l, in.list(y, su)...)
		}
		return l
	case sAlt:
		y := in.pick(x)
		if y == nil {
			return nil
		}
		return in.list(y, su)
	case sMap:
		if x.bad != "" {
			in.fail("a list is built from %s: %s", x.sub[0], x.bad)
			return nil
		}
		if !simpleList(x.sub[0]) {
			var l []item
			mark := elemMark(x.sub[0])
			for _, e := range in.list(x.sub[0], su) {
				b := in.bind(x.sub[1], mark, e)
				if b == nil {
					return nil
				}
				l = append(l, in.list(b, e.su)...)
			}
			return l
		}
		root := in.root(x.sub[0])
		if root == nil {
			return nil
		}
		var l []item
		for j := 0; j < in.count(root, su); j++ {
			r := concrete(root.s, su)
			s2 := append(append([]sub(nil), su...), sub{r + "[*]", fmt.Sprintf("%s[%d]", r, j)})
			l = append(l, in.list(x.sub[1], s2)...)
		}
		return l
	case sHole:
		var l []item
		for j := 0; j < in.count(x, su); j++ {
			l = append(l, item{hole(fmt.Sprintf("%s[%d]", concrete(x.s, su), j), nil), su})
		}
		return l
	}
	in.fail("undecided list %s", x)
	return nil
}

// bind puts an element of a list in the place of its mark.
func (in *inst) bind(x *shp, mark string, e item) *shp {
	memo := map[*shp]*shp{}
	var walk func(x *shp) *shp
	walk = func(x *shp) *shp {
		if x == nil {
			return nil
		}
		if y, ok := memo[x]; ok {
			return y
		}
		if x.k == sHole && strings.HasPrefix(x.s, mark) {
			y := e.x
			rest := x.s[len(mark):]
			if y.k == sHole {
				return hole(y.s+rest, x.typ)
			}
			for rest != "" {
				rest = strings.TrimPrefix(rest, ".")
				n := rest
				if i := strings.IndexAny(n, ".["); i >= 0 {
					n = n[:i]
				}
				rest = rest[len(n):]
				for y.k == sAlt {
					if y = in.pick(y); y == nil {
						return bad("element")
					}
				}
				if y.k == sHole {
					y = hole(y.s+"."+n, x.typ)
					continue
				}
				f := y.flds[n]
				if y.k != sStruct || f == nil || strings.HasPrefix(rest, "[") {
					in.fail("field %s of %s", n, y)
					return bad("element")
				}
				y = f
			}
			return y
		}
		y := *x
		y.mark = ""
		memo[x] = &y
		y.sub, y.alts, y.flds = nil, nil, nil
		for _, z := range x.sub {
			y.sub = append(y.sub, walk(z))
		}
		for _, a := range x.alts {
			d := a.dnf
			if strings.Contains(dnfString(d), mark) {
				d = nil
				for _, c := range a.dnf {
					var n []gatom
					for _, g := range c {
						if strings.Contains(g.key, mark) {
							if e.x.k != sHole {
								// an element put together here is there
								if g.key == "nil:"+mark && e.x.k == sStruct {
									if g.pol {
										n = nil
										break
									}
									continue
								}
								in.fail("a condition on an element of a built list: %s", g.key)
							}
							g.key = strings.ReplaceAll(g.key, mark, e.x.s)
						}
						n = append(n, g)
					}
					if len(n) > 0 {
						d = append(d, n)
					}
				}
				if len(d) == 0 {
					in.fail("conditions on an element of a built list: %s", dnfString(a.dnf))
				}
			}
			y.alts = append(y.alts, galt{d, walk(a.v)})
		}
		if x.flds != nil {
			y.flds = map[string]*shp{}
			for k, z := range x.flds {
				y.flds[k] = walk(z)
			}
		}
		return &y
	}
	return walk(x)
}

func (in *inst) count(root *shp, su []sub) int {
	if root.k == sList {
		return 0
	}
	if in.assign["empty:"+root.s] || in.assign["nil:"+root.s] {
		return 0
	}
	return in.n
}

// root: the input list a list has one element for each element of.
func (in *inst) root(x *shp) *shp {
	switch x.k {
	case sHole:
		return x
	case sMap:
		if x.sub[1].k == sList && len(x.sub[1].sub) == 1 && x.bad == "" {
			return in.root(x.sub[0])
		}
	case sAlt:
		if y := in.pick(x); y != nil {
			return in.root(y)
		}
		return nil
	case sList:
		if len(x.sub) == 0 {
			return x
		}
	}
	in.fail("a list is built from %s", x)
	return nil
}

// atomsOf collects the conditions a shape depends on.
func atomsOf(xs ...*shp) []string {
	set := map[string]bool{}
	seen := map[*shp]bool{}
	var walk func(x *shp)
	walk = func(x *shp) {
		if x == nil || seen[x] {
			return
		}
		seen[x] = true
		if x.k == sLen {
			return // instantiated as a number
		}
		for _, y := range x.sub {
			walk(y)
		}
		for _, f := range x.flds {
			walk(f)
		}
		for _, a := range x.alts {
			for _, c := range a.dnf {
				for _, g := range c {
					if x := composed[g.key]; x != nil {
						walk(x)
						continue
					}
					set[g.key] = true
				}
			}
			walk(a.v)
		}
		if x.k == sMap && x.sub[0].k == sHole {
			set["empty:"+x.sub[0].s] = true
		}
	}
	for _, x := range xs {
		walk(x)
	}
	var l []string
	for k := range set {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

// eachCase calls f for every combination of the conditions the shapes depend
// on; f reports whether the combination can be (else it is not counted).
func eachCase(max int, xs []*shp, extra []string, f func(assign map[string]bool)) error {
	keys := atomsOf(xs...)
	have := map[string]bool{}
	for _, k := range keys {
		have[k] = true
	}
	for _, k := range extra {
		if !have[k] {
			keys = append(keys, k)
		}
	}
	if len(keys) > max {
		return fmt.Errorf("too many conditions (%d): %.200s", len(keys), strings.Join(keys, " ; "))
	}
	for m := 0; m < 1<<uint(len(keys)); m++ {
		a := map[string]bool{}
		for i, k := range keys {
			a[k] = m>>uint(i)&1 == 1
		}
		if contradictory(a) {
			continue
		}
		f(a)
	}
	return nil
}

// contradictory: conditions on the same thing that exclude each other.
func contradictory(a map[string]bool) bool {
	eq := map[string]int{}
	for k, v := range a {
		if !v {
			continue
		}
		if strings.HasPrefix(k, "eq:") {
			if i := strings.LastIndex(k, "=="); i > 0 && (strings.HasPrefix(k[i+2:], "\"") || isDigits(k[i+2:])) {
				eq[k[3:i]]++
				if eq[k[3:i]] > 1 {
					return true
				}
			}
		}
		if strings.HasPrefix(k, "empty:") {
			eq[k[6:]]++
			if eq[k[6:]] > 1 {
				return true
			}
		}
	}
	return false
}

func isDigits(s string) bool {
	for _, c := range s {
		if c < '0' || c > '9' {
			return false
		}
	}
	return s != ""
}
