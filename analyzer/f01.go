package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Copying a directory: everything that is not asked to be left out arrives,
// or the caller is told; nothing is removed that the caller did not name.

const copyPath = "github.com/xhd2015/xgo/support/filecopy"

func runF01(c *Ctx) {
	c.Rule("walk", "every directory, link and regular file found is made at the corresponding place, unless the filter left it out")
	c.Rule("filter", "the filter leaves out only what the options name")
	c.Rule("pool", "every file handed to the copying workers is copied or its error is kept, no worker is left behind, and the call returns only after all have ended and their errors were looked at")
	c.Rule("bytes", "a file copy opens the source, truncates the destination and copies all of the one into the other")
	c.Rule("remove", "only a copy that replaces removes anything, and never the root of a file system")
	c.Rule("shared", "the workers share no buffer and write no variable of another goroutine")
	p := c.Root()
	sp := p.pkg(copyPath)
	if sp == nil {
		c.Viol("walk", copyPath, "package", "the package is gone")
		return
	}
	var fns []*ssa.Function
	for _, f := range p.FuncsIn(func(path string) bool { return path == copyPath }) {
		fns = append(fns, f)
	}
	for _, f := range fns {
		eachInstr(f, func(ins ssa.Instruction) {
			call, ok := isCallTo(ins, "path/filepath.WalkDir", "path/filepath.Walk")
			if !ok {
				return
			}
			cbs := p.FuncValues(call.Common().Args[1])
			if len(cbs) == 0 {
				c.Viol("walk", c.Pos(p, ins.Pos()), shortFn(f)+" callback", "the function called for each entry cannot be determined")
			}
			for _, cb := range cbs {
				f01Walk(c, p, call, cb)
			}
		})
		f01Link(c, p, f)
		f01Pool(c, p, f)
		f01Bytes(c, p, f)
		f01Remove(c, p, f)
	}
	c.Floor("walk", 4)
	c.Floor("bytes", 1)
	c.Floor("remove", 1)
	f01Filter(c, p, fns)
}

// dirTest: a call of DirEntry/FileInfo.IsDir.
func dirTest(v ssa.Value) bool {
	call, ok := v.(*ssa.Call)
	return ok && call.Common().IsInvoke() && call.Common().Method.Name() == "IsDir"
}

// boolSource: v, through copies, satisfies m in every case.
func boolSource(p *Prog, v ssa.Value, m func(ssa.Value) bool) bool {
	os := p.Origins(v, originOpts{keep: m})
	if len(os) == 0 {
		return false
	}
	for _, o := range os {
		if !m(o.Val) {
			return false
		}
	}
	return true
}

func filterCall(v ssa.Value) bool {
	call, ok := v.(*ssa.Call)
	if !ok || call.Common().IsInvoke() {
		return false
	}
	return fieldNamed(call.Common().Value, "filterSubPath")
}

func f01Walk(c *Ctx, p *Prog, walk ssa.CallInstruction, cb *ssa.Function) {
	name := shortFn(cb)
	if len(cb.Params) < 3 || len(cb.Blocks) == 0 {
		return
	}
	path := cb.Params[0]
	filtered := func(cond ssa.Value, pol bool) bool {
		return !pol && filterCall(cond)
	}
	isDir := func(cond ssa.Value, pol bool) bool { return pol && boolSource(p, cond, dirTest) }
	irregular := func(cond ssa.Value, pol bool) bool {
		call, ok := cond.(*ssa.Call)
		return ok && !pol && calleeName(call) == "(io/fs.FileMode).IsRegular"
	}
	notLink := func(cond ssa.Value, pol bool) bool {
		x, op, k, ok := normCompare(cond, pol)
		if !ok || k != 0 || op != token.EQL {
			return false
		}
		b, ok := x.(*ssa.BinOp)
		if !ok || b.Op != token.AND {
			return false
		}
		for _, v := range []ssa.Value{b.X, b.Y} {
			if m, ok := constInt(v); ok && m == 1<<27 { // fs.ModeSymlink
				return true
			}
		}
		return false
	}
	// act: a call making the entry
	makes := func(v ssa.Value) (string, bool) {
		call, ok := v.(*ssa.Call)
		if !ok {
			return "", false
		}
		switch n := calleeName(call); n {
		case "os.MkdirAll", "os.Mkdir", "os.Symlink", "os.Link":
			return n, true
		}
		if _, ok := call.Common().Value.(*ssa.FreeVar); ok {
			return "handler", true
		}
		if u, ok := call.Common().Value.(*ssa.UnOp); ok {
			if _, ok := u.X.(*ssa.FreeVar); ok {
				return "handler", true
			}
		}
		return "", false
	}
	var acts []ssa.Instruction
	eachInstr(cb, func(ins ssa.Instruction) {
		if v, ok := ins.(ssa.Value); ok {
			if _, ok := makes(v); ok {
				acts = append(acts, ins)
			}
		}
	})
	isAct := func(i ssa.Instruction) bool {
		for _, a := range acts {
			if a == i {
				return true
			}
		}
		return false
	}
	// what is returned without an act
	type ret struct {
		v   ssa.Value
		at  ssa.Instruction
		blk *ssa.BasicBlock
	}
	var rets []ret
	for _, r := range returnsOf(cb) {
		v := r.Results[0]
		if ph, ok := v.(*ssa.Phi); ok && ph.Block() == r.Block() {
			for i, e := range ph.Edges {
				rets = append(rets, ret{e, r, ph.Block().Preds[i]})
			}
			continue
		}
		rets = append(rets, ret{v, r, r.Block()})
	}
	guarded := func(r ret, m atomMatch) bool { return p.blockGuarded(r.blk, m, 0) }
	okNil := func(cond ssa.Value, pol bool) bool {
		v, isnil, ok := nilTest(cond, pol)
		if !ok || !isnil {
			return false
		}
		_, act := makes(v)
		return act
	}
	for _, r := range rets {
		c.Obl("walk", name+" leaves")
		where := c.Pos(p, r.at.Pos())
		if isNilConst(r.v) {
			if guarded(r, okNil) || guarded(r, filtered) && !guarded(r, isDir) || guarded(r, irregular) && guarded(r, notLink) {
				continue
			}
			c.Viol("walk", where, name+" skips", "an entry can be passed over in silence: it is neither left out by the filter, nor something other than a directory, link or regular file")
			continue
		}
		if u, ok := r.v.(*ssa.UnOp); ok {
			if g, ok := u.X.(*ssa.Global); ok && (g.Name() == "SkipDir" || g.Name() == "SkipAll") {
				if g.Name() == "SkipAll" || !guarded(r, filtered) || !guarded(r, isDir) {
					c.Viol("walk", where, name+" "+g.Name(), "a part of the tree is passed over that the filter did not leave out")
				}
			}
		}
	}
	// each act makes the entry at its own place
	root := walk.Common().Args[0]
	for _, a := range acts {
		v := a.(ssa.Value)
		kind, _ := makes(v)
		args := v.(*ssa.Call).Common().Args
		where := c.Pos(p, a.Pos())
		c.Obl("walk", name+" "+kind)
		dst := args[0]
		if kind == "os.Symlink" || kind == "os.Link" || kind == "handler" {
			if len(args) < 2 {
				continue
			}
			dst = args[1]
		}
		src := func(v ssa.Value) bool { return v == ssa.Value(path) }
		switch kind {
		case "handler":
			if !src(args[0]) {
				c.Viol("walk", where, name+" source", "the file handed on is not the one found")
			}
		case "os.Symlink":
			good := src(args[0])
			if e, ok := args[0].(*ssa.Extract); ok {
				if rl, ok := e.Tuple.(*ssa.Call); ok && calleeName(rl) == "os.Readlink" {
					good = src(rl.Common().Args[0])
				}
			}
			if !good {
				c.Viol("walk", where, name+" link", "the link made points elsewhere than the one found")
			}
			if irr := guardedIns(p, a, irregular); !irr && !pathOnlyLink(p, walk) {
				c.Viol("walk", where, name+" link of", "a link is made for something that was a regular file")
			}
		case "os.MkdirAll", "os.Mkdir":
			if !guardedIns(p, a, isDir) && !guardedIns(p, a, func(cond ssa.Value, pol bool) bool {
				b, ok := cond.(*ssa.BinOp)
				return ok && (b.Op == token.EQL) == pol && (b.Op == token.EQL || b.Op == token.NEQ) && (b.X == ssa.Value(path) || b.Y == ssa.Value(path))
			}) {
				c.Viol("walk", where, name+" mkdir", "a directory is made for something else")
			}
		}
		if why := targetOf(p, dst, path, root); why != "" {
			c.Viol("walk", where, name+" "+kind+" place", "%s", why)
		}
	}
	_ = isAct
}

func guardedIns(p *Prog, ins ssa.Instruction, m atomMatch) bool {
	return p.blockGuarded(ins.Block(), m, 0)
}

// pathOnlyLink: the walk makes links to all files (LinkFiles).
func pathOnlyLink(p *Prog, walk ssa.CallInstruction) bool {
	for _, o := range p.Origins(walk.Common().Args[0], originOpts{noCalls: true, noParams: true}) {
		v := o.Val
		if e, ok := v.(*ssa.Extract); ok {
			v = e.Tuple
		}
		if call, ok := v.(*ssa.Call); ok && calleeName(call) == "path/filepath.Abs" {
			return true
		}
	}
	return false
}

// targetOf: the place is the target directory itself, or it joined with the
// entry's path below the root of the walk.
func targetOf(p *Prog, dst ssa.Value, path *ssa.Parameter, root ssa.Value) string {
	call, ok := dst.(*ssa.Call)
	if !ok {
		if rootLevel(p, dst) {
			return ""
		}
		return "the place is neither the target directory nor below it"
	}
	if calleeName(call) != "path/filepath.Join" {
		return "the place is not joined from the target directory and the entry's path"
	}
	args := variadicArgs(call.Common().Args[0])
	if len(args) != 2 || !rootLevel(p, args[0]) {
		return "the place is not below the target directory"
	}
	// the second: path cut after the root
	var rel func(v ssa.Value, d int) bool
	rel = func(v ssa.Value, d int) bool {
		if d > 4 {
			return false
		}
		switch x := v.(type) {
		case *ssa.Phi:
			for _, e := range x.Edges {
				if !rel(e, d+1) {
					return false
				}
			}
			return true
		case *ssa.Slice:
			if x.High != nil || x.Low == nil {
				return false
			}
			if x.X == ssa.Value(path) {
				return rootLen(p, x.Low, root, 0)
			}
			// the separator taken off
			k, ok := constInt(x.Low)
			return ok && k <= 1 && rel(x.X, d+1)
		case *ssa.Call:
			if n := calleeName(x); n == "strings.TrimPrefix" {
				return rel(x.Common().Args[0], d+1) || x.Common().Args[0] == ssa.Value(path)
			}
		case *ssa.Extract:
			if k, ok := x.Tuple.(*ssa.Call); ok && calleeName(k) == "path/filepath.Rel" {
				return k.Common().Args[1] == ssa.Value(path)
			}
		}
		return false
	}
	if !rel(args[1], 0) {
		return "the place does not follow from the entry's path below the root"
	}
	return ""
}

// rootLevel: a captured directory of the enclosing function.
func rootLevel(p *Prog, v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.FreeVar, *ssa.Parameter:
		return true
	case *ssa.UnOp:
		_, ok := x.X.(*ssa.FreeVar)
		return ok && x.Op == token.MUL
	}
	return false
}

// rootLen: the length of the walk's root, at most one separator more.
func rootLen(p *Prog, v, root ssa.Value, d int) bool {
	if d > 6 {
		return false
	}
	for _, o := range p.Origins(v, originOpts{noCalls: true, noParams: true}) {
		switch x := o.Val.(type) {
		case *ssa.BinOp:
			if x.Op != token.ADD {
				return false
			}
			a, b := x.X, x.Y
			if k, ok := constInt(b); !ok || k != 1 {
				return false
			}
			if !rootLen(p, a, root, d+1) {
				return false
			}
		case *ssa.Call:
			if lenArg(x) == nil {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// f01Link: the directory a link names is looked for beside the link.
func f01Link(c *Ctx, p *Prog, f *ssa.Function) {
	eachInstr(f, func(ins ssa.Instruction) {
		call, ok := ins.(*ssa.Call)
		if !ok || calleeName(call) != "os.Readlink" || f.Parent() != nil {
			return
		}
		where := c.Pos(p, ins.Pos())
		link := call.Common().Args[0]
		from := func(v ssa.Value) bool {
			for _, o := range p.Origins(v, originOpts{noParams: true, noCalls: true}) {
				if e, ok := o.Val.(*ssa.Extract); ok && e.Tuple == ssa.Value(call) {
					return true
				}
			}
			return false
		}
		walked := false
		eachInstr(f, func(i ssa.Instruction) {
			if _, ok := isCallTo(i, "path/filepath.WalkDir", "path/filepath.Walk"); ok {
				walked = true
			}
		})
		if !walked {
			return
		}
		c.Obl("walk", shortFn(f)+" follows")
		joined := false
		eachInstr(f, func(i ssa.Instruction) {
			j, ok := i.(*ssa.Call)
			if !ok || calleeName(j) != "path/filepath.Join" {
				return
			}
			args := variadicArgs(j.Common().Args[0])
			if len(args) < 2 || !from(args[1]) {
				return
			}
			d, ok := args[0].(*ssa.Call)
			if !ok || calleeName(d) != "path/filepath.Dir" || d.Common().Args[0] != link {
				c.Viol("walk", c.Pos(p, i.Pos()), shortFn(f)+" link base", "a relative link is not resolved beside the link")
			}
			joined = p.Guarded(i, func(cond ssa.Value, pol bool) bool {
				k, ok := cond.(*ssa.Call)
				return ok && !pol && calleeName(k) == "path/filepath.IsAbs" && from(k.Common().Args[0])
			})
		})
		if !joined {
			c.Viol("walk", where, shortFn(f)+" relative", "a relative link is not resolved beside the link")
		}
	})
}

// f01Filter: when the filter says no.
func f01Filter(c *Ctx, p *Prog, fns []*ssa.Function) {
	n := 0
	for _, f := range fns {
		if len(f.Params) < 2 || f.Signature.Results().Len() != 1 || !isBoolT(f.Signature.Results().At(0).Type()) {
			continue
		}
		used := false
		for _, g := range fns {
			eachInstr(g, func(ins ssa.Instruction) {
				st, ok := ins.(*ssa.Store)
				if !ok {
					return
				}
				if fa, ok := st.Addr.(*ssa.FieldAddr); ok && fieldVar(fa.X.Type(), fa.Field).Name() == "filterSubPath" {
					for _, t := range p.FuncValues(st.Val) {
						used = used || t == f
					}
				}
			})
		}
		if !used {
			continue
		}
		n++
		sub, dir := f.Params[len(f.Params)-2], f.Params[len(f.Params)-1]
		elemOf := func(v ssa.Value, field string) bool {
			ia := unloadElem(v)
			return ia != nil && fieldNamed(ia.X, field)
		}
		named := func(cond ssa.Value, pol bool) bool {
			b, ok := cond.(*ssa.BinOp)
			if !ok || (b.Op != token.EQL && b.Op != token.NEQ) || (b.Op == token.EQL) != pol {
				return false
			}
			return b.X == ssa.Value(sub) && elemOf(b.Y, "ignoreSubPaths") || b.Y == ssa.Value(sub) && elemOf(b.X, "ignoreSubPaths")
		}
		suffix := func(field string) atomMatch {
			return func(cond ssa.Value, pol bool) bool {
				call, ok := cond.(*ssa.Call)
				return ok && pol && calleeName(call) == "strings.HasSuffix" && call.Common().Args[0] == ssa.Value(sub) && elemOf(call.Common().Args[1], field)
			}
		}
		file := func(cond ssa.Value, pol bool) bool { return cond == ssa.Value(dir) && !pol }
		some := func(cond ssa.Value, pol bool) bool {
			l, op, k, ok := lenCompare(cond, pol)
			return ok && fieldNamed(l, "includeSuffix") && impliesNonEmpty(op, k)
		}
		ignored := suffix("ignoreSuffix")
		included := suffix("includeSuffix")
		for _, r := range returnsOf(f) {
			c.Obl("filter", shortFn(f)+" returns")
			where := c.Pos(p, r.Pos())
			k, isK := constBool(r.Results[0])
			// what is known where the answer is pol
			known := func(m atomMatch, pol bool) bool {
				return p.blockGuarded(r.Block(), m, 0) || !isK && p.implies(r.Results[0], pol, m, 0)
			}
			if !isK || k {
				// nothing that is named gets through
				if known(named, true) || known(ignored, true) {
					c.Viol("filter", where, "kept", "something the options leave out is copied")
				}
			}
			if isK && k {
				continue
			}
			if known(named, false) {
				continue
			}
			if !known(file, false) {
				c.Viol("filter", where, "directory", "a directory can be left out without being named")
				continue
			}
			if known(ignored, false) {
				continue
			}
			if known(some, false) && !known(included, false) {
				continue
			}
			c.Viol("filter", where, "file", "a file can be left out although no option leaves it out")
		}
		// every option is asked, every value of it
		for _, t := range []struct {
			field string
			m     atomMatch
		}{{"ignoreSubPaths", named}, {"ignoreSuffix", ignored}, {"includeSuffix", included}} {
			c.Obl("filter", t.field)
			good, why := false, "it is never asked"
			eachInstr(f, func(ins ssa.Instruction) {
				v, ok := ins.(ssa.Value)
				if !ok || !t.m(v, true) && !t.m(v, false) {
					return
				}
				var ia *ssa.IndexAddr
				switch x := v.(type) {
				case *ssa.Call:
					ia = unloadElem(x.Common().Args[1])
				case *ssa.BinOp:
					if ia = unloadElem(x.X); ia == nil {
						ia = unloadElem(x.Y)
					}
				}
				if ia == nil {
					return
				}
				if ok, _ := loopWhole(p, ia.Index, func(b *ssa.BasicBlock, i int) bool {
					iff, ok := lastIf(b)
					return ok && p.implies(iff.Cond, i == 0, t.m, 0)
				}); !ok {
					why = "not all of its values are"
					return
				}
				good = true
			})
			if !good {
				c.Viol("filter", c.Pos(p, f.Pos()), t.field, "the option %s is not heeded: %s", t.field, why)
			}
		}
	}
	if n == 0 {
		c.Note("no filter is set")
	}
	c.Floor("filter", 1)
}

// f01Pool: the workers started by f.
func f01Pool(c *Ctx, p *Prog, f *ssa.Function) {
	var gos []*ssa.Go
	eachInstr(f, func(ins ssa.Instruction) {
		if g, ok := ins.(*ssa.Go); ok {
			gos = append(gos, g)
		}
	})
	for _, g := range gos {
		for _, t := range p.Callees(g) {
			f01Worker(c, p, f, g, t)
		}
	}
}

func f01Worker(c *Ctx, p *Prog, f *ssa.Function, g *ssa.Go, t *ssa.Function) {
	name := shortFn(t)
	isUnit := func(e types.Type) bool {
		if e == nil {
			return false
		}
		st, ok := e.Underlying().(*types.Struct)
		return ok && st.NumFields() >= 2
	}
	copies := func(ins ssa.Instruction) bool {
		call, ok := ins.(*ssa.Call)
		if !ok {
			return false
		}
		for _, h := range p.Callees(call) {
			if fnPkgPath(h) != copyPath {
				continue
			}
			for k := range p.Reach([]*ssa.Function{h}, func(h *ssa.Function) bool { return fnPkgPath(h) != copyPath }) {
				found := false
				if fnPkgPath(k) == copyPath {
					eachInstr(k, func(i ssa.Instruction) {
						if _, ok := isCallTo(i, "io.Copy", "io.CopyBuffer"); ok {
							found = true
						}
					})
				}
				if found {
					return true
				}
			}
		}
		return false
	}
	w := &poolWalk{c: c, p: p, rule: "pool", isUnit: isUnit, bad: map[string]bool{}, settles: copies,
		record: func(*ssa.Store) bool { return false },
		excused: func(cond ssa.Value, pol bool) bool {
			b, ok := cond.(*ssa.BinOp)
			if !ok || (b.Op != token.EQL && b.Op != token.NEQ) || (b.Op == token.EQL) != pol {
				return false
			}
			for _, v := range []ssa.Value{b.X, b.Y} {
				if s, ok := constStr(v); ok && s == "" {
					return true
				}
			}
			return false
		}}
	c.Obl("pool", "worker "+name)
	if out := w.run(t, uIdle); out&uHeld != 0 {
		c.Viol("pool", c.Pos(p, g.Pos()), name+" leaves", "a worker can end without having copied the file it took")
	}
	if w.recvs == 0 {
		c.Viol("pool", c.Pos(p, g.Pos()), name+" takes", "the worker takes no files")
	}
	if ok, why := workersAtLeastOne(p, g); !ok {
		c.Viol("pool", c.Pos(p, g.Pos()), name+" started", "there may be no worker at all (%s)", why)
	}
	c.Obl("shared", name)
	c.Count("functions_reached_from_workers", sharedWrites(c, p, "shared", t, nil))
	// a buffer handed down is the worker's own
	eachInstr(t, func(ins ssa.Instruction) {
		call, ok := ins.(*ssa.Call)
		if !ok {
			return
		}
		for _, a := range call.Common().Args {
			if _, ok := a.Type().Underlying().(*types.Slice); !ok {
				continue
			}
			for _, o := range p.Origins(a, originOpts{noParams: true, keep: func(v ssa.Value) bool { _, ok := v.(*ssa.MakeSlice); return ok }}) {
				if v, ok := o.Val.(ssa.Instruction); ok && v.Parent() != nil && !ownedBy(v.Parent(), t) {
					if _, call := o.Val.(*ssa.Call); call {
						continue
					}
					c.Viol("shared", c.Pos(p, ins.Pos()), name+" buffer", "the workers use one buffer made outside of them")
				}
			}
		}
	})
	// the end of a worker is counted, on every path
	started, ended := false, false
	var group *ssa.Alloc
	eachInstr(f, func(ins ssa.Instruction) {
		if call, a := wgCall(p, ins, "Add"); call != nil {
			if k, ok := constInt(call.Common().Args[1]); ok && k == 1 && loopOf(ins.Block()) == loopOf(g.Block()) && dominatesIns(ins, g) {
				started, group = true, a
			} else if loopOf(ins.Block()) != loopOf(g.Block()) && dominatesIns(ins, g) && boundIs(p, g, call.Common().Args[1]) {
				started, group = true, a
			}
		}
	})
	eachInstr(t, func(ins ssa.Instruction) {
		call, a := wgCall(p, ins, "Done")
		if call == nil || a != group {
			return
		}
		if _, ok := ins.(*ssa.Defer); ok {
			ended = ended || ins.Block() == t.Blocks[0] || alwaysBeforeReturn(t, ins)
		} else if alwaysBeforeReturn(t, ins) && loopOf(ins.Block()) == nil {
			ended = true
		}
	})
	if !started || !ended {
		c.Viol("pool", c.Pos(p, g.Pos()), name+" counted", "a worker's start and end are not both counted, once each, on every path")
	}
	// errors: each worker reports at most once, into room for all of them
	var errChans map[*ssa.MakeChan]bool
	eachInstr(t, func(ins ssa.Instruction) {
		s, ok := ins.(*ssa.Send)
		if !ok || !isErrorType(s.X.Type()) {
			return
		}
		errChans = chanMakes(p, s.Chan)
		c.Obl("pool", name+" reports")
		if mayFollow(ins, ins) {
			c.Viol("pool", c.Pos(p, ins.Pos()), name+" reports", "a worker can report more than one error: there is not room for them and it would block for ever")
		}
		for m := range errChans {
			if !boundIs(p, g, m.Size) && !(loopOf(g.Block()) == nil) {
				if k, ok := constInt(m.Size); !ok || !boundAtMost(p, g, k) {
					c.Viol("pool", c.Pos(p, m.Pos()), name+" room", "there is not room for an error of each worker: one that fails would block for ever")
				}
			}
		}
	})
	// an error ends the copy
	if errChans == nil {
		c.Viol("pool", c.Pos(p, g.Pos()), name+" errors", "the workers report no errors")
	}
	// close and wait
	isWait := func(i ssa.Instruction) bool {
		call, a := wgCall(p, i, "Wait")
		return call != nil && a == group
	}
	isClose := func(i ssa.Instruction) bool {
		call, ok := isBuiltinCall(i, "close")
		return ok && isUnit(chanElem(call.Common().Args[0]))
	}
	c.Obl("pool", "wait")
	if bad := alwaysAfter(g, isWait, isReturn); bad != nil {
		c.Viol("pool", c.Pos(p, bad.Pos()), "wait", "the copy can return while workers are still writing")
	}
	for _, fn := range append([]*ssa.Function{f}, f.AnonFuncs...) {
		eachInstr(fn, func(ins ssa.Instruction) {
			if isWait(ins) {
				c.Obl("pool", "close before wait")
				if _, d := ins.(*ssa.Defer); !d && !alwaysBefore(ins, isClose) {
					c.Viol("pool", c.Pos(p, ins.Pos()), "close", "the workers are waited for before they are told that there are no more files")
				}
			}
			if isClose(ins) {
				if _, d := ins.(*ssa.Defer); d {
					c.Viol("pool", c.Pos(p, ins.Pos()), "close", "the workers are told that there are no more files only after the wait for them")
				}
				if fn == f && !alwaysBefore(ins, func(i ssa.Instruction) bool { return walks(p, i) }) {
					c.Viol("pool", c.Pos(p, ins.Pos()), "close early", "the workers are told that there are no more files before the tree was walked")
				}
			}
			// no path through the producer drops a file
			s, ok := ins.(*ssa.Select)
			if ok && fn != t {
				for i, st := range s.States {
					if st.Dir == types.SendOnly && isUnit(chanElem(st.Chan)) {
						c.Obl("pool", "hand-out")
						if !s.Blocking {
							c.Viol("pool", c.Pos(p, ins.Pos()), "hand-out", "a file is dropped when the workers are busy")
						}
						f01Select(c, p, s, i, fn)
					}
				}
			}
		})
	}
	// the last errors
	c.Obl("pool", "drain")
	drained := false
	eachInstr(f, func(ins ssa.Instruction) {
		var ch ssa.Value
		switch x := ins.(type) {
		case *ssa.Select:
			for _, st := range x.States {
				if st.Dir == types.RecvOnly && !x.Blocking {
					ch = st.Chan
				}
			}
		case *ssa.UnOp:
			if x.Op == token.ARROW {
				ch = x.X
			}
		}
		if ch != nil && sameChan(chanMakes(p, ch), errChans) && alwaysBefore(ins, isWait) {
			drained = true
			// reached, unless there is an error already
			h := ins.Block()
			eachInstr(f, func(r ssa.Instruction) {
				ret, ok := r.(*ssa.Return)
				if !ok || !alwaysBefore(ret, isWait) {
					return
				}
				hasErr := func(cond ssa.Value, pol bool) bool {
					v, isnil, ok := nilTest(cond, pol)
					return ok && !isnil && isErrorType(v.Type())
				}
				if reachRet(p, f, ret, h, hasErr) {
					drained = false
				}
			})
		}
	})
	if !drained {
		c.Viol("pool", c.Pos(p, g.Pos()), "drain", "an error sent after the last file was handed out is not looked at: the copy is reported as complete")
	}
}

// reachRet: after the wait the return can be reached without passing block h
// and without an error being known.
func reachRet(p *Prog, f *ssa.Function, ret *ssa.Return, h *ssa.BasicBlock, hasErr atomMatch) bool {
	var start []*ssa.BasicBlock
	eachInstr(f, func(i ssa.Instruction) {
		if call, _ := wgCall(p, i, "Wait"); call != nil {
			start = append(start, i.Block())
		}
	})
	seen := map[*ssa.BasicBlock]bool{}
	for len(start) > 0 {
		b := start[len(start)-1]
		start = start[:len(start)-1]
		if seen[b] || b == h {
			continue
		}
		seen[b] = true
		if b == ret.Block() {
			return true
		}
		for i, s := range b.Succs {
			if iff, ok := lastIf(b); ok && p.implies(iff.Cond, i == 0, hasErr, 0) {
				continue
			}
			start = append(start, s)
		}
	}
	return false
}

// f01Select: when the file was not taken, the hand-out reports an error.
func f01Select(c *Ctx, p *Prog, s *ssa.Select, send int, fn *ssa.Function) {
	for _, r := range returnsOf(fn) {
		if !dominatesIns(s, r) || len(r.Results) == 0 {
			continue
		}
		v := r.Results[len(r.Results)-1]
		nilAt := func(v ssa.Value, b *ssa.BasicBlock) bool {
			if !isNilConst(v) {
				return false
			}
			// only where the send was the one
			return !p.blockGuarded(b, func(cond ssa.Value, pol bool) bool {
				x, op, k, ok := normCompare(cond, pol)
				if !ok {
					return false
				}
				e, ok := x.(*ssa.Extract)
				return ok && e.Tuple == ssa.Value(s) && e.Index == 0 && (op == token.EQL && k == int64(send) || op == token.NEQ && len(s.States) == 2 && k != int64(send))
			}, 0)
		}
		bad := nilAt(v, r.Block())
		if ph, ok := v.(*ssa.Phi); ok {
			for i, e := range ph.Edges {
				bad = bad || nilAt(e, ph.Block().Preds[i])
			}
		}
		if bad {
			c.Viol("pool", c.Pos(p, r.Pos()), "hand-out lost", "a file that no worker took is reported as handed out")
		}
	}
}

func walks(p *Prog, i ssa.Instruction) bool {
	call, ok := i.(*ssa.Call)
	if !ok {
		return false
	}
	for _, h := range p.Callees(call) {
		found := false
		if fnPkgPath(h) == copyPath {
			eachInstr(h, func(j ssa.Instruction) {
				if _, ok := isCallTo(j, "path/filepath.WalkDir", "path/filepath.Walk"); ok {
					found = true
				}
			})
		}
		if found || calleeName(call) == "path/filepath.WalkDir" {
			return true
		}
	}
	return calleeName(call) == "path/filepath.WalkDir"
}

// alwaysBeforeReturn: every return of t passes ins.
func alwaysBeforeReturn(t *ssa.Function, ins ssa.Instruction) bool {
	for _, r := range returnsOf(t) {
		if r.Block() == t.Recover {
			continue
		}
		if !alwaysBefore(r, func(i ssa.Instruction) bool { return i == ins }) {
			return false
		}
	}
	return true
}

// boundIs: the loop around g runs v times.
func boundIs(p *Prog, g ssa.Instruction, v ssa.Value) bool {
	h := loopOf(g.Block())
	if h == nil {
		return false
	}
	for _, b := range g.Parent().Blocks {
		if !inLoop(b, h) {
			continue
		}
		iff, ok := lastIf(b)
		if !ok || inLoop(b.Succs[0], h) == inLoop(b.Succs[1], h) {
			continue
		}
		op, ok := iff.Cond.(*ssa.BinOp)
		if !ok {
			return false
		}
		x := op.X
		if _, isPhi := op.Y.(*ssa.Phi); !isPhi {
			x = op.Y
		}
		return x == v || sameVal(p, x, v)
	}
	return false
}

func sameVal(p *Prog, a, b ssa.Value) bool {
	la, ok1 := a.(*ssa.UnOp)
	lb, ok2 := b.(*ssa.UnOp)
	if ok1 && ok2 && la.Op == token.MUL && lb.Op == token.MUL {
		if la.X == lb.X {
			return true
		}
		fa, ok1 := la.X.(*ssa.FieldAddr)
		fb, ok2 := lb.X.(*ssa.FieldAddr)
		return ok1 && ok2 && fa.Field == fb.Field && (fa.X == fb.X || sameVal(p, fa.X, fb.X))
	}
	ka, ok1 := a.(*ssa.Const)
	kb, ok2 := b.(*ssa.Const)
	return ok1 && ok2 && ka.Value != nil && kb.Value != nil && ka.Value.Kind() == kb.Value.Kind() && constant.Compare(ka.Value, token.EQL, kb.Value)
}

func boundAtMost(p *Prog, g ssa.Instruction, k int64) bool {
	h := loopOf(g.Block())
	for _, b := range g.Parent().Blocks {
		if !inLoop(b, h) {
			continue
		}
		if iff, ok := lastIf(b); ok {
			if op, ok := iff.Cond.(*ssa.BinOp); ok {
				if n, ok := constInt(op.Y); ok {
					return n <= k
				}
			}
		}
	}
	return false
}

// f01Bytes: the copying of one file.
func f01Bytes(c *Ctx, p *Prog, f *ssa.Function) {
	eachInstr(f, func(ins ssa.Instruction) {
		call, ok := isCallTo(ins, "io.Copy", "io.CopyBuffer", "io.CopyN")
		if !ok {
			return
		}
		c.Obl("bytes", shortFn(f))
		where := c.Pos(p, ins.Pos())
		if calleeName(call) == "io.CopyN" {
			c.Viol("bytes", where, shortFn(f)+" length", "only a part of the source is copied")
			return
		}
		w, why := openedFile(p, call.Common().Args[0])
		r, why2 := openedFile(p, call.Common().Args[1])
		if w == nil || r == nil {
			c.Viol("bytes", where, shortFn(f)+" ends", "the copy is not straight from the source file to the destination: %s%s", why, why2)
			return
		}
		switch calleeName(r) {
		case "os.Open", "os.OpenFile":
		default:
			c.Viol("bytes", where, shortFn(f)+" source", "the source is not opened for reading")
		}
		switch calleeName(w) {
		case "os.Create":
		case "os.OpenFile":
			fl, ok := constInt(w.Common().Args[1])
			const wr, creat, trunc, app, excl = 3, 0x40, 0x200, 0x400, 0x80
			if !ok || fl&wr == 0 || fl&creat == 0 || fl&(trunc|excl) == 0 || fl&app != 0 {
				c.Viol("bytes", where, shortFn(f)+" flags", "the destination is not made anew: what a longer file held before would stay behind")
			}
		default:
			c.Viol("bytes", where, shortFn(f)+" destination", "the destination is not opened for writing")
		}
		src, dst := paramIndex(r.Common().Args[0]), paramIndex(w.Common().Args[0])
		if src < 0 || dst < 0 || src >= dst {
			c.Viol("bytes", where, shortFn(f)+" sides", "the source and destination opened are not the ones given")
		}
		// the callers pass them in the same order
	})
}

func paramIndex(v ssa.Value) int {
	x, ok := v.(*ssa.Parameter)
	if !ok {
		return -1
	}
	for i, q := range x.Parent().Params {
		if q == x {
			return i
		}
	}
	return -1
}

// openedFile: the call that opened the file v is, alone.
func openedFile(p *Prog, v ssa.Value) (*ssa.Call, string) {
	var got *ssa.Call
	why := ""
	seen := map[ssa.Value]bool{}
	var visit func(v ssa.Value)
	visit = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		var call *ssa.Call
		switch x := v.(type) {
		case *ssa.MakeInterface:
			visit(x.X)
			return
		case *ssa.ChangeInterface:
			visit(x.X)
			return
		case *ssa.Phi:
			for _, e := range x.Edges {
				visit(e)
			}
			return
		case *ssa.UnOp:
			// struct{ io.Writer }{f}, or a variable
			if a, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL {
				var vals []ssa.Value
				for _, r := range *a.Referrers() {
					switch y := r.(type) {
					case *ssa.Store:
						if y.Addr == ssa.Value(a) {
							vals = append(vals, y.Val)
						}
					case *ssa.FieldAddr:
						for _, r2 := range *y.Referrers() {
							if st, ok := r2.(*ssa.Store); ok {
								vals = append(vals, st.Val)
							}
						}
					}
				}
				if len(vals) > 0 {
					for _, w := range vals {
						visit(w)
					}
					return
				}
			}
		case *ssa.Extract:
			if k, ok := x.Tuple.(*ssa.Call); ok && x.Index == 0 {
				call = k
			}
		case *ssa.Call:
			call = x
		}
		if call == nil {
			why = fmt.Sprintf("%s is not a file just opened. ", v)
			return
		}
		switch calleeName(call) {
		case "os.Open", "os.OpenFile", "os.Create":
			if got != nil && got != call {
				why = "it may be one of several files. "
			}
			got = call
		default:
			why = calleeName(call) + " stands between. "
		}
	}
	visit(v)
	if why != "" {
		return nil, why
	}
	return got, ""
}

// f01Remove: what is deleted, and when.
func f01Remove(c *Ctx, p *Prog, f *ssa.Function) {
	keeps := func(cond ssa.Value, pol bool) bool { return !pol && fieldNamed(cond, "noRm") }
	eachInstr(f, func(ins ssa.Instruction) {
		if call, ok := isCallTo(ins, "os.RemoveAll", "os.Remove"); ok {
			c.Obl("remove", shortFn(f))
			where := c.Pos(p, ins.Pos())
			if !p.Guarded(ins, keeps) {
				c.Viol("remove", where, shortFn(f)+" guard", "a copy that was to add to a directory removes it first")
			}
			arg := call.Common().Args[0]
			notRoot := func(cond ssa.Value, pol bool) bool {
				b, ok := cond.(*ssa.BinOp)
				if !ok || (b.Op != token.EQL && b.Op != token.NEQ) || (b.Op == token.NEQ) != pol {
					return false
				}
				isDirOf := func(x, y ssa.Value) bool {
					k, ok := x.(*ssa.Call)
					return ok && calleeName(k) == "path/filepath.Dir" && (k.Common().Args[0] == y || sameVal(p, k.Common().Args[0], y)) && (y == arg || sameVal(p, y, arg))
				}
				return isDirOf(b.X, b.Y) || isDirOf(b.Y, b.X)
			}
			if !p.Guarded(ins, notRoot) {
				c.Viol("remove", where, shortFn(f)+" root", "the root of a file system could be removed")
			}
			abs := false
			for _, o := range p.Origins(arg, originOpts{noCalls: true, noParams: true}) {
				v := o.Val
				if e, ok := v.(*ssa.Extract); ok {
					v = e.Tuple
				}
				if k, ok := v.(*ssa.Call); ok && calleeName(k) == "path/filepath.Abs" {
					abs = paramIndex(k.Common().Args[0]) == 1
				} else {
					abs = false
				}
			}
			if !abs {
				c.Viol("remove", where, shortFn(f)+" what", "what is removed is not the target given")
			}
		}
		// the option is set on the caller's behalf, never on the caller's own options
		st, ok := ins.(*ssa.Store)
		if !ok {
			return
		}
		fa, ok := st.Addr.(*ssa.FieldAddr)
		if !ok || fieldVar(fa.X.Type(), fa.Field).Name() != "noRm" {
			return
		}
		c.Obl("remove", shortFn(f)+" option")
		if k, ok := constBool(st.Val); !ok || !k {
			c.Viol("remove", c.Pos(p, st.Pos()), shortFn(f)+" option", "a copy that only adds may remove the target")
		}
		if _, own := fa.X.(*ssa.Alloc); !own {
			bad := false
			for _, o := range p.Origins(fa.X, originOpts{noParams: true, keep: func(v ssa.Value) bool { _, ok := v.(*ssa.Alloc); return ok }}) {
				if _, ok := o.Val.(*ssa.Alloc); !ok {
					bad = true
				}
			}
			if bad {
				c.Viol("remove", c.Pos(p, st.Pos()), shortFn(f)+" shared option", "the options of the caller are changed: a later replacing copy would not replace")
			}
		}
	})
	// the adding copies say so
	if f.Name() == "Copy" && f.Parent() == nil && len(f.Blocks) > 0 {
		c.Obl("remove", shortFn(f)+" adds")
		eachInstr(f, func(ins ssa.Instruction) {
			call, ok := ins.(*ssa.Call)
			if !ok {
				return
			}
			h := call.Common().StaticCallee()
			if h == nil || fnPkgPath(h) != copyPath {
				return
			}
			for _, a := range call.Common().Args {
				if pt, ok := a.Type().(*types.Pointer); !ok || !isNamed(pt.Elem(), copyPath, "Options") {
					continue
				}
				for _, o := range p.Origins(a, originOpts{noParams: true, keep: func(v ssa.Value) bool { _, ok := v.(*ssa.Alloc); return ok }}) {
					al, ok := o.Val.(*ssa.Alloc)
					set := false
					if ok {
						for _, r := range *al.Referrers() {
							if fa, ok := r.(*ssa.FieldAddr); ok && fieldVar(fa.X.Type(), fa.Field).Name() == "noRm" {
								set = true
							}
						}
						// through a variable holding its address
						eachInstr(f, func(i ssa.Instruction) {
							if fa, ok := i.(*ssa.FieldAddr); ok && fieldVar(fa.X.Type(), fa.Field).Name() == "noRm" {
								for _, q := range p.Origins(fa.X, originOpts{noParams: true, keep: func(v ssa.Value) bool { return v == ssa.Value(al) }}) {
									set = set || q.Val == ssa.Value(al)
								}
							}
						})
					}
					if !set {
						c.Viol("remove", c.Pos(p, ins.Pos()), shortFn(f)+" adds", "a copy that only adds does not say so: the target would be removed first")
					}
				}
			}
		})
	}
}

func init() {
	props["F01"] = propDef{run: runF01, assumptions: []string{
		"filepath.WalkDir visits every entry of the tree, parents first; io.Copy copies until the end of the source",
		"errors are followed to the caller by E01; what is checked here is that nothing is passed over and that no worker's error or file is lost",
		"nothing else changes the source tree while it is copied",
	}}
}
