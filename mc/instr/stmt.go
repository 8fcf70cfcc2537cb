package instr

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"strings"
)

func (r *rw) stmt(n ast.Stmt) string {
	switch n := n.(type) {
	case *ast.BlockStmt:
		return r.block(n)
	case *ast.AssignStmt:
		s, post := r.assign(n)
		if post != "" {
			s += "; " + post
		}
		return s
	case *ast.IncDecStmt:
		t, post := r.lhs(n.X, true, false)
		s := t + n.Tok.String()
		if post != "" {
			s += "; " + post
		}
		return s
	case *ast.SendStmt:
		return r.vs("SendTo") + "(" + r.value(n.Chan) + ")(" + r.value(n.Value) + ")"
	case *ast.GoStmt:
		return r.goStmt(n)
	case *ast.SelectStmt:
		return r.selectStmt(n, "")
	case *ast.RangeStmt:
		return r.rangeStmt(n, "")
	case *ast.LabeledStmt:
		lab := n.Label.Name + ": "
		switch s := n.Stmt.(type) {
		case *ast.SelectStmt:
			return r.selectStmt(s, lab)
		case *ast.RangeStmt:
			return r.rangeStmt(s, lab)
		}
		return lab + "\n" + r.stmt(n.Stmt)
	case *ast.ForStmt:
		return r.splice(n, func(c ast.Node) string {
			if c == ast.Node(n.Body) {
				return r.loopBody(n.Body, "")
			}
			if s, ok := c.(ast.Stmt); ok {
				return r.header(s)
			}
			return r.render(c)
		})
	case *ast.IfStmt:
		var post string
		if a, ok := n.Init.(*ast.AssignStmt); ok {
			_, post = r.assign(a)
		}
		return r.splice(n, func(c ast.Node) string {
			switch {
			case n.Init != nil && c == ast.Node(n.Init):
				return r.header(n.Init)
			case c == ast.Node(n.Cond):
				v := r.value(n.Cond)
				if post != "" && strings.HasPrefix(post, "vmcvs.W(") && !strings.Contains(post, ";") {
					return "vmcvs.WT(" + strings.TrimPrefix(post, "vmcvs.W(") + " && bool(" + v + ")"
				}
				return v
			}
			return r.render(c)
		})
	case *ast.SwitchStmt:
		return r.splice(n, func(c ast.Node) string {
			if n.Init != nil && c == ast.Node(n.Init) {
				return r.header(n.Init)
			}
			return r.render(c)
		})
	case *ast.TypeSwitchStmt:
		return r.splice(n, func(c ast.Node) string {
			if n.Init != nil && c == ast.Node(n.Init) {
				return r.header(n.Init)
			}
			if c == ast.Node(n.Assign) {
				switch a := n.Assign.(type) {
				case *ast.AssignStmt:
					return r.text(a.Lhs[0]) + " := " + r.value(a.Rhs[0])
				case *ast.ExprStmt:
					return r.value(a.X)
				}
			}
			return r.render(c)
		})
	case *ast.DeferStmt:
		return "defer " + r.call(n.Call)
	case *ast.ExprStmt:
		if u := recvOf(n.X); u != nil {
			return r.vs("Recv") + "(" + r.value(u.X) + ")"
		}
		return r.value(n.X)
	case *ast.BranchStmt, *ast.EmptyStmt:
		return r.text(n)
	case *ast.DeclStmt:
		return r.splice(n, r.render)
	}
	return r.splice(n, r.render)
}

// header renders a simple statement where no second statement fits.
func (r *rw) header(n ast.Stmt) string {
	switch n := n.(type) {
	case *ast.AssignStmt:
		s, _ := r.assign(n)
		return s
	case *ast.IncDecStmt:
		t, _ := r.lhs(n.X, true, false)
		return t + n.Tok.String()
	}
	return r.stmt(n)
}

func (r *rw) assign(n *ast.AssignStmt) (text, post string) {
	pure := true
	for _, e := range n.Rhs {
		if r.hasCall(e) {
			pure = false
		}
	}
	var rhs []string
	if len(n.Lhs) == 2 && len(n.Rhs) == 1 && recvOf(n.Rhs[0]) != nil {
		rhs = []string{r.vs("Recv2") + "(" + r.value(recvOf(n.Rhs[0]).X) + ")"}
	} else {
		for _, e := range n.Rhs {
			rhs = append(rhs, r.value(e))
		}
	}
	define := n.Tok == token.DEFINE
	var lhs, posts []string
	for _, e := range n.Lhs {
		t, p := r.lhs(e, pure && len(n.Lhs) == 1, define)
		lhs = append(lhs, t)
		if p != "" {
			posts = append(posts, p)
		}
	}
	return strings.Join(lhs, ", ") + " " + n.Tok.String() + " " + strings.Join(rhs, ", "), strings.Join(posts, "; ")
}

func (r *rw) goStmt(n *ast.GoStmt) string {
	c := n.Call
	vsGo := r.vs("Go")
	if f, ok := unparen(c.Fun).(*ast.FuncLit); ok && len(c.Args) == 0 {
		if f.Type.Results == nil || len(f.Type.Results.List) == 0 {
			return vsGo + "(" + r.value(f) + ")"
		}
		return vsGo + "(func() { " + r.value(f) + "() })"
	}
	if tv, ok := r.info.Types[c.Fun]; ok && tv.IsBuiltin() {
		return vsGo + "(func() { " + r.call(c) + " })"
	}
	var names, vals []string
	add := func(prefix, v string) string {
		t := r.tmp(prefix)
		names = append(names, t)
		vals = append(vals, v)
		return t
	}
	fn := ""
	generic := false
	switch f := unparen(c.Fun).(type) {
	case *ast.Ident:
		if _, ok := r.info.Uses[f].(*types.Func); ok {
			fn = r.text(f)
		}
	case *ast.SelectorExpr:
		if s := r.info.Selections[f]; s == nil {
			if _, ok := r.info.Uses[f.Sel].(*types.Func); ok {
				fn = r.text(f)
			}
		}
	case *ast.IndexExpr, *ast.IndexListExpr:
		fn = r.text(f)
	}
	_ = generic
	if fn == "" {
		fn = add("f", r.callee(c.Fun))
	}
	var args []string
	if len(c.Args) == 1 {
		if t, ok := r.typeOf(c.Args[0]).(*types.Tuple); ok {
			// f(g()) with several results
			var tn []string
			for i := 0; i < t.Len(); i++ {
				tn = append(tn, r.tmp("a"))
			}
			s := "{ " + strings.Join(tn, ", ") + " := " + r.value(c.Args[0]) + "; "
			if len(names) > 0 {
				s = "{ " + strings.Join(names, ", ") + " := " + strings.Join(vals, ", ") + "; " + s[2:]
			}
			return s + vsGo + "(func() { " + fn + "(" + strings.Join(tn, ", ") + ") }) }"
		}
	}
	for i, a := range c.Args {
		tv := r.info.Types[a]
		if tv.Value != nil || tv.IsNil() {
			args = append(args, r.text(a))
			continue
		}
		if _, ok := unparen(a).(*ast.FuncLit); ok {
			args = append(args, add("a", r.value(a)))
			continue
		}
		v := add("a", r.value(a))
		if c.Ellipsis.IsValid() && i == len(c.Args)-1 {
			v += "..."
		}
		args = append(args, v)
	}
	s := "{ "
	if len(names) > 0 {
		s += strings.Join(names, ", ") + " := " + strings.Join(vals, ", ") + "; "
	}
	return s + vsGo + "(func() { " + fn + "(" + strings.Join(args, ", ") + ") }) }"
}

func (r *rw) selectStmt(n *ast.SelectStmt, lab string) string {
	if len(n.Body.List) == 0 {
		return lab + "for { " + r.vs("Select") + "(false) }"
	}
	var names, vals []string
	hasDefault := false
	type cl struct {
		c    *ast.CommClause
		name string
		idx  int
	}
	var cls []cl
	for _, s := range n.Body.List {
		c := s.(*ast.CommClause)
		if c.Comm == nil {
			hasDefault = true
			cls = append(cls, cl{c: c, idx: -1})
			continue
		}
		nm := r.tmp("c")
		var v string
		switch s := c.Comm.(type) {
		case *ast.SendStmt:
			v = r.vs("SendCase") + "(" + r.value(s.Chan) + ")(" + r.value(s.Value) + ")"
		case *ast.ExprStmt:
			v = r.vs("RecvCase") + "(" + r.value(recvOf(s.X).X) + ")"
		case *ast.AssignStmt:
			v = r.vs("RecvCase") + "(" + r.value(recvOf(s.Rhs[0]).X) + ")"
		}
		cls = append(cls, cl{c, nm, len(names)})
		names = append(names, nm)
		vals = append(vals, v)
	}
	var b strings.Builder
	b.WriteString(lab)
	b.WriteString("switch ")
	if len(names) > 0 {
		b.WriteString(strings.Join(names, ", ") + " := " + strings.Join(vals, ", ") + "; ")
	}
	fmt.Fprintf(&b, "%s(%v", r.vs("Select"), hasDefault)
	for _, nm := range names {
		b.WriteString(", " + nm)
	}
	b.WriteString(") {")
	pos := r.off(n.Body.Lbrace) + 1
	for i, c := range cls {
		// keep comments and newlines between clauses
		b.Write(onlyNewlines(r.src[pos:r.off(c.c.Pos())]))
		if c.idx < 0 || (!hasDefault && i == len(cls)-1) {
			b.WriteString("default:")
		} else {
			fmt.Fprintf(&b, "case %d:", c.idx)
		}
		if a, ok := c.c.Comm.(*ast.AssignStmt); ok {
			m := "Val"
			if len(a.Lhs) == 2 {
				m = "Val2"
			}
			var lhs, posts []string
			for _, e := range a.Lhs {
				t, p := r.lhs(e, false, a.Tok == token.DEFINE)
				lhs = append(lhs, t)
				if p != "" {
					posts = append(posts, p)
				}
			}
			allBlank := true
			for _, l := range lhs {
				if l != "_" {
					allBlank = false
				}
			}
			if !allBlank {
				fmt.Fprintf(&b, " %s %s %s.%s();", strings.Join(lhs, ", "), a.Tok, c.name, m)
				for _, p := range posts {
					b.WriteString(" " + p + ";")
				}
			}
		}
		cpos := r.off(c.c.Colon) + 1
		for _, s := range c.c.Body {
			b.Write(r.src[cpos:r.off(s.Pos())])
			b.WriteString(r.stmt(s))
			cpos = r.off(s.End())
		}
		pos = r.off(c.c.End())
		if cpos > pos {
			pos = cpos
		}
		b.Write(r.src[cpos:pos])
	}
	b.Write(onlyNewlines(r.src[pos:r.off(n.Body.Rbrace)]))
	b.WriteString("}")
	return b.String()
}

func onlyNewlines(b []byte) []byte {
	var o []byte
	for _, c := range b {
		if c == '\n' {
			o = append(o, c)
		}
	}
	return o
}

func (r *rw) rangeStmt(n *ast.RangeStmt, lab string) string {
	t := r.typeOf(n.X)
	under := t
	if under != nil {
		if _, ok := t.(*types.TypeParam); !ok {
			under = t.Underlying()
		}
	}
	blank := func(e ast.Expr) bool {
		if e == nil {
			return true
		}
		id, ok := e.(*ast.Ident)
		return ok && id.Name == "_"
	}
	define := n.Tok == token.DEFINE
	switch under.(type) {
	case *types.Chan:
		c := r.tmp("c")
		ok := r.tmp("k")
		var b strings.Builder
		fmt.Fprintf(&b, "{ %s := %s; ", c, r.value(n.X))
		pro := ""
		if blank(n.Key) {
			pro = fmt.Sprintf("if _, %s := %s(%s); !%s { break }; ", ok, r.vs("Recv2"), c, ok)
		} else if define && !r.perLoop {
			pro = fmt.Sprintf("%s, %s := %s(%s); if !%s { break }; ", r.text(n.Key), ok, r.vs("Recv2"), c, ok)
		} else {
			v := r.tmp("v")
			if define {
				fmt.Fprintf(&b, "%s := %s(%s); ", r.text(n.Key), r.vs("ZeroC"), c)
			}
			tx, post := r.text(n.Key), ""
			if !define {
				tx, post = r.lhs(n.Key, false, false)
			} else if x, ok := n.Key.(*ast.Ident); ok && r.p.Mem && r.sharedDef(x) {
				post = r.vs("W") + "(&" + x.Name + ", " + r.site(x, x.Name) + ")"
			}
			pro = fmt.Sprintf("%s, %s := %s(%s); if !%s { break }; %s = %s; ", v, ok, r.vs("Recv2"), c, ok, tx, v)
			if post != "" {
				pro += post + "; "
			}
		}
		b.WriteString(lab + "for " + r.loopBody(n.Body, pro) + " }")
		return b.String()
	case *types.Map:
		m := r.tmp("m")
		ok := r.tmp("k")
		var b strings.Builder
		fmt.Fprintf(&b, "{ %s := %s; ", m, r.value(n.X))
		rd := m
		if r.p.Mem {
			rd = r.vs("MapR") + "(" + m + ", " + r.site(n.X, "map "+oneLine(r.text(n.X))) + ")"
		}
		key := r.tmp("k")
		pro := ""
		if !blank(n.Key) && define {
			key = r.text(n.Key)
		}
		val := "_"
		after := ""
		if !blank(n.Key) && !define {
			tx, post := r.lhs(n.Key, true, false)
			after += fmt.Sprintf("%s = %s; ", tx, key)
			if post != "" {
				after += post + "; "
			}
		} else if !blank(n.Key) && r.p.Mem && r.sharedDef(n.Key.(*ast.Ident)) {
			after += r.vs("W") + "(&" + key + ", " + r.site(n.Key, key) + "); "
		}
		if !blank(n.Value) {
			if define && !r.perLoop {
				val = r.text(n.Value)
			} else {
				val = r.tmp("v")
				if define {
					fmt.Fprintf(&b, "%s := %s(%s); ", r.text(n.Value), r.vs("ZeroV"), m)
					after += fmt.Sprintf("%s = %s; ", r.text(n.Value), val)
					if x, ok := n.Value.(*ast.Ident); ok && r.p.Mem && r.sharedDef(x) {
						after += r.vs("W") + "(&" + x.Name + ", " + r.site(x, x.Name) + "); "
					}
				} else {
					tx, post := r.lhs(n.Value, true, false)
					after += fmt.Sprintf("%s = %s; ", tx, val)
					if post != "" {
						after += post + "; "
					}
				}
			}
		}
		pro = fmt.Sprintf("%s, %s := %s[%s]; if !%s { continue }; %s", val, ok, rd, key, ok, after)
		if val == "_" {
			pro = fmt.Sprintf("if _, %s := %s[%s]; !%s { continue }; %s", ok, rd, key, ok, after)
		}
		fmt.Fprintf(&b, "%sfor _, %s := range %s(%s) %s }", lab, key, r.vs("MapKeys"), rd, r.loopBody(n.Body, pro))
		return b.String()
	case *types.Slice:
		if r.p.Mem && !blank(n.Value) && (define || n.Tok == token.ILLEGAL) {
			s := r.tmp("s")
			key := r.tmp("i")
			after := ""
			if !blank(n.Key) {
				key = r.text(n.Key)
				if r.sharedDef(n.Key.(*ast.Ident)) {
					after += r.vs("W") + "(&" + key + ", " + r.site(n.Key, key) + "); "
				}
			}
			if x := n.Value.(*ast.Ident); r.sharedDef(x) {
				after += r.vs("W") + "(&" + x.Name + ", " + r.site(x, x.Name) + "); "
			}
			pro := after
			if el := under.(*types.Slice).Elem(); !skipType(el) {
				pro = fmt.Sprintf("%s(%s, %s, %s); ", r.vs("RdEl"), s, key, r.site(n.X, oneLine(r.text(n.X))+"[...]")) + after
			}
			return fmt.Sprintf("{ %s := %s; %sfor %s, %s := range %s %s }", s, r.value(n.X), lab, key, r.text(n.Value), s, func() string {
				if pro == after {
					return r.loopBody(n.Body, "_ = "+key+"; "+pro)
				}
				return r.loopBody(n.Body, pro)
			}())
		}
	}
	// slices, arrays, strings, integers, functions
	pro := ""
	if define && r.p.Mem {
		for _, e := range []ast.Expr{n.Key, n.Value} {
			if id, ok := e.(*ast.Ident); ok && id.Name != "_" && r.sharedDef(id) {
				pro += r.vs("W") + "(&" + id.Name + ", " + r.site(id, id.Name) + "); "
			}
		}
	}
	return lab + r.splice(n, func(c ast.Node) string {
		switch {
		case c == ast.Node(n.Body):
			return r.loopBody(n.Body, pro)
		case c == ast.Node(n.X):
			if _, ok := under.(*types.Array); ok {
				return r.path(n.X)
			}
			return r.value(n.X)
		case n.Key != nil && c == ast.Node(n.Key), n.Value != nil && c == ast.Node(n.Value):
			if define {
				return r.text(c)
			}
			return r.path(c.(ast.Expr))
		}
		return r.render(c)
	})
}

func (r *rw) sharedDef(id *ast.Ident) bool {
	v, ok := r.info.Defs[id].(*types.Var)
	return ok && (r.captured[v] || r.addrTaken[v]) && !skipType(v.Type())
}
