package checks

import (
	"fmt"
	"path"
	"strconv"
	"strings"
)

// A small abstract interpreter for the scripts that generators emit: variables hold symbolic text,
// commands that are not part of the shell are recorded with their directory and arguments.

type shCmd struct {
	Dir  string
	Argv []string
	Bg   bool
}

type shNode struct {
	kind       string // cmd, if, fn, skip
	words      []string
	not        bool
	bg         bool
	cond       []*shNode
	body, els  []*shNode
	name, text string
}

type shell struct {
	vars   map[string]string
	unset  map[string]bool
	funcs  map[string][]*shNode
	Dir    string
	was    string // the directory before the last cd
	Cmds   []shCmd
	Bad    string
	status int
	ret    bool // returning
	exit   bool
	depth  int
}

// shLines splits a script into commands at line ends and semicolons.
func shLines(text string) (ls []string) {
	for _, l := range strings.Split(text, "\n") {
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, "#") {
			continue
		}
		var q byte
		start := 0
		for i := 0; i < len(l); i++ {
			switch ch := l[i]; {
			case q != 0:
				if ch == '\\' && q == '"' {
					i++
				} else if ch == q {
					q = 0
				}
			case ch == '"' || ch == '\'':
				q = ch
			case ch == ';' && strings.HasPrefix(l[i:], ";;"):
				i++
			case ch == ';':
				if s := strings.TrimSpace(l[start:i]); s != "" {
					ls = append(ls, s)
				}
				start = i + 1
			case ch == '#' && i > 0 && l[i-1] == ' ':
				l = l[:i]
			}
		}
		if s := strings.TrimSpace(l[start:]); s != "" {
			ls = append(ls, s)
		}
	}
	return
}

func shWords(l string) (ws []string) {
	cur, in := "", false
	var q byte
	depth := 0
	for i := 0; i < len(l); i++ {
		ch := l[i]
		switch {
		case q != 0:
			cur += string(ch)
			if ch == '\\' && q == '"' && i+1 < len(l) {
				i++
				cur += string(l[i])
			} else if ch == q {
				q = 0
			}
		case ch == '"' || ch == '\'':
			q, in = ch, true
			cur += string(ch)
		case ch == '(':
			depth++
			cur, in = cur+"(", true
		case ch == ')':
			depth--
			cur += ")"
		case (ch == ' ' || ch == '\t') && depth == 0:
			if in {
				ws = append(ws, cur)
			}
			cur, in = "", false
		default:
			cur, in = cur+string(ch), true
		}
	}
	if in {
		ws = append(ws, cur)
	}
	return
}

type shParser struct {
	ls  []string
	i   int
	err string
}

func (p *shParser) block(ends ...string) (ns []*shNode, end string) {
	for p.i < len(p.ls) {
		l := p.ls[p.i]
		for _, e := range ends {
			if l == e || strings.HasPrefix(l, e+" ") {
				if l == e {
					p.i++
				} else {
					p.ls[p.i] = strings.TrimSpace(l[len(e):])
				}
				return ns, e
			}
		}
		p.i++
		switch w := shWords(l); {
		case len(w) == 0:
		case strings.HasSuffix(l, "() {") || strings.HasSuffix(w[0], "()") && len(w) > 1 && w[1] == "{":
			name := strings.TrimSuffix(w[0], "()")
			if i := strings.Index(l, "{"); strings.TrimSpace(l[i+1:]) != "" {
				p.i--
				p.ls[p.i] = strings.TrimSpace(l[i+1:])
			}
			b, e := p.block("}")
			if e == "" {
				p.err = "function " + name + " does not end"
			}
			ns = append(ns, &shNode{kind: "fn", name: name, body: b})
		case w[0] == "if":
			p.i--
			p.ls[p.i] = strings.TrimSpace(l[2:])
			n := &shNode{kind: "if"}
			var e string
			n.cond, e = p.block("then")
			if e == "" {
				p.err = "if without then"
			}
			n.body, e = p.block("else", "elif", "fi")
			switch e {
			case "else":
				n.els, e = p.block("fi")
			case "elif":
				p.err = "elif"
			}
			if e == "" {
				p.err = "if does not end"
			}
			ns = append(ns, n)
		case w[0] == "while": // only options are looped over; there are none
			depth := 1
			for p.i < len(p.ls) && depth > 0 {
				switch f := strings.Fields(p.ls[p.i])[0]; f {
				case "while", "for", "until":
					depth++
				case "done":
					depth--
				}
				p.i++
			}
			if depth > 0 || len(w) < 2 || w[1] != "getopts" {
				p.err = "loop: " + l
			}
		case w[0] == "for" || w[0] == "until" || w[0] == "case" || w[0] == "{" || w[0] == "(":
			p.err = "construct: " + l
		default:
			n := &shNode{kind: "cmd", words: w, text: l}
			if w[0] == "!" {
				n.not, n.words = true, w[1:]
			}
			if k := len(n.words); k > 0 && n.words[k-1] == "&" {
				n.bg, n.words = true, n.words[:k-1]
			}
			ns = append(ns, n)
		}
	}
	return ns, ""
}

// runScript runs the script with variables that hold a symbol, except for those that are missing.
func runScript(text, dir string, env map[string]string) *shell {
	s := &shell{vars: map[string]string{}, funcs: map[string][]*shNode{}, Dir: dir}
	for k, v := range env {
		s.vars[k] = v
	}
	p := &shParser{ls: shLines(text)}
	ns, _ := p.block()
	if p.err != "" {
		s.Bad = p.err
		return s
	}
	s.run(ns)
	return s
}

func (s *shell) bad(f string, a ...any) {
	if s.Bad == "" {
		s.Bad = fmt.Sprintf(f, a...)
	}
}

func (s *shell) run(ns []*shNode) {
	for _, n := range ns {
		if s.ret || s.exit || s.Bad != "" {
			return
		}
		switch n.kind {
		case "fn":
			s.funcs[n.name] = n.body
		case "if":
			s.run(n.cond)
			if s.ret || s.exit {
				return
			}
			if s.status == 0 {
				s.run(n.body)
			} else {
				s.status = 0
				s.run(n.els)
			}
		case "cmd":
			s.cmd(n)
			if n.not {
				if s.status == 0 {
					s.status = 1
				} else {
					s.status = 0
				}
			}
		}
	}
}

func shName(s string) bool {
	for i, r := range s {
		if !(r == '_' || r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || i > 0 && r >= '0' && r <= '9') {
			return false
		}
	}
	return s != ""
}

// expand gives the value of a word.
func (s *shell) expand(w string) string {
	out := ""
	var q byte
	for i := 0; i < len(w); i++ {
		ch := w[i]
		switch {
		case ch == '\'' && q != '"':
			if q == 0 {
				q = ch
			} else {
				q = 0
			}
		case ch == '"' && q != '\'':
			if q == 0 {
				q = ch
			} else {
				q = 0
			}
		case ch == '\\' && q != '\'' && i+1 < len(w):
			i++
			out += string(w[i])
		case ch == '$' && q != '\'':
			rest := w[i+1:]
			switch {
			case strings.HasPrefix(rest, "((") && strings.Contains(rest, "))"):
				e := rest[2:strings.Index(rest, "))")]
				out += s.arith(e)
				i += len(e) + 4
			case strings.HasPrefix(rest, "(pwd)"):
				out += s.Dir
				i += 5
			case strings.HasPrefix(rest, "{"):
				j := strings.Index(rest, "}")
				if j < 0 {
					s.bad("expansion %s", w)
					return out
				}
				e := rest[1:j]
				i += j + 1
				name := e
				for k := range e {
					if !shName(e[:k+1]) {
						name = e[:k]
						break
					}
				}
				v, set := s.vars[name]
				switch op := e[len(name):]; {
				case op == "":
					out += v
				case strings.HasPrefix(op, "+"):
					if set {
						out += op[1:]
					}
				case strings.HasPrefix(op, ":+"):
					if v != "" {
						out += op[2:]
					}
				case strings.HasPrefix(op, ":-"):
					if v == "" {
						v = op[2:]
					}
					out += v
				case strings.HasPrefix(op, "-"):
					if !set {
						v = op[1:]
					}
					out += v
				default:
					s.bad("expansion %s", w)
				}
			case strings.HasPrefix(rest, "?"):
				out += strconv.Itoa(s.status)
				i++
			case strings.HasPrefix(rest, "!"):
				out += "4711"
				i++
			case strings.HasPrefix(rest, "0"):
				out += "script"
				i++
			default:
				k := 0
				for k < len(rest) && shName(rest[:k+1]) {
					k++
				}
				if k == 0 {
					s.bad("expansion %s", w)
					return out
				}
				out += s.vars[rest[:k]]
				i += k
			}
		case ch == '`' || (ch == '*' || ch == '>' || ch == '<' || ch == '|' || ch == '&') && q == 0:
			s.bad("word %s", w)
			return out
		default:
			out += string(ch)
		}
	}
	return out
}

func (s *shell) arith(e string) string {
	for _, op := range []string{"+", "-"} {
		if a, b, ok := strings.Cut(e, op); ok {
			x, e1 := strconv.Atoi(s.term(a))
			y, e2 := strconv.Atoi(s.term(b))
			if e1 != nil || e2 != nil {
				s.bad("arithmetic %s", e)
			}
			if op == "-" {
				y = -y
			}
			return strconv.Itoa(x + y)
		}
	}
	return s.term(e)
}

func (s *shell) term(t string) string {
	t = strings.TrimSpace(strings.TrimPrefix(strings.TrimSpace(t), "$"))
	if shName(t) {
		if v := s.vars[t]; v != "" {
			return v
		}
		return "0"
	}
	return t
}

func (s *shell) cmd(n *shNode) {
	// Redirections of messages do not matter.
	var ws []string
	for _, w := range n.words {
		if w == "1>&2" || w == ">&2" {
			continue
		}
		ws = append(ws, w)
	}
	if len(ws) == 0 {
		s.bad("command %s", n.text)
		return
	}
	if name, v, ok := strings.Cut(ws[0], "="); ok && shName(name) && len(ws) == 1 {
		s.vars[name] = s.expand(v)
		s.status = 0
		return
	}
	var a []string
	for _, w := range ws {
		if w == "&&" || w == "||" || w == "|" {
			s.bad("command %s", n.text)
			return
		}
		x := s.expand(w)
		if x == "" && !strings.ContainsAny(w, `"'`) {
			continue
		}
		a = append(a, x)
	}
	if s.Bad != "" || len(a) == 0 {
		return
	}
	switch a[0] {
	case "echo", "wait", "true", ":":
		s.status = 0
		return
	case "exit":
		s.exit = true
		s.status = s.num(a)
		return
	case "return":
		s.ret = true
		s.status = s.num(a)
		return
	case "export", "local":
		for _, x := range a[1:] {
			if name, v, ok := strings.Cut(x, "="); ok {
				s.vars[name] = v
			}
		}
		s.status = 0
		return
	case "cd":
		if len(a) != 2 {
			s.bad("command %s", n.text)
			return
		}
		was := s.Dir
		switch {
		case a[1] == "-":
			if s.was == "" {
				s.bad("command %s", n.text)
				return
			}
			s.Dir = s.was
		case path.IsAbs(a[1]):
			s.Dir = path.Clean(a[1])
		default:
			s.Dir = path.Join(s.Dir, a[1])
		}
		s.was = was
		s.status = 0
		return
	case "[", "[[":
		t := a[1:]
		if len(t) == 0 || t[len(t)-1] != strings.Repeat("]", len(a[0])) {
			s.bad("test %s", n.text)
			return
		}
		t = t[:len(t)-1]
		s.status = 0
		ok := false
		switch {
		case len(t) == 2 && t[0] == "-z":
			ok = t[1] == ""
		case len(t) == 2 && t[0] == "-n":
			ok = t[1] != ""
		case len(t) == 3:
			x, e1 := strconv.Atoi(t[0])
			y, e2 := strconv.Atoi(t[2])
			num := e1 == nil && e2 == nil
			switch {
			case t[1] == "=" || t[1] == "==":
				ok = t[0] == t[2]
			case t[1] == "!=":
				ok = t[0] != t[2]
			case t[1] == "-gt" && num:
				ok = x > y
			case t[1] == "-ge" && num:
				ok = x >= y
			case t[1] == "-lt" && num:
				ok = x < y
			case t[1] == "-le" && num:
				ok = x <= y
			case t[1] == "-eq" && num:
				ok = x == y
			case t[1] == "-ne" && num:
				ok = x != y
			default:
				s.bad("test %s", n.text)
			}
		default:
			s.bad("test %s", n.text)
		}
		if !ok {
			s.status = 1
		}
		return
	}
	if f, ok := s.funcs[a[0]]; ok {
		if s.depth++; s.depth > 50 {
			s.bad("functions of the script call each other without end")
			return
		}
		dir := s.Dir
		s.run(f)
		s.depth--
		s.ret = false
		if n.bg {
			s.Dir = dir
		}
		return
	}
	s.Cmds = append(s.Cmds, shCmd{Dir: s.Dir, Argv: a, Bg: n.bg})
	s.status = 0
}

func (s *shell) num(a []string) int {
	if len(a) < 2 {
		return s.status
	}
	n, err := strconv.Atoi(a[1])
	if err != nil {
		s.bad("status %s", a[1])
	}
	return n
}
