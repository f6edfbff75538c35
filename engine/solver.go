package main

import (
	"bufio"
	"fmt"
	"io"
	"os/exec"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

// Res is a solver verdict.
type Res int

const (
	Unsat Res = iota
	Sat
	Unknown
)

// Solver drives one SMT solver process, mirroring a stack of asserted terms.
type Solver struct {
	db      *TermDB
	cmd     *exec.Cmd
	in      *bufio.Writer
	inc     io.WriteCloser
	out     *bufio.Reader
	stack   []*Term // asserted terms, one push level each
	def     map[uint32]struct{}
	defs    [][]uint32 // ids defined per level (level 0 = base)
	kind    string
	tmo     int
	Queries int
	NSat    int
	NUnsat  int
	NUnk    int
	Time    time.Duration
	MaxT    time.Duration
	Errs    []string
	late    *int32 // set when the running query was ended for taking too long
}

func NewSolver(db *TermDB, kind string, timeoutMS int) *Solver {
	s := &Solver{db: db, kind: kind, tmo: timeoutMS}
	s.start()
	return s
}

func (s *Solver) start() {
	switch s.kind {
	case "cvc5":
		s.cmd = exec.Command("cvc5", "--incremental", "--produce-models", "--lang=smt2", fmt.Sprintf("--tlimit-per=%d", s.tmo))
	case "z3":
		s.cmd = exec.Command("z3", "-in", "-smt2")
	default:
		s.cmd = exec.Command("z3-new", "-in", "-smt2")
	}
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.inc = in
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.stack = nil
	s.def = make(map[uint32]struct{})
	s.defs = [][]uint32{nil}
	if s.kind != "cvc5" {
		fmt.Fprintf(s.in, "(set-option :timeout %d)\n", s.tmo)
	}
	fmt.Fprintln(s.in, "(set-option :produce-models true)")
	fmt.Fprintln(s.in, "(set-logic QF_BV)")
}

func (s *Solver) Close() {
	s.in.Flush()
	s.inc.Close()
	_ = s.cmd.Process.Kill()
	_ = s.cmd.Wait()
}

func (s *Solver) define(t *Term) {
	if t.op == OConst {
		return
	}
	if _, ok := s.def[t.id]; ok {
		return
	}
	for _, a := range t.args {
		s.define(a)
	}
	if t.op == OVar {
		fmt.Fprintf(s.in, "(declare-const %s %s)\n", ref(t), sortOf(t.w))
	} else {
		fmt.Fprintf(s.in, "(define-fun t%d () %s %s)\n", t.id, sortOf(t.w), body(t))
	}
	s.def[t.id] = struct{}{}
	l := len(s.defs) - 1
	s.defs[l] = append(s.defs[l], t.id)
}

func (s *Solver) pushT(t *Term) {
	fmt.Fprintln(s.in, "(push 1)")
	s.defs = append(s.defs, nil)
	s.stack = append(s.stack, t)
	s.define(t)
	fmt.Fprintf(s.in, "(assert %s)\n", ref(t))
}

func (s *Solver) popN(n int) {
	if n == 0 {
		return
	}
	fmt.Fprintf(s.in, "(pop %d)\n", n)
	for i := 0; i < n; i++ {
		l := len(s.defs) - 1
		for _, id := range s.defs[l] {
			delete(s.def, id)
		}
		s.defs = s.defs[:l]
	}
	s.stack = s.stack[:len(s.stack)-n]
}

// sync makes the solver's assertion stack equal to pc.
func (s *Solver) sync(pc []*Term) {
	i := 0
	for i < len(pc) && i < len(s.stack) && pc[i] == s.stack[i] {
		i++
	}
	s.popN(len(s.stack) - i)
	for ; i < len(pc); i++ {
		s.pushT(pc[i])
	}
}

// Check decides pc /\ extra; on Sat it returns a model of the variables in scope.
func (s *Solver) Check(pc []*Term, extra *Term, deadline time.Time) (Res, Model) {
	t0 := time.Now()
	limit := time.Duration(s.tmo)*time.Millisecond + 5*time.Second
	if !deadline.IsZero() {
		if d := deadline.Sub(t0) + 100*time.Millisecond; d < limit {
			limit = d
		}
	}
	proc := s.cmd.Process
	var late int32
	watch := time.AfterFunc(limit, func() { atomic.StoreInt32(&late, 1); _ = proc.Kill() })
	defer watch.Stop()
	s.late = &late
	s.Queries++
	s.sync(pc)
	if extra != nil {
		s.pushT(extra)
	}
	fmt.Fprintln(s.in, "(check-sat)")
	if err := s.in.Flush(); err != nil {
		return s.restart("flush: " + err.Error())
	}
	line, err := s.readLine()
	if err != nil {
		return s.restart("read: " + err.Error())
	}
	var res Res
	var m Model
	switch line {
	case "sat":
		res = Sat
		s.NSat++
		m, err = s.model()
		if err != nil {
			return s.restart("model: " + err.Error())
		}
	case "unsat":
		res = Unsat
		s.NUnsat++
	case "unknown", "timeout":
		res = Unknown
		s.NUnk++
	default:
		return s.restart("answer: " + line)
	}
	if extra != nil {
		s.popN(1)
	}
	d := time.Since(t0)
	s.Time += d
	if d > s.MaxT {
		s.MaxT = d
	}
	return res, m
}

func (s *Solver) restart(why string) (Res, Model) {
	if s.late == nil || atomic.LoadInt32(s.late) == 0 {
		s.Errs = append(s.Errs, why)
	}
	s.NUnk++
	s.Close()
	s.start()
	return Unknown, nil
}

func (s *Solver) readLine() (string, error) {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "", err
		}
		l = strings.TrimSpace(l)
		if l != "" {
			return l, nil
		}
	}
}

func (s *Solver) model() (Model, error) {
	var vars []*Term
	for _, v := range s.db.vars {
		if _, ok := s.def[v.id]; ok {
			vars = append(vars, v)
		}
	}
	m := make(Model, len(vars))
	if len(vars) == 0 {
		return m, nil
	}
	s.in.WriteString("(get-value (")
	for _, v := range vars {
		s.in.WriteString(ref(v))
		s.in.WriteByte(' ')
	}
	s.in.WriteString("))\n")
	if err := s.in.Flush(); err != nil {
		return nil, err
	}
	// read one balanced s-expression
	depth := 0
	var sb strings.Builder
	inQ := false
	for {
		c, err := s.out.ReadByte()
		if err != nil {
			return nil, err
		}
		sb.WriteByte(c)
		if c == '|' {
			inQ = !inQ
		}
		if inQ {
			continue
		}
		if c == '(' {
			depth++
		}
		if c == ')' {
			depth--
			if depth == 0 {
				break
			}
		}
	}
	txt := sb.String()
	if strings.Contains(txt, "(error") {
		return nil, fmt.Errorf("%s", txt)
	}
	// parse pairs: (|name| value)
	pos := 0
	next := func() (string, bool) {
		for pos < len(txt) && (txt[pos] == ' ' || txt[pos] == '\n' || txt[pos] == '\t' || txt[pos] == '\r') {
			pos++
		}
		if pos >= len(txt) {
			return "", false
		}
		if txt[pos] == '(' || txt[pos] == ')' {
			pos++
			return txt[pos-1 : pos], true
		}
		st := pos
		if txt[pos] == '|' {
			pos++
			for txt[pos] != '|' {
				pos++
			}
			pos++
			return txt[st:pos], true
		}
		for pos < len(txt) && !strings.ContainsRune(" \n\t\r()", rune(txt[pos])) {
			pos++
		}
		return txt[st:pos], true
	}
	var toks []string
	for {
		t, ok := next()
		if !ok {
			break
		}
		toks = append(toks, t)
	}
	i := 1
	for _, v := range vars {
		// ( name value ) ; value is #x.. #b.. true false or (_ bvN w)
		if i+2 >= len(toks) || toks[i] != "(" {
			return nil, fmt.Errorf("bad model %q", txt)
		}
		i += 2
		val := toks[i]
		var u uint64
		var err error
		switch {
		case val == "true":
			u = 1
		case val == "false":
			u = 0
		case strings.HasPrefix(val, "#x"):
			u, err = strconv.ParseUint(val[2:], 16, 64)
		case strings.HasPrefix(val, "#b"):
			u, err = strconv.ParseUint(val[2:], 2, 64)
		case val == "(":
			u, err = strconv.ParseUint(strings.TrimPrefix(toks[i+2], "bv"), 10, 64)
			i += 4
		default:
			err = fmt.Errorf("bad value %q", val)
		}
		if err != nil {
			return nil, err
		}
		i += 2
		m[v.name] = u
	}
	return m, nil
}
