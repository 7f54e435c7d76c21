package main

import (
	"bufio"
	"crypto/sha256"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type Res int

const (
	Unknown Res = iota
	Unsat
	Sat
)

func (r Res) String() string { return [...]string{"unknown", "unsat", "sat"}[r] }

// Stats on solver use, reported as evidence.
type SolverStats struct {
	mu      sync.Mutex
	Queries map[string]int
	Time    map[string]time.Duration
}

var stats = &SolverStats{Queries: map[string]int{}, Time: map[string]time.Duration{}}

func (s *SolverStats) add(name string, d time.Duration) {
	s.mu.Lock()
	s.Queries[name]++
	s.Time[name] += d
	s.mu.Unlock()
}

const prelude = `(set-option :print-success false)
(declare-sort Flt 0)
(declare-sort Str 0)
(declare-sort U 0)
(declare-const unil U)
(declare-fun mul (Int Int) Int)
(declare-fun qdiv (Int Int) Int)
(declare-fun wrap (U) U)
`

// Solver is one z3 process driven over a pipe.
type Solver struct {
	quant bool // queries with quantifiers: instantiation by patterns only
	cmd   *exec.Cmd
	in    io.WriteCloser
	out   *bufio.Reader
	decl  map[string]bool
	cache map[[32]byte]Res
	tmo   int
	dead  bool
	order []string // declarations, in order (thorough tier)
	unsat []string // bodies of the queries answered unsat (thorough tier)
}

// thorough makes a second solver (cvc5) confirm every query z3 has answered with unsat.
var thorough bool

// Cross counts the confirmations of the second solver.
type Cross struct {
	mu        sync.Mutex
	Confirmed int      `json:"confirmed"`
	Undecided int      `json:"undecided"`
	Disagree  []string `json:"disagreements"`
}

var cross = &Cross{Disagree: []string{}}

func (s *Solver) crossCheck() {
	if len(s.unsat) == 0 {
		return
	}
	t0 := time.Now()
	var b strings.Builder
	b.WriteString("(set-logic ALL)\n" + prelude)
	had := map[string]bool{}
	for _, d := range s.order {
		if had[d] {
			continue
		}
		had[d] = true
		b.WriteString(d + "\n")
	}
	for _, q := range s.unsat {
		b.WriteString("(push)\n" + q + "(check-sat)\n(pop)\n")
	}
	c := exec.Command("cvc5", "--lang=smt2", "--incremental", "--tlimit-per=3000", "-")
	c.Stdin = strings.NewReader(b.String())
	kill := time.AfterFunc(5*time.Minute, func() {
		if c.Process != nil {
			c.Process.Kill()
		}
	})
	out, _ := c.Output()
	kill.Stop()
	n := 0
	cross.mu.Lock()
	defer cross.mu.Unlock()
	for _, l := range strings.Split(string(out), "\n") {
		switch strings.TrimSpace(l) {
		case "unsat":
			cross.Confirmed++
			n++
		case "sat":
			if n < len(s.unsat) {
				cross.Disagree = append(cross.Disagree, s.unsat[n])
			}
			n++
		case "unknown":
			cross.Undecided++
			n++
		}
	}
	cross.Undecided += len(s.unsat) - n
	stats.add("cvc5-crosscheck", time.Since(t0))
}

func NewSolver(timeoutMs int, quant bool) *Solver {
	s := &Solver{cache: map[[32]byte]Res{}, tmo: timeoutMs, quant: quant}
	s.start()
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command("z3", "-in", "-smt2")
	s.in, _ = s.cmd.StdinPipe()
	o, _ := s.cmd.StdoutPipe()
	s.out = bufio.NewReader(o)
	s.cmd.Stderr = nil
	if err := s.cmd.Start(); err != nil {
		panic(fmt.Sprintf("cannot start z3: %v", err))
	}
	s.decl = map[string]bool{}
	if s.quant {
		io.WriteString(s.in, "(set-option :auto_config false)\n(set-option :smt.mbqi false)\n")
	}
	io.WriteString(s.in, prelude)
	fmt.Fprintf(s.in, "(set-option :timeout %d)\n", s.tmo)
}

func (s *Solver) Close() {
	if thorough {
		s.crossCheck()
	}
	s.in.Close()
	s.cmd.Process.Kill()
	s.cmd.Wait()
}

var reserved = map[string]bool{}

func collect(ts []*Term, visit func(t *Term)) {
	seen := map[*Term]bool{}
	var w func(t *Term)
	w = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		visit(t)
		for _, a := range t.Args {
			w(a)
		}
	}
	for _, t := range ts {
		w(t)
	}
}

// distribute multiplies a sum out.
func distribute(a, b *Term) *Term {
	l := newLin()
	toLin(a, 1, l)
	if len(l.m) < 2 {
		return nil
	}
	r := Mul(IntT(l.c), b)
	for k, c := range l.m {
		r = Add(r, Mul(IntT(c), Mul(l.t[k], b)))
	}
	return r
}

// lemmas instantiates facts about the uninterpreted product and quotient.
func lemmas(ts []*Term, native bool) []string {
	var out []string
	seen := map[string]bool{}
	var all []*Term
	collect(ts, func(t *Term) {
		if (t.Op == "mul" || t.Op == "qdiv") && !seen[t.S] {
			seen[t.S] = true
			all = append(all, t)
		}
	})
	hasBV := func(t *Term) bool {
		r := false
		walk(t, func(x *Term) {
			if x.Op == "#bv" {
				r = true
			}
		})
		return r
	}
	addMul := func(a, b *Term, m string) {
		A, B := a.S, b.S
		if native {
			out = append(out, fmt.Sprintf("(assert (= %s (* %s %s)))", m, A, B))
			return
		}
		out = append(out,
			fmt.Sprintf("(assert (=> (and (>= %s 0) (>= %s 0)) (>= %s 0)))", A, B, m),
			fmt.Sprintf("(assert (=> (and (>= %s 1) (>= %s 1)) (and (>= %s %s) (>= %s %s))))", A, B, m, A, m, B),
			fmt.Sprintf("(assert (=> (= %s 0) (= %s 0)))", A, m),
			fmt.Sprintf("(assert (=> (= %s 0) (= %s 0)))", B, m),
			fmt.Sprintf("(assert (=> (= %s 1) (= %s %s)))", A, m, B),
			fmt.Sprintf("(assert (=> (= %s 1) (= %s %s)))", B, m, A),
			fmt.Sprintf("(assert (=> (and (<= %s 0) (>= %s 0)) (<= %s 0)))", A, B, m),
			fmt.Sprintf("(assert (=> (and (>= %s 0) (<= %s 0)) (<= %s 0)))", A, B, m),
		)
	}
	type prod struct{ a, b, m string }
	var prods []prod
	addMul0 := addMul
	addMul = func(a, b *Term, m string) {
		addMul0(a, b, m)
		if !native {
			// products with a common factor: monotonicity
			for _, o := range prods {
				for _, x := range [][2]string{{a.S, b.S}, {b.S, a.S}} {
					for _, y := range [][2]string{{o.a, o.b}, {o.b, o.a}} {
						if x[0] != y[0] {
							continue
						}
						out = append(out,
							fmt.Sprintf("(assert (=> (and (>= %s 0) (<= %s %s)) (>= %s %s)))", x[0], x[1], y[1], o.m, m),
							fmt.Sprintf("(assert (=> (and (>= %s 0) (<= %s %s)) (>= %s %s)))", x[0], y[1], x[1], m, o.m),
							fmt.Sprintf("(assert (=> (and (>= %s 1) (<= %s %s)) (>= (- %s %s) (- %s %s))))", x[0], x[1], y[1], o.m, m, y[1], x[1]),
							fmt.Sprintf("(assert (=> (and (>= %s 1) (<= %s %s)) (>= (- %s %s) (- %s %s))))", x[0], y[1], x[1], m, o.m, x[1], y[1]),
							fmt.Sprintf("(assert (=> (= (+ %s 1) %s) (= %s (+ %s %s))))", x[1], y[1], o.m, m, x[0]),
							fmt.Sprintf("(assert (=> (= (+ %s 1) %s) (= %s (+ %s %s))))", y[1], x[1], m, o.m, x[0]),
							fmt.Sprintf("(assert (=> (and (>= %s 0) (< (+ %s 1) %s)) (>= (- %s %s) (* 2 %s))))", x[0], x[1], y[1], o.m, m, x[0]),
							fmt.Sprintf("(assert (=> (and (>= %s 0) (< (+ %s 1) %s)) (>= (- %s %s) (* 2 %s))))", x[0], y[1], x[1], m, o.m, x[0]))
					}
				}
			}
			prods = append(prods, prod{a.S, b.S, m})
		}
	}
	for _, t := range all {
		if hasBV(t) {
			continue
		}
		a, b := t.Args[0], t.Args[1]
		if t.Op == "mul" {
			addMul(a, b, t.S)
			for _, d := range []*Term{distribute(a, b), distribute(b, a)} {
				if d == nil || native {
					continue
				}
				out = append(out, fmt.Sprintf("(assert (= %s %s))", t.S, d.S))
				walk(d, func(u *Term) {
					if u.Op == "mul" && !seen[u.S] {
						seen[u.S] = true
						addMul(u.Args[0], u.Args[1], u.S)
					}
				})
			}
		} else {
			q := t.S
			m := Mul(t, b)
			if m.Op == "mul" && !seen[m.S] {
				seen[m.S] = true
				addMul(m.Args[0], m.Args[1], m.S)
			}
			out = append(out,
				fmt.Sprintf("(assert (=> (and (>= %s 0) (>= %s 1)) (and (>= %s 0) (<= %s %s) (<= %s %s) (< %s (+ %s %s)))))", a.S, b.S, q, q, a.S, m.S, a.S, a.S, m.S, b.S),
				fmt.Sprintf("(assert (=> (and (< %s 0) (>= %s 1)) (and (<= %s 0) (>= %s %s) (>= %s %s) (> %s (- %s %s)))))", a.S, b.S, q, q, a.S, m.S, a.S, a.S, m.S, b.S),
				fmt.Sprintf("(assert (=> (and (>= %s 0) (< %s %s)) (= %s 0)))", a.S, a.S, b.S, q),
			)
		}
	}
	return out
}

func symbolsOf(ts []*Term) []string {
	var names []string
	seen := map[string]bool{}
	symMu.Lock()
	defer symMu.Unlock()
	collect(ts, func(t *Term) {
		if d, ok := symTab[t.Op]; ok && !seen[t.Op] {
			seen[t.Op] = true
			names = append(names, d)
		}
	})
	return names
}

var dumpDir = os.Getenv("GOCV_DUMP")
var dumpN int64

// Check decides satisfiability of the conjunction of ts.
func (s *Solver) Check(ts []*Term) Res {
	var body strings.Builder
	for _, t := range ts {
		if Same(t, TFalse) {
			return Unsat
		}
		if Same(t, TTrue) {
			continue
		}
		body.WriteString("(assert ")
		body.WriteString(t.S)
		body.WriteString(")\n")
	}
	for _, l := range lemmas(ts, false) {
		body.WriteString(l)
		body.WriteByte('\n')
	}
	txt := body.String()
	key := sha256.Sum256([]byte(txt))
	if r, ok := s.cache[key]; ok {
		return r
	}
	t0 := time.Now()
	if s.dead {
		s.start()
		s.dead = false
	}
	var b strings.Builder
	for _, d := range symbolsOf(ts) {
		if !s.decl[d] {
			s.decl[d] = true
			s.order = append(s.order, d)
			b.WriteString(d)
			b.WriteByte('\n')
		}
	}
	b.WriteString("(push)\n")
	b.WriteString(txt)
	b.WriteString("(check-sat)\n(pop)\n")
	io.WriteString(s.in, b.String())
	line, err := s.out.ReadString('\n')
	for err == nil && strings.HasPrefix(line, "(error") {
		fmt.Fprintf(os.Stderr, "SMT ERROR %s\n%s\n", line, b.String())
		line, err = s.out.ReadString('\n')
	}
	r := Unknown
	switch {
	case err != nil:
		s.dead = true
	case strings.HasPrefix(line, "unsat"):
		r = Unsat
	case strings.HasPrefix(line, "sat"):
		r = Sat
	}
	d := time.Since(t0)
	stats.add("z3-4.8.12", d)
	if r == Unsat && thorough {
		s.unsat = append(s.unsat, txt)
	}
	s.cache[key] = r
	if dumpDir != "" {
		n := atomic.AddInt64(&dumpN, 1)
		os.WriteFile(fmt.Sprintf("%s/q%05d-%s-%dms.smt2", dumpDir, n, r, d.Milliseconds()), []byte(prelude+strings.Join(symbolsOf(ts), "\n")+"\n"+txt+"(check-sat)\n"), 0o644)
	}
	return r
}

// Script renders a standalone SMT-LIB script for ts.
func Script(ts []*Term, native bool, pre string) string {
	var body strings.Builder
	body.WriteString(pre)
	body.WriteString(prelude)
	for _, d := range symbolsOf(ts) {
		body.WriteString(d)
		body.WriteByte('\n')
	}
	for _, t := range ts {
		body.WriteString("(assert ")
		body.WriteString(t.S)
		body.WriteString(")\n")
	}
	for _, l := range lemmas(ts, native) {
		body.WriteString(l)
		body.WriteByte('\n')
	}
	body.WriteString("(check-sat)\n")
	return body.String()
}

// oneShot runs a solver process on a standalone script.
func oneShot(name string, args []string, script string, tmo time.Duration) Res {
	t0 := time.Now()
	c := exec.Command(args[0], args[1:]...)
	c.Stdin = strings.NewReader(script)
	var out strings.Builder
	c.Stdout = &out
	if err := c.Start(); err != nil {
		return Unknown
	}
	done := make(chan struct{})
	go func() {
		select {
		case <-time.After(tmo):
			c.Process.Kill()
		case <-done:
		}
	}()
	c.Wait()
	close(done)
	stats.add(name, time.Since(t0))
	for _, l := range strings.Split(out.String(), "\n") {
		switch strings.TrimSpace(l) {
		case "unsat":
			return Unsat
		case "sat":
			return Sat
		}
	}
	return Unknown
}

// CheckHard retries an undecided query with other back ends.
func CheckHard(ts []*Term, tmo time.Duration) (Res, string) {
	type back struct {
		name   string
		args   []string
		native bool
		pre    string
	}
	secs := fmt.Sprint(int(tmo.Seconds()))
	backs := []back{
		{"z3-new", []string{"z3-new", "-in", "-smt2", "-T:" + secs}, false, ""},
		{"cvc5", []string{"cvc5", "--lang=smt2", "--tlimit=" + fmt.Sprint(tmo.Milliseconds()), "-"}, false, "(set-logic ALL)\n"},
		{"z3-new/nia", []string{"z3-new", "-in", "-smt2", "-T:" + secs}, true, ""},
	}
	type ans struct {
		r Res
		n string
	}
	ch := make(chan ans, len(backs))
	for _, b := range backs {
		go func(b back) {
			ch <- ans{oneShot(b.name, b.args, Script(ts, b.native, b.pre), tmo), b.name}
		}(b)
	}
	for range backs {
		a := <-ch
		if a.r == Unsat {
			return Unsat, a.n
		}
	}
	return Unknown, ""
}
