package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

// Solver is one z3 process used incrementally.
type Solver struct {
	cmd      *exec.Cmd
	in       *bufio.Writer
	inC      io.WriteCloser
	out      *bufio.Reader
	bank     *Bank
	depth    int
	timeoutM int // per query, ms
	Queries  int
	Sat      int
	Unsat    int
	Unknown  int
	Time     time.Duration
	log      *os.File
}

var solverBin = "z3-new"

func NewSolver(b *Bank, timeoutMs int) *Solver {
	s := &Solver{bank: b, timeoutM: timeoutMs}
	s.start()
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command(solverBin, "-in", "-smt2")
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	s.cmd.Stderr = os.Stderr
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.inC = in
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.depth = 0
	for _, t := range s.bank.m {
		t.big = false
	}
	fmt.Fprintf(s.in, "(set-option :global-declarations true)\n(set-option :timeout %d)\n", s.timeoutM)
}

func (s *Solver) Close() {
	s.inC.Close()
	s.cmd.Process.Kill()
	s.cmd.Wait()
}

func (s *Solver) send(str string) {
	if s.log != nil {
		s.log.WriteString(str)
	}
	s.in.WriteString(str)
}

func (s *Solver) Push() { s.depth++; s.send("(push 1)\n") }
func (s *Solver) Pop()  { s.depth--; s.send("(pop 1)\n") }
func (s *Solver) Assert(t *Term) {
	var sb strings.Builder
	t.define(&sb)
	fmt.Fprintf(&sb, "(assert %s)\n", t.ref())
	s.send(sb.String())
}

// Check returns 1 sat, 0 unsat, -1 unknown.
func (s *Solver) Check() int {
	s.Queries++
	t0 := time.Now()
	s.send("(check-sat)\n")
	s.in.Flush()
	r := -1
	for {
		line, err := s.out.ReadString('\n')
		if err != nil {
			panic("solver died: " + err.Error())
		}
		line = strings.TrimSpace(line)
		if line == "sat" {
			r = 1
			break
		}
		if line == "unsat" {
			r = 0
			break
		}
		if line == "unknown" || line == "timeout" {
			break
		}
		if strings.HasPrefix(line, "(error") {
			fmt.Fprintln(os.Stderr, "solver:", line)
			s.Unknown++
			// the verdict line of the check still follows; swallow it
			continue
		}
	}
	s.Time += time.Since(t0)
	switch r {
	case 1:
		s.Sat++
	case 0:
		s.Unsat++
	default:
		s.Unknown++
	}
	return r
}

// GetModel reads values for the given vars after a sat answer.
func (s *Solver) GetModel(vars []*Term) Model {
	m := Model{}
	var q []*Term
	for _, v := range vars {
		if v.big {
			q = append(q, v)
		}
	}
	if len(q) == 0 {
		return m
	}
	t0 := time.Now()
	var sb strings.Builder
	sb.WriteString("(get-value (")
	for _, v := range q {
		sb.WriteString(v.ref())
		sb.WriteByte(' ')
	}
	sb.WriteString("))\n")
	s.send(sb.String())
	s.in.Flush()
	// read one balanced s-expression
	depth := 0
	var buf strings.Builder
	inBar := false
	for {
		c, err := s.out.ReadByte()
		if err != nil {
			panic("solver died: " + err.Error())
		}
		buf.WriteByte(c)
		if c == '|' {
			inBar = !inBar
		}
		if inBar {
			continue
		}
		if c == '(' {
			depth++
		} else if c == ')' {
			depth--
			if depth == 0 {
				break
			}
		}
	}
	str := buf.String()
	s.Time += time.Since(t0)
	for i := 0; i < len(str); {
		j := strings.Index(str[i:], "(|")
		name := ""
		if j < 0 {
			// z3 may print simple symbols without bars
			j = strings.Index(str[i:], "(n")
			if j < 0 {
				break
			}
			i += j + 1
			k := strings.IndexByte(str[i:], ' ')
			name = str[i : i+k]
			i += k
		} else {
			j2 := strings.Index(str[i:], "(n")
			if j2 >= 0 && j2 < j {
				i += j2 + 1
				k := strings.IndexByte(str[i:], ' ')
				name = str[i : i+k]
				i += k
			} else {
				i += j + 2
				k := strings.IndexByte(str[i:], '|')
				name = str[i : i+k]
				i += k + 1
			}
		}
		e := strings.IndexByte(str[i:], ')')
		val := strings.TrimSpace(str[i : i+e])
		i += e
		switch {
		case val == "true":
			m[name] = 1
		case val == "false":
			m[name] = 0
		case strings.HasPrefix(val, "#x"):
			u, _ := strconv.ParseUint(val[2:], 16, 64)
			m[name] = u
		case strings.HasPrefix(val, "#b"):
			u, _ := strconv.ParseUint(val[2:], 2, 64)
			m[name] = u
		}
	}
	return m
}
