package model

import (
	"errors"
	"fmt"
	"io"
	"strings"

	"github.com/katydid/katydid/parser"
)

// ErrInjected is the error a fault-injecting TreeParser returns.
var ErrInjected = errors.New("injected parser error")

// isEOF pretends to be io.EOF to errors.Is only.
type isEOF struct{}

func (isEOF) Error() string        { return "an injected error that resembles the end" }
func (isEOF) Is(target error) bool { return target == io.EOF }

// Faults are the errors a parser can fail with; each is different from io.EOF, but some are close to it
// or are errors that a consumer can know in another role.
var Faults = []error{
	ErrInjected,
	io.ErrUnexpectedEOF,
	fmt.Errorf("injected: %w", io.EOF),
	io.ErrShortBuffer,
	errors.New("EOF"),
	isEOF{},
	parser.ErrNotString,
	parser.ErrNotInt,
	fmt.Errorf("injected: %w", parser.ErrNotBool),
	io.ErrNoProgress,
}

// TreeParser presents a forest as a parser.Interface and monitors the protocol.
type TreeParser struct {
	stack []tpFrame
	labelValue
	Calls         int    // Next calls performed
	FailAt        int    // 0: never; n: the n-th Next call returns ErrInjected
	Failed        bool   // the fault was delivered
	FailErr       error  // the fault; nil is ErrInjected
	AfterFail     int    // calls made after the fault was delivered
	Breach        string // first protocol breach
	MaxCalls      int    // more Next calls than this is reported as a breach by panicking
	Downs, Ups    int
	ValuesRead    int
	SkippedLevels int // levels left before their end
}

type tpFrame struct {
	nodes []Tree
	i     int // index of the current node, -1 before the first Next
	eof   bool
}

func NewTreeParser(ts []Tree) *TreeParser {
	return &TreeParser{stack: []tpFrame{{nodes: ts, i: -1}}, MaxCalls: 1 << 22}
}

// Fault is the error that is injected.
func (p *TreeParser) Fault() error {
	if p.FailErr != nil {
		return p.FailErr
	}
	return ErrInjected
}

// Surfaced reports whether the error is the injected fault or tells it.
func (p *TreeParser) Surfaced(err error) bool {
	return err != nil && (errors.Is(err, p.Fault()) || strings.Contains(err.Error(), p.Fault().Error()))
}

func (p *TreeParser) top() *tpFrame { return &p.stack[len(p.stack)-1] }

func (p *TreeParser) breach(format string, a ...any) {
	if p.Breach == "" {
		p.Breach = fmt.Sprintf(format, a...)
	}
}

func (p *TreeParser) after() {
	if p.Failed {
		p.AfterFail++
	}
}

// Balanced reports whether every Down was matched by an Up.
func (p *TreeParser) Balanced() bool { return len(p.stack) == 1 }

func (p *TreeParser) Next() error {
	p.after()
	p.Calls++
	if p.Calls > p.MaxCalls {
		panic("parser: more Next calls than any terminating run needs")
	}
	f := p.top()
	if f.eof {
		p.breach("Next was called after the end of a level")
		return io.EOF
	}
	if p.FailAt != 0 && p.Calls == p.FailAt {
		p.Failed = true
		return p.Fault()
	}
	f.i++
	if f.i >= len(f.nodes) {
		f.eof = true
		p.labelValue = labelValue{}
		return io.EOF
	}
	p.labelValue = labelValue{f.nodes[f.i].L}
	return nil
}

func (p *TreeParser) cur(op string) (Tree, bool) {
	f := p.top()
	if f.i < 0 {
		p.breach("%s before the first Next of a level", op)
		return Tree{}, false
	}
	if f.eof {
		p.breach("%s after the end of a level", op)
		return Tree{}, false
	}
	return f.nodes[f.i], true
}

func (p *TreeParser) IsLeaf() bool {
	p.after()
	t, ok := p.cur("IsLeaf")
	if !ok {
		return true
	}
	return t.Leaf
}

func (p *TreeParser) Down() {
	p.after()
	p.Downs++
	t, ok := p.cur("Down")
	if ok && t.Leaf {
		p.breach("Down on a leaf")
	}
	p.stack = append(p.stack, tpFrame{nodes: t.C, i: -1})
	p.labelValue = labelValue{}
}

func (p *TreeParser) Up() {
	p.after()
	p.Ups++
	if len(p.stack) == 1 {
		p.breach("Up at the root")
		return
	}
	if f := p.top(); !f.eof && f.i+1 < len(f.nodes) {
		p.SkippedLevels++
	}
	p.stack = p.stack[:len(p.stack)-1]
	f := p.top()
	if f.i >= 0 && !f.eof {
		p.labelValue = labelValue{f.nodes[f.i].L}
	}
}

func (p *TreeParser) val() {
	p.after()
	p.ValuesRead++
	p.cur("value read")
}

func (p *TreeParser) Double() (float64, error) { p.val(); return p.labelValue.Double() }
func (p *TreeParser) Int() (int64, error)      { p.val(); return p.labelValue.Int() }
func (p *TreeParser) Uint() (uint64, error)    { p.val(); return p.labelValue.Uint() }
func (p *TreeParser) Bool() (bool, error)      { p.val(); return p.labelValue.Bool() }
func (p *TreeParser) String() (string, error)  { p.val(); return p.labelValue.String() }
func (p *TreeParser) Bytes() ([]byte, error)   { p.val(); return p.labelValue.Bytes() }

var _ parser.Interface = (*TreeParser)(nil)

// ReadForest walks a parser completely. budget bounds the number of Next calls.
func ReadForest(p parser.Interface, budget *int) ([]Tree, error) {
	return readForest(p, budget, 0)
}

// ErrBudget is returned when a walk needs more steps than its input can justify.
var ErrBudget = errors.New("walk exceeds its step budget")

func readForest(p parser.Interface, budget *int, depth int) ([]Tree, error) {
	var res []Tree
	for {
		*budget--
		if *budget < 0 {
			return res, ErrBudget
		}
		if depth > 20000 {
			return res, ErrBudget
		}
		if err := p.Next(); err != nil {
			if err == io.EOF {
				return res, nil
			}
			return res, err
		}
		t := Tree{L: ReadLabel(p), Leaf: p.IsLeaf()}
		if !t.Leaf {
			p.Down()
			c, err := readForest(p, budget, depth+1)
			t.C = c
			if err != nil {
				return append(res, t), err
			}
			p.Up()
		}
		res = append(res, t)
	}
}

// Path gives the labels of the nodes that were entered and of the current one; asking for it is not observed.
func (p *TreeParser) Path() (ls []Label) {
	for _, f := range p.stack {
		if f.i >= 0 && f.i < len(f.nodes) {
			ls = append(ls, f.nodes[f.i].L)
		}
	}
	return ls
}
