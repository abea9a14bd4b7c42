// Package cobrashim stands in for the command line library under the repository's own
// command line tools: it parses simple command lines and runs the commands.
package cobrashim

import (
	"errors"
	"io"
	"log"
	"strconv"
	"strings"

	"github.com/go-logr/logr"
	"github.com/go-logr/stdr"
)

//vp:replace github.com/go-logr/stdr.New
func stdrNew(std stdr.StdLogger) logr.Logger { return logr.Discard() }

//vp:replace github.com/go-logr/stdr.SetVerbosity
func stdrVerbosity(v int) int { return v }

//vp:replace log.New
func logNew(out io.Writer, prefix string, flag int) *log.Logger { return &log.Logger{} }

// PositionalArgs validates arguments.
type PositionalArgs func(cmd *Command, args []string) error

// Command is a command.
type Command struct {
	Use, Short, Long, Example, Version, Deprecated string
	Aliases                                        []string
	Args                                           PositionalArgs
	Run, PreRun, PostRun, PersistentPreRun         func(cmd *Command, args []string)
	RunE, PreRunE, PostRunE, PersistentPreRunE     func(cmd *Command, args []string) error
	Hidden, SilenceUsage, SilenceErrors            bool
	DisableAutoGenTag, DisableFlagsInUseLine       bool

	parent *Command
	subs   []*Command
	flags  *FlagSet
	pflags *FlagSet
}

// FlagSet is a set of flags.
type FlagSet struct{ list []*Flag }

// Flag is a flag.
type Flag struct {
	Name, Shorthand string
	Changed         bool
	s               *string
	b               *bool
	i               *int
	ds              string
	db              bool
	di              int
}

func (f *FlagSet) add(x *Flag) {
	f.list = append(f.list, x)
	x.reset()
	all = append(all, x)
}

var all []*Flag

func (x *Flag) reset() {
	x.Changed = false
	switch {
	case x.s != nil:
		*x.s = x.ds
	case x.b != nil:
		*x.b = x.db
	case x.i != nil:
		*x.i = x.di
	}
}

// VPReset gives every flag its default value.
func VPReset() {
	for _, x := range all {
		x.reset()
	}
}

func (f *FlagSet) StringVarP(p *string, name, short, value, usage string) {
	f.add(&Flag{Name: name, Shorthand: short, s: p, ds: value})
}
func (f *FlagSet) StringVar(p *string, name, value, usage string) {
	f.StringVarP(p, name, "", value, usage)
}
func (f *FlagSet) BoolVarP(p *bool, name, short string, value bool, usage string) {
	f.add(&Flag{Name: name, Shorthand: short, b: p, db: value})
}
func (f *FlagSet) BoolVar(p *bool, name string, value bool, usage string) {
	f.BoolVarP(p, name, "", value, usage)
}
func (f *FlagSet) IntVarP(p *int, name, short string, value int, usage string) {
	f.add(&Flag{Name: name, Shorthand: short, i: p, di: value})
}
func (f *FlagSet) IntVar(p *int, name string, value int, usage string) {
	f.IntVarP(p, name, "", value, usage)
}
func (f *FlagSet) String(name, value, usage string) *string {
	p := new(string)
	f.StringVar(p, name, value, usage)
	return p
}
func (f *FlagSet) StringP(name, short, value, usage string) *string {
	p := new(string)
	f.StringVarP(p, name, short, value, usage)
	return p
}
func (f *FlagSet) Bool(name string, value bool, usage string) *bool {
	p := new(bool)
	f.BoolVar(p, name, value, usage)
	return p
}
func (f *FlagSet) BoolP(name, short string, value bool, usage string) *bool {
	p := new(bool)
	f.BoolVarP(p, name, short, value, usage)
	return p
}
func (f *FlagSet) Lookup(name string) *Flag {
	for i := len(f.list) - 1; i >= 0; i-- {
		if f.list[i].Name == name {
			return f.list[i]
		}
	}
	return nil
}
func (f *FlagSet) Changed(name string) bool {
	x := f.Lookup(name)
	return x != nil && x.Changed
}
func (f *FlagSet) GetString(name string) (string, error) {
	if x := f.Lookup(name); x != nil && x.s != nil {
		return *x.s, nil
	}
	return "", errors.New("no such flag")
}
func (f *FlagSet) GetBool(name string) (bool, error) {
	if x := f.Lookup(name); x != nil && x.b != nil {
		return *x.b, nil
	}
	return false, errors.New("no such flag")
}
func (f *FlagSet) GetInt(name string) (int, error) {
	if x := f.Lookup(name); x != nil && x.i != nil {
		return *x.i, nil
	}
	return 0, errors.New("no such flag")
}
func (f *FlagSet) SortFlags(bool) {}

var root *Command

func (c *Command) AddCommand(cs ...*Command) {
	for _, s := range cs {
		s.parent = c
		c.subs = append(c.subs, s)
	}
	if c.parent == nil {
		root = c
	}
}
func (c *Command) Flags() *FlagSet {
	if c.flags == nil {
		c.flags = &FlagSet{}
	}
	return c.flags
}
func (c *Command) LocalFlags() *FlagSet { return c.Flags() }
func (c *Command) PersistentFlags() *FlagSet {
	if c.pflags == nil {
		c.pflags = &FlagSet{}
	}
	return c.pflags
}
func (c *Command) MarkFlagRequired(name string) error           { return nil }
func (c *Command) MarkPersistentFlagRequired(name string) error { return nil }
func (c *Command) Help() error                                  { return nil }
func (c *Command) Usage() error                                 { return nil }
func (c *Command) Name() string                                 { return strings.Fields(c.Use + " ")[0] }
func (c *Command) Root() *Command                               { return root }
func (c *Command) Parent() *Command                             { return c.parent }
func (c *Command) SetArgs(a []string)                           {}
func (c *Command) Println(a ...any)                             {}
func (c *Command) Printf(f string, a ...any)                    {}
func (c *Command) Print(a ...any)                               {}
func (c *Command) PrintErrln(a ...any)                          {}
func (c *Command) PrintErrf(f string, a ...any)                 {}

// Execute does nothing: harnesses run commands themselves.
func (c *Command) Execute() error { return nil }

// VPExec runs a command line of the tool.
func VPExec(args ...string) error {
	if root == nil {
		return errors.New("no command")
	}
	c := root
	if len(args) > 0 {
		for _, s := range c.subs {
			match := s.Name() == args[0]
			for _, a := range s.Aliases {
				match = match || a == args[0]
			}
			if match {
				c, args = s, args[1:]
				break
			}
		}
	}
	var rest []string
	for i := 0; i < len(args); i++ {
		a := args[i]
		if !strings.HasPrefix(a, "-") {
			rest = append(rest, a)
			continue
		}
		x := c.flag(strings.TrimLeft(a, "-"))
		if x == nil {
			return errors.New("unknown flag")
		}
		x.Changed = true
		if x.b != nil {
			*x.b = true
			continue
		}
		i++
		if i >= len(args) {
			return errors.New("flag needs an argument")
		}
		if x.s != nil {
			*x.s = args[i]
		} else {
			n, err := strconv.Atoi(args[i])
			if err != nil {
				return err
			}
			*x.i = n
		}
	}
	if c.Args != nil {
		if err := c.Args(c, rest); err != nil {
			return err
		}
	}
	if c.PreRunE != nil {
		if err := c.PreRunE(c, rest); err != nil {
			return err
		}
	} else if c.PreRun != nil {
		c.PreRun(c, rest)
	}
	var err error
	if c.RunE != nil {
		err = c.RunE(c, rest)
	} else if c.Run != nil {
		c.Run(c, rest)
	}
	if err == nil && c.PostRunE != nil {
		err = c.PostRunE(c, rest)
	} else if err == nil && c.PostRun != nil {
		c.PostRun(c, rest)
	}
	return err
}

func (c *Command) flag(name string) *Flag {
	for p := c; p != nil; p = p.parent {
		sets := []*FlagSet{p.PersistentFlags()}
		if p == c {
			sets = append(sets, p.Flags())
		}
		for _, s := range sets {
			for _, x := range s.list {
				if x.Name == name || x.Shorthand != "" && x.Shorthand == name {
					return x
				}
			}
		}
	}
	return nil
}

var errArgs = errors.New("wrong number of arguments")

func ExactArgs(n int) PositionalArgs { return RangeArgs(n, n) }
func MinimumNArgs(n int) PositionalArgs {
	return func(_ *Command, a []string) error {
		if len(a) < n {
			return errArgs
		}
		return nil
	}
}
func MaximumNArgs(n int) PositionalArgs { return RangeArgs(0, n) }
func RangeArgs(lo, hi int) PositionalArgs {
	return func(_ *Command, a []string) error {
		if len(a) < lo || len(a) > hi {
			return errArgs
		}
		return nil
	}
}
func NoArgs(c *Command, a []string) error        { return RangeArgs(0, 0)(c, a) }
func ArbitraryArgs(c *Command, a []string) error { return nil }
func CheckErr(msg any) {
	if msg != nil {
		panic(msg)
	}
}
func OnInitialize(y ...func()) {}
