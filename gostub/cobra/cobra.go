// Package cobra: offline stand-in for github.com/spf13/cobra (v1.8.0 is not
// available in the sandbox): one root command with string flags.
package cobra

import (
	"fmt"
	"os"
	"strings"
)

type flag struct {
	name, short string
	set         func(string) error
}

type FlagSet struct{ flags []*flag }

func (f *FlagSet) StringVarP(p *string, name, short, def, usage string) {
	*p = def
	f.flags = append(f.flags, &flag{name, short, func(s string) error { *p = s; return nil }})
}

func (f *FlagSet) StringArrayVarP(p *[]string, name, short string, def []string, usage string) {
	*p = def
	changed := false
	f.flags = append(f.flags, &flag{name, short, func(s string) error {
		if !changed {
			*p = []string{s}
			changed = true
		} else {
			*p = append(*p, s)
		}
		return nil
	}})
}

func (f *FlagSet) find(name string, short bool) *flag {
	for _, x := range f.flags {
		if (!short && x.name == name) || (short && x.short == name) {
			return x
		}
	}
	return nil
}

func (f *FlagSet) parse(args []string) ([]string, error) {
	rest := []string{}
	for i := 0; i < len(args); i++ {
		a := args[i]
		var x *flag
		val, has := "", false
		switch {
		case a == "--":
			return append(rest, args[i+1:]...), nil
		case strings.HasPrefix(a, "--"):
			n := a[2:]
			if k := strings.Index(n, "="); k >= 0 {
				n, val, has = n[:k], n[k+1:], true
			}
			x = f.find(n, false)
		case strings.HasPrefix(a, "-") && len(a) > 1:
			x = f.find(a[1:2], true)
			if len(a) > 2 {
				val, has = strings.TrimPrefix(a[2:], "="), true
			}
		default:
			rest = append(rest, a)
			continue
		}
		if x == nil {
			return nil, fmt.Errorf("unknown flag: %s", a)
		}
		if !has {
			if i+1 >= len(args) {
				return nil, fmt.Errorf("flag needs an argument: %s", a)
			}
			i++
			val = args[i]
		}
		if err := x.set(val); err != nil {
			return nil, err
		}
	}
	return rest, nil
}

type Command struct {
	Use           string
	Short         string
	Long          string
	SilenceUsage  bool
	SilenceErrors bool
	RunE          func(cmd *Command, args []string) error
	Run           func(cmd *Command, args []string)
	fs            FlagSet
}

func (c *Command) Flags() *FlagSet { return &c.fs }

func (c *Command) Execute() error {
	args, err := c.fs.parse(os.Args[1:])
	if err == nil {
		if c.RunE != nil {
			err = c.RunE(c, args)
		} else if c.Run != nil {
			c.Run(c, args)
		}
	}
	if err != nil {
		if !c.SilenceErrors {
			fmt.Fprintln(os.Stderr, "Error:", err.Error())
		}
		if !c.SilenceUsage {
			fmt.Fprintln(os.Stderr, "Usage:\n  "+c.Use+" [flags]")
		}
	}
	return err
}

func CheckErr(msg interface{}) {
	if msg != nil {
		fmt.Fprintln(os.Stderr, "Error:", msg)
		os.Exit(1)
	}
}
