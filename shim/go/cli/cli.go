// Package cli stands in for github.com/urfave/cli/v2 (which is not here).
package cli

import "flag"

type Context struct{}

type Flag interface{ add(s *flag.FlagSet) }

type BoolFlag struct {
	Name        string
	Aliases     []string
	Usage       string
	Value       bool
	Destination *bool
}

type StringFlag struct {
	Name        string
	Aliases     []string
	Usage       string
	Value       string
	Destination *string
}

func (f *BoolFlag) add(s *flag.FlagSet) {
	for _, n := range append([]string{f.Name}, f.Aliases...) {
		s.BoolVar(f.Destination, n, f.Value, f.Usage)
	}
}

func (f *StringFlag) add(s *flag.FlagSet) {
	for _, n := range append([]string{f.Name}, f.Aliases...) {
		s.StringVar(f.Destination, n, f.Value, f.Usage)
	}
}

type App struct {
	Name   string
	Usage  string
	Flags  []Flag
	Action func(*Context) error
}

func (a *App) Run(args []string) error {
	s := flag.NewFlagSet(a.Name, flag.ContinueOnError)
	for _, f := range a.Flags {
		f.add(s)
	}
	if err := s.Parse(args[1:]); err != nil {
		return err
	}
	return a.Action(&Context{})
}
