// Package vreadline is a stand-in for github.com/chzyer/readline: the harness gives the lines.
package vreadline

import (
	"errors"
	"io"

	"verif.test/v/sym"
)

var (
	ErrInterrupt = errors.New("Interrupt")

	// Lines are the lines typed; afterwards the input ends.
	Lines []string

	// NewErr fails New.
	NewErr error

	// EndErr ends the input (io.EOF if nil).
	EndErr error

	// Open counts instances that are not closed, and Reads the lines asked for.
	Open, Reads int
)

func init() {
	sym.Reset = append(sym.Reset, func() { Lines, NewErr, EndErr, Open, Reads = nil, nil, nil, 0, 0 })
}

// Config is a configuration.
type Config struct {
	Prompt, HistoryFile, InterruptPrompt, EOFPrompt string
	HistoryLimit                                    int
}

// Instance is a line editor.
type Instance struct {
	Config *Config
	pos    int
}

func New(prompt string) (*Instance, error) { return NewEx(&Config{Prompt: prompt}) }

func NewEx(c *Config) (*Instance, error) {
	if NewErr != nil {
		return nil, NewErr
	}
	Open++
	return &Instance{Config: c}, nil
}

func (i *Instance) Readline() (string, error) {
	Reads++
	if i.pos >= len(Lines) {
		if EndErr != nil {
			return "", EndErr
		}
		return "", io.EOF
	}
	i.pos++
	return Lines[i.pos-1], nil
}

func (i *Instance) SetPrompt(string)            {}
func (i *Instance) Refresh()                    {}
func (i *Instance) Write(b []byte) (int, error) { return len(b), nil }
func (i *Instance) SaveHistory(string) error    { return nil }
func (i *Instance) Close() error {
	Open--
	return nil
}
