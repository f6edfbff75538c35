// Package logging is a stand-in for github.com/amarin/logging v0.1.0, whose dependencies are not present in the
// sandbox. Messages are dropped unless Record is set.
package logging

import "os"

// Record, if set, is given every message: format is empty if the arguments are to be printed as they are.
var Record func(level Level, format string, args []interface{})

func record(level Level, format string, args []interface{}) {
	if Record != nil {
		Record(level, format, args)
	}
}

type Level int

const (
	LevelTrace   Level = 0
	LevelDebug   Level = 1
	LevelInfo    Level = 2
	LevelWarn    Level = 3
	LevelError   Level = 4
	LevelPanic   Level = 5
	LevelFatal   Level = 6
	DefaultLevel       = LevelInfo
)

type Key string

func (k Key) String() string { return string(k) }

type Keys map[Key]any

type Config struct{ Level Level }

type Option func(*Config)

func WithLevel(level Level) Option { return func(c *Config) { c.Level = level } }

func Init(options ...Option) error { return nil }
func MustInit(options ...Option)   {}

type Logger interface {
	Level() Level
	IsEnabledForLevel(level Level) bool
	Trace(args ...interface{})
	Tracef(fmt string, args ...interface{})
	Debug(args ...interface{})
	Debugf(fmt string, args ...interface{})
	Info(args ...interface{})
	Infof(fmt string, args ...interface{})
	Warn(args ...interface{})
	Warnf(fmt string, args ...interface{})
	Error(args ...interface{})
	Errorf(fmt string, args ...interface{})
	Fatal(args ...interface{})
	Fatalf(fmt string, args ...interface{})
	WithKeys(fields Keys) Logger
	WithKey(key string, value any) Logger
	WithError(err error) Logger
	WithLevel(level Level) Logger
}

type nopLogger struct{ level Level }

func (n nopLogger) Level() Level                         { return n.level }
func (n nopLogger) IsEnabledForLevel(level Level) bool   { return level >= n.level }
func (nopLogger) Trace(args ...interface{})              { record(LevelTrace, "", args) }
func (nopLogger) Tracef(f string, args ...interface{})   { record(LevelTrace, f, args) }
func (nopLogger) Debug(args ...interface{})              { record(LevelDebug, "", args) }
func (nopLogger) Debugf(f string, args ...interface{})   { record(LevelDebug, f, args) }
func (nopLogger) Info(args ...interface{})               { record(LevelInfo, "", args) }
func (nopLogger) Infof(f string, args ...interface{})    { record(LevelInfo, f, args) }
func (nopLogger) Warn(args ...interface{})               { record(LevelWarn, "", args) }
func (nopLogger) Warnf(f string, args ...interface{})    { record(LevelWarn, f, args) }
func (nopLogger) Error(args ...interface{})              { record(LevelError, "", args) }
func (nopLogger) Errorf(f string, args ...interface{})   { record(LevelError, f, args) }
func (nopLogger) Fatal(args ...interface{})              { os.Exit(1) }
func (nopLogger) Fatalf(f string, args ...interface{})   { os.Exit(1) }
func (n nopLogger) WithKeys(fields Keys) Logger          { return n }
func (n nopLogger) WithKey(key string, value any) Logger { return n }
func (n nopLogger) WithError(err error) Logger           { return n }
func (n nopLogger) WithLevel(level Level) Logger         { return nopLogger{level} }

func NewNamedLogger(name string, levels ...Level) Logger { return nopLogger{DefaultLevel} }
func NewLogger(levels ...Level) Logger                   { return nopLogger{DefaultLevel} }
