// Package errors stands in for github.com/pkg/errors (which is not here).
package errors

import (
	std "errors"
	"fmt"
)

type withMessage struct {
	cause error
	msg   string
}

func (w *withMessage) Error() string { return w.msg + ": " + w.cause.Error() }
func (w *withMessage) Cause() error  { return w.cause }
func (w *withMessage) Unwrap() error { return w.cause }

type withStack struct{ error }

func (w *withStack) Cause() error  { return w.error }
func (w *withStack) Unwrap() error { return w.error }

type fundamental struct{ msg string }

func (f *fundamental) Error() string { return f.msg }

func New(message string) error { return &fundamental{message} }

func Errorf(format string, args ...interface{}) error {
	return &fundamental{fmt.Sprintf(format, args...)}
}

func WithStack(err error) error {
	if err == nil {
		return nil
	}
	return &withStack{err}
}

func WithMessage(err error, message string) error {
	if err == nil {
		return nil
	}
	return &withMessage{err, message}
}

func Wrap(err error, message string) error {
	if err == nil {
		return nil
	}
	return &withStack{&withMessage{err, message}}
}

func Wrapf(err error, format string, args ...interface{}) error {
	return Wrap(err, fmt.Sprintf(format, args...))
}

func Cause(err error) error {
	for err != nil {
		c, ok := err.(interface{ Cause() error })
		if !ok {
			break
		}
		err = c.Cause()
	}
	return err
}

func Is(err, target error) bool             { return std.Is(err, target) }
func As(err error, target interface{}) bool { return std.As(err, target) }
func Unwrap(err error) error                { return std.Unwrap(err) }
