// Package vmodel holds Go models of library functions that use reflection.
package vmodel

type fmtError struct {
	msg string
	err error
}

func (e *fmtError) Error() string { return e.msg }
func (e *fmtError) Unwrap() error { return e.err }

type fmtErrors struct {
	msg  string
	errs []error
}

func (e *fmtErrors) Error() string   { return e.msg }
func (e *fmtErrors) Unwrap() []error { return e.errs }

// Errorf keeps the format as the message and wraps error operands of %w.
func Errorf(format string, args ...any) error {
	var errs []error
	n := 0
	for i := 0; i+1 < len(format); i++ {
		if format[i] != '%' {
			continue
		}
		i++
		for i < len(format) && (format[i] == '+' || format[i] == '#' || format[i] == '-' || format[i] == ' ' || format[i] == '.' || (format[i] >= '0' && format[i] <= '9')) {
			i++
		}
		if i >= len(format) {
			break
		}
		if format[i] == '%' {
			continue
		}
		if format[i] == 'w' && n < len(args) {
			if e, ok := args[n].(error); ok {
				errs = append(errs, e)
			}
		}
		n++
	}
	switch len(errs) {
	case 0:
		return &fmtError{msg: format}
	case 1:
		return &fmtError{msg: format, err: errs[0]}
	}
	return &fmtErrors{format, errs}
}

// Sprintf is opaque: the text is the format itself.
func Sprintf(format string, args ...any) string { return format }

func Sprint(args ...any) string { return "text" }

func asTarget(err error, target any) bool { return false }

// ErrorsAs walks the error tree.
func ErrorsAs(err error, target any) bool {
	if err == nil {
		return false
	}
	for {
		if asTarget(err, target) {
			return true
		}
		if x, ok := err.(interface{ As(any) bool }); ok && x.As(target) {
			return true
		}
		switch x := err.(type) {
		case interface{ Unwrap() error }:
			err = x.Unwrap()
			if err == nil {
				return false
			}
		case interface{ Unwrap() []error }:
			for _, e := range x.Unwrap() {
				if e == nil {
					continue
				}
				if ErrorsAs(e, target) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
}
