package model

import (
	"errors"
	"io"
	"math"
	"os"
	"reflect"
	"sort"
	"strconv"
)

type fmtError struct {
	msg string
	err error
}

func (e *fmtError) Error() string { return e.msg }
func (e *fmtError) Unwrap() error { return e.err }

type stringer interface{ String() string }

// guarded calls a String or Error method the way fmt does: a panic becomes text.
func guarded(f func() string) (s string) {
	defer func() {
		if r := recover(); r != nil {
			s = "%!v(PANIC)"
		}
	}()
	return f()
}

func hexDigits(u uint64, digits string) string {
	if u == 0 {
		return "0"
	}
	var b [16]byte
	i := 16
	for u > 0 {
		i--
		b[i] = digits[u&15]
		u >>= 4
	}
	return string(b[i:])
}

func intText(i int64, verb byte) string {
	switch verb {
	case 'x', 'X':
		d := "0123456789abcdef"
		if verb == 'X' {
			d = "0123456789ABCDEF"
		}
		if i < 0 {
			return "-" + hexDigits(uint64(-i), d)
		}
		return hexDigits(uint64(i), d)
	case 'o':
		return strconv.FormatInt(i, 8)
	case 'b':
		return strconv.FormatInt(i, 2)
	case 'c':
		return string(rune(i))
	}
	return strconv.FormatInt(i, 10)
}

func uintText(u uint64, verb byte) string {
	switch verb {
	case 'x':
		return hexDigits(u, "0123456789abcdef")
	case 'X':
		return hexDigits(u, "0123456789ABCDEF")
	case 'o':
		return strconv.FormatUint(u, 8)
	case 'b':
		return strconv.FormatUint(u, 2)
	case 'c':
		return string(rune(u))
	}
	return strconv.FormatUint(u, 10)
}

func formatArg(v any, verb byte) string {
	if v == nil {
		return "<nil>"
	}
	if verb == 'T' {
		return typeString(v)
	}
	if verb == 'p' {
		return opaque("<ptr>")
	}
	if verb == 'v' || verb == 's' || verb == 'q' || verb == 'x' && kind(v) == int(reflect.String) {
		switch e := v.(type) {
		case error:
			return guarded(func() string { return e.Error() })
		case stringer:
			return guarded(func() string { return e.String() })
		}
	}
	k := reflect.Kind(kind(v))
	if isSym(v) && k != reflect.String && k != reflect.Slice {
		return opaque("<num>")
	}
	switch x := base(v).(type) {
	case bool:
		if x {
			return "true"
		}
		return "false"
	case string:
		if verb == 'q' {
			return quote(x)
		}
		return x
	case int:
		return intText(int64(x), verb)
	case int8:
		return intText(int64(x), verb)
	case int16:
		return intText(int64(x), verb)
	case int32:
		return intText(int64(x), verb)
	case int64:
		return intText(x, verb)
	case uint:
		return uintText(uint64(x), verb)
	case uint8:
		return uintText(uint64(x), verb)
	case uint16:
		return uintText(uint64(x), verb)
	case uint32:
		return uintText(uint64(x), verb)
	case uint64:
		return uintText(x, verb)
	case uintptr:
		return uintText(uint64(x), verb)
	case float32:
		return fmtFloat(uint64(math.Float32bits(x)), 32)
	case float64:
		return fmtFloat(math.Float64bits(x), 64)
	case []byte:
		if verb == 's' {
			return string(x)
		}
	}
	if k == reflect.Slice {
		s := "["
		for i, n := 0, sliceLen(v); i < n; i++ {
			if i > 0 {
				s += " "
			}
			s += formatArg(sliceAt(v, i), verb)
		}
		return s + "]"
	}
	return opaque(show(v))
}

// spec is what a format says between the percent sign and the verb.
type spec struct {
	minus, plus, sharp, zero, other, hasPrec bool
	width, prec                              int
}

// format formats an argument.  Width and precision are those of fmt for
// strings and for the width of integers; otherwise the text is opaque.
func (o *spec) format(v any, verb byte) string {
	s := formatArg(v, verb)
	if *o == (spec{}) {
		return s
	}
	text, num := false, false
	if v != nil {
		switch reflect.Kind(kind(v)) {
		case reflect.String:
			text = verb == 's' || verb == 'v'
		case reflect.Slice:
			_, b := base(v).([]byte)
			text = b && verb == 's'
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
			num = !isSym(v)
		}
		switch v.(type) {
		case error, stringer:
			text, num = verb == 's' || verb == 'v', false
		}
	}
	if o.sharp && (text || num) || o.other && num || num && o.hasPrec || num && o.plus && verb != 'd' && verb != 'v' {
		return opaque(s)
	}
	switch {
	case text:
		if o.hasPrec {
			n := 0
			for i := range s {
				if n == o.prec {
					s = s[:i]
					break
				}
				n++
			}
		}
	case num:
		if o.plus && s[0] != '-' {
			s = "+" + s
		}
	default:
		if *o == (spec{plus: o.plus, sharp: o.sharp}) {
			return s
		}
		return opaque(s)
	}
	if o.width == 0 {
		return s
	}
	n := 0
	for range s {
		n++
	}
	for ; n < o.width; n++ {
		switch {
		case o.minus:
			s += " "
		case o.zero && num && (s[0] == '-' || s[0] == '+'):
			s = s[:1] + "0" + s[1:]
		case o.zero:
			s = "0" + s
		default:
			s = " " + s
		}
	}
	return s
}

func format(f string, args []any) string {
	s := ""
	n := 0
	last := 0
	for i := 0; i < len(f); {
		if f[i] != '%' {
			i++
			continue
		}
		s += f[last:i]
		i++
		var o spec
		for i < len(f) && (f[i] == '+' || f[i] == '#' || f[i] == '-' || f[i] == ' ' || f[i] == '0') {
			switch f[i] {
			case '-':
				o.minus = true
			case '0':
				o.zero = true
			case ' ':
				o.other = true
			case '#':
				o.sharp = true
			case '+':
				o.plus = true
			}
			i++
		}
		for i < len(f) && f[i] >= '0' && f[i] <= '9' {
			o.width = o.width*10 + int(f[i]-'0')
			i++
		}
		if i < len(f) && f[i] == '.' {
			o.hasPrec = true
			i++
			for i < len(f) && f[i] >= '0' && f[i] <= '9' {
				o.prec = o.prec*10 + int(f[i]-'0')
				i++
			}
		}
		if i < len(f) && (f[i] == '*' || f[i] == '[') {
			unsupported("an argument given as width or by index in a format")
		}
		if i >= len(f) {
			s += "%!(NOVERB)"
			last = i
			break
		}
		verb := f[i]
		i++
		last = i
		if verb == '%' {
			s += "%"
			continue
		}
		if n >= len(args) {
			s += "%!" + string(rune(verb)) + "(MISSING)"
			continue
		}
		if verb == 'w' {
			verb = 'v'
		}
		s += o.format(args[n], verb)
		n++
	}
	s += f[last:]
	if n < len(args) {
		s += "%!(EXTRA)"
	}
	return s
}

func sprintln(args []any) string {
	s := ""
	for i, a := range args {
		if i > 0 {
			s += " "
		}
		s += formatArg(a, 'v')
	}
	return s + "\n"
}

func sprint(args []any) string {
	s := ""
	prevStr := true
	for i, a := range args {
		isStr := a != nil && kind(a) == int(reflect.String)
		if i > 0 && !isStr && !prevStr {
			s += " "
		}
		s += formatArg(a, 'v')
		prevStr = isStr
	}
	return s
}

//sym:replace fmt.Sprintf
func fmtSprintf(f string, args ...any) string { return format(f, args) }

//sym:replace fmt.Sprint
func fmtSprint(args ...any) string { return sprint(args) }

//sym:replace fmt.Sprintln
func fmtSprintln(args ...any) string { return sprintln(args) }

//sym:replace fmt.Errorf
func fmtErrorf(f string, args ...any) error {
	e := &fmtError{msg: format(f, args)}
	for i := 0; i+1 < len(f); i++ {
		if f[i] == '%' && f[i+1] == 'w' {
			for _, a := range args {
				if err, ok := a.(error); ok {
					e.err = err
				}
			}
		}
	}
	return e
}

//sym:replace fmt.Fprintf
func fmtFprintf(w io.Writer, f string, args ...any) (int, error) {
	return w.Write([]byte(format(f, args)))
}

//sym:replace fmt.Fprintln
func fmtFprintln(w io.Writer, args ...any) (int, error) { return w.Write([]byte(sprintln(args))) }

//sym:replace fmt.Fprint
func fmtFprint(w io.Writer, args ...any) (int, error) { return w.Write([]byte(sprint(args))) }

//sym:replace fmt.Printf
func fmtPrintf(f string, args ...any) (int, error) { return len(f), nil }

//sym:replace fmt.Println
func fmtPrintln(args ...any) (int, error) { return 1, nil }

//sym:replace fmt.Print
func fmtPrint(args ...any) (int, error) { return 1, nil }

//sym:replace errors.Is
func errorsIs(err, target error) bool {
	for err != nil {
		if comparable(target) && comparable(err) && err == target {
			return true
		}
		if x, ok := err.(interface{ Is(error) bool }); ok && x.Is(target) {
			return true
		}
		u, ok := err.(interface{ Unwrap() error })
		if !ok {
			return false
		}
		err = u.Unwrap()
	}
	return target == nil
}

//sym:replace sort.Slice
func sortSlice(x any, less func(i, j int) bool) {
	n := sliceLen(x)
	for i := 1; i < n; i++ {
		for j := i; j > 0 && less(j, j-1); j-- {
			sliceSwap(x, j, j-1)
		}
	}
}

//sym:replace sort.SliceStable
func sortSliceStable(x any, less func(i, j int) bool) { sortSlice(x, less) }

//sym:replace sort.Strings
func sortStrings(x []string) { sort.Sort(sort.StringSlice(x)) }

//sym:replace sort.Ints
func sortInts(x []int) { sort.Sort(sort.IntSlice(x)) }

type byteOrder interface {
	PutUint16([]byte, uint16)
	PutUint32([]byte, uint32)
	PutUint64([]byte, uint64)
}

var errBinary = errors.New("binary.Write: some values are not fixed-sized")

func encode(o byteOrder, v any) ([]byte, error) {
	if v == nil {
		return nil, errBinary
	}
	k := reflect.Kind(kind(v))
	if k == reflect.Ptr {
		return encode(o, deref(v))
	}
	b8 := make([]byte, 8)
	switch x := base(v).(type) {
	case bool:
		if x {
			return []byte{1}, nil
		}
		return []byte{0}, nil
	case int8:
		return []byte{byte(x)}, nil
	case uint8:
		return []byte{x}, nil
	case int16:
		o.PutUint16(b8, uint16(x))
		return b8[:2], nil
	case uint16:
		o.PutUint16(b8, x)
		return b8[:2], nil
	case int32:
		o.PutUint32(b8, uint32(x))
		return b8[:4], nil
	case uint32:
		o.PutUint32(b8, x)
		return b8[:4], nil
	case int64:
		o.PutUint64(b8, uint64(x))
		return b8, nil
	case uint64:
		o.PutUint64(b8, x)
		return b8, nil
	case float32:
		o.PutUint32(b8, math.Float32bits(x))
		return b8[:4], nil
	case float64:
		o.PutUint64(b8, math.Float64bits(x))
		return b8, nil
	case []byte:
		return append([]byte{}, x...), nil
	}
	switch k {
	case reflect.Slice:
		var out []byte
		for i, n := 0, sliceLen(v); i < n; i++ {
			e, err := encode(o, sliceAt(v, i))
			if err != nil {
				return nil, err
			}
			out = append(out, e...)
		}
		return out, nil
	case reflect.Struct, reflect.Array:
		unsupported("binary.Write of a " + k.String())
	}
	return nil, errBinary
}

//sym:replace encoding/binary.Write
func binaryWrite(w io.Writer, order any, data any) error {
	b, err := encode(order.(byteOrder), data)
	if err != nil {
		return err
	}
	_, err = w.Write(b)
	return err
}

//sym:replace encoding/binary.Append
func binaryAppend(buf []byte, order any, data any) ([]byte, error) {
	b, err := encode(order.(byteOrder), data)
	if err != nil {
		return nil, err
	}
	return append(buf, b...), nil
}

//sym:replace encoding/binary.Size
func binarySize(v any) int {
	b, err := encode(leOrder{}, v)
	if err != nil {
		return -1
	}
	return len(b)
}

type leOrder struct{}

func (leOrder) PutUint16(b []byte, v uint16) { b[0], b[1] = byte(v), byte(v>>8) }
func (leOrder) PutUint32(b []byte, v uint32) {
	b[0], b[1], b[2], b[3] = byte(v), byte(v>>8), byte(v>>16), byte(v>>24)
}
func (leOrder) PutUint64(b []byte, v uint64) {
	leOrder{}.PutUint32(b, uint32(v))
	leOrder{}.PutUint32(b[4:], uint32(v>>32))
}

var _ = os.Stderr
