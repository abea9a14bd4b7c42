package main

// Native evaluation of pure library functions on concrete arguments.

import (
	"encoding/base64"
	"encoding/hex"
	"go/types"
	"math"
	"net/url"
	"path"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

var nativePrefer = map[string]any{
	"strings.Contains": strings.Contains, "strings.ContainsRune": strings.ContainsRune, "strings.ContainsAny": strings.ContainsAny,
	"strings.Count": strings.Count, "strings.EqualFold": strings.EqualFold, "strings.Fields": strings.Fields,
	"strings.HasPrefix": strings.HasPrefix, "strings.HasSuffix": strings.HasSuffix, "strings.Index": strings.Index,
	"strings.IndexByte": strings.IndexByte, "strings.IndexAny": strings.IndexAny, "strings.LastIndex": strings.LastIndex,
	"strings.LastIndexByte": strings.LastIndexByte,
	"strings.Join":          strings.Join, "strings.Repeat": strings.Repeat, "strings.Replace": strings.Replace,
	"strings.ReplaceAll": strings.ReplaceAll, "strings.Split": strings.Split, "strings.SplitN": strings.SplitN,
	"strings.SplitAfterN": strings.SplitAfterN, "strings.SplitAfter": strings.SplitAfter,
	"strings.ToLower": strings.ToLower, "strings.ToUpper": strings.ToUpper, "strings.Title": strings.Title,
	"strings.Trim": strings.Trim, "strings.TrimLeft": strings.TrimLeft, "strings.TrimRight": strings.TrimRight,
	"strings.TrimSpace": strings.TrimSpace, "strings.TrimPrefix": strings.TrimPrefix, "strings.TrimSuffix": strings.TrimSuffix,
	"strings.Cut": strings.Cut, "strings.CutPrefix": strings.CutPrefix, "strings.CutSuffix": strings.CutSuffix,
	"strings.Compare": strings.Compare,
	"path.Join":       path.Join, "path.Clean": path.Clean, "path.Base": path.Base, "path.Dir": path.Dir, "path.Ext": path.Ext,
	"path.IsAbs": path.IsAbs, "path.Match": path.Match, "path.Split": path.Split,
	"path/filepath.Join": filepath.Join, "path/filepath.Clean": filepath.Clean, "path/filepath.Base": filepath.Base,
	"path/filepath.Dir": filepath.Dir, "path/filepath.Ext": filepath.Ext, "path/filepath.IsAbs": filepath.IsAbs,
	"path/filepath.Match": filepath.Match, "path/filepath.Split": filepath.Split, "path/filepath.Rel": filepath.Rel,
	"path/filepath.IsLocal": filepath.IsLocal, "path/filepath.ToSlash": filepath.ToSlash, "path/filepath.FromSlash": filepath.FromSlash,
	"net/url.QueryEscape": url.QueryEscape, "net/url.PathEscape": url.PathEscape, "net/url.JoinPath": url.JoinPath,
	"net/url.QueryUnescape": url.QueryUnescape, "net/url.PathUnescape": url.PathUnescape,
	"strconv.Itoa": strconv.Itoa, "strconv.Atoi": strconv.Atoi, "strconv.FormatInt": strconv.FormatInt, "strconv.FormatUint": strconv.FormatUint,
	"strconv.ParseInt": strconv.ParseInt, "strconv.ParseUint": strconv.ParseUint, "strconv.ParseBool": strconv.ParseBool,
	"strconv.Quote": strconv.Quote, "strconv.Unquote": strconv.Unquote, "strconv.ParseFloat": strconv.ParseFloat, "strconv.FormatBool": strconv.FormatBool,
	"encoding/hex.EncodeToString": hex.EncodeToString, "encoding/hex.DecodeString": hex.DecodeString,
	"math.Pow": math.Pow, "math.Floor": math.Floor, "math.Ceil": math.Ceil, "math.Log2": math.Log2, "math.Log": math.Log,
	"math.Abs": math.Abs, "math.Sqrt": math.Sqrt, "math.Mod": math.Mod, "math.Exp2": math.Exp2, "math.Trunc": math.Trunc,
	"math.Float64bits": math.Float64bits, "math.Float64frombits": math.Float64frombits, "math.Inf": math.Inf, "math.IsNaN": math.IsNaN,
	"math.Pow10": math.Pow10, "math.Round": math.Round, "math.IsInf": math.IsInf, "math.floor": math.Floor,
	"unicode.IsUpper": unicode.IsUpper, "unicode.IsLower": unicode.IsLower, "unicode.IsSpace": unicode.IsSpace, "unicode.IsDigit": unicode.IsDigit,
	"unicode.IsLetter": unicode.IsLetter, "unicode.ToLower": unicode.ToLower, "unicode.ToUpper": unicode.ToUpper, "unicode.SimpleFold": unicode.SimpleFold,
	"unicode/utf8.ValidString": utf8.ValidString, "unicode/utf8.RuneCountInString": utf8.RuneCountInString, "unicode/utf8.DecodeRuneInString": utf8.DecodeRuneInString,
	"unicode/utf8.Valid": utf8.Valid, "unicode/utf8.RuneLen": utf8.RuneLen,
}

var b64 = map[string]*base64.Encoding{"URLEncoding": base64.URLEncoding, "StdEncoding": base64.StdEncoding, "RawURLEncoding": base64.RawURLEncoding, "RawStdEncoding": base64.RawStdEncoding}

// toNative converts a concrete engine value to a Go value of type rt.
func (in *Interp) toNative(v Value, rt reflect.Type) (reflect.Value, bool) {
	out := reflect.New(rt).Elem()
	switch rt.Kind() {
	case reflect.String:
		s, ok := v.(*Str)
		if !ok {
			return out, false
		}
		if s.rope != nil {
			for _, g := range s.rope {
				if g.str == nil || !g.str.concrete() {
					return out, false
				}
			}
			s = in.force(s)
		}
		if !s.concrete() {
			return out, false
		}
		out.SetString(s.s)
	case reflect.Bool:
		t, ok := v.(*Term)
		if !ok || t.op != OConst {
			return out, false
		}
		out.SetBool(t.val != 0)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		t, ok := v.(*Term)
		if !ok || t.op != OConst {
			return out, false
		}
		out.SetInt(t.Signed())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		t, ok := v.(*Term)
		if !ok || t.op != OConst {
			return out, false
		}
		out.SetUint(t.val)
	case reflect.Float64, reflect.Float32:
		f, ok := v.(float64)
		if !ok {
			return out, false
		}
		out.SetFloat(f)
	case reflect.Slice:
		s, ok := v.(Slice)
		if !ok {
			return out, false
		}
		if rt.Elem().Kind() == reflect.Uint8 {
			b, ok := in.concBytes(s)
			if !ok {
				return out, false
			}
			if s.nil_ {
				b = nil
			}
			out.SetBytes(b)
			return out, true
		}
		if s.blob != nil {
			return out, false
		}
		n := reflect.MakeSlice(rt, len(s.a), len(s.a))
		for i, e := range s.a {
			x, ok := in.toNative(e, rt.Elem())
			if !ok {
				return out, false
			}
			n.Index(i).Set(x)
		}
		out.Set(n)
	default:
		return out, false
	}
	return out, true
}

func (in *Interp) fromNative(x reflect.Value, t types.Type) (Value, bool) {
	switch x.Kind() {
	case reflect.String:
		return cstr(x.String()), true
	case reflect.Bool:
		return in.c.B(x.Bool()), true
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		w, _, _ := intInfo(t)
		return in.c.BV(uint64(x.Int()), w), true
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		w, _, _ := intInfo(t)
		return in.c.BV(x.Uint(), w), true
	case reflect.Float64, reflect.Float32:
		return x.Float(), true
	case reflect.Slice:
		if x.IsNil() {
			return Slice{nil_: true}, true
		}
		if x.Type().Elem().Kind() == reflect.Uint8 {
			return in.mkBytesC(x.Bytes()), true
		}
		et := t.Underlying().(*types.Slice).Elem()
		a := make([]Value, x.Len())
		for i := range a {
			v, ok := in.fromNative(x.Index(i), et)
			if !ok {
				return nil, false
			}
			a[i] = v
		}
		return Slice{a: a}, true
	case reflect.Interface: // error
		if x.IsNil() {
			return Iface{}, true
		}
	}
	return nil, false
}

// tryNative runs a pure function natively when all arguments are concrete and it
// does not return an error.
func (in *Interp) tryNative(name string, fn *ssa.Function, args []Value) (res Value, ok bool) {
	f, have := nativePrefer[name]
	if !have {
		return nil, false
	}
	fv := reflect.ValueOf(f)
	ft := fv.Type()
	if ft.NumIn() != len(args) {
		return nil, false
	}
	av := make([]reflect.Value, len(args))
	for i, a := range args {
		x, ok := in.toNative(a, ft.In(i))
		if !ok {
			return nil, false
		}
		av[i] = x
	}
	defer func() {
		if recover() != nil {
			res, ok = nil, false
		}
	}()
	var out []reflect.Value
	if ft.IsVariadic() {
		out = fv.CallSlice(av)
	} else {
		out = fv.Call(av)
	}
	rt := fn.Signature.Results()
	if rt.Len() != len(out) {
		return nil, false
	}
	if len(out) == 1 {
		return in.fromNative(out[0], rt.At(0).Type())
	}
	tp := make(Tuple, len(out))
	for i := range out {
		v, ok := in.fromNative(out[i], rt.At(i).Type())
		if !ok {
			return nil, false
		}
		tp[i] = v
	}
	return tp, true
}
