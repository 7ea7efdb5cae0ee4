package main

import (
	"fmt"
	"math/rand"
	"path/filepath"
	"reflect"
	"strings"
	"time"
)

// Everything that may differ between two processes which run the same analysed code: the iteration order of maps, the
// time, the environment, addresses, the working directory. in.extra["world"] selects one of many such processes.

func (in *Interp) worldNo() int {
	n, _ := in.extra["world"].(int)
	return n
}

// mapOrder is the order in which a range statement visits the entries; nil is the insertion order, entries that are
// added meanwhile included.
func (in *Interp) mapOrder(m *Map) []int {
	w := in.worldNo()
	if w == 0 {
		return nil
	}
	n := len(m.keys)
	o := make([]int, n)
	for i := range o {
		o[i] = i
	}
	k, _ := in.extra["mapranges"].(int)
	in.extra["mapranges"] = k + 1
	switch w {
	case 1:
		for i := range o {
			o[i] = n - 1 - i
		}
	case 2:
		for i := range o {
			o[i] = (i + (n+1)/2) % n
		}
	default:
		r := rand.New(rand.NewSource(int64(w)*1000003 + int64(k)))
		r.Shuffle(n, func(i, j int) { o[i], o[j] = o[j], o[i] })
	}
	return o
}

func (in *Interp) impureCount(what string) int {
	in.event("env", what, "")
	k, _ := in.extra["impure"].(int)
	in.extra["impure"] = k + 1
	return k + in.worldNo()*7919
}

func (in *Interp) pointerText() string {
	return fmt.Sprintf("0xc0000%05x", 0x10000+in.worldNo()*4096)
}

func (in *Interp) opaquePtr(name string, v any) Value {
	p := new(Value)
	*p = &Opaque{name: name, v: v}
	return p
}

func (in *Interp) impureMethod(cf *cfunc, args []Value) (Value, bool) {
	var recv reflect.Value
	switch {
	case strings.HasPrefix(cf.name, "(time.Time)."):
		t := time.Time{}
		if o, ok := args[0].(*Opaque); ok {
			t = o.v.(time.Time)
		}
		switch cf.fn.Name() {
		case "Sub", "After", "Before", "Equal", "Compare":
			u := time.Time{}
			if o, ok := args[1].(*Opaque); ok {
				u = o.v.(time.Time)
			}
			return fromReflect(in, reflect.ValueOf(t).MethodByName(cf.fn.Name()).Call([]reflect.Value{reflect.ValueOf(u)})[0]), true
		case "UTC", "Local":
			return &Opaque{name: "time", v: t.UTC()}, true
		case "Add":
			return &Opaque{name: "time", v: t.Add(time.Duration(in.asInt(args[1])))}, true
		case "Truncate", "Round":
			return &Opaque{name: "time", v: t.Truncate(time.Duration(in.asInt(args[1])))}, true
		}
		recv = reflect.ValueOf(t)
	case strings.HasPrefix(cf.name, "(time.Duration)."):
		recv = reflect.ValueOf(time.Duration(in.asInt(args[0])))
	case strings.HasPrefix(cf.name, "(*math/rand.Rand)."):
		p, ok := args[0].(*Value)
		if !ok || p == nil {
			in.rtPanic("nil rand.Rand")
		}
		o, ok := (*p).(*Opaque)
		if !ok {
			return nil, false
		}
		recv = reflect.ValueOf(o.v)
	default:
		return nil, false
	}
	m := recv.MethodByName(cf.fn.Name())
	if !m.IsValid() {
		return nil, false
	}
	return in.reflectCall(m, args[1:], cf.name)
}

func impureInit(I map[string]intrinsic) {
	now := func(in *Interp) time.Time {
		k := in.impureCount("time")
		return time.Unix(1700000000+int64(in.worldNo())*86411, int64(k)*1234567).UTC()
	}
	I["time.Now"] = func(in *Interp, a []Value) Value { return &Opaque{name: "time", v: now(in)} }
	I["time.Since"] = func(in *Interp, a []Value) Value {
		if o, ok := a[0].(*Opaque); ok {
			return int64(now(in).Sub(o.v.(time.Time)))
		}
		return now(in).UnixNano()
	}
	I["time.Sleep"] = func(in *Interp, a []Value) Value { return nil }
	for _, pkg := range []string{"math/rand", "math/rand/v2"} {
		bounded := func(in *Interp, a []Value) Value {
			n := int64(in.asInt(a[0]))
			if n <= 0 {
				in.rtPanic("invalid argument to Intn")
			}
			return int64(in.impureCount("random")*31+17) % n
		}
		for _, f := range []string{"Intn", "Int31n", "Int63n", "IntN", "Int32N", "Int64N", "UintN", "Uint32N", "Uint64N"} {
			I[pkg+"."+f] = bounded
		}
		for _, f := range []string{"Int", "Int31", "Int63", "Int32", "Int64", "Uint32", "Uint64"} {
			I[pkg+"."+f] = func(in *Interp, a []Value) Value {
				return int64(in.impureCount("random")*2654435761+12345) & 0x7fffffff
			}
		}
		I[pkg+".Float64"] = func(in *Interp, a []Value) Value { return float64(in.impureCount("random")%1000) / 1000 }
		I[pkg+".Seed"] = func(in *Interp, a []Value) Value { return nil }
		I[pkg+".Perm"] = func(in *Interp, a []Value) Value {
			n, k := int(in.asInt(a[0])), in.impureCount("random")
			var s Slice
			for i := 0; i < n; i++ {
				s = append(s, int64((i+k)%n))
			}
			return s
		}
		I[pkg+".Shuffle"] = func(in *Interp, a []Value) Value {
			r := rand.New(rand.NewSource(int64(in.impureCount("random"))))
			r.Shuffle(int(in.asInt(a[0])), func(i, j int) { in.call(a[1], []Value{int64(i), int64(j)}, in.cur.pos) })
			return nil
		}
	}
	I["math/rand.NewSource"] = func(in *Interp, a []Value) Value { return in.opaqueIface("Source", int64(in.asInt(a[0]))) }
	I["math/rand.New"] = func(in *Interp, a []Value) Value {
		s := int64(1)
		if iv, ok := a[0].(Iface); ok {
			if o, ok := iv.v.(*Opaque); ok {
				s, _ = o.v.(int64)
			}
		}
		return in.opaquePtr("rand", rand.New(rand.NewSource(s)))
	}
	I["crypto/rand.Read"] = func(in *Interp, a []Value) Value {
		s := a[0].(Slice)
		for i := range s {
			s[i] = int64(in.impureCount("random")*167+13) & 255
		}
		return Tuple{int64(len(s)), nilErr}
	}
	str := func(name, v string) {
		I[name] = func(in *Interp, a []Value) Value {
			in.event("env", name, "")
			return Tuple{S(fmt.Sprintf("%s%d", v, in.worldNo())), nilErr}
		}
	}
	str("os.Hostname", "host")
	str("os.UserHomeDir", "/home/u")
	str("os.UserConfigDir", "/home/u/.config")
	str("os.UserCacheDir", "/home/u/.cache")
	I["os.TempDir"] = func(in *Interp, a []Value) Value {
		in.event("env", "os.TempDir", "")
		return S(fmt.Sprintf("/tmp%d", in.worldNo()))
	}
	for _, f := range []string{"os.Getpid", "os.Getppid", "os.Getuid", "os.Getgid", "os.Geteuid", "os.Getegid", "os.Getpagesize", "runtime.NumCPU", "runtime.NumGoroutine"} {
		f := f
		I[f] = func(in *Interp, a []Value) Value {
			in.event("env", f, "")
			return int64(100 + in.worldNo()*37)
		}
	}
	I["runtime.GOMAXPROCS"] = I["runtime.NumCPU"]
	env := func(in *Interp, name string) (string, bool) {
		in.event("env", name, "")
		switch in.worldNo() {
		case 0:
			return "", false
		case 1:
			return "1", true
		case 2:
			return "/x/" + name, true
		case 3:
			return "", true
		}
		return fmt.Sprintf("%s-%d", strings.ToLower(name), in.worldNo()), true
	}
	I["os.Getenv"] = func(in *Interp, a []Value) Value {
		s, _ := env(in, asStr(a[0]).flat())
		return S(s)
	}
	I["os.LookupEnv"] = func(in *Interp, a []Value) Value {
		s, ok := env(in, asStr(a[0]).flat())
		return Tuple{S(s), ok}
	}
	I["os.Environ"] = func(in *Interp, a []Value) Value {
		var s Slice
		for _, n := range []string{"HOME", "PATH", "LANG"} {
			if v, ok := env(in, n); ok {
				s = append(s, S(n+"="+v))
			}
		}
		return s
	}
	I["os.ExpandEnv"] = func(in *Interp, a []Value) Value {
		s := asStr(a[0]).flat()
		if !strings.Contains(s, "$") {
			return a[0]
		}
		in.undecided("os.ExpandEnv")
		return nil
	}
	I["os.ReadDir"] = func(in *Interp, a []Value) Value {
		p := asStr(a[0]).flat()
		if !filepath.IsAbs(p) {
			p = filepath.Join(in.fs().Cwd, p)
		}
		p = filepath.Clean(p)
		in.event("readdir", p, "")
		names := map[string]bool{}
		fs := in.fs()
		for _, f := range sortedKeys(fs.Files) {
			if filepath.Dir(f) == p {
				names[filepath.Base(f)] = false
			}
		}
		for _, d := range sortedKeys(fs.Dirs) {
			if filepath.Dir(d) == p && d != p {
				names[filepath.Base(d)] = true
			}
		}
		var s Slice
		for _, n := range sortedKeys(names) {
			s = append(s, in.opaqueIface("DirEntry", &fileInfo{name: n, dir: names[n], path: filepath.Join(p, n)}))
		}
		return Tuple{s, nilErr}
	}
}
