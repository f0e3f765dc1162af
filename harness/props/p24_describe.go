package props

import (
	"context"
	"fmt"
	"reflect"
	"regexp"
	"sort"
	"strings"

	"github.com/Velocidex/ordereddict"
	"pgregory.net/rapid"
	"www.velocidex.com/golang/vfilter"
	"www.velocidex.com/golang/vfilter/arg_parser"
	"www.velocidex.com/golang/vfilter/functions"
	"www.velocidex.com/golang/vfilter/plugins"
	"www.velocidex.com/golang/vfilter/types"
)

// Descriptions of functions, plugins and their arguments.

type infoOp struct {
	Op      string // fn, plugin, new, copy
	Scope   int
	Name    string
	Doc     string
	Version int
	Meta    bool
	NoArgs  bool // no type of arguments
	Fields  []argField
	Ptr     bool // the type is given as a pointer
}

type infoCase struct {
	Ops []infoOp
	Ask []string // names for which similar plugins are asked
}

type informer interface {
	Info(tm *types.TypeMap, name string) (*types.PluginInfo, bool)
}

// metaOK tells whether the metadata is that of the registration.
func (o *infoOp) metaOK(m *ordereddict.Dict) bool {
	if m == nil || !o.Meta {
		return m == nil && !o.Meta
	}
	v, _ := m.Get("m")
	return v == o.Doc
}

type scopeInfo struct {
	scope   types.Scope
	fns     map[string]int // name -> number of the operation
	plugins map[string]int
}

func (o *infoOp) argType() types.Any {
	if o.NoArgs {
		return nil
	}
	v := reflect.New((&argCase{Fields: o.Fields}).structType())
	if o.Ptr {
		return v.Interface()
	}
	return v.Elem().Interface()
}

func (o *infoOp) meta() *ordereddict.Dict {
	if o.Meta {
		return ordereddict.NewDict().Set("m", o.Doc)
	}
	return nil
}

func typeText(t reflect.Type) (string, bool) {
	switch t.Kind() {
	case reflect.Slice, reflect.Array:
		return strings.TrimLeft(t.Elem().String(), "*[]"), true
	case reflect.Ptr, reflect.Map:
		return strings.TrimLeft(t.Elem().String(), "*[]"), false
	}
	return strings.TrimLeft(t.String(), "*[]"), false
}

// checkType compares the description of a struct with the struct, and with
// the arguments which are accepted for it.
func checkType(scope types.Scope, tm *types.TypeMap, name string, v types.Any) string {
	d, ok := tm.Get(scope, name)
	if !ok || d == nil {
		return fmt.Sprintf("the type %q is not described", name)
	}
	t := reflect.TypeOf(v)
	if t.Kind() == reflect.Ptr {
		t = t.Elem()
	}
	want := []string{}
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		n := f.Name
		tag := f.Tag.Get("vfilter")
		for _, part := range strings.Split(tag, ",") {
			if strings.HasPrefix(part, "field=") {
				n = part[6:]
			}
		}
		want = append(want, n)
		x, _ := d.Fields.Get(n)
		ref, ok := x.(*types.TypeReference)
		if !ok {
			return fmt.Sprintf("the field %q of %s is not described: %v", n, name, d.Fields.Keys())
		}
		target, repeated := typeText(f.Type)
		if ref.Target != target || ref.Repeated != repeated || ref.Tag != tag {
			return fmt.Sprintf("the field %q (%v) of %s is described as %#v", n, f.Type, name, *ref)
		}
	}
	if s := fmt.Sprint(d.Fields.Keys()); s != fmt.Sprint(want) {
		return fmt.Sprintf("the fields of %s are described as %s, expected %v", name, s, want)
	}
	return ""
}

func checkInfo(r *R, c *infoCase) {
	msg := inBubble(r.T, func() {
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		env := &Env{}
		env.add("x", &Val{K: "int", I: 7})
		run := newRealScope(env)
		base := run.Scope.Describe(types.NewTypeMap())
		first := &scopeInfo{scope: run.Scope, fns: map[string]int{}, plugins: map[string]int{}}
		for _, i := range base.Functions {
			first.fns[i.Name] = -1
		}
		for _, i := range base.Plugins {
			first.plugins[i.Name] = -1
		}
		for _, n := range []string{"dict", "if", "timestamp", "split", "get", "len", "format", "encode", "scope", "count", "sum", "min", "max", "enumerate", "track"} {
			if _, ok := first.fns[n]; !ok {
				panic(failure{"the function " + n + " is not described"})
			}
		}
		for _, n := range []string{"range", "flatten", "chain", "foreach", "if", "scope", "emit"} {
			if _, ok := first.plugins[n]; !ok {
				panic(failure{"the plugin " + n + " is not described"})
			}
		}
		scopes := []*scopeInfo{first}
		for i := range c.Ops {
			i, o := i, &c.Ops[i]
			s := scopes[o.Scope%len(scopes)]
			switch o.Op {
			case "new":
				n := &scopeInfo{scope: s.scope.NewScope(), fns: map[string]int{}, plugins: map[string]int{}}
				for k, v := range s.fns {
					n.fns[k] = v
				}
				for k, v := range s.plugins {
					n.plugins[k] = v
				}
				scopes = append(scopes, n)
			case "copy":
				// Copies share functions and plugins.
				scopes = append(scopes, &scopeInfo{scope: s.scope.Copy(), fns: s.fns, plugins: s.plugins})
			case "fn":
				s.scope.AppendFunctions(functions.GenericFunction{
					FunctionName: o.Name, Doc: o.Doc, Version: o.Version, Metadata: o.meta(), ArgType: o.argType(),
					Function: func(ctx context.Context, scope types.Scope, args *ordereddict.Dict) types.Any {
						v, _ := args.Get("v")
						if l, ok := v.(types.LazyExpr); ok {
							v = l.Reduce(ctx)
						}
						return fmt.Sprintf("function %d of %v, %v", i, args.Keys(), v)
					},
				})
				s.fns[o.Name] = i
			case "plugin":
				s.scope.AppendPlugins(plugins.GenericListPlugin{
					PluginName: o.Name, Doc: o.Doc, Metadata: o.meta(), ArgType: o.argType(),
					Function: func(ctx context.Context, scope types.Scope, args *ordereddict.Dict) []types.Row {
						rows := []types.Row{}
						v, _ := args.Get("v")
						for k := 0; k < 3; k++ {
							rows = append(rows, ordereddict.NewDict().Set("text", fmt.Sprintf("plugin %d of %v, %v, %d", i, args.Keys(), v, k)))
						}
						return rows
					},
				})
				s.plugins[o.Name] = i
			}
		}
		for n, s := range scopes {
			tm := types.NewTypeMap()
			d := s.scope.Describe(tm)
			seen := map[string]bool{}
			for _, i := range d.Functions {
				k, ok := s.fns[i.Name]
				if !ok || seen[i.Name] {
					panic(failure{fmt.Sprintf("scope %d describes the function %q, which was not added to it, or twice", n, i.Name)})
				}
				seen[i.Name] = true
				if f, ok := s.scope.GetFunction(i.Name); !ok || f.Info(s.scope, nil).Name != i.Name {
					panic(failure{fmt.Sprintf("the function %q is described and not found", i.Name)})
				}
				if k < 0 {
					continue
				}
				o := c.Ops[k]
				if i.Doc != o.Doc || i.Version != o.Version || !o.metaOK(i.Metadata) {
					panic(failure{fmt.Sprintf("the function %q of scope %d is described as %#v, expected %#v", i.Name, n, i, o)})
				}
				if o.NoArgs {
					if i.ArgType != "" {
						panic(failure{"the arguments of a function without them are described"})
					}
				} else if m := checkType(s.scope, tm, i.ArgType, o.argType()); m != "" {
					panic(failure{fmt.Sprintf("function %q of scope %d: %s", i.Name, n, m)})
				}
			}
			if len(seen) != len(s.fns) {
				panic(failure{fmt.Sprintf("scope %d describes %d functions and has %d", n, len(seen), len(s.fns))})
			}
			seen = map[string]bool{}
			for _, i := range d.Plugins {
				k, ok := s.plugins[i.Name]
				if !ok || seen[i.Name] {
					panic(failure{fmt.Sprintf("scope %d describes the plugin %q, which was not added to it, or twice", n, i.Name)})
				}
				seen[i.Name] = true
				tm2 := types.NewTypeMap()
				j, ok := s.scope.(informer).Info(tm2, i.Name)
				if !ok || j.Name != i.Name || j.Doc != i.Doc || j.ArgType != i.ArgType {
					panic(failure{fmt.Sprintf("Info(%q) gives %#v, described as %#v", i.Name, j, i)})
				}
				if k < 0 {
					continue
				}
				o := c.Ops[k]
				if i.Doc != o.Doc || !o.metaOK(i.Metadata) {
					panic(failure{fmt.Sprintf("the plugin %q of scope %d is described as %#v, expected %#v", i.Name, n, i, o)})
				}
				if o.NoArgs {
					if i.ArgType != "" {
						panic(failure{"the arguments of a plugin without them are described"})
					}
				} else {
					for _, t := range []*types.TypeMap{tm, tm2} {
						if m := checkType(s.scope, t, i.ArgType, o.argType()); m != "" {
							panic(failure{fmt.Sprintf("plugin %q of scope %d: %s", i.Name, n, m)})
						}
					}
				}
			}
			if len(seen) != len(s.plugins) {
				panic(failure{fmt.Sprintf("scope %d describes %d plugins and has %d", n, len(seen), len(s.plugins))})
			}
			if _, ok := s.scope.(informer).Info(types.NewTypeMap(), "no_such_plugin"); ok {
				panic(failure{"a plugin which does not exist has a description"})
			}

			// What is described is what is called.
			for _, o := range c.Ops {
				var want []V
				text := ""
				if k, ok := s.fns[o.Name]; ok && o.Op == "fn" && k < 0 {
					continue
				}
				if k, ok := s.plugins[o.Name]; ok && o.Op == "plugin" && k < 0 {
					continue
				}
				switch o.Op {
				case "fn":
					text = "SELECT " + ident(o.Name) + "(v=x + 1, w=2) AS text FROM scope()"
					if k, ok := s.fns[o.Name]; ok {
						want = append(want, newObj().Set("text", fmt.Sprintf("function %d of [v w], 8", k)))
					} else {
						want = append(want, newObj().Set("text", nil))
					}
				case "plugin":
					text = "SELECT text FROM " + ident(o.Name) + "(v=x + 1, w=2)"
					if k, ok := s.plugins[o.Name]; ok {
						for l := 0; l < 3; l++ {
							want = append(want, newObj().Set("text", fmt.Sprintf("plugin %d of [v w], 8, %d", k, l)))
						}
					}
				default:
					continue
				}
				vql, err := vfilter.Parse(text)
				if err != nil {
					panic(failure{err.Error() + "\n" + text})
				}
				sub := s.scope.Copy()
				sub.AppendVars(ordereddict.NewDict().Set("x", int64(7)))
				got := drain(&Run{Ctx: ctx, Scope: sub}, vql)
				sub.Close()
				if !sameRows(want, got) {
					panic(failure{fmt.Sprintf("scope %d: %s gives\n%s\nexpected\n%s", n, text, showRows(got), showRows(want))})
				}
				r.Count("calls", 1)
			}

			for _, name := range c.Ask {
				want := []string{}
				for p := range s.plugins {
					for _, part := range strings.Split(name, "_") {
						if strings.Contains(p, part) {
							want = append(want, p)
							break
						}
					}
				}
				sort.Strings(want)
				if got := s.scope.GetSimilarPlugins(name); fmt.Sprint(got) != fmt.Sprint(want) {
					panic(failure{fmt.Sprintf("scope %d: the plugins similar to %q are %v, expected %v", n, name, got, want)})
				}
			}
		}
		for _, s := range scopes {
			s.scope.Close()
		}
	})
	if msg != "" {
		r.Failf("%s", msg)
	}
	fields := 0
	for _, o := range c.Ops {
		fields += len(o.Fields)
	}
	r.Count("fields", fields)
	r.NonTrivialIf(len(c.Ops) > 2 && fields > 1)
}

var argTypeNames = sortedTypeNames()

func sortedTypeNames() []string {
	l := []string{}
	for k := range argTypes {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

func genInfo(t *rapid.T) *infoCase {
	g := newG(t)
	c := &infoCase{}
	for n := g.n(1, 8); n > 0; n-- {
		o := infoOp{Op: g.pick("fn", "fn", "fn", "plugin", "plugin", "plugin", "new", "copy"), Scope: g.n(0, 3)}
		if o.Op == "fn" || o.Op == "plugin" {
			o.Name = g.pick("alpha", "alpha_beta", "beta", "be", "range", "len", "Alpha", "x_y_z")
			o.Doc = g.pick("", "does this", "does that")
			o.Version = g.n(0, 2)
			o.Meta = g.chance(30)
			o.NoArgs = g.chance(30)
			o.Ptr = g.chance(30)
			if !o.NoArgs {
				names := []string{"a", "v", "from", "u_v", "Big", "x1"}
				for k := g.n(0, 4); k > 0; k-- {
					f := argField{Name: names[k], Type: g.pick(argTypeNames...), Required: g.chance(40), NoTag: names[k] == "Big"}
					o.Fields = append(o.Fields, f)
				}
			}
		}
		c.Ops = append(c.Ops, o)
	}
	for n := g.n(0, 2); n > 0; n-- {
		c.Ask = append(c.Ask, g.pick("alpha", "beta_x", "ran_be", "x_y", "nothing", "", "a_a", "Al"))
	}
	return c
}

// builtinCase calls a function or plugin of the library with arguments of its
// description.
type builtinCase struct {
	Pick    int
	Args    []*Val // for each of the fields, nil: not given
	Query   []bool // a query which gives these rows
	Unknown bool
}

type describedArg struct {
	name     string
	required bool
}

type described struct {
	name   string
	plugin bool
	args   []describedArg
}

func describedBuiltins(scope types.Scope) []described {
	tm := types.NewTypeMap()
	d := scope.Describe(tm)
	res := []described{}
	add := func(name string, plugin bool, ty string, free bool) {
		t, ok := tm.Get(scope, ty)
		if ty == "" || free || !ok || name == "track" {
			return
		}
		x := described{name: name, plugin: plugin}
		for _, k := range t.Fields.Keys() {
			f, _ := t.Fields.Get(k)
			tag := f.(*types.TypeReference).Tag
			if tag != "" {
				x.args = append(x.args, describedArg{k, strings.Contains(","+tag+",", ",required,")})
			}
		}
		res = append(res, x)
	}
	for _, i := range d.Functions {
		add(i.Name, false, i.ArgType, i.FreeFormArgs)
	}
	for _, i := range d.Plugins {
		add(i.Name, true, i.ArgType, i.FreeFormArgs)
	}
	sort.Slice(res, func(i, j int) bool {
		if res[i].name != res[j].name {
			return res[i].name < res[j].name
		}
		return res[j].plugin
	})
	return res
}

var requiredRe = regexp.MustCompile("Field (\\S+) is required")

func checkBuiltin(r *R, c *builtinCase) {
	msg := inBubble(r.T, func() {
		run := newRealScope(nil)
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		run.Ctx = ctx
		all := describedBuiltins(run.Scope)
		if len(all) < 12 {
			panic(failure{fmt.Sprintf("only %d functions and plugins have described arguments", len(all))})
		}
		b := all[c.Pick%len(all)]
		vars := ordereddict.NewDict()
		text, missing := []string{}, ""
		missed := map[string]bool{}
		for i, a := range b.args {
			if i >= len(c.Args) || c.Args[i] == nil {
				if a.required {
					missing = a.name
					missed[a.name] = true
				}
				continue
			}
			if x, ok := toInt(c.Args[i].Model()); a.name == "workers" && ok && (x < -5 || x > 5) {
				// As many goroutines.
				c.Args[i] = &Val{K: "int", I: 3}
			}
			vars.Set("v"+itoa(i), c.Args[i].Real())
			if c.Query[i] {
				text = append(text, ident(a.name)+"={ SELECT v"+itoa(i)+" AS c FROM scope() }")
			} else {
				text = append(text, ident(a.name)+"=v"+itoa(i))
			}
		}
		if c.Unknown {
			text = append(text, "no_such_arg=1")
		}
		call := ident(b.name) + "(" + strings.Join(text, ", ") + ")"
		prog := "SELECT " + call + " AS x FROM scope()"
		if b.plugin {
			prog = "SELECT * FROM " + call + " LIMIT 5"
		}
		run.Scope.AppendVars(vars)
		vql, err := vfilter.Parse(prog)
		if err != nil {
			panic(failure{err.Error() + "\n" + prog})
		}
		drain(run, vql)
		log := run.Log.String()
		for i, a := range b.args {
			if i < len(c.Args) && c.Args[i] != nil && strings.Contains(log, "Unexpected arg "+a.name+"\n") {
				panic(failure{fmt.Sprintf("%s has the argument %s by its description but does not accept it:\n%s\n%s\n%s", b.name, a.name, prog, show(canon(vars)), log)})
			}
		}
		for _, x := range requiredRe.FindAllStringSubmatch(log, -1) {
			if !missed[x[1]] {
				panic(failure{fmt.Sprintf("%s requires the argument %s, by its description it does not, or it was given:\n%s\n%s", b.name, x[1], prog, show(canon(vars)))})
			}
		}
		if (c.Unknown || missing != "") && log == "" {
			panic(failure{fmt.Sprintf("%s ignores that an argument is not in its description, or that a required one is missing (%q):\n%s\n%s", b.name, missing, prog, show(canon(vars)))})
		}
		if missing != "" {
			r.Count("required argument missing", 1)
		}
		if c.Unknown {
			r.Count("unknown argument", 1)
		}
		r.Count(b.name, 1)
		r.NonTrivialIf(len(text) > 0)
		run.Scope.Close()
	})
	if msg != "" {
		r.Failf("%s", msg)
	}
}

// checkParserFields compares described and accepted arguments of a struct.
func checkParserFields(r *R, c *infoOp) {
	scope := newRealScope(nil).Scope
	defer scope.Close()
	tm := types.NewTypeMap()
	v := c.argType()
	name := tm.AddType(scope, v)
	if m := checkType(scope, tm, name, v); m != "" {
		r.Failf("%s", m)
	}
	d, _ := tm.Get(scope, name)
	names := d.Fields.Keys()
	if len(names) > 8 {
		return
	}
	for _, n := range append(names, "nosuch", "F0") {
		f, _ := d.Fields.Get(n)
		args := ordereddict.NewDict()
		for _, x := range c.Fields {
			if x.Required && x.Name != n {
				args.Set(x.Name, argExample(x))
			}
		}
		var val types.Any = "text"
		for _, x := range c.Fields {
			if x.Name == n {
				val = argExample(x)
			}
		}
		args.Set(n, val)
		target := reflect.New(reflect.Indirect(reflect.ValueOf(v)).Type())
		err := arg_parser.ExtractArgsWithContext(context.Background(), scope, args, target.Interface())
		known := f != nil && f.(*types.TypeReference).Tag != ""
		if known && err != nil {
			r.Failf("the argument %q of %s is described and not accepted: %v", n, name, err)
		}
		if !known && (err == nil || !strings.Contains(err.Error(), n)) {
			r.Failf("the argument %q of %s is not described, and accepting it gives %v", n, name, err)
		}
		if known && !reflect.DeepEqual(args.Keys(), []string{n}) {
			// Without the required ones.
			args = ordereddict.NewDict().Set(n, val)
			target = reflect.New(reflect.Indirect(reflect.ValueOf(v)).Type())
			if arg_parser.ExtractArgsWithContext(context.Background(), scope, args, target.Interface()) == nil {
				r.Failf("required arguments of %s are not needed when %q is given", name, n)
			}
		}
	}
	r.NonTrivialIf(len(c.Fields) > 1)
}

func argExample(f argField) types.Any {
	switch f.kind() {
	case "string", "[]string", "any", "lazy", "lazyany", "custom", "[]any":
		return "text"
	case "dict", "[]dict":
		return ordereddict.NewDict().Set("a", int64(1))
	case "query":
		return []types.Row{ordereddict.NewDict().Set("a", int64(1))}
	}
	return int64(1)
}

func init() {
	register(&Prop{
		ID: "C24",
		Rule: "Random sequences of adding generic functions and plugins with random types of arguments to scopes, copies of them and new ones, after which every scope is described and everything is called; " +
			"random types of arguments against the parser; calls of the library with arguments of its own description; non-trivial: three operations and two fields, two fields, or an argument.",
		Arms: []*Arm{
			arm("scopes", 6000, 120000, genInfo, checkInfo),
			arm("fields", 20000, 300000, func(t *rapid.T) *infoOp {
				g := newG(t)
				o := &infoOp{Ptr: g.chance(50)}
				names := []string{"a", "v", "from", "u_v", "Big", "x1", "F1"}
				for k := g.n(1, 6); k > 0; k-- {
					ty := g.pick(argTypeNames...)
					if argUnsupported(ty) {
						ty = "string"
					}
					o.Fields = append(o.Fields, argField{Name: names[k], Type: ty, Required: g.chance(40), NoTag: names[k] == "Big"})
				}
				registerCustom()
				return o
			}, checkParserFields),
			arm("library", 20000, 300000, func(t *rapid.T) *builtinCase {
				g := newG(t)
				c := &builtinCase{Pick: g.n(0, 1000), Unknown: g.chance(30)}
				for k := 0; k < 4; k++ {
					var v *Val
					if g.chance(60) {
						v = g.val(g.pick("int", "str", "num", "list", "bool", "obj", "rows"), 1)
					}
					c.Args = append(c.Args, v)
					c.Query = append(c.Query, g.chance(20))
				}
				return c
			}, checkBuiltin),
		},
	})
}
