package props

import (
	"context"
	"fmt"
	"reflect"
	"strconv"
	"strings"
	"sync"

	"github.com/Velocidex/ordereddict"
	"pgregory.net/rapid"
	vfilter "www.velocidex.com/golang/vfilter"
	"www.velocidex.com/golang/vfilter/arg_parser"
	"www.velocidex.com/golang/vfilter/types"
)

// Arguments: how the arguments of a call become the fields of a struct.

type argField struct {
	Name     string
	Type     string
	Required bool
	NoTag    bool // named by the field of the struct
}

type argGiven struct {
	Name  string
	V     *Val
	Query bool // the value is a query which gives these rows
	Let   bool // ... a stored one
	Lit   bool // [a, b]
}

type argCase struct {
	Fields []argField
	Args   []argGiven
	Mode   string // function plugin
	Free   bool   // other args are collected
	Star   bool   // passed as **
}

// Types of the host.
type (
	namedString string
	namedInt    int64
	namedFloat  float32
	namedBool   bool
	namedStrs   []string
	customArg   struct{ text string }
)

var argTypes = map[string]reflect.Type{
	"string":        reflect.TypeOf(""),
	"[]string":      reflect.TypeOf([]string{}),
	"[]any":         reflect.TypeOf([]types.Any{}),
	"[]dict":        reflect.TypeOf([]*ordereddict.Dict{}),
	"bool":          reflect.TypeOf(true),
	"float64":       reflect.TypeOf(float64(0)),
	"float32":       reflect.TypeOf(float32(0)),
	"int64":         reflect.TypeOf(int64(0)),
	"uint64":        reflect.TypeOf(uint64(0)),
	"int":           reflect.TypeOf(int(0)),
	"any":           reflect.TypeOf((*types.Any)(nil)).Elem(),
	"lazy":          reflect.TypeOf((*types.LazyExpr)(nil)).Elem(),
	"lazyany":       reflect.TypeOf((*types.LazyAny)(nil)).Elem(),
	"query":         reflect.TypeOf((*types.StoredQuery)(nil)).Elem(),
	"dict":          reflect.TypeOf((*ordereddict.Dict)(nil)),
	"namedString":   reflect.TypeOf(namedString("")),
	"namedInt":      reflect.TypeOf(namedInt(0)),
	"namedFloat":    reflect.TypeOf(namedFloat(0)),
	"namedBool":     reflect.TypeOf(namedBool(false)),
	"namedStrs":     reflect.TypeOf(namedStrs{}),
	"[]namedString": reflect.TypeOf([]namedString{}),
	"custom":        reflect.TypeOf(customArg{}),

	// Not supported.
	"[]int": reflect.TypeOf([]int{}),
	"int32": reflect.TypeOf(int32(0)),
	"map":   reflect.TypeOf(map[string]string{}),
}

var registerCustom = sync.OnceFunc(func() {
	arg_parser.RegisterParser(customArg{}, func(ctx context.Context, scope types.Scope,
		args *ordereddict.Dict, value interface{}) (interface{}, error) {
		if l, ok := value.(types.LazyExpr); ok {
			value = l.Reduce(ctx)
		}
		s, ok := value.(string)
		if !ok {
			return nil, fmt.Errorf("should be custom")
		}
		return customArg{"<" + s + ">"}, nil
	})
})

// kind is the basic type a field behaves as.
func (f argField) kind() string {
	switch f.Type {
	case "namedString":
		return "string"
	case "namedInt":
		return "int64"
	case "namedFloat":
		return "float32"
	case "namedBool":
		return "bool"
	case "namedStrs", "[]namedString":
		return "[]string"
	}
	return f.Type
}

func argUnsupported(ty string) bool { return ty == "[]int" || ty == "int32" || ty == "map" }

func argPlain(f argField) bool { return !strings.HasPrefix(f.Type, "lazy") }

func (a argGiven) model() V {
	v := a.V.Model()
	if !a.Query {
		return v
	}
	return v
}

// scalarText is how a value reads as a string. Only where that is defined.
func scalarText(v V) (string, bool) {
	switch t := v.(type) {
	case string:
		return t, true
	case int64:
		return strconv.FormatInt(t, 10), true
	case bool:
		return strconv.FormatBool(t), true
	case float64:
		return fmt.Sprint(t), true
	case *Obj:
		if len(t.Keys) == 1 {
			if s, ok := t.Vals[t.Keys[0]].(string); ok {
				return s, true
			}
		}
	}
	return "", false
}

type argBad struct{}  // the argument is refused
type argFree struct{} // the documentation does not say

// want is the value the field must get.
func (f argField) want(a argGiven) V {
	v := a.model()
	l, list := v.([]V)
	switch f.kind() {
	case "string":
		if list {
			if len(l) == 1 {
				if s, ok := scalarText(l[0]); ok {
					return s
				}
			}
			return argFree{}
		}
		if v == nil {
			return ""
		}
		if _, ok := v.(*Obj); ok {
			return argFree{}
		}
		if s, ok := scalarText(v); ok {
			return s
		}
		return argFree{}

	case "[]string":
		if !list {
			l = []V{v}
		}
		r := []V{}
		for _, x := range l {
			s, ok := scalarText(x)
			if !ok || (!list && isObj(x)) {
				r = append(r, argFree{})
			} else {
				r = append(r, s)
			}
		}
		return r

	case "[]any":
		if list {
			return v
		}
		return []V{v}

	case "[]dict":
		if !list {
			l = []V{v}
		}
		r := []V{}
		for _, x := range l {
			if x == nil {
				continue
			}
			if isObj(x) {
				r = append(r, x)
			} else {
				r = append(r, argFree{})
			}
		}
		return r

	case "bool":
		if list && a.Query {
			return len(l) > 0
		}
		return newModel().truth(v, nil)

	case "float64", "float32":
		n, ok := toFloat(v)
		if !ok {
			return argBad{}
		}
		if f.kind() == "float32" {
			return float64(float32(n))
		}
		return n

	case "int64", "uint64", "int":
		n, ok := toInt(v)
		if !ok {
			return argBad{}
		}
		return n

	case "dict":
		switch v.(type) {
		case *Obj:
			return v
		case nil:
			return newObj()
		case string, int64:
			return argBad{}
		}
		return argFree{}

	case "query":
		if v == nil {
			return []V{}
		}
		if !list {
			l = []V{v}
		}
		r := []V{}
		for _, x := range l {
			if x == nil {
				continue
			}
			if o, ok := x.(*Obj); ok && (len(o.Keys) > 0 || a.Query) {
				r = append(r, o)
			} else {
				r = append(r, newObj().Set("_value", x))
			}
		}
		return r

	case "custom":
		s, ok := v.(string)
		if !ok {
			return argBad{}
		}
		return "<" + s + ">"
	}
	return v // any, lazy, lazyany
}

func isObj(v V) bool { _, ok := v.(*Obj); return ok }

// fits compares what a field must be and what it is.
func fits(want, got V) bool {
	switch t := want.(type) {
	case argFree:
		s, ok := got.(string)
		return !ok || !strings.Contains(s, "0x")
	case []V:
		u, ok := got.([]V)
		if !ok || len(u) != len(t) {
			return false
		}
		for i := range t {
			if !fits(t[i], u[i]) {
				return false
			}
		}
		return true
	}
	return same(want, got)
}

type argProbe struct {
	c     *argCase
	typ   reflect.Type
	track *tracker

	calls  int
	err    error
	fields []V
	early  map[string]int // evaluations by the time the call was made
	kw     V
	after  map[string]int
	texts  []string
}

func (self *argProbe) call(ctx context.Context, scope types.Scope, args *ordereddict.Dict) {
	self.calls++
	target := reflect.New(self.typ)
	var kw *ordereddict.Dict
	if self.c.Free {
		kw, self.err = arg_parser.ExtractKWArgsWithContext(ctx, scope, args, target.Interface())
	} else {
		self.err = arg_parser.ExtractArgsWithContext(ctx, scope, args, target.Interface())
	}
	self.early = copyMap(self.track.n)
	if self.err != nil {
		return
	}
	if kw != nil {
		self.kw = canon(kw)
	}
	for i := range self.c.Fields {
		self.fields = append(self.fields, self.read(ctx, scope, target.Elem().Field(i)))
	}
	self.after = copyMap(self.track.n)
	for _, a := range self.c.Args {
		self.texts = append(self.texts, arg_parser.GetStringArg(ctx, scope, args, a.Name))
	}
}

// read returns the value of a field, evaluated as a plugin would.
func (self *argProbe) read(ctx context.Context, scope types.Scope, f reflect.Value) V {
	x := f.Interface()
	if x == nil {
		return "UNSET"
	}
	switch t := x.(type) {
	case customArg:
		return t.text
	case *ordereddict.Dict:
		if t == nil {
			return "UNSET"
		}
	}
	for i := 0; i < 5; i++ {
		l, ok := x.(types.LazyExpr)
		if !ok {
			break
		}
		// A second time gives the same value, without evaluating again.
		l.Reduce(ctx)
		x = l.Reduce(ctx)
	}
	if q, ok := x.(types.StoredQuery); ok {
		r := []V{}
		for row := range q.Eval(ctx, scope) {
			r = append(r, canon(vfilter.RowToDict(ctx, scope, row)))
		}
		return r
	}
	switch f.Kind() {
	case reflect.Slice:
		if f.Type().Elem().Kind() == reflect.String {
			r := []V{}
			for i := 0; i < f.Len(); i++ {
				r = append(r, f.Index(i).String())
			}
			return r
		}
	case reflect.String:
		return f.String()
	case reflect.Bool:
		return f.Bool()
	case reflect.Float32, reflect.Float64:
		return f.Float()
	case reflect.Int, reflect.Int64:
		return f.Int()
	}
	return canon(x)
}

type probeFunc struct{ p *argProbe }

func (self probeFunc) Copy() types.FunctionInterface { return self }
func (self probeFunc) Info(scope types.Scope, tm *types.TypeMap) *types.FunctionInfo {
	return &types.FunctionInfo{Name: "probe"}
}
func (self probeFunc) Call(ctx context.Context, scope types.Scope, args *ordereddict.Dict) types.Any {
	self.p.call(ctx, scope, args)
	return 1
}

type probePlugin struct{ p *argProbe }

func (self probePlugin) Info(scope types.Scope, tm *types.TypeMap) *types.PluginInfo {
	return &types.PluginInfo{Name: "probe"}
}
func (self probePlugin) Call(ctx context.Context, scope types.Scope, args *ordereddict.Dict) <-chan types.Row {
	out := make(chan types.Row)
	go func() {
		defer close(out)
		self.p.call(ctx, scope, args)
	}()
	return out
}

func (c *argCase) structType() reflect.Type {
	fields := []reflect.StructField{}
	for i, f := range c.Fields {
		tag := "optional"
		if f.Required {
			tag = "required"
		}
		name := fmt.Sprintf("F%d", i)
		if f.NoTag {
			name = f.Name
		} else {
			tag += ",field=" + f.Name + ",doc=Some text"
		}
		fields = append(fields, reflect.StructField{
			Name: name,
			Type: argTypes[f.Type],
			Tag:  reflect.StructTag(fmt.Sprintf("vfilter:%q", tag)),
		})
	}
	// Fields without tags are not arguments.
	fields = append(fields, reflect.StructField{Name: "Other", Type: reflect.TypeOf(""), Tag: `json:"zz"`})
	return reflect.StructOf(fields)
}

// program is a program which calls probe() with the arguments.
func (c *argCase) program() string {
	lets := ""
	args := []string{}
	for i, a := range c.Args {
		v := fmt.Sprintf("track(id='a%d', v=v%d)", i, i)
		switch {
		case a.Query && a.Let:
			lets += fmt.Sprintf("LET q%d = SELECT * FROM foreach(row=track(id='a%d', v=v%d)) ", i, i, i)
			v = fmt.Sprintf("q%d", i)
		case a.Query:
			v = fmt.Sprintf("{ SELECT * FROM foreach(row=track(id='a%d', v=v%d)) }", i, i)
		case a.Lit:
			p := []string{}
			for j := range a.V.L {
				p = append(p, fmt.Sprintf("v%d[%d]", i, j))
			}
			if len(p) == 1 {
				v = fmt.Sprintf("[track(id='a%d', v=%s), ]", i, p[0])
			} else {
				v = fmt.Sprintf("[track(id='a%d', v=%s), %s]", i, p[0], strings.Join(p[1:], ", "))
			}
		}
		args = append(args, ident(a.Name)+"="+v)
	}
	list := strings.Join(args, ", ")
	if c.Star {
		list = "`**`=dict(" + list + ")"
	}
	if c.Mode == "plugin" {
		return lets + "SELECT * FROM probe(" + list + ")"
	}
	return lets + "SELECT probe(" + list + ") AS r FROM scope()"
}

func checkArgs(r *R, c *argCase) {
	registerCustom()
	env := &Env{}
	for i, a := range c.Args {
		env.add(fmt.Sprintf("v%d", i), a.V)
	}
	text := c.program()
	p := &argProbe{c: c, typ: c.structType()}
	var logged string
	if msg := inBubble(r.T, func() {
		run := newRealScope(env)
		p.track = run.Track
		run.Scope.AppendFunctions(probeFunc{p})
		run.Scope.AppendPlugins(probePlugin{p})
		ctx, cancel := context.WithCancel(context.Background())
		run.Ctx = ctx
		vqls, err := vfilter.MultiParse(text)
		if err != nil {
			r.Failf("the program does not parse: %v\n%s", err, text)
		}
		for _, v := range vqls {
			drain(run, v)
		}
		run.Scope.Close()
		cancel()
		logged = run.Log.String()
	}); msg != "" {
		r.Failf("%s\n%s\n%s", msg, c.show(), text)
	}
	if p.calls != 1 {
		r.Failf("probe() was called %d times\n%s\n%s\n%s", p.calls, c.show(), text, logged)
	}
	fail := func(format string, a ...interface{}) {
		r.Failf("%s\n%s\n%s\nvalues: %s", fmt.Sprintf(format, a...), c.show(), text, show(env.obj()))
	}

	// What is wrong with the call.
	bad := map[string]bool{}
	for _, f := range c.Fields {
		if argUnsupported(f.Type) {
			if p.err == nil {
				fail("a field of type %s is not supported, but there was no error", f.Type)
			}
			r.Class("unsupported")
			return
		}
	}
	fields := map[string]argField{}
	for _, f := range c.Fields {
		fields[f.Name] = f
		if f.Required && c.find(f.Name) < 0 {
			bad[f.Name] = true
		}
	}
	for _, a := range c.Args {
		f, ok := fields[a.Name]
		if !ok {
			if !c.Free {
				bad[a.Name] = true
			}
		} else if _, ok := c.wanted(f, a).(argBad); ok {
			bad[a.Name] = true
		}
	}
	if len(bad) > 0 {
		r.Class("refused")
		if p.err == nil {
			fail("the arguments %v are wrong, but there was no error", sortedKeys(bad))
		}
		for name := range bad {
			if strings.Contains(p.err.Error(), name) {
				r.NonTrivialIf(len(c.Args) >= 2)
				return
			}
		}
		fail("the error is about the wrong argument: %v, not one of %v", p.err, sortedKeys(bad))
	}
	if p.err != nil {
		fail("the arguments were refused: %v", p.err)
	}

	for i, f := range c.Fields {
		got := p.fields[i]
		j := c.find(f.Name)
		if j < 0 {
			if got != "UNSET" && !same(got, "") && !same(got, int64(0)) && !same(got, 0.0) && !same(got, false) && !same(got, []V{}) {
				fail("%s was not given but is %s", f.Name, show(got))
			}
			continue
		}
		if want := c.wanted(f, c.Args[j]); !fits(want, got) {
			fail("%s (%s) is %s, expected %s", f.Name, f.Type, show(got), showWant(want))
		}
		r.Class("field " + f.Type)

		// How often it was evaluated.
		id := fmt.Sprintf("a%d", j)
		early, after := 1, 1
		if c.Args[j].Query {
			// The query is run by whoever wants its rows.
			switch f.kind() {
			case "query", "any", "lazy", "lazyany":
				early = 0
			}
		} else if !argPlain(f) && c.Mode == "function" && !c.Args[j].Lit {
			// Plugins and lists of values get their arguments evaluated.
			early = 0
		}
		if f.kind() == "dict" && c.Args[j].Query {
			early, after = p.early[id], p.after[id]
		}
		if c.Star {
			early, after = p.early[id], 1
		}
		if p.early[id] != early {
			fail("%s (%s) had been evaluated %d times when the arguments were parsed, expected %d", f.Name, f.Type, p.early[id], early)
		}
		if p.after[id] != after {
			fail("%s (%s) was evaluated %d times, expected %d", f.Name, f.Type, p.after[id], after)
		}
	}
	for i, a := range c.Args {
		want := ""
		if !a.Query && a.V.K == "str" {
			want = string(a.V.S)
		}
		if !c.Star && p.texts[i] != want {
			fail("GetStringArg gives %q for %s, expected %q", p.texts[i], a.Name, want)
		}
	}
	if c.Free {
		kw := newObj()
		for _, a := range c.Args {
			if _, ok := fields[a.Name]; !ok {
				kw.Set(a.Name, a.model())
			}
		}
		if !same(kw, p.kw) {
			fail("the other arguments are %s, expected %s", show(p.kw), show(kw))
		}
	}
	r.NonTrivialIf(len(c.Args) >= 2)
}

// wanted is the value a field must get for an argument of this case.
func (c *argCase) wanted(f argField, a argGiven) V {
	if c.Star && a.Query {
		// In a dict a query is the list of its rows.
		a.Query = false
	}
	w := f.want(a)
	if a.Query {
		switch f.kind() {
		case "float64", "float32", "int64", "uint64", "int", "custom":
			return argBad{}
		case "dict":
			return argFree{}
		}
	}
	return w
}

func showWant(v V) string {
	switch t := v.(type) {
	case argFree:
		return "(any)"
	case []V:
		p := []string{}
		for _, x := range t {
			p = append(p, showWant(x))
		}
		return "[" + strings.Join(p, ", ") + "]"
	}
	return show(v)
}

func (c *argCase) find(name string) int {
	for i, a := range c.Args {
		if a.Name == name {
			return i
		}
	}
	return -1
}

func (c *argCase) show() string {
	p := []string{}
	for _, f := range c.Fields {
		s := f.Name + " " + f.Type
		if f.Required {
			s += " required"
		}
		p = append(p, s)
	}
	return "fields: " + strings.Join(p, ", ")
}

func (g *G) argScalar(ty string) *Val {
	switch g.n(0, 8) {
	case 0:
		return vNil()
	case 1:
		return vBool(g.chance(50))
	case 2:
		return vFloat([]float64{0, 1, 2.5, -1.5, 0.1, 1e10, 3.999}[g.n(0, 6)])
	case 3, 4:
		n := vInt([]int64{0, 1, 2, 7, 65, 127}[g.n(0, 5)])
		if g.chance(25) && !strings.HasPrefix(ty, "u") {
			n.I = []int64{-1, -100, 1 << 40, -(1 << 62), 9223372036854775807}[g.n(0, 4)]
		}
		return n
	}
	return vStr(g.pick("", "a", "hello", "x y", "1", "2.5", "é", "TRUE"))
}

func (g *G) argObj(ty string) *Val {
	o := &Val{K: "obj"}
	for _, k := range []string{"m", "k"}[:[]int{1, 1, 2, 0}[g.n(0, 3)]] {
		o.Keys = append(o.Keys, k)
		o.L = append(o.L, g.argScalar(ty))
	}
	return o
}

func (g *G) argVal(a *argGiven, ty string) {
	switch {
	case g.chance(20):
		a.Query, a.Let = true, g.chance(40)
		a.V = &Val{K: "list"}
		for n := g.n(0, 3); n > 0; n-- {
			o := g.argObj(ty)
			if len(o.Keys) == 0 {
				o.Keys, o.L = []string{"z"}, []*Val{g.argScalar(ty)}
			}
			a.V.L = append(a.V.L, o)
		}
		return
	case g.chance(25):
		a.V = &Val{K: "list"}
		for n := g.n(0, 3); n > 0; n-- {
			if g.chance(30) {
				a.V.L = append(a.V.L, g.argObj(ty))
			} else {
				a.V.L = append(a.V.L, g.argScalar(ty))
			}
		}
		a.Lit = len(a.V.L) > 0 && g.chance(40)
		if g.chance(30) && !a.Lit {
			g.goTypes(a.V, map[string]bool{})
		}
		return
	case g.chance(20):
		a.V = g.argObj(ty)
		return
	}
	a.V = g.argScalar(ty)
	switch ty {
	case "int64", "uint64", "int", "namedInt":
		if g.chance(60) {
			a.V = vInt(int64(g.n(0, 300)))
		}
	case "float32", "float64", "namedFloat":
		if g.chance(60) {
			a.V = vFloat(float64(g.n(0, 300)) / 4)
		}
	case "custom":
		if g.chance(60) {
			a.V = vStr("s")
		}
	case "dict":
		if g.chance(60) {
			a.V = g.argObj(ty)
		}
	}
	if ty != "dict" && g.chance(30) {
		g.goTypes(a.V, map[string]bool{})
	}
}

func genArgs(t *rapid.T) *argCase {
	g := newG(t)
	c := &argCase{Mode: g.pick("function", "plugin"), Free: g.chance(30), Star: g.chance(15)}
	all := []string{}
	for _, ty := range sortedKeys(argTypes) {
		if !argUnsupported(ty) || g.chance(3) {
			all = append(all, ty)
		}
	}
	names := []string{"alpha", "beta", "Gamma", "del ta", "eps", "zeta", "Theta"}
	for _, n := range names {
		if g.chance(55) {
			f := argField{Name: n, Type: g.pick(all...), Required: g.chance(40)}
			f.NoTag = n == "Gamma" || n == "Theta"
			c.Fields = append(c.Fields, f)
		}
	}
	for _, f := range c.Fields {
		if g.chance(80) || (f.Required && g.chance(80)) {
			a := argGiven{Name: f.Name}
			g.argVal(&a, f.Type)
			c.Args = append(c.Args, a)
		}
	}
	for _, n := range []string{"unknown", "Alpha", "F0", "Other"} {
		p := 3
		if c.Free {
			p = 40
		}
		if g.chance(p) {
			a := argGiven{Name: n}
			g.argVal(&a, "any")
			c.Args = append(c.Args, a)
		}
	}
	// In any order.
	for i := range c.Args {
		j := g.n(0, i)
		c.Args[i], c.Args[j] = c.Args[j], c.Args[i]
	}
	return c
}

// localTypes are types with the same name and different fields.
var localTypes = []reflect.Type{
	func() reflect.Type {
		type args struct {
			A int64  `vfilter:"required,field=a"`
			B string `vfilter:"optional,field=b"`
		}
		return reflect.TypeOf(args{})
	}(),
	func() reflect.Type {
		type args struct {
			B string `vfilter:"optional,field=b"`
			A int64  `vfilter:"required,field=a"`
		}
		return reflect.TypeOf(args{})
	}(),
	func() reflect.Type {
		type args struct {
			A string  `vfilter:"required,field=a"`
			C float64 `vfilter:"required,field=c"`
			D int64   `vfilter:"optional,field=d"`
		}
		return reflect.TypeOf(args{})
	}(),
	func() reflect.Type {
		type args struct {
			D int64 `vfilter:"required,field=a"`
		}
		return reflect.TypeOf(args{})
	}(),
	func() reflect.Type {
		type args struct {
			A int64 `vfilter:"required,field=d"`
			B string
		}
		return reflect.TypeOf(args{})
	}(),
	func() reflect.Type {
		type args struct {
			A int64  `vfilter:"optional,field=a"`
			B string `vfilter:"required,field=b"`
		}
		return reflect.TypeOf(args{})
	}(),
}

type localCall struct {
	Type  int
	Given []string
}

func checkLocal(r *R, calls []localCall) {
	scope := vfilter.NewScope()
	types := map[int]bool{}
	for i, c := range calls {
		t := localTypes[c.Type]
		args := ordereddict.NewDict()
		for k, n := range c.Given {
			args.Set(n, int64(i*10+k))
		}
		target := reflect.New(t)
		err := arg_parser.ExtractArgsWithContext(context.Background(), scope, args, target.Interface())
		wrong := false
		known := map[string]bool{}
		for k := 0; k < t.NumField(); k++ {
			tag := t.Field(k).Tag.Get("vfilter")
			if tag == "" {
				continue
			}
			name := tag[len(tag)-1:]
			known[name] = true
			v, given := args.Get(name)
			if strings.HasPrefix(tag, "required") && !given {
				wrong = true
			}
			if err == nil && given && fmt.Sprint(target.Elem().Field(k).Interface()) != fmt.Sprint(v) {
				r.Failf("call %d of %v: field %d is %v, expected %v", i, calls, k, target.Elem().Field(k).Interface(), v)
			}
		}
		for _, n := range c.Given {
			wrong = wrong || !known[n]
		}
		if wrong != (err != nil) {
			r.Failf("call %d of %v with %v: %v", i, calls, t, err)
		}
		if err == nil {
			types[c.Type] = true
		}
	}
	r.NonTrivialIf(len(types) > 1)
}

func init() {
	register(&Prop{
		ID: "C17",
		Rule: "Random struct types (every supported type of field, required or not) and random calls of a function or plugin with them: values of all types, lists, dicts, queries, arguments missing or unknown, all of them passed as a dict; " +
			"non-trivial: at least two arguments.",
		Assumptions: []string{"the text of a dict, or of a list of other than one element, is not specified where a string is wanted"},
		Arms: []*Arm{
			arm("same names", 2000, 20000, func(t *rapid.T) *[]localCall {
				g := newG(t)
				calls := []localCall{}
				for k := g.n(1, 8); k > 0; k-- {
					c := localCall{Type: g.n(0, len(localTypes)-1)}
					typ := localTypes[c.Type]
					for i := 0; i < typ.NumField(); i++ {
						if tag := typ.Field(i).Tag.Get("vfilter"); tag != "" && g.chance(90) {
							c.Given = append(c.Given, tag[len(tag)-1:])
						}
					}
					if g.chance(10) {
						c.Given = append(c.Given, "x")
					}
					calls = append(calls, c)
				}
				return &calls
			}, func(r *R, c *[]localCall) { checkLocal(r, *c) }),
			arm("args", 60000, 1500000, genArgs, checkArgs),
		},
	})
}
