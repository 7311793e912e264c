package main

import (
	"bytes"
	"fmt"
	"math"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"

	"go.mongodb.org/mongo-driver/bson"
	"go.mongodb.org/mongo-driver/bson/primitive"
)

// The query, projection, expression and update languages of the database
// server. The application uses little of them today; the rest is here so that a
// changed application gets the answer that the real database would give.

// missing is the value of a field that a document does not have.
type missing struct{}

func split(path string) []string { return strings.Split(path, ".") }

// ---- paths ----

// lookup collects the values at a path, as queries see them: arrays on the way
// are traversed, and an array at the end stands for itself and its elements.
func lookup(v any, path []string) (vals []any, present bool) {
	if len(path) == 0 {
		vals = []any{v}
		if a, ok := v.(bson.A); ok {
			vals = append(vals, a...)
		}
		return vals, true
	}
	switch d := v.(type) {
	case bson.D:
		for _, e := range d {
			if e.Key == path[0] {
				return lookup(e.Value, path[1:])
			}
		}
	case bson.A:
		if i, err := strconv.Atoi(path[0]); err == nil && i >= 0 && i < len(d) {
			vals, present = lookup(d[i], path[1:])
		}
		for _, x := range d {
			if _, ok := x.(bson.D); ok {
				w, p := lookup(x, path)
				vals, present = append(vals, w...), present || p
			}
		}
	}
	return
}

// sortKey is the value that a sort uses for a path.
func sortKey(d bson.D, path string, dir int) any {
	if !strings.Contains(path, ".") {
		if _, ok := get(d, path).(bson.A); !ok {
			return get(d, path)
		}
	}
	vals, _ := lookup(d, split(path))
	var best any
	first := true
	for _, v := range vals {
		if _, ok := v.(bson.A); ok && len(vals) > 1 {
			continue
		}
		if first || compare(v, best)*dir < 0 {
			best, first = v, false
		}
	}
	return best
}

// setPath sets a field, which may lie in a subdocument.
func setPath(v any, path []string, f func(old any) (any, *mongoError)) (any, *mongoError) {
	if len(path) == 0 {
		return f(v)
	}
	switch d := v.(type) {
	case missing:
		x, e := setPath(missing{}, path[1:], f)
		if e != nil {
			return nil, e
		}
		if _, ok := x.(missing); ok {
			return v, nil
		}
		return bson.D{{Key: path[0], Value: x}}, nil
	case bson.D:
		n := copyDoc(d)
		for i := range n {
			if n[i].Key == path[0] {
				x, e := setPath(n[i].Value, path[1:], f)
				if e != nil {
					return nil, e
				}
				if _, ok := x.(missing); ok {
					return append(n[:i], n[i+1:]...), nil
				}
				n[i].Value = x
				return n, nil
			}
		}
		x, e := setPath(missing{}, path[1:], f)
		if e != nil {
			return nil, e
		}
		if _, ok := x.(missing); ok {
			return d, nil
		}
		return append(n, bson.E{Key: path[0], Value: x}), nil
	case bson.A:
		i, err := strconv.Atoi(path[0])
		if err != nil || i < 0 {
			break
		}
		n := append(bson.A{}, d...)
		for len(n) <= i {
			n = append(n, nil)
		}
		x, e := setPath(n[i], path[1:], f)
		if e != nil {
			return nil, e
		}
		if _, ok := x.(missing); ok {
			x = nil
		}
		n[i] = x
		return n, nil
	}
	if x, e := f(missing{}); e == nil {
		if _, ok := x.(missing); ok {
			return v, nil
		}
	}
	return nil, errf(28, "Cannot create field '%s' in element {%s}", path[0], extJSON(bson.D{{Key: "", Value: v}}))
}

// ---- queries ----

func matches(d, filter bson.D) bool {
	for _, e := range filter {
		switch e.Key {
		case "$and", "$or", "$nor":
			all, any := true, false
			for _, f := range listOf(e.Value) {
				m := matches(d, docOf(f))
				all, any = all && m, any || m
			}
			if e.Key == "$and" && !all || e.Key == "$or" && !any || e.Key == "$nor" && any {
				return false
			}
			continue
		case "$comment":
			continue
		case "$expr":
			if !truthy(expr(d, e.Value)) {
				return false
			}
			continue
		}
		if strings.HasPrefix(e.Key, "$") {
			unknown("query operator %s", e.Key)
		}
		vals, present := lookup(d, split(e.Key))
		if !predicate(vals, present, e.Value) {
			return false
		}
	}
	return true
}

// operators tells whether a value of a query consists of operators.
func operators(v any) (bson.D, bool) {
	ops, ok := v.(bson.D)
	return ops, ok && len(ops) > 0 && strings.HasPrefix(ops[0].Key, "$")
}

func predicate(vals []any, present bool, w any) bool {
	if ops, ok := operators(w); ok {
		for _, o := range ops {
			if !operator(vals, present, o.Key, o.Value, ops) {
				return false
			}
		}
		return true
	}
	return operator(vals, present, "$eq", w, nil)
}

func operator(vals []any, present bool, op string, w any, ops bson.D) bool {
	some := func(f func(v any) bool) bool {
		for _, v := range vals {
			if f(v) {
				return true
			}
		}
		return !present && f(nil)
	}
	switch op {
	case "$eq":
		if r, ok := w.(primitive.Regex); ok {
			return operator(vals, present, "$regex", r, nil)
		}
		return some(func(v any) bool { return equal(v, w) })
	case "$lt":
		return some(func(v any) bool { return rank(v) == rank(w) && compare(v, w) < 0 })
	case "$lte":
		return some(func(v any) bool { return rank(v) == rank(w) && compare(v, w) <= 0 })
	case "$gt":
		return some(func(v any) bool { return rank(v) == rank(w) && compare(v, w) > 0 })
	case "$gte":
		return some(func(v any) bool { return rank(v) == rank(w) && compare(v, w) >= 0 })
	case "$in":
		for _, x := range listOf(w) {
			if operator(vals, present, "$eq", x, nil) {
				return true
			}
		}
		return false
	case "$ne":
		return !operator(vals, present, "$eq", w, nil)
	case "$nin":
		return !operator(vals, present, "$in", w, nil)
	case "$not":
		if _, ok := operators(w); !ok {
			return !operator(vals, present, "$eq", w, nil)
		}
		return !predicate(vals, present, w)
	case "$exists":
		return present == truth(w)
	case "$type":
		types, ok := w.(bson.A)
		if !ok {
			types = bson.A{w}
		}
		return present && some(func(v any) bool {
			for _, t := range types {
				if typeMatches(v, t) {
					return true
				}
			}
			return false
		})
	case "$size":
		return len(vals) > 0 && func() bool { a, ok := vals[0].(bson.A); return ok && len(a) == num(w) }()
	case "$all":
		for _, x := range listOf(w) {
			if !operator(vals, present, "$eq", x, nil) {
				return false
			}
		}
		return len(listOf(w)) > 0
	case "$elemMatch":
		for _, v := range vals {
			a, _ := v.(bson.A)
			for _, x := range a {
				if _, ok := operators(w); ok {
					if predicate([]any{x}, true, w) {
						return true
					}
				} else if y, ok := x.(bson.D); ok && matches(y, docOf(w)) {
					return true
				}
			}
		}
		return false
	case "$mod":
		m := listOf(w)
		return some(func(v any) bool { return rank(v) == 2 && len(m) == 2 && num(v)%num(m[0]) == num(m[1]) })
	case "$options":
		return true
	case "$regex":
		pattern, opts := "", ""
		switch r := w.(type) {
		case primitive.Regex:
			pattern, opts = r.Pattern, r.Options
		case string:
			pattern = r
		default:
			unknown("regular expression %T", w)
		}
		if o, ok := get(ops, "$options").(string); ok {
			opts = o
		}
		if opts != "" {
			pattern = "(?" + strings.Trim(opts, "xu") + ")" + pattern
		}
		re, err := regexp.Compile(pattern)
		if err != nil {
			unknown("regular expression %s", pattern)
		}
		return some(func(v any) bool { x, ok := v.(string); return ok && re.MatchString(x) })
	}
	unknown("query operator %s", op)
	return false
}

var typeNames = map[string]int{"double": 1, "string": 2, "object": 3, "array": 4, "binData": 5, "objectId": 7, "bool": 8, "date": 9, "null": 10, "regex": 11, "int": 16, "timestamp": 17, "long": 18}

func typeNumber(v any) int {
	switch v.(type) {
	case float64:
		return 1
	case string:
		return 2
	case bson.D:
		return 3
	case bson.A:
		return 4
	case primitive.Binary:
		return 5
	case primitive.ObjectID:
		return 7
	case bool:
		return 8
	case primitive.DateTime:
		return 9
	case nil:
		return 10
	case primitive.Regex:
		return 11
	case int32:
		return 16
	case primitive.Timestamp:
		return 17
	case int64:
		return 18
	}
	unknown("value of type %T", v)
	return 0
}

func typeMatches(v, t any) bool {
	if n, ok := t.(string); ok {
		if n == "number" {
			return rank(v) == 2
		}
		k, ok := typeNames[n]
		if !ok {
			unknown("type %s", n)
		}
		return typeNumber(v) == k
	}
	return typeNumber(v) == num(t)
}

// implies tells whether a query only matches documents with a value in a field.
func implies(filter bson.D, key string, v any) bool {
	for _, e := range filter {
		switch e.Key {
		case "$and":
			for _, f := range listOf(e.Value) {
				if implies(docOf(f), key, v) {
					return true
				}
			}
		case "$or":
			all := len(listOf(e.Value)) > 0
			for _, f := range listOf(e.Value) {
				all = all && implies(docOf(f), key, v)
			}
			if all {
				return true
			}
		case key:
			ops, ok := operators(e.Value)
			if !ok {
				if equal(e.Value, v) {
					return true
				}
				continue
			}
			for _, o := range ops {
				if o.Key == "$eq" && equal(o.Value, v) {
					return true
				}
				if o.Key == "$in" {
					all := len(listOf(o.Value)) > 0
					for _, x := range listOf(o.Value) {
						all = all && equal(x, v)
					}
					if all {
						return true
					}
				}
			}
		}
	}
	return false
}

// ---- expressions ----

// exprVars are the variables of an expression.
type exprVars map[string]any

func truthy(v any) bool {
	switch x := v.(type) {
	case nil, missing:
		return false
	case bool:
		return x
	case int32, int64, float64:
		return float(x) != 0
	}
	return true
}

func null(v any) any {
	if _, ok := v.(missing); ok {
		return nil
	}
	return v
}

func isNull(v any) bool { return null(v) == nil }

// number makes the smallest integer or a double.
func number(f float64, like ...any) any {
	wide := false
	for _, v := range like {
		switch v.(type) {
		case float64:
			return f
		case int64:
			wide = true
		}
	}
	if !wide && f == math.Trunc(f) && math.Abs(f) <= math.MaxInt32 {
		return int32(f)
	}
	return int64(f)
}

func field(v any, path []string) any {
	if len(path) == 0 {
		return v
	}
	switch d := v.(type) {
	case bson.D:
		if !has(d, path[0]) {
			return missing{}
		}
		return field(get(d, path[0]), path[1:])
	case bson.A:
		out := bson.A{}
		for _, x := range d {
			if y := field(x, path); y != any(missing{}) {
				out = append(out, y)
			}
		}
		return out
	}
	return missing{}
}

func expr(d bson.D, e any) any { return evaluate(d, e, nil) }

func evaluate(d bson.D, e any, vars exprVars) any {
	switch x := e.(type) {
	case string:
		if strings.HasPrefix(x, "$$") {
			p := split(x[2:])
			switch p[0] {
			case "ROOT", "CURRENT":
				return field(d, p[1:])
			case "NOW":
				return primitive.NewDateTimeFromTime(time.Now())
			case "REMOVE":
				return missing{}
			}
			v, ok := vars[p[0]]
			if !ok {
				unknown("variable %s", x)
			}
			return field(v, p[1:])
		}
		if strings.HasPrefix(x, "$") {
			return field(d, split(x[1:]))
		}
		return x
	case bson.A:
		out := bson.A{}
		for _, v := range x {
			out = append(out, null(evaluate(d, v, vars)))
		}
		return out
	case bson.D:
		if len(x) == 1 && strings.HasPrefix(x[0].Key, "$") {
			return call(d, x[0].Key, x[0].Value, vars)
		}
		out := bson.D{}
		for _, f := range x {
			if strings.HasPrefix(f.Key, "$") {
				unknown("expression %v", x)
			}
			if v := evaluate(d, f.Value, vars); v != any(missing{}) {
				out = append(out, bson.E{Key: f.Key, Value: v})
			}
		}
		return out
	}
	return e
}

func call(d bson.D, op string, arg any, vars exprVars) any {
	if op == "$literal" {
		return arg
	}
	// Arguments are evaluated on demand where an operator does so.
	list, isList := arg.(bson.A)
	if !isList {
		list = bson.A{arg}
	}
	ev := func(v any) any { return evaluate(d, v, vars) }
	all := func() []any {
		out := make([]any, len(list))
		for i, v := range list {
			out[i] = ev(v)
		}
		return out
	}
	need := func(n int) []any {
		if len(list) != n {
			unknown("%s with %d arguments", op, len(list))
		}
		return all()
	}
	with := func(name string, v any, e any) any {
		w := exprVars{name: v}
		for k, x := range vars {
			if k != name {
				w[k] = x
			}
		}
		return evaluate(d, e, w)
	}
	opt := func(k string) any {
		o := docOf(arg)
		if !has(o, k) {
			return missing{}
		}
		return ev(get(o, k))
	}
	switch op {
	case "$eq", "$ne", "$lt", "$lte", "$gt", "$gte", "$cmp":
		a := need(2)
		c := 0
		_, m := a[0].(missing)
		_, n := a[1].(missing)
		switch {
		case m && n:
		case m:
			c = -1
		case n:
			c = 1
		default:
			c = compare(a[0], a[1])
		}
		switch op {
		case "$eq":
			return c == 0
		case "$ne":
			return c != 0
		case "$lt":
			return c < 0
		case "$lte":
			return c <= 0
		case "$gt":
			return c > 0
		case "$gte":
			return c >= 0
		}
		if c < 0 {
			return int32(-1)
		} else if c > 0 {
			return int32(1)
		}
		return int32(0)
	case "$and":
		for _, v := range list {
			if !truthy(ev(v)) {
				return false
			}
		}
		return true
	case "$or":
		for _, v := range list {
			if truthy(ev(v)) {
				return true
			}
		}
		return false
	case "$not":
		return !truthy(need(1)[0])
	case "$cond":
		if isList {
			if len(list) != 3 {
				unknown("$cond with %d arguments", len(list))
			}
			if truthy(ev(list[0])) {
				return ev(list[1])
			}
			return ev(list[2])
		}
		o := docOf(arg)
		if truthy(ev(get(o, "if"))) {
			return ev(get(o, "then"))
		}
		return ev(get(o, "else"))
	case "$switch":
		o := docOf(arg)
		for _, b := range listOf(get(o, "branches")) {
			if truthy(ev(get(docOf(b), "case"))) {
				return ev(get(docOf(b), "then"))
			}
		}
		if !has(o, "default") {
			unknown("$switch without a match")
		}
		return ev(get(o, "default"))
	case "$ifNull":
		for i, v := range list {
			if x := ev(v); !isNull(x) || i == len(list)-1 {
				return x
			}
		}
	case "$add", "$multiply":
		f := 0.0
		if op == "$multiply" {
			f = 1
		}
		date := false
		v := all()
		for _, x := range v {
			if isNull(x) {
				return nil
			}
			if t, ok := x.(primitive.DateTime); ok && op == "$add" {
				date = true
				f += float64(t)
				continue
			}
			if op == "$add" {
				f += float(x)
			} else {
				f *= float(x)
			}
		}
		if date {
			return primitive.DateTime(f)
		}
		return number(f, v...)
	case "$subtract":
		v := need(2)
		if isNull(v[0]) || isNull(v[1]) {
			return nil
		}
		a, adate := v[0].(primitive.DateTime)
		b, bdate := v[1].(primitive.DateTime)
		switch {
		case adate && bdate:
			return int64(a - b)
		case adate:
			return a - primitive.DateTime(float(v[1]))
		}
		return number(float(v[0])-float(v[1]), v...)
	case "$divide":
		v := need(2)
		if isNull(v[0]) || isNull(v[1]) {
			return nil
		}
		return float(v[0]) / float(v[1])
	case "$mod":
		v := need(2)
		if isNull(v[0]) || isNull(v[1]) {
			return nil
		}
		return number(math.Mod(float(v[0]), float(v[1])), v...)
	case "$abs", "$floor", "$ceil", "$trunc":
		v := need(1)
		if isNull(v[0]) {
			return nil
		}
		f := map[string]func(float64) float64{"$abs": math.Abs, "$floor": math.Floor, "$ceil": math.Ceil, "$trunc": math.Trunc}[op]
		return number(f(float(v[0])), v...)
	case "$min", "$max", "$sum", "$avg":
		v := all()
		if len(v) == 1 {
			if a, ok := v[0].(bson.A); ok {
				v = a
			}
		}
		return accumulate(op, v)
	case "$concat":
		s := ""
		for _, v := range all() {
			if isNull(v) {
				return nil
			}
			s += v.(string)
		}
		return s
	case "$toLower", "$toUpper":
		v := need(1)[0]
		if isNull(v) {
			return ""
		}
		if op == "$toLower" {
			return strings.ToLower(v.(string))
		}
		return strings.ToUpper(v.(string))
	case "$toString":
		switch v := need(1)[0].(type) {
		case nil, missing:
			return nil
		case string:
			return v
		case primitive.DateTime:
			return v.Time().UTC().Format("2006-01-02T15:04:05.000Z")
		default:
			return fmt.Sprint(v)
		}
	case "$toInt", "$toLong", "$toDouble":
		switch v := need(1)[0].(type) {
		case nil, missing:
			return nil
		case primitive.DateTime:
			return int64(v)
		case bool:
			return number(map[bool]float64{true: 1}[v])
		case string:
			f, err := strconv.ParseFloat(v, 64)
			if err != nil {
				unknown("conversion of %q", v)
			}
			return number(f)
		default:
			if op == "$toDouble" {
				return float(v)
			}
			return number(math.Trunc(float(v)))
		}
	case "$toDate":
		switch v := need(1)[0].(type) {
		case nil, missing:
			return nil
		case primitive.DateTime:
			return v
		default:
			return primitive.DateTime(float(v))
		}
	case "$type":
		v := need(1)[0]
		if v == any(missing{}) {
			return "missing"
		}
		for k, n := range typeNames {
			if n == typeNumber(v) {
				return k
			}
		}
	case "$in":
		v := need(2)
		for _, x := range listOf(v[1]) {
			if equal(null(v[0]), x) {
				return true
			}
		}
		return false
	case "$size":
		return int32(len(listOf(need(1)[0])))
	case "$isArray":
		_, ok := need(1)[0].(bson.A)
		return ok
	case "$arrayElemAt":
		v := need(2)
		if isNull(v[0]) {
			return nil
		}
		a, i := listOf(v[0]), num(v[1])
		if i < 0 {
			i += len(a)
		}
		if i < 0 || i >= len(a) {
			return missing{}
		}
		return a[i]
	case "$first", "$last":
		v := need(1)[0]
		if isNull(v) {
			return nil
		}
		a := listOf(v)
		switch {
		case len(a) == 0:
			return missing{}
		case op == "$first":
			return a[0]
		}
		return a[len(a)-1]
	case "$concatArrays", "$setUnion":
		out := bson.A{}
		for _, v := range all() {
			if isNull(v) {
				return nil
			}
			for _, x := range listOf(v) {
				dup := false
				for _, y := range out {
					dup = dup || op == "$setUnion" && equal(x, y)
				}
				if !dup {
					out = append(out, x)
				}
			}
		}
		return out
	case "$mergeObjects":
		out := bson.D{}
		for _, v := range all() {
			if isNull(v) {
				continue
			}
			for _, e := range docOf(v) {
				out = set(out, e.Key, e.Value)
			}
		}
		return out
	case "$objectToArray":
		v := need(1)[0]
		if isNull(v) {
			return nil
		}
		out := bson.A{}
		for _, e := range docOf(v) {
			out = append(out, bson.D{{Key: "k", Value: e.Key}, {Key: "v", Value: e.Value}})
		}
		return out
	case "$strLenCP", "$strLenBytes":
		s := need(1)[0].(string)
		if op == "$strLenBytes" {
			return int32(len(s))
		}
		return int32(len([]rune(s)))
	case "$substr", "$substrBytes", "$substrCP":
		v := need(3)
		if isNull(v[0]) {
			return ""
		}
		r := []rune(v[0].(string))
		i, n := num(v[1]), num(v[2])
		if i > len(r) {
			i = len(r)
		}
		r = r[i:]
		if n >= 0 && n < len(r) {
			r = r[:n]
		}
		return string(r)
	case "$indexOfCP", "$indexOfBytes":
		v := need(2)
		if isNull(v[0]) {
			return nil
		}
		return int32(strings.Index(v[0].(string), v[1].(string)))
	case "$let":
		o := docOf(arg)
		w := exprVars{}
		for k, x := range vars {
			w[k] = x
		}
		for _, e := range docOf(get(o, "vars")) {
			w[e.Key] = ev(e.Value)
		}
		return evaluate(d, get(o, "in"), w)
	case "$map", "$filter":
		a := opt("input")
		if isNull(a) {
			return nil
		}
		name := "this"
		if n, ok := get(docOf(arg), "as").(string); ok {
			name = n
		}
		out := bson.A{}
		for _, x := range listOf(a) {
			if op == "$map" {
				out = append(out, null(with(name, x, get(docOf(arg), "in"))))
			} else if truthy(with(name, x, get(docOf(arg), "cond"))) {
				out = append(out, x)
			}
		}
		return out
	}
	unknown("expression %s", op)
	return nil
}

func accumulate(op string, v []any) any {
	switch op {
	case "$sum", "$avg":
		f, n := 0.0, 0
		var like []any
		for _, x := range v {
			if !isNull(x) && rank(x) == 2 {
				f += float(x)
				n++
				like = append(like, x)
			}
		}
		if op == "$sum" {
			return number(f, like...)
		}
		if n == 0 {
			return nil
		}
		return f / float64(n)
	}
	var best any
	for _, x := range v {
		if isNull(x) {
			continue
		}
		if best == nil || op == "$min" && compare(x, best) < 0 || op == "$max" && compare(x, best) > 0 {
			best = x
		}
	}
	return best
}

// group is the stage of that name.
func group(v []bson.D, spec bson.D) (u []bson.D) {
	var members [][]bson.D
	for _, x := range v {
		id := null(expr(x, get(spec, "_id")))
		at := -1
		for i := range u {
			if equal(get(u[i], "_id"), id) {
				at = i
			}
		}
		if at < 0 {
			at = len(u)
			u = append(u, bson.D{{Key: "_id", Value: id}})
			members = append(members, nil)
		}
		members[at] = append(members[at], x)
	}
	for i := range u {
		for _, e := range spec {
			if e.Key == "_id" {
				continue
			}
			acc := docOf(e.Value)
			if len(acc) != 1 {
				unknown("accumulator %v", acc)
			}
			var w []any
			for _, x := range members[i] {
				w = append(w, expr(x, acc[0].Value))
			}
			var r any
			switch acc[0].Key {
			case "$sum", "$avg", "$min", "$max":
				r = accumulate(acc[0].Key, w)
			case "$first":
				r = null(w[0])
			case "$last":
				r = null(w[len(w)-1])
			case "$count":
				r = int32(len(w))
			case "$push", "$addToSet":
				a := bson.A{}
				for _, x := range w {
					dup := x == any(missing{})
					for _, y := range a {
						dup = dup || acc[0].Key == "$addToSet" && equal(x, y)
					}
					if !dup {
						a = append(a, x)
					}
				}
				r = a
			case "$mergeObjects":
				out := bson.D{}
				for _, x := range w {
					if !isNull(x) {
						for _, f := range docOf(x) {
							out = set(out, f.Key, f.Value)
						}
					}
				}
				r = out
			default:
				unknown("accumulator %s", acc[0].Key)
			}
			u[i] = append(u[i], bson.E{Key: e.Key, Value: r})
		}
	}
	return u
}

// stages runs a pipeline on documents.
func stages(v []bson.D, pipeline bson.A) ([]bson.D, *mongoError) {
	for _, st := range pipeline {
		d := docOf(st)
		if len(d) != 1 {
			return nil, errf(40323, "A pipeline stage specification object must contain exactly one field.")
		}
		switch a := d[0].Value; d[0].Key {
		case "$match":
			var u []bson.D
			for _, x := range v {
				if matches(x, docOf(a)) {
					u = append(u, x)
				}
			}
			v = u
		case "$sort":
			v = append([]bson.D{}, v...)
			sortDocs(v, docOf(a))
		case "$skip":
			if num(a) < 0 {
				return nil, errf(15956, "Argument to $skip cannot be negative")
			}
			v = window(v, num(a), 0)
		case "$limit":
			if num(a) <= 0 {
				return nil, errf(15958, "the limit must be positive")
			}
			v = window(v, 0, num(a))
		case "$sample":
			v = window(v, 0, num(get(docOf(a), "size")))
		case "$project":
			v = project(v, docOf(a))
		case "$set", "$addFields":
			u := make([]bson.D, len(v))
			for i, x := range v {
				n := any(x)
				for _, e := range docOf(a) {
					w := evaluate(x, e.Value, nil)
					n, _ = setPath(n, split(e.Key), func(any) (any, *mongoError) { return w, nil })
				}
				u[i] = n.(bson.D)
			}
			v = u
		case "$unset":
			names, ok := a.(bson.A)
			if !ok {
				names = bson.A{a}
			}
			u := make([]bson.D, len(v))
			for i, x := range v {
				n := any(x)
				for _, k := range names {
					n, _ = setPath(n, split(k.(string)), func(any) (any, *mongoError) { return missing{}, nil })
				}
				u[i] = n.(bson.D)
			}
			v = u
		case "$replaceRoot", "$replaceWith":
			e := a
			if d[0].Key == "$replaceRoot" {
				e = get(docOf(a), "newRoot")
			}
			u := make([]bson.D, len(v))
			for i, x := range v {
				n, ok := expr(x, e).(bson.D)
				if !ok {
					return nil, errf(40228, "'newRoot' expression must evaluate to an object")
				}
				u[i] = n
			}
			v = u
		case "$unwind":
			path, ok := a.(string)
			keep := false
			if !ok {
				path, _ = get(docOf(a), "path").(string)
				keep = truth(get(docOf(a), "preserveNullAndEmptyArrays"))
			}
			var u []bson.D
			for _, x := range v {
				w := expr(x, path)
				list, isArray := w.(bson.A)
				if !isArray && !isNull(w) {
					u = append(u, x)
					continue
				}
				if len(list) == 0 && keep {
					u = append(u, x)
				}
				for _, y := range list {
					n, e := setPath(x, split(path[1:]), func(any) (any, *mongoError) { return y, nil })
					if e != nil {
						return nil, e
					}
					u = append(u, n.(bson.D))
				}
			}
			v = u
		case "$count":
			if len(v) > 0 {
				v = []bson.D{{{Key: a.(string), Value: int32(len(v))}}}
			}
		case "$group":
			v = group(v, docOf(a))
		case "$sortByCount":
			v = group(v, bson.D{{Key: "_id", Value: a}, {Key: "count", Value: bson.D{{Key: "$sum", Value: int32(1)}}}})
			sortDocs(v, bson.D{{Key: "count", Value: int32(-1)}})
		case "$facet":
			out := bson.D{}
			for _, f := range docOf(a) {
				u, e := stages(v, listOf(f.Value))
				if e != nil {
					return nil, e
				}
				list := bson.A{}
				for _, x := range u {
					list = append(list, x)
				}
				out = append(out, bson.E{Key: f.Key, Value: list})
			}
			v = []bson.D{out}
		default:
			unknown("stage %s", d[0].Key)
		}
	}
	return v, nil
}

// ---- projections ----

// project applies a projection, whose values are flags or expressions.
func project(v []bson.D, p bson.D) []bson.D {
	if len(p) == 0 {
		return v
	}
	flag := func(x any) bool {
		switch x.(type) {
		case bool, int32, int64, float64:
			return true
		}
		return false
	}
	include, id := false, true
	for _, e := range p {
		switch {
		case e.Key == "_id" && flag(e.Value):
			id = truth(e.Value)
			include = include || len(p) == 1 && id
		case strings.HasPrefix(e.Key, "$") || strings.Contains(e.Key, ".$"):
			unknown("projection %v", p)
		case !flag(e.Value) || truth(e.Value):
			include = true
		}
	}
	var paths [][]string
	for _, e := range p {
		if e.Key != "_id" && flag(e.Value) {
			paths = append(paths, split(e.Key))
		}
	}
	out := make([]bson.D, len(v))
	for i, d := range v {
		n := bson.D{}
		for _, e := range d {
			if e.Key == "_id" {
				if id {
					n = append(n, e)
				}
				continue
			}
			if w := pick1(e.Key, e.Value, paths, include); w != any(missing{}) {
				n = append(n, bson.E{Key: e.Key, Value: w})
			}
		}
		for _, e := range p {
			if flag(e.Value) {
				continue
			}
			if o, ok := operators(e.Value); ok && (o[0].Key == "$slice" || o[0].Key == "$elemMatch" || o[0].Key == "$meta") {
				unknown("projection %v", p)
			}
			w := evaluate(d, e.Value, nil)
			m, _ := setPath(n, split(e.Key), func(any) (any, *mongoError) { return w, nil })
			n = m.(bson.D)
		}
		out[i] = n
	}
	return out
}

// pick1 projects one field.
func pick1(key string, v any, paths [][]string, include bool) any {
	var sub [][]string
	for _, p := range paths {
		if p[0] == key {
			if len(p) == 1 {
				if include {
					return v
				}
				return missing{}
			}
			sub = append(sub, p[1:])
		}
	}
	if sub == nil {
		if include {
			return missing{}
		}
		return v
	}
	switch d := v.(type) {
	case bson.D:
		n := bson.D{}
		for _, e := range d {
			if w := pick1(e.Key, e.Value, sub, include); w != any(missing{}) {
				n = append(n, bson.E{Key: e.Key, Value: w})
			}
		}
		return n
	case bson.A:
		n := bson.A{}
		for _, x := range d {
			if y, ok := x.(bson.D); ok {
				n = append(n, pick1("", y, prefixed(sub), include))
			} else if !include {
				n = append(n, x)
			}
		}
		return n
	}
	if include {
		return missing{}
	}
	return v
}

func prefixed(paths [][]string) (out [][]string) {
	for _, p := range paths {
		out = append(out, append([]string{""}, p...))
	}
	return
}

// ---- updates ----

// update is the description of an update: a document or a pipeline.
type updateSpec struct {
	doc      bson.D
	pipeline bson.A
}

func updateOf(v any) updateSpec {
	if a, ok := v.(bson.A); ok {
		return updateSpec{pipeline: append(bson.A{}, a...)}
	}
	return updateSpec{doc: docOf(v)}
}

func (u updateSpec) replacement() bool {
	return u.pipeline == nil && (len(u.doc) == 0 || !strings.HasPrefix(u.doc[0].Key, "$"))
}

// apply computes an updated document.
func (u updateSpec) apply(old bson.D, inserting bool) (bson.D, *mongoError) {
	checkID := func(n bson.D) (bson.D, *mongoError) {
		if get(old, "_id") != nil && !equal(get(n, "_id"), get(old, "_id")) {
			return nil, errf(66, "Performing an update on the path '_id' would modify the immutable field '_id'")
		}
		return n, nil
	}
	if u.pipeline != nil {
		for _, st := range u.pipeline {
			switch d := docOf(st); d[0].Key {
			case "$set", "$addFields", "$unset", "$project", "$replaceRoot", "$replaceWith":
			default:
				return nil, errf(72, "%s is not allowed to be used within an update", d[0].Key)
			}
		}
		v, e := stages([]bson.D{old}, u.pipeline)
		if e != nil {
			return nil, e
		}
		n := v[0]
		if get(n, "_id") == nil && get(old, "_id") != nil {
			n = append(bson.D{{Key: "_id", Value: get(old, "_id")}}, n...)
		}
		return checkID(n)
	}
	if u.replacement() {
		n := bson.D{{Key: "_id", Value: get(old, "_id")}}
		for _, e := range u.doc {
			if e.Key == "_id" {
				if get(old, "_id") != nil && !equal(e.Value, get(old, "_id")) {
					return nil, errf(66, "the _id field is immutable")
				}
				n[0].Value = e.Value
				continue
			}
			n = append(n, e)
		}
		return n, nil
	}
	var seen []string
	n := any(copyDoc(old))
	for _, op := range u.doc {
		for _, e := range docOf(op.Value) {
			if strings.Contains(e.Key, "$") {
				unknown("update of %s", e.Key)
			}
			for _, p := range seen {
				if p == e.Key || strings.HasPrefix(p, e.Key+".") || strings.HasPrefix(e.Key, p+".") {
					return nil, errf(40, "Updating the path '%s' would create a conflict at '%s'", e.Key, p)
				}
			}
			seen = append(seen, e.Key)
			if op.Key == "$setOnInsert" && !inserting {
				continue
			}
			if op.Key == "$rename" {
				v := field(n, split(e.Key))
				if v == any(missing{}) {
					continue
				}
				n, _ = setPath(n, split(e.Key), func(any) (any, *mongoError) { return missing{}, nil })
				m, err := setPath(n, split(e.Value.(string)), func(any) (any, *mongoError) { return v, nil })
				if err != nil {
					return nil, err
				}
				n = m
				continue
			}
			m, err := setPath(n, split(e.Key), func(v any) (any, *mongoError) { return modify(op.Key, v, e.Value) })
			if err != nil {
				return nil, err
			}
			n = m
		}
	}
	return checkID(n.(bson.D))
}

// modify is the effect of an update operator on one field.
func modify(op string, v, w any) (any, *mongoError) {
	_, absent := v.(missing)
	array := func() (bson.A, *mongoError) {
		if absent {
			return bson.A{}, nil
		}
		a, ok := v.(bson.A)
		if !ok {
			return nil, errf(2, "The field must be an array but is of type %T in document", v)
		}
		return append(bson.A{}, a...), nil
	}
	switch op {
	case "$set", "$setOnInsert":
		return w, nil
	case "$unset":
		return missing{}, nil
	case "$inc", "$mul":
		if absent {
			if op == "$mul" {
				return number(0, w), nil
			}
			return w, nil
		}
		if v == nil || rank(v) != 2 {
			return nil, errf(14, "Cannot apply %s to a value of non-numeric type", op)
		}
		if op == "$inc" {
			return number(float(v)+float(w), v, w), nil
		}
		return number(float(v)*float(w), v, w), nil
	case "$min", "$max":
		if absent || op == "$min" && compare(w, v) < 0 || op == "$max" && compare(w, v) > 0 {
			return w, nil
		}
		return v, nil
	case "$currentDate":
		if d, ok := w.(bson.D); ok && get(d, "$type") == "timestamp" {
			return primitive.Timestamp{T: uint32(time.Now().Unix()), I: 1}, nil
		}
		return primitive.NewDateTimeFromTime(time.Now()), nil
	case "$push", "$addToSet":
		a, e := array()
		if e != nil {
			return nil, e
		}
		items := bson.A{w}
		if d, ok := operators(w); ok {
			if len(d) > 1 || d[0].Key != "$each" {
				unknown("%s with %v", op, d)
			}
			items = listOf(d[0].Value)
		}
		for _, x := range items {
			dup := false
			for _, y := range a {
				dup = dup || op == "$addToSet" && equal(x, y)
			}
			if !dup {
				a = append(a, x)
			}
		}
		return a, nil
	case "$pull", "$pullAll":
		if absent {
			return v, nil
		}
		a, e := array()
		if e != nil {
			return nil, e
		}
		out := bson.A{}
		for _, x := range a {
			gone := false
			if op == "$pullAll" {
				for _, y := range listOf(w) {
					gone = gone || equal(x, y)
				}
			} else if _, ok := operators(w); ok {
				gone = predicate([]any{x}, true, w)
			} else if d, ok := w.(bson.D); ok {
				y, isDoc := x.(bson.D)
				gone = isDoc && matches(y, d)
			} else {
				gone = equal(x, w)
			}
			if !gone {
				out = append(out, x)
			}
		}
		return out, nil
	case "$pop":
		if absent {
			return v, nil
		}
		a, e := array()
		if e != nil || len(a) == 0 {
			return a, e
		}
		if num(w) < 0 {
			return a[1:], nil
		}
		return a[:len(a)-1], nil
	}
	unknown("update operator %s", op)
	return nil, nil
}

// ---- order ----

func sortDocs(v []bson.D, by bson.D) {
	if len(by) == 0 {
		return
	}
	sort.SliceStable(v, func(i, j int) bool {
		for _, e := range by {
			if e.Key == "$natural" {
				continue
			}
			dir := num(e.Value)
			if c := compare(sortKey(v[i], e.Key, dir), sortKey(v[j], e.Key, dir)) * dir; c != 0 {
				return c < 0
			}
		}
		return false
	})
}

func compareBytes(a, b primitive.Binary) int {
	if c := len(a.Data) - len(b.Data); c != 0 {
		return c
	}
	if c := int(a.Subtype) - int(b.Subtype); c != 0 {
		return c
	}
	return bytes.Compare(a.Data, b.Data)
}
