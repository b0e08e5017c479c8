package main

// The ESTree form of every kind of node, from the ESTree specification
// (es5.md to es2022.md): the names of its properties and what they hold in
// terms of the node's fields. A want is checked against the value the code
// gives; the first string is what is wrong ("" nothing).

type want func(w *estWorld, e *Exec, s *State, got Val) string

// specOf is a want about the node n.
type specOf func(w *estWorld, n Val) want

// text is a constant string.
func text(t string) specOf {
	return func(w *estWorld, n Val) want {
		return func(w *estWorld, e *Exec, s *State, got Val) string {
			x := w.str(got)
			if x == nil || !s.pc.Entails(mkEq(x, mkStr(t))) {
				return "is " + valString(got) + ", not " + t
			}
			return ""
		}
	}
}

func boolean(b bool) specOf {
	return func(w *estWorld, n Val) want { return isBool(mkBool(b)) }
}

func isBool(b *Term) want {
	return func(w *estWorld, e *Exec, s *State, got Val) string {
		x, ok := unIface(got).(*Term)
		if !ok || x.Sort != SBool || !s.pc.Entails(mkIff(x, b)) {
			return "is " + valString(got) + ", not " + b.String()
		}
		return ""
	}
}

// null is nothing.
func null(w *estWorld, n Val) want {
	return func(w *estWorld, e *Exec, s *State, got Val) string {
		if !isNilVal(got) {
			return "is " + valString(got) + ", not null"
		}
		return ""
	}
}

// val is a field as it is.
func val(name string) specOf {
	return func(w *estWorld, n Val) want {
		f := w.field(n, name)
		return func(w *estWorld, e *Exec, s *State, got Val) string {
			got = unIface(got)
			if f != nil && same(got, f) {
				return ""
			}
			x, y := w.str(got), w.str(f)
			if x != nil && y != nil && x.Sort == y.Sort && s.pc.Entails(mkEq(x, y)) {
				return ""
			}
			if a, ok := got.(*Term); ok && a.Sort == SBool {
				if b, ok := f.(*Term); ok && b.Sort == SBool && s.pc.Entails(mkIff(a, b)) {
					return ""
				}
			}
			return "is " + valString(got) + ", not the node's " + name
		}
	}
}

// conv is the ESTree form of a field (null if there is none).
func conv(name string) specOf {
	return func(w *estWorld, n Val) want { return w.form(w.field(n, name)) }
}

// ident is an identifier with the name a field holds (null if it is empty).
func ident(name string) specOf {
	return func(w *estWorld, n Val) want { return w.ident(w.field(n, name)) }
}

// choice is a field of constants as a string or boolean.
func choice(name string, table map[string]string) specOf {
	return func(w *estWorld, n Val) want {
		f, _ := w.field(n, name).(*Term)
		return func(w *estWorld, e *Exec, s *State, got Val) string {
			if f == nil {
				return "there is no field " + name
			}
			d := s.pc.DomOf(f)
			for c, t := range table {
				v, ok := w.constant(c)
				if !ok {
					return "there is no constant " + c
				}
				if !d.has(v) {
					continue
				}
				pc, ok := s.pc.Assume(mkIn(f, setOf(v)))
				if !ok {
					continue
				}
				st := s.fork()
				st.pc = pc
				g := unIface(got)
				if b, ok := g.(*Term); ok && b.Sort == SBool {
					if (t == "true" || t == "false") && pc.Entails(mkIff(b, mkBool(t == "true"))) {
						continue
					}
				} else if x := w.str(got); x != nil && pc.Entails(mkEq(x, mkStr(t))) {
					continue
				}
				return "is " + valString(got) + " for " + c + ", not " + t
			}
			return ""
		}
	}
}

// cond chooses by a condition about the node.
func cond(c func(w *estWorld, n Val) *Term, yes, no specOf) specOf {
	return func(w *estWorld, n Val) want {
		t := c(w, n)
		y, z := yes(w, n), no(w, n)
		return func(w *estWorld, e *Exec, s *State, got Val) string {
			if t == nil {
				return "the node has another form"
			}
			for _, x := range []struct {
				t *Term
				w want
			}{{t, y}, {mkNot(t), z}} {
				pc, ok := s.pc.Assume(x.t)
				if !ok {
					continue
				}
				st := s.fork()
				st.pc = pc
				if m := x.w(w, e, st, got); m != "" {
					return m
				}
			}
			return ""
		}
	}
}

// fields are the properties of an object. A name with ? may be left out when
// it is false, one with * has to be when it is empty.
type fields map[string]specOf

func object(fs fields) specOf {
	return func(w *estWorld, n Val) want {
		ws := map[string]want{}
		for k, f := range fs {
			ws[k] = f(w, n)
		}
		return func(w *estWorld, e *Exec, s *State, got Val) string { return w.object(e, s, got, ws) }
	}
}

// list is a list of the forms of what a field lists, and more.
func list(name string, more ...specOf) specOf {
	return func(w *estWorld, n Val) want {
		l := w.field(n, name)
		var ms []want
		for _, m := range more {
			ms = append(ms, m(w, n))
		}
		return func(w *estWorld, e *Exec, s *State, got Val) string { return w.list(e, s, got, nil, l, ms) }
	}
}

func isEmpty(name string) func(w *estWorld, n Val) *Term {
	return func(w *estWorld, n Val) *Term {
		x := w.str(w.field(n, name))
		if x == nil {
			return nil
		}
		return mkEq(x, mkStr(""))
	}
}

func notEmpty(name string) func(w *estWorld, n Val) *Term {
	f := isEmpty(name)
	return func(w *estWorld, n Val) *Term {
		if t := f(w, n); t != nil {
			return mkNot(t)
		}
		return nil
	}
}

func isNull(name string) func(w *estWorld, n Val) *Term {
	return func(w *estWorld, n Val) *Term { return w.nilTerm(w.field(n, name)) }
}

func isTrue(name string) func(w *estWorld, n Val) *Term {
	return func(w *estWorld, n Val) *Term { t, _ := w.field(n, name).(*Term); return t }
}

func noPattern(name string) func(w *estWorld, n Val) *Term {
	return func(w *estWorld, n Val) *Term { return w.noForm(w.field(n, name)) }
}

func all(cs ...func(w *estWorld, n Val) *Term) func(w *estWorld, n Val) *Term {
	return func(w *estWorld, n Val) *Term {
		t := tTrue
		for _, c := range cs {
			x := c(w, n)
			if x == nil {
				return nil
			}
			t = mkAnd(t, x)
		}
		return t
	}
}

func negate(c func(w *estWorld, n Val) *Term) func(w *estWorld, n Val) *Term {
	return func(w *estWorld, n Val) *Term {
		if t := c(w, n); t != nil {
			return mkNot(t)
		}
		return nil
	}
}

// is: a field of constants has a value.
func is(name, c string) func(w *estWorld, n Val) *Term {
	return func(w *estWorld, n Val) *Term {
		t, ok := w.field(n, name).(*Term)
		v, ok2 := w.constant(c)
		if !ok || !ok2 {
			return nil
		}
		return mkIn(t, setOf(v))
	}
}

// named: a field is an identifier with this name.
func named(name, id string) func(w *estWorld, n Val) *Term {
	return func(w *estWorld, n Val) *Term {
		x, ok := w.field(n, name).(*SymIface)
		t := w.typ("Identifier")
		if !ok || t == nil {
			return nil
		}
		st, ok := payload(x.Term, t).(*StructV)
		if !ok {
			return nil
		}
		nm := w.str(field(st, "Name"))
		if nm == nil {
			return nil
		}
		return mkAnd(mkIn(dynTerm(x.Term), setOf(typeID(t))), mkEq(nm, mkStr(id)))
	}
}

// kindIs: a field holds a node of this kind.
func kindIs(name, typ string) func(w *estWorld, n Val) *Term {
	return func(w *estWorld, n Val) *Term {
		x, ok := w.field(n, name).(*SymIface)
		t := w.typ(typ)
		if !ok || t == nil {
			return nil
		}
		return mkIn(dynTerm(x.Term), setOf(typeID(t)))
	}
}

// withDefault is a pattern with a default value.
func withDefault(left specOf) specOf {
	return cond(isNull("Init"), left, object(fields{"type": text("AssignmentPattern"), "left": left, "right": conv("Init")}))
}

func restOf(name string, arg specOf) specOf {
	return object(fields{"type": text("RestElement"), "argument": arg})
}

func class(typ string) specOf {
	return object(fields{"type": text(typ), "id": ident("ID"), "superClass": conv("SuperClass"), "body": object(fields{"type": text("ClassBody"), "body": list("Body")})})
}

func function(typ, expression specOf) specOf {
	return object(fields{"type": typ, "id": ident("ID"), "params": conv("Params"), "body": conv("Body"), "generator": val("Generator"), "async": val("Async"), "expression": expression})
}

func literal(value, raw specOf) specOf {
	return object(fields{"type": text("Literal"), "value": value, "raw": raw})
}

func program(kind string) specOf {
	return object(fields{"type": text("Program"), "body": list("Body"), "sourceType": text(kind)})
}

var binText = map[string]string{"BinaryExponentOp": "**", "BinaryMultOp": "*", "BinaryDivOp": "/", "BinaryModOp": "%", "BinaryAddOp": "+", "BinarySubOp": "-", "BinaryLShiftOp": "<<", "BinaryRShiftOp": ">>", "BinaryUnsignedRShiftOp": ">>>", "BinaryLessThanOp": "<", "BinaryGreaterThanOp": ">", "BinaryLessThanEqualOp": "<=", "BinaryGreaterThanEqualOp": ">=", "BinaryInstanceOfOp": "instanceof", "BinaryInOp": "in", "BinaryEqualOp": "==", "BinaryNotEqualOp": "!=", "BinaryStrictEqualOp": "===", "BinaryStrictNotEqualOp": "!==", "BinaryBitAndOp": "&", "BinaryBitXorOp": "^", "BinaryBitOrOp": "|", "BinaryLogicalAndOp": "&&", "BinaryLogicalOrOp": "||", "BinaryCoalesceOp": "??"}

var assignText = map[string]string{"AssignmentOp": "=", "AssignmentMultOp": "*=", "AssignmentDivOp": "/=", "AssignmentModOp": "%=", "AssignmentAddOp": "+=", "AssignmentSubOp": "-=", "AssignmentLShiftOp": "<<=", "AssignmentRShiftOp": ">>=", "AssignmentUnsignedRShiftOp": ">>>=", "AssignmentBitAndOp": "&=", "AssignmentBitXorOp": "^=", "AssignmentBitOrOp": "|=", "AssignmentExponentOp": "**=", "AssignmentLogicalAndOp": "&&=", "AssignmentLogicalOr": "||=", "AssignmentCoalesceOp": "??="}

var unaryText = map[string]string{"UnaryDeleteOp": "delete", "UnaryVoidOp": "void", "UnaryTypeOfOp": "typeof", "UnaryPlusOp": "+", "UnaryMinusOp": "-", "UnaryBitNotOp": "~", "UnaryNotOp": "!"}

var updateText = map[string]string{"UpdatePreIncrementOp": "++", "UpdatePostIncrementOp": "++", "UpdatePreDecrementOp": "--", "UpdatePostDecrementOp": "--"}

var updatePrefix = map[string]string{"UpdatePreIncrementOp": "true", "UpdatePostIncrementOp": "false", "UpdatePreDecrementOp": "true", "UpdatePostDecrementOp": "false"}

var binType = map[string]string{}

func init() {
	for k := range binText {
		binType[k] = "BinaryExpression"
	}
	for _, k := range []string{"BinaryLogicalAndOp", "BinaryLogicalOrOp", "BinaryCoalesceOp"} {
		binType[k] = "LogicalExpression"
	}
}

// estChoices are the fields that hold constants.
var estChoices = map[string]map[string]string{
	"BinaryExpression.Operator": binText, "AssignmentExpression.Operator": assignText, "UnaryExpression.Operator": unaryText, "UpdateExpression.Operator": updateText,
	"VariableDeclaration.Kind": varKinds, "Property.Kind": propKinds, "MethodDefinition.Kind": methodKinds,
}

var varKinds = map[string]string{"VarDeclaration": "var", "LetDeclaration": "let", "ConstDeclaration": "const"}
var propKinds = map[string]string{"InitProperty": "init", "GetProperty": "get", "SetProperty": "set"}
var methodKinds = map[string]string{"Method": "method", "GetMethod": "get", "SetMethod": "set"}

var estSpec map[string]specOf

func init() {
	estSpec = map[string]specOf{
		"ArrayExpression":         object(fields{"type": text("ArrayExpression"), "elements": list("Elements")}),
		"ObjectExpression":        object(fields{"type": text("ObjectExpression"), "properties": list("Properties")}),
		"SequenceExpression":      object(fields{"type": text("SequenceExpression"), "expressions": list("Expressions")}),
		"ConditionalExpression":   object(fields{"type": text("ConditionalExpression"), "test": conv("Test"), "consequent": conv("Consequent"), "alternate": conv("Alternate")}),
		"BinaryExpression":        object(fields{"type": choice("Operator", binType), "operator": choice("Operator", binText), "left": conv("Left"), "right": conv("Right")}),
		"AssignmentExpression":    object(fields{"type": text("AssignmentExpression"), "operator": choice("Operator", assignText), "left": conv("Left"), "right": conv("Right")}),
		"UnaryExpression":         object(fields{"type": text("UnaryExpression"), "operator": choice("Operator", unaryText), "prefix": boolean(true), "argument": conv("Argument")}),
		"UpdateExpression":        object(fields{"type": text("UpdateExpression"), "operator": choice("Operator", updateText), "prefix": choice("Operator", updatePrefix), "argument": conv("Argument")}),
		"FunctionExpression":      function(cond(isTrue("Arrow"), text("ArrowFunctionExpression"), text("FunctionExpression")), cond(all(isTrue("Arrow"), negate(kindIs("Body", "BlockStatement"))), boolean(true), val("Expression"))),
		"FunctionDeclaration":     function(text("FunctionDeclaration"), val("Expression")),
		"ClassExpression":         class("ClassExpression"),
		"ClassDeclaration":        class("ClassDeclaration"),
		"MethodDefinition":        object(fields{"type": text("MethodDefinition"), "key": conv("Key"), "computed": val("Computed"), "value": conv("Value"), "kind": cond(all(named("Key", "constructor"), is("Kind", "Method"), negate(isTrue("Computed")), negate(isTrue("Static"))), text("constructor"), choice("Kind", methodKinds)), "static": val("Static")}),
		"Identifier":              object(fields{"type": text("Identifier"), "name": val("Name")}),
		"ThisExpression":          object(fields{"type": text("ThisExpression")}),
		"MemberExpression":        object(fields{"type": text("MemberExpression"), "computed": val("Computed"), "object": conv("Object"), "property": conv("Property"), "optional?": val("Optional")}),
		"CallExpression":          object(fields{"type": text("CallExpression"), "callee": conv("Callee"), "arguments": list("Arguments"), "optional?": val("Optional")}),
		"NewExpression":           object(fields{"type": text("NewExpression"), "callee": conv("Callee"), "arguments": list("Arguments")}),
		"ParenthesizedExpression": conv("Expression"),
		"SpreadElement":           object(fields{"type": text("SpreadElement"), "argument": conv("Argument")}),
		"Property": object(fields{"type": text("Property"), "key": conv("Key"), "computed": val("Computed"), "value": cond(isNull("Value"), conv("Key"), conv("Value")),
			"kind": choice("Kind", propKinds), "method": val("Method"), "shorthand": cond(isNull("Value"), boolean(true), boolean(false))}),
		"NullLiteral":    literal(null, text("null")),
		"BooleanLiteral": literal(val("Value"), val("Raw")),
		"StringLiteral":  literal(val("Value"), val("Raw")),
		"NumberLiteral":  literal(val("Value"), val("Raw")),
		"RegExpLiteral":  object(fields{"type": text("Literal"), "value": val("Raw"), "raw": val("Raw"), "regex": object(fields{"pattern": val("Pattern"), "flags": val("Flags")})}),

		"BlockStatement":      object(fields{"type": text("BlockStatement"), "body": list("Body")}),
		"EmptyStatement":      object(fields{"type": text("EmptyStatement")}),
		"ExpressionStatement": object(fields{"type": text("ExpressionStatement"), "expression": conv("Expression"), "directive*": val("Directive")}),
		"VariableDeclaration": object(fields{"type": text("VariableDeclaration"), "declarations": list("Declarations"), "kind": choice("Kind", varKinds)}),
		"VariableDeclarator":  object(fields{"type": text("VariableDeclarator"), "id": conv("ID"), "init": conv("Init")}),
		"ContinueStatement":   object(fields{"type": text("ContinueStatement"), "label": ident("Label")}),
		"BreakStatement":      object(fields{"type": text("BreakStatement"), "label": ident("Label")}),
		"ReturnStatement":     object(fields{"type": text("ReturnStatement"), "argument": conv("Argument")}),
		"ThrowStatement":      object(fields{"type": text("ThrowStatement"), "argument": conv("Argument")}),
		"IfStatement":         object(fields{"type": text("IfStatement"), "test": conv("Test"), "consequent": conv("Consequent"), "alternate": conv("Alternate")}),
		"WhileStatement":      object(fields{"type": text("WhileStatement"), "test": conv("Test"), "body": conv("Body")}),
		"DoWhileStatement":    object(fields{"type": text("DoWhileStatement"), "test": conv("Test"), "body": conv("Body")}),
		"ForStatement":        object(fields{"type": text("ForStatement"), "init": conv("Init"), "test": conv("Test"), "update": conv("Update"), "body": conv("Body")}),
		"ForInStatement":      object(fields{"type": text("ForInStatement"), "left": conv("Left"), "right": conv("Right"), "body": conv("Body"), "each?": boolean(false)}),
		"ForOfStatement":      object(fields{"type": text("ForOfStatement"), "left": conv("Left"), "right": conv("Right"), "body": conv("Body"), "await?": boolean(false)}),
		"SwitchStatement":     object(fields{"type": text("SwitchStatement"), "discriminant": conv("Discriminant"), "cases": list("Cases")}),
		"SwitchCase":          object(fields{"type": text("SwitchCase"), "test": conv("Test"), "consequent": list("Consequent")}),
		"LabeledStatement":    object(fields{"type": text("LabeledStatement"), "label": ident("Label"), "body": conv("Body")}),
		"TryStatement":        object(fields{"type": text("TryStatement"), "block": conv("Block"), "handler": conv("Handler"), "finalizer": conv("Finalizer")}),
		"CatchClause":         object(fields{"type": text("CatchClause"), "param": conv("Param"), "body": conv("Body")}),

		"FormalParameters":     maybeMore(notEmpty("RestParameter"), "Parameters", restOf("RestParameter", ident("RestParameter"))),
		"BindingPattern":       cond(notEmpty("Identifier"), ident("Identifier"), cond(negate(isNull("ObjectPattern")), conv("ObjectPattern"), conv("ArrayPattern"))),
		"ObjectBindingPattern": object(fields{"type": text("ObjectPattern"), "properties": maybeMore(notEmpty("RestElement"), "Properties", restOf("RestElement", ident("RestElement")))}),
		"ArrayBindingPattern":  object(fields{"type": text("ArrayPattern"), "elements": maybeMore(negate(noPattern("RestElement")), "Elements", restOf("RestElement", conv("RestElement")))}),
		"BindingProperty": object(fields{"type": text("Property"), "key": ident("PropertyName"), "computed": boolean(false), "value": withDefault(cond(noPattern("Value"), ident("PropertyName"), conv("Value"))),
			"kind": text("init"), "method": boolean(false), "shorthand": cond(noPattern("Value"), boolean(true), boolean(false))}),
		"BindingElement": withDefault(conv("Value")),

		"ScriptNode":           program("script"),
		"ModuleNode":           program("module"),
		"ImportDeclNode":       object(fields{"type": text("ImportDeclaration"), "specifiers": specifiers, "source": object(fields{"type": text("Literal"), "value": val("Module")})}),
		"ImportDefaultBinding": object(fields{"type": text("ImportDefaultSpecifier"), "local": ident("Identifier")}),
		"NameSpaceImport":      object(fields{"type": text("ImportNamespaceSpecifier"), "local": ident("Identifier")}),
		"NamedImport":          object(fields{"type": text("ImportSpecifier"), "imported": ident("Identifier"), "local": cond(isEmpty("AsBinding"), ident("Identifier"), ident("AsBinding"))}),
	}
}

func maybeMore(c func(w *estWorld, n Val) *Term, name string, more specOf) specOf {
	return cond(c, list(name, more), list(name))
}

// specifiers: the default binding, then the name space, then the named imports.
func specifiers(w *estWorld, n Val) want {
	return func(w *estWorld, e *Exec, s *State, got Val) string {
		d, ns := w.field(n, "DefaultBinding"), w.field(n, "NameSpace")
		a, b := w.nilTerm(d), w.nilTerm(ns)
		if a == nil || b == nil {
			return "the node has another form"
		}
		for i := 0; i < 4; i++ {
			var first []want
			t := tTrue
			for j, x := range []*Term{a, b} {
				if i>>j&1 == 1 {
					t = mkAnd(t, mkNot(x))
					first = append(first, w.form([]Val{d, ns}[j]))
				} else {
					t = mkAnd(t, x)
				}
			}
			pc, ok := s.pc.Assume(t)
			if !ok {
				continue
			}
			st := s.fork()
			st.pc = pc
			if m := w.list(e, st, got, first, w.field(n, "NamedImports"), nil); m != "" {
				return m
			}
		}
		return ""
	}
}

// mayBeNull are the kinds whose form is null when they are empty.
func (w *estWorld) noForm(v Val) *Term {
	st, ok := v.(*StructV)
	if !ok {
		return nil
	}
	switch w.astName(st.T) {
	case "BindingPattern":
		x := w.str(field(st, "Identifier"))
		a, b := w.nilTerm(field(st, "ObjectPattern")), w.nilTerm(field(st, "ArrayPattern"))
		if x == nil || a == nil || b == nil {
			return nil
		}
		return mkAnd(mkEq(x, mkStr("")), a, b)
	case "BindingElement":
		x, i := w.noForm(field(st, "Value")), w.nilTerm(field(st, "Init"))
		if x == nil || i == nil {
			return nil
		}
		return mkAnd(x, i)
	}
	return tFalse
}
