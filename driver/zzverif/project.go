package main

// Projection of the implementation's tree to the specification's tree.

import (
	"fmt"
	"strconv"

	asn1go "github.com/chemikadze/asn1go"
)

var none = M{"k": "none"}

func realNode(f float64) M {
	if f == 0 {
		f = 0
		return M{"k": "real", "v": "0"}
	}
	return M{"k": "real", "v": strconv.FormatFloat(f, 'g', -1, 64)}
}

var stringKinds = map[int]string{
	asn1go.BMPString: "BMPString", asn1go.GeneralString: "GeneralString", asn1go.GraphicString: "GraphicString",
	asn1go.IA5String: "IA5String", asn1go.ISO646String: "ISO646String", asn1go.NumericString: "NumericString",
	asn1go.PrintableString: "PrintableString", asn1go.TeletexString: "TeletexString", asn1go.T61String: "T61String",
	asn1go.UniversalString: "UniversalString", asn1go.UTF8String: "UTF8String", asn1go.VideotexString: "VideotexString",
	asn1go.VisibleString: "VisibleString",
}

var tagsNames = map[int]string{asn1go.TAGS_EXPLICIT: "EXPLICIT", asn1go.TAGS_IMPLICIT: "IMPLICIT", asn1go.TAGS_AUTOMATIC: "AUTOMATIC"}
var classNames = map[int]string{asn1go.CLASS_CONTEXT_SPECIFIC: "CONTEXT", asn1go.CLASS_UNIVERSAL: "UNIVERSAL",
	asn1go.CLASS_APPLICATION: "APPLICATION", asn1go.CLASS_PRIVATE: "PRIVATE"}

func bad(what string, x interface{}) M {
	return M{"k": "unexpected", "what": what, "go": fmt.Sprintf("%#v", x)}
}

func pModule(m *asn1go.ModuleDefinition) M {
	oid := L{}
	for _, c := range m.ModuleIdentifier.DefinitiveIdentifier {
		oid = append(oid, M{"n": c.Name, "id": strconv.Itoa(c.Id)})
	}
	imports := L{}
	for _, im := range m.ModuleBody.Imports {
		syms := L{}
		for _, s := range im.SymbolList {
			switch s := s.(type) {
			case asn1go.TypeReference:
				syms = append(syms, M{"k": "tref", "n": string(s)})
			case asn1go.ModuleReference:
				syms = append(syms, M{"k": "tref", "n": string(s)})
			case asn1go.ValueReference:
				syms = append(syms, M{"k": "vref", "n": string(s)})
			default:
				syms = append(syms, bad("symbol", s))
			}
		}
		imports = append(imports, M{"syms": syms, "from": im.Module.Reference, "aid": pValue(im.Module.AssignedIdentifier)})
	}
	body := L{}
	for _, a := range m.ModuleBody.AssignmentList {
		body = append(body, pAssignment(a))
	}
	tags, ok := tagsNames[m.TagDefault]
	if !ok {
		tags = fmt.Sprint(m.TagDefault)
	}
	return M{"k": "module", "name": m.ModuleIdentifier.Reference, "oid": oid, "tags": tags,
		"ext": m.ExtensibilityImplied, "imports": imports, "body": body}
}

func pAssignment(a asn1go.Assignment) interface{} {
	switch a := a.(type) {
	case asn1go.TypeAssignment:
		if a.Reference().Name() != string(a.TypeReference) {
			return bad("reference of an assignment", a)
		}
		return M{"k": "type", "n": string(a.TypeReference), "t": pType(a.Type)}
	case asn1go.ValueAssignment:
		if a.Reference().Name() != string(a.ValueReference) {
			return bad("reference of an assignment", a)
		}
		return M{"k": "value", "n": string(a.ValueReference), "t": pType(a.Type), "v": pValue(a.Value), "says": pSays(a.Value)}
	}
	return bad("assignment", a)
}

// pSays is what a value says of its own type.
func pSays(v asn1go.Value) string {
	if v == nil || v.Type() == nil {
		return "none"
	}
	return str(pType(v.Type())["k"])
}

func pNamed(n asn1go.NamedType) M { return M{"n": string(n.Identifier), "t": pType(n.Type)} }

func pType(t asn1go.Type) M {
	switch t := t.(type) {
	case asn1go.NullType:
		return M{"k": "NULL"}
	case asn1go.BooleanType:
		return M{"k": "BOOLEAN"}
	case asn1go.RealType:
		return M{"k": "REAL"}
	case asn1go.ObjectIdentifierType:
		return M{"k": "OID"}
	case asn1go.OctetStringType:
		return M{"k": "OCTETS"}
	case asn1go.CharacterStringType:
		return M{"k": "CHARSTRING"}
	case asn1go.RestrictedStringType:
		s, ok := stringKinds[t.LexType]
		if !ok {
			return bad("string", t)
		}
		return M{"k": "STR", "s": s}
	case asn1go.IntegerType:
		nums := L{}
		for _, n := range t.NamedNumberList {
			nums = append(nums, M{"n": string(n.Name), "v": pNamedValue(n.Value)})
		}
		return M{"k": "INTEGER", "nums": nums}
	case asn1go.EnumeratedType:
		return M{"k": "ENUM", "root": pEnum(t.RootEnumeration), "more": pEnum(t.AdditionalEnumeration)}
	case asn1go.BitStringType:
		bits := L{}
		for _, b := range t.NamedBits {
			bits = append(bits, M{"n": string(b.Name), "v": pValue(b.Index)})
		}
		return M{"k": "BITS", "bits": bits}
	case asn1go.SequenceType:
		return M{"k": "SEQ", "comps": pComps(t.Components), "adds": pAdds(t.ExtensionAdditions)}
	case asn1go.SetType:
		return M{"k": "SET", "comps": pComps(t.Components), "adds": pAdds(t.ExtensionAdditions)}
	case asn1go.SequenceOfType:
		return M{"k": "SEQOF", "t": pType(t.Type)}
	case asn1go.SetOfType:
		return M{"k": "SETOF", "t": pType(t.Type)}
	case asn1go.NamedType:
		return M{"k": "named", "n": string(t.Identifier), "t": pType(t.Type)}
	case asn1go.ChoiceType:
		alts, exts := L{}, L{}
		for _, x := range t.AlternativeTypeList {
			alts = append(alts, pNamed(x))
		}
		for _, x := range t.ExtensionTypes {
			if nt, ok := x.(asn1go.NamedType); ok {
				exts = append(exts, pNamed(nt))
			} else {
				exts = append(exts, bad("choice extension", x))
			}
		}
		return M{"k": "CHOICE", "alts": alts, "exts": exts}
	case asn1go.TaggedType:
		mode := "DEFAULT"
		if t.HasTagType {
			mode = tagsNames[t.TagType]
		}
		cls, ok := classNames[t.Tag.Class]
		if !ok {
			cls = fmt.Sprint(t.Tag.Class)
		}
		return M{"k": "TAG", "cls": cls, "num": pValue(t.Tag.ClassNumber), "mode": mode, "t": pType(t.Type)}
	case asn1go.TypeReference:
		return M{"k": "REF", "n": string(t)}
	case asn1go.AnyType:
		return M{"k": "ANY", "by": string(t.Identifier)}
	case asn1go.ConstraintedType:
		return M{"k": "CONSTR", "t": pType(t.Type), "c": pConstraint(t.Constraint)}
	}
	return bad("type", t)
}

func pNamedValue(v asn1go.NamedNumberValue) M {
	switch v := v.(type) {
	case asn1go.Number:
		return pValue(v)
	case asn1go.DefinedValue:
		return pValue(v)
	}
	return bad("named number value", v)
}

func pEnum(items []asn1go.EnumerationItem) L {
	res := L{}
	for _, it := range items {
		switch it := it.(type) {
		case asn1go.Identifier:
			res = append(res, M{"n": string(it), "v": none})
		case asn1go.NamedNumber:
			res = append(res, M{"n": string(it.Name), "v": pNamedValue(it.Value)})
		default:
			res = append(res, bad("enum item", it))
		}
	}
	return res
}

func pComp(c interface{}) interface{} {
	switch c := c.(type) {
	case nil:
		return M{"k": "group"}
	case asn1go.NamedComponentType:
		def := none
		if c.Default != nil {
			def = pValue(*c.Default)
		}
		return M{"k": "comp", "n": string(c.NamedType.Identifier), "t": pType(c.NamedType.Type), "opt": c.IsOptional, "def": def}
	case asn1go.ComponentsOfComponentType:
		return M{"k": "compsof", "t": pType(c.Type)}
	}
	return bad("component", c)
}

func pComps(cs asn1go.ComponentTypeList) L {
	res := L{}
	for _, c := range cs {
		res = append(res, pComp(c))
	}
	return res
}

func pAdds(cs asn1go.ExtensionAdditions) L {
	res := L{}
	for _, c := range cs {
		res = append(res, pComp(c))
	}
	return res
}

func pConstraint(c asn1go.Constraint) interface{} {
	sc, ok := c.ConstraintSpec.(asn1go.SubtypeConstraint)
	if !ok {
		return bad("constraint", c)
	}
	res := L{}
	for _, es := range sc {
		res = append(res, pElement(es))
	}
	return res
}

func pElement(e asn1go.Elements) M {
	switch e := e.(type) {
	case asn1go.Unions:
		is := L{}
		for _, i := range e {
			es := L{}
			for _, ie := range i {
				x := none
				if ie.Exclusions.Elements != nil {
					x = pElement(ie.Exclusions.Elements)
				}
				es = append(es, M{"k": "E", "e": pElement(ie.Elements), "x": x})
			}
			is = append(is, M{"k": "I", "es": es})
		}
		return M{"k": "U", "is": is}
	case asn1go.Exclusions:
		return M{"k": "ALLX", "e": pElement(e.Elements)}
	case asn1go.SingleValue:
		return M{"k": "val", "v": pValue(e.Value)}
	case asn1go.ValueRange:
		end := func(p asn1go.RangeEndpoint) M {
			v := pValue(p.Value)
			if p.IsUnspecified() {
				v = none
			}
			return M{"v": v, "open": p.IsOpen}
		}
		return M{"k": "range", "lo": end(e.LowerEndpoint), "hi": end(e.UpperEndpoint)}
	case asn1go.TypeConstraint:
		return M{"k": "tc", "t": pType(e.Type)}
	case asn1go.SizeConstraint:
		return M{"k": "size", "c": pConstraint(e.Constraint)}
	case asn1go.InnerTypeConstraint:
		return M{"k": "inner"}
	}
	return bad("element", e)
}

func pValue(v asn1go.Value) M {
	switch v := v.(type) {
	case nil:
		return none
	case asn1go.Number:
		return M{"k": "num", "v": strconv.Itoa(int(v))}
	case asn1go.Real:
		return realNode(float64(v))
	case asn1go.Boolean:
		return M{"k": "bool", "v": bool(v)}
	case asn1go.DefinedValue:
		return M{"k": "dv", "m": string(v.ModuleName), "n": string(v.ValueName)}
	case asn1go.IdentifiedIntegerValue:
		return M{"k": "id", "n": v.Name}
	case asn1go.ObjectIdentifierValue:
		es := L{}
		for _, e := range v {
			ref := none
			if e.Reference != nil {
				ref = M{"k": "dv", "m": string(e.Reference.ModuleName), "n": string(e.Reference.ValueName)}
			}
			es = append(es, M{"n": e.Name, "id": strconv.Itoa(e.ID), "ref": ref})
		}
		return M{"k": "oid", "es": es}
	}
	return bad("value", v)
}
