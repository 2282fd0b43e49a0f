package main

// The other direction: the specification's tree as the implementation's tree,
// for behaviour (generation, look-up) that starts from a module.

import (
	"fmt"
	"strconv"

	asn1go "github.com/chemikadze/asn1go"
)

func str(x interface{}) string { s, _ := x.(string); return s }
func list(x interface{}) L     { l, _ := x.(L); return l }
func mp(x interface{}) M       { m, _ := x.(M); return m }
func atoi(x interface{}) int {
	n, err := strconv.Atoi(str(x))
	if err != nil {
		panic(harness(fmt.Sprintf("bad number in vector: %v", x)))
	}
	return n
}

func reverse(m map[int]string) map[string]int {
	r := map[string]int{}
	for k, v := range m {
		r[v] = k
	}
	return r
}

var stringKindIds, tagsIds, classIds = reverse(stringKinds), reverse(tagsNames), reverse(classNames)

func bModule(m M) *asn1go.ModuleDefinition {
	res := &asn1go.ModuleDefinition{TagDefault: tagsIds[str(m["tags"])], ExtensibilityImplied: m["ext"] == true}
	res.ModuleIdentifier.Reference = str(m["name"])
	res.ModuleIdentifier.DefinitiveIdentifier = asn1go.DefinitiveIdentifier{}
	for _, x := range list(m["oid"]) {
		c := mp(x)
		res.ModuleIdentifier.DefinitiveIdentifier = append(res.ModuleIdentifier.DefinitiveIdentifier,
			asn1go.DefinitiveObjIdComponent{Name: str(c["n"]), Id: atoi(c["id"])})
	}
	for _, x := range list(m["imports"]) {
		im := mp(x)
		s := asn1go.SymbolsFromModule{Module: asn1go.GlobalModuleReference{Reference: str(im["from"]), AssignedIdentifier: bValue(im["aid"])}}
		for _, y := range list(im["syms"]) {
			sym := mp(y)
			if sym["k"] == "tref" {
				s.SymbolList = append(s.SymbolList, asn1go.TypeReference(str(sym["n"])))
			} else {
				s.SymbolList = append(s.SymbolList, asn1go.ValueReference(str(sym["n"])))
			}
		}
		res.ModuleBody.Imports = append(res.ModuleBody.Imports, s)
	}
	for _, x := range list(m["body"]) {
		a := mp(x)
		if a["k"] == "type" {
			res.ModuleBody.AssignmentList = append(res.ModuleBody.AssignmentList,
				asn1go.TypeAssignment{TypeReference: asn1go.TypeReference(str(a["n"])), Type: bType(a["t"])})
		} else {
			res.ModuleBody.AssignmentList = append(res.ModuleBody.AssignmentList,
				asn1go.ValueAssignment{ValueReference: asn1go.ValueReference(str(a["n"])), Type: bType(a["t"]), Value: bValue(a["v"])})
		}
	}
	return res
}

func bNamed(x interface{}) asn1go.NamedType {
	m := mp(x)
	return asn1go.NamedType{Identifier: asn1go.Identifier(str(m["n"])), Type: bType(m["t"])}
}

func bType(x interface{}) asn1go.Type {
	m := mp(x)
	switch str(m["k"]) {
	case "NULL":
		return asn1go.NullType{}
	case "BOOLEAN":
		return asn1go.BooleanType{}
	case "REAL":
		return asn1go.RealType{}
	case "OID":
		return asn1go.ObjectIdentifierType{}
	case "OCTETS":
		return asn1go.OctetStringType{}
	case "CHARSTRING":
		return asn1go.CharacterStringType{}
	case "STR":
		return asn1go.RestrictedStringType{LexType: stringKindIds[str(m["s"])]}
	case "INTEGER":
		t := asn1go.IntegerType{}
		for _, y := range list(m["nums"]) {
			n := mp(y)
			t.NamedNumberList = append(t.NamedNumberList, asn1go.NamedNumber{Name: asn1go.Identifier(str(n["n"])), Value: bNamedValue(n["v"])})
		}
		return t
	case "ENUM":
		return asn1go.EnumeratedType{RootEnumeration: bEnum(m["root"]), AdditionalEnumeration: bEnum(m["more"])}
	case "BITS":
		t := asn1go.BitStringType{}
		for _, y := range list(m["bits"]) {
			n := mp(y)
			t.NamedBits = append(t.NamedBits, asn1go.NamedBit{Name: asn1go.Identifier(str(n["n"])), Index: bValue(n["v"])})
		}
		return t
	case "SEQ":
		return asn1go.SequenceType{Components: bComps(m["comps"]), ExtensionAdditions: bAdds(m["adds"])}
	case "SET":
		return asn1go.SetType{Components: bComps(m["comps"]), ExtensionAdditions: bAdds(m["adds"])}
	case "SEQOF":
		return asn1go.SequenceOfType{Type: bType(m["t"])}
	case "SETOF":
		return asn1go.SetOfType{Type: bType(m["t"])}
	case "named":
		return bNamed(m)
	case "CHOICE":
		t := asn1go.ChoiceType{}
		for _, y := range list(m["alts"]) {
			t.AlternativeTypeList = append(t.AlternativeTypeList, bNamed(y))
		}
		for _, y := range list(m["exts"]) {
			t.ExtensionTypes = append(t.ExtensionTypes, bNamed(y))
		}
		return t
	case "TAG":
		t := asn1go.TaggedType{Tag: asn1go.Tag{Class: classIds[str(m["cls"])], ClassNumber: bValue(m["num"])}, Type: bType(m["t"])}
		if str(m["mode"]) != "DEFAULT" {
			t.HasTagType, t.TagType = true, tagsIds[str(m["mode"])]
		}
		return t
	case "REF":
		return asn1go.TypeReference(str(m["n"]))
	case "ANY":
		return asn1go.AnyType{Identifier: asn1go.Identifier(str(m["by"]))}
	case "CONSTR":
		return asn1go.ConstraintedType{Type: bType(m["t"]), Constraint: bConstraint(m["c"])}
	}
	panic(harness(fmt.Sprintf("unknown type in vector: %v", x)))
}

func bNamedValue(x interface{}) asn1go.NamedNumberValue {
	return bValue(x).(asn1go.NamedNumberValue)
}

func bEnum(x interface{}) (res []asn1go.EnumerationItem) {
	for _, y := range list(x) {
		n := mp(y)
		if str(mp(n["v"])["k"]) == "none" {
			res = append(res, asn1go.Identifier(str(n["n"])))
		} else {
			res = append(res, asn1go.NamedNumber{Name: asn1go.Identifier(str(n["n"])), Value: bNamedValue(n["v"])})
		}
	}
	return
}

func bComp(x interface{}) asn1go.ComponentType {
	m := mp(x)
	switch str(m["k"]) {
	case "comp":
		c := asn1go.NamedComponentType{NamedType: bNamed(m), IsOptional: m["opt"] == true}
		if v := bValue(m["def"]); v != nil {
			c.Default = &v
		}
		return c
	case "compsof":
		return asn1go.ComponentsOfComponentType{Type: bType(m["t"])}
	case "group":
		return nil
	}
	panic(harness(fmt.Sprintf("unknown component in vector: %v", x)))
}

func bComps(x interface{}) asn1go.ComponentTypeList {
	res := asn1go.ComponentTypeList{}
	for _, y := range list(x) {
		res = append(res, bComp(y))
	}
	return res
}

func bAdds(x interface{}) (res asn1go.ExtensionAdditions) {
	for _, y := range list(x) {
		res = append(res, bComp(y))
	}
	return
}

func bConstraint(x interface{}) asn1go.Constraint {
	sc := asn1go.SubtypeConstraint{}
	for _, y := range list(x) {
		sc = append(sc, bElement(y).(asn1go.ElementSetSpec))
	}
	return asn1go.Constraint{ConstraintSpec: sc}
}

func bElement(x interface{}) asn1go.Elements {
	m := mp(x)
	switch str(m["k"]) {
	case "U":
		u := asn1go.Unions{}
		for _, i := range list(m["is"]) {
			is := asn1go.Intersections{}
			for _, e := range list(mp(i)["es"]) {
				ie := asn1go.IntersectionElements{Elements: bElement(mp(e)["e"])}
				if str(mp(mp(e)["x"])["k"]) != "none" {
					ie.Exclusions.Elements = bElement(mp(e)["x"])
				}
				is = append(is, ie)
			}
			u = append(u, is)
		}
		return u
	case "ALLX":
		return asn1go.Exclusions{Elements: bElement(m["e"])}
	case "val":
		return asn1go.SingleValue{Value: bValue(m["v"])}
	case "range":
		lo, hi := mp(m["lo"]), mp(m["hi"])
		return asn1go.ValueRange{LowerEndpoint: asn1go.RangeEndpoint{Value: bValue(lo["v"]), IsOpen: lo["open"] == true},
			UpperEndpoint: asn1go.RangeEndpoint{Value: bValue(hi["v"]), IsOpen: hi["open"] == true}}
	case "tc":
		return asn1go.TypeConstraint{Type: bType(m["t"])}
	case "size":
		return asn1go.SizeConstraint{Constraint: bConstraint(m["c"])}
	case "inner":
		return asn1go.InnerTypeConstraint{}
	}
	panic(harness(fmt.Sprintf("unknown element in vector: %v", x)))
}

func bValue(x interface{}) asn1go.Value {
	m := mp(x)
	switch str(m["k"]) {
	case "none":
		return nil
	case "num":
		return asn1go.Number(atoi(m["v"]))
	case "real":
		return asn1go.Real(specReal(str(m["v"])))
	case "bool":
		return asn1go.Boolean(m["v"] == true)
	case "dv":
		return asn1go.DefinedValue{ModuleName: asn1go.ModuleReference(str(m["m"])), ValueName: asn1go.ValueReference(str(m["n"]))}
	case "id":
		return asn1go.IdentifiedIntegerValue{Name: str(m["n"])}
	case "oid":
		v := asn1go.ObjectIdentifierValue{}
		for _, y := range list(m["es"]) {
			e := mp(y)
			el := asn1go.ObjectIdElement{Name: str(e["n"]), ID: atoi(e["id"])}
			if r := mp(e["ref"]); str(r["k"]) == "dv" {
				dv := bValue(r).(asn1go.DefinedValue)
				el.Reference = &dv
			}
			v = append(v, el)
		}
		return v
	}
	panic(harness(fmt.Sprintf("unknown value in vector: %v", x)))
}
