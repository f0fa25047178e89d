package main

import "zsverif/zs"

var plans = map[string]func(c *check){}

// The profiles. Every check mixes schemas of the general profile, which uses
// everything, with schemas rich in what its property is about.

func general(r *zs.Rng, i int) zs.Prof { return zs.DefaultProf() }

// mixed alternates the general profile with a special one.
func mixed(special func(r *zs.Rng, p *zs.Prof)) func(r *zs.Rng, i int) zs.Prof {
	return func(r *zs.Rng, i int) zs.Prof {
		p := zs.DefaultProf()
		if i%3 != 0 {
			special(r, &p)
		}
		return p
	}
}

// broad varies what is frequent from schema to schema.
func broad(r *zs.Rng, i int) zs.Prof {
	p := zs.DefaultProf()
	switch i % 6 {
	case 1:
		packedRich(r, &p)
	case 2:
		branchRich(r, &p)
	case 3:
		paramRich(r, &p)
	case 4:
		blobRich(r, &p)
	case 5:
		aliasRich(r, &p)
	}
	return p
}

// aliasRich spreads small declarations over many packages and names types
// through subtypes of other packages.
func aliasRich(r *zs.Rng, p *zs.Prof) {
	p.MaxPkgs, p.ManyPkgs, p.Alias, p.Compounds = 6, true, .8, [2]int{5, 9}
	p.Comp, p.Param, p.Packed, p.Array = 12, .6, .6, .4
	p.AllImport = float64(r.N(11)) / 10
}

func packedRich(r *zs.Rng, p *zs.Prof) {
	p.Array, p.Packed, p.Comp, p.Struct = .6, .85, 8, 9
	p.Blob, p.Float = 2, 1
	p.IntW, p.EnumW = 16, 6
}

func branchRich(r *zs.Rng, p *zs.Prof) {
	p.Choice, p.Union, p.Struct = 6, 5, 6
	p.Optional, p.If, p.Comp = .3, .3, 7
	p.Host = .45
}

func paramRich(r *zs.Rng, p *zs.Prof) {
	p.Param, p.Comp, p.Array, p.If = .75, 12, .45, .35
	p.Choice, p.Dyn = 3, .15
	p.Alias, p.Packed = .7, .6
}

func templRich(r *zs.Rng, p *zs.Prof) {
	p.Tmpl, p.Comp = .6, 8
}

// templGen makes schemas with templates, some with instances that are easily
// mixed up.
func templGen(r *zs.Rng, i int) *zs.Schema {
	if i%4 == 3 {
		return zs.Confusable(r)
	}
	return zs.Generate(r, mixed(templRich)(r, i))
}

// broadGen is the broad profile, with some schemas of similar names and some
// of many packages.
func broadGen(r *zs.Rng, i int) *zs.Schema {
	if i%8 == 7 {
		return zs.Confusable(r)
	}
	if i%8 == 3 {
		return zs.Web(r)
	}
	return zs.Generate(r, broad(r, i))
}

func blobRich(r *zs.Rng, p *zs.Prof) {
	p.Blob, p.Float, p.Align, p.Dyn = 10, 6, .2, .2
}

func exprRich(r *zs.Rng, p *zs.Prof) {
	p.Funcs, p.If, p.Param, p.Dyn, p.Choice = .8, .4, .5, .3, 3
	p.Rich = .8
	p.Matrix = .25
	p.Consts = .7
}

func init() {
	n := [2]int{192, 1500}
	v := [2]int{40, 150}
	const gen = "Random schemas (1-3 packages; constants, enums, bitmasks, subtypes, structs, choices, unions, templates, parameters, recursion) are compiled with the go-zserio of the working tree, and random valid values (boundary values favoured) of their compounds are built. "
	specs := map[string]*spec{
		"C01": {mode: "roundtrip", code: true, prof: broad, schemas: n, values: v,
			rule: gen + "A case marshals one value, unmarshals it into a fresh object, compares it and marshals it again. Non-trivial: distinct (type, bytes) with at least one byte."},
		"C02": {arrays: [2]int{40000, 600000}, mode: "wire", prof: broad, schemas: n, values: v,
			rule: gen + "A case compares the marshalled bytes of one value, bit for bit, with those of the reference codec (only values without packed arrays), and decodes reference bytes. Non-trivial: distinct (type, bytes) with at least one byte."},
		"C03": {arrays: [2]int{60000, 1000000}, mode: "packed", prof: mixed(packedRich), schemas: n, values: v,
			rule: gen + "A case compares the bytes of one value with those of the reference codec for delta packing, and round-trips it. Non-trivial: distinct (type, bytes) of values with a packed array of at least two elements."},
		"C04": {arrays: [2]int{60000, 1000000}, mode: "bitsize", prof: broad, schemas: n, values: v,
			rule: gen + "A case compares ZserioBitSize of one value at several start positions with the bits that MarshalZserio then writes to a bit-counting writer. Non-trivial: distinct (type, bytes) with at least one byte."},
		"C05": {mode: "untrusted", prof: broad, schemas: [2]int{160, 1000}, values: [2]int{30, 120},
			rule: gen + "A case unmarshals one mutated (bits flipped, bytes changed, cut, repeated, runs) or random byte string, or reads valid bytes from a failing reader, with recovered panics, allocation and time limits, and marshals what was accepted. Non-trivial: distinct (type, input) that are not the unchanged valid bytes and not empty."},
		"C06": {arrays: [2]int{40000, 600000}, mode: "invalid", prof: broad, schemas: n, values: [2]int{30, 120},
			rule: gen + "A case marshals one object with a value that cannot be represented (a number outside its range, a wrong array length, an inconsistent blob, an unset or unknown union branch, a choice without a matching case), or a valid object to a writer that fails at some byte. Non-trivial: distinct (type, defect, object)."},
		"C10": {mode: "select", code: true, prof: mixed(branchRich), schemas: n, values: v,
			rule: gen + "A case compares which fields are encoded with the reference codec, decodes into fresh and used objects, and tries undefined selectors and branches. Non-trivial: distinct (type, bytes) with at least one byte."},
		"C11": {mode: "exprs", code: true, full: true, prof: mixed(exprRich), schemas: n, values: v,
			rule: gen + "A case evaluates one function (with expressions over fields, parameters, constants and nested compounds) on one value, or one constant, and compares the result with the reference evaluator; conditions and lengths are compared through the encoded bytes. Non-trivial: distinct (function, expected result, value)."},
		"C13": {mode: "compile", full: true, sql: true, compile: true, gen: broadGen, schemas: [2]int{360, 2400}, values: v,
			rule: gen + "A case is one schema set: the compiler must accept it, the generated packages must compile, and a program that refers to every declared type, field, item, constant and function by its documented Go name must compile and link. Non-trivial: distinct schema texts."},
		"C14": {mode: "template", pair: true, gen: templGen, schemas: [2]int{128, 1000}, values: v,
			rule: gen + "Each schema with templates is also written out by hand (by substitution); a quarter of the schemas have names that run together (equal in several packages, or equal to the name of an instance). The compiler must accept, and its code compile, for both alike; a case compares bytes, sizes, packed bytes, decoding, functions and default values of one value between both. Non-trivial: distinct (type, bytes) of types that contain a template instance."},
		"C17": {mode: "concurrent", race: true, prof: broad, schemas: [2]int{48, 300}, values: [2]int{20, 60},
			rule: gen + "Goroutines marshal, size, unmarshal and inspect different objects of all types at once, and use the arrays of the runtime directly with traits they share (race detector on) and compare each result with the one obtained alone. A case is one operation. Non-trivial: distinct (type, goroutine, bytes)."},
		"C18": {mode: "enums", code: true, sql: true, full: true, prof: mixed(func(r *zs.Rng, p *zs.Prof) { p.Compounds = [2]int{1, 2}; p.EnumW = 10 }), schemas: n, values: [2]int{10, 30},
			rule: gen + "A case checks one item of an enum or bitmask: constant, listings, name lookup, String, SQL Value/Scan, unknown names and values. Non-trivial: distinct (declaration, item)."},
		"C19": {mode: "params", code: true, prof: mixed(paramRich), schemas: [2]int{320, 2000}, values: v,
			rule: gen + "A case compares encoding, decoding and sizing of one value of a type that passes arguments to nested compounds with the reference codec, with stale parameters in the object. Non-trivial: distinct (type, bytes) of values in which a parameter is used."},
		"C20": {mode: "consts", code: true, full: true, prof: mixed(func(r *zs.Rng, p *zs.Prof) { p.Defaults = .6; p.Consts = .8; p.Array, p.Optional, p.If = .1, .1, .05 }), schemas: n, values: [2]int{20, 60},
			rule: gen + "A case compares one constant with the reference evaluator, or fills an object with random content, loads the default values and checks every field. Non-trivial: distinct (constant, value) and (type, content)."},
	}
	const op = "A case is a sequence of operations on a bit stream, written to one of several writers, read back from one of several readers (also cut short), or read from arbitrary bytes, or written to a writer that fails; bits, positions, values, sizes and errors are compared with a model in which a stream is a list of bits. "
	plans["C07"] = planPrim(op+"Operations: variable-length integers of each type (directly and through the array traits) over the whole range of the Go type, mixed with raw bits. Exhaustively: all 16-bit values and two-byte encodings, all powers of two +-3 at all offsets. Non-trivial: distinct cases of at least two operations or two bytes.", 1500000, 8000000)
	plans["C08"] = planPrim(op+"Operations: bool, fixed integers, bit fields of 1 to 255 bits with values inside and outside, floats, strings, bytes and externs (directly and through the array traits), mixed with raw bits. Exhaustively: all half-precision numbers, the midpoints between them and their neighbours, all widths and offsets with boundary values. Non-trivial: distinct cases of at least two operations or two bytes.", 800000, 5000000)
	plans["C09"] = planPrim(op+"Operations: bits, unmasked bits, bools, bytes, byte slices, alignment to 0..255. Exhaustively: all alignments from all offsets, all widths at all offsets, CountAlignBits. Non-trivial: distinct cases of at least two operations or two bytes.", 1500000, 12000000)
	for id, sp := range specs {
		plans[id] = func(c *check) { c.runSpec(sp) }
	}
}
