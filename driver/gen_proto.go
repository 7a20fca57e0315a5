package main

import (
	"fmt"
	"strconv"
	"strings"
)

// ---- protocol parameter files

var decoys = []string{
	`"txFeePerByte2": 7`, `"minUTxOValue_": 9`, `"nested": {"txFeePerByte": 1, "txFeeFixed": 2, "maxTxSize": 3, "minUTxOValue": 4, "major": 5}`,
	`"list": [{"txFeeFixed": 1}, [2, 3], null, "txFeeFixed"]`, `"note": "\"txFeePerByte\": 12345"`, `"major": 99`, `"minor": 98`,
	`"utxoCostPerWord": 34482`, `"executionUnitPrices": {"priceSteps": 7.21e-5, "priceMemory": 5.77e-2}`, `"extraPraosEntropy": null`,
	`"decentralization": 0`, `"monetaryExpansion": 3.0e-3`, `"maxTxExecutionUnits": {"memory": 10000000, "steps": 10000000000}`,
	`"costModels": {"PlutusScriptV1": {"a": 1, "b": [1, 2, 3]}}`, `"maxBlockHeaderSize": 1100`, `"esc": "a\\\"\u00e9\n"`, `"empty": {}`, `"none": []`,
	`"maxTxSize ": 5`, `"": 1`, `"t": true, "f": false`, `"protocol": {"version": 1}`}

func (g *gen) uintText(max uint64) string {
	n := g.u64()
	if max < 256 {
		n = []uint64{0, 1, 2, 6, 7, 8, 9, 10, 127, 128, 254, 255}[g.Intn(12)]
	}
	return strconv.FormatUint(n, 10)
}

// values that are no non-negative integer of the range
func (g *gen) badNumber(small bool) string {
	bad := []string{"-1", "1.5", `"44"`, "true", "{}", "[]", "[44]", "18446744073709551616", "-9223372036854775808", "99999999999999999999999", "0.1", `""`, `{"a":1}`, "false", "36893488147419103232"}
	if small {
		bad = append(bad, "256", "257", "65536", "4294967296", "512")
	}
	return bad[g.Intn(len(bad))]
}

func (g *gen) ws() string {
	return []string{"", "", " ", "\n", "\t", "\r\n", "  \n    "}[g.Intn(7)]
}

type protoVals struct{ per, fix, max, utxo, maj, min string }

func (g *gen) protoText(v protoVals, extra int) string {
	ver := []string{`"major":` + g.ws() + v.maj, `"minor":` + g.ws() + v.min}
	if g.Intn(2) == 0 {
		ver[0], ver[1] = ver[1], ver[0]
	}
	if g.Intn(4) == 0 {
		ver = append(ver, `"patch": 3`)
	}
	fields := []string{`"txFeePerByte":` + g.ws() + v.per, `"txFeeFixed"` + g.ws() + `:` + v.fix, `"maxTxSize": ` + v.max, `"minUTxOValue": ` + v.utxo,
		`"protocolVersion": {` + g.ws() + strings.Join(ver, ", ") + g.ws() + `}`}
	for _, i := range g.Perm(len(decoys))[:extra] {
		fields = append(fields, decoys[i])
	}
	out := []string{}
	for _, i := range g.Perm(len(fields)) {
		out = append(out, fields[i])
	}
	return g.ws() + "{" + g.ws() + strings.Join(out, ","+g.ws()) + g.ws() + "}" + g.ws()
}

func (g *gen) vals() protoVals {
	return protoVals{g.uintText(1 << 63), g.uintText(1 << 63), g.uintText(1 << 63), g.uintText(1 << 63), g.uintText(255), g.uintText(255)}
}

func (g *gen) c21() {
	g.area = "proto"
	var ops []M
	load := func(text string) { ops = append(ops, M{"op": "load", "how": "file", "text": Bs(text)}) }
	for i := 0; i < 100*g.scale; i++ {
		load(g.protoText(g.vals(), g.Intn(12)))
	}
	for _, n := range edges { // every edge value in every field
		v := g.vals()
		t := strconv.FormatUint(n, 10)
		v.per, v.fix, v.max, v.utxo = t, t, t, t
		load(g.protoText(v, 0))
	}
	for i := 0; i < 256; i += 1 + g.Intn(3) { // versions
		v := g.vals()
		v.maj, v.min = strconv.Itoa(i), strconv.Itoa(255-i)
		load(g.protoText(v, 0))
	}
	for i := 0; i < 60*g.scale; i++ { // one parameter is not what it should be
		v := g.vals()
		p := []*string{&v.per, &v.fix, &v.max, &v.utxo, &v.maj, &v.min}
		k := g.Intn(6)
		if i < 60 {
			k = i % 6
		}
		*p[k] = g.badNumber(k > 3)
		load(g.protoText(v, g.Intn(4)))
	}
	for _, ver := range []string{"5", `"7.0"`, "[6,0]", "true", "{}", "[]", `""`} {
		v := g.vals()
		load(fmt.Sprintf(`{"txFeePerByte":%s,"txFeeFixed":%s,"maxTxSize":%s,"minUTxOValue":%s,"protocolVersion":%s}`, v.per, v.fix, v.max, v.utxo, ver))
	}
	for i := 0; i < 120*g.scale; i++ { // damaged files
		t := []byte(g.protoText(g.vals(), g.Intn(3)))
		for k := 1 + g.Intn(2); k > 0; k-- {
			p := g.Intn(len(t))
			switch g.Intn(5) {
			case 0:
				t = t[:p]
			case 1:
				t = append(t[:p], t[p+1:]...)
			case 2:
				t[p] = "{}[]:,\"\\0159-+.eEtfnu \n\x00"[g.Intn(24)]
			case 3:
				t = append(t, "}], \"x0"[g.Intn(7)])
			case 4:
				q := p + g.Intn(len(t)-p)
				t = append(t[:q:q], t[p:]...)
			}
			if len(t) == 0 {
				break
			}
		}
		load(string(t))
	}
	for _, t := range []string{"", " ", "{", "}", "[]", "[{}]", "5", "\"x\"", "true", "{}{}", "{} x", "{,}", "{\"a\":}", "{\"a\" 1}", "{'a':1}", "nul", "{\"txFeePerByte\":044}",
		"{\"txFeePerByte\":+44}", "{\"txFeePerByte\":44,}", "{\"txFeePerByte\":0x2c}", "{\"txFeePerByte\":4 4}", "{\"txFeePerByte\":NaN}", "{\"txFeePerByte\"}", "// c\n{}", "\xef\xbb\xbf{}", "\xef\xbb\xbf" + g.protoText(g.vals(), 0)} {
		load(t)
	}
	for i := 0; i < 3*g.scale; i++ { // the same path with a file of the same size
		t := `{"txFeePerByte":%d,"txFeeFixed":%d,"maxTxSize":16384,"minUTxOValue":%d,"protocolVersion":{"major":%d,"minor":0}}`
		for j := 0; j < 6; j++ {
			load(fmt.Sprintf(t, 10+g.Intn(90), 100000+g.Intn(900000), 1000000+g.Intn(9000000), g.Intn(10)))
		}
	}
	for _, n := range []int{5000, 70000} { // large files
		var b strings.Builder
		for b.Len() < n {
			fmt.Fprintf(&b, `"cost-%d": "%s", `, b.Len(), strings.Repeat("x", n/8))
		}
		load("{" + b.String() + strings.TrimSpace(g.protoText(g.vals(), 2))[1:])
	}
	ops = append(ops, M{"op": "load", "how": "missing", "text": Bs{}}, M{"op": "load", "how": "dir", "text": Bs{}})
	g.chunk(6, ops)
}
