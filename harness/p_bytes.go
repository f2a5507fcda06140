package main

import (
	"strconv"
	"strings"
)

func init() {
	litGens["byte"] = func(g *Gen) string {
		if g.oneIn(60) {
			return oneOf(g, "-1", "256", "1000", "'a", "1.0", "4294967297")
		}
		return strconv.Itoa(oneOf(g, g.pick(256), g.pick(4), 255, 0))
	}
	litGens["byidx"] = func(g *Gen) string {
		if g.oneIn(8) {
			return oneOf(g, "-1", "5", "6", "8", "100", "'a", "1.0", "4294967296")
		}
		return strconv.Itoa(g.pick(oneOf(g, 2, 3, 5)))
	}
	litGens["bits"] = func(g *Gen) string {
		switch g.pick(5) {
		case 0:
			return strconv.Itoa(g.pick(256))
		case 1:
			return text(int64(uint32(g.int64())))
		case 2:
			return text(int64(1) << uint(g.pick(64)))
		default:
			return text(g.int64())
		}
	}
	litGens["shiftn"] = func(g *Gen) string { return strconv.Itoa(oneOf(g, g.pick(66), g.pick(9), 63, 64, 65, 32)) }
	litGens["bytelist"] = func(g *Gen) string {
		var s []string
		for n := g.size(5, 20); n > 0; n-- {
			if g.oneIn(6) {
				s = append(s, text(g.bytesV()))
			} else {
				s = append(s, litGens["byte"](g))
			}
		}
		return "'(" + strings.Replace(strings.Join(s, " "), "'", "", -1) + ")"
	}
	opFn("bytes", "bytes", 5, func(g *Gen, d int) string {
		var s []string
		for n := 1 + g.size(4, 8); n > 0; n-- {
			s = append(s, g.expr(oneOf(g, "byte", "byte", "byte", "bytes"), d-1))
		}
		r := "[" + strings.Join(s, " ") + "]"
		if _, err := mParse(r); err != nil {
			return "(list->bytearray (list " + strings.Join(s, " ") + "))"
		}
		return r
	})
	litGens["notbytes"] = func(g *Gen) string { return oneOf(g, "(make-channel 2)", "(atomic 258)", "(the-environment)") }
	ops("bytes", `
4 bytes (list->bytearray {bytelist})
1 bytes (list-to-bytearray {bytelist})
2 bytes (list->bytearray (list {byte} {bytes} {byte}))
3 list (bytearray->list {bytes})
1 list (bytearray-to-list {bytes})
4 bytes (replace-byte {bytes} {byidx} {byte})
4 byte (extract-byte {bytes} {byidx})
5 bytes (extract-bytes {bytes} {byidx} {byidx})
2 bytes (extract-bytes {bytes} 0 (length {bytes!}))
3 bytes (append-bytes {bytes} {byte+})
3 bytes (append-bytes {bytes} {bytes})
2 bytes (append-bytes {bytes} {bytelist})
2 bytes (append-bytes {bytes} {bytes} {byte} {bytes})
3 bytes (take {byidx} {bytes})
3 bytes (drop {byidx} {bytes})
2 int (length {bytes})
2 bytes (copy {bytes})
3 bool (equal? {bytes} {bytes})
2 bool (equal? {bytes!} (list->bytearray (bytearray->list {bytes!})))
1 bool (equal? {bytes} {list})
1 any (bytearray->list {any})
1 any (extract-byte {any} {byidx})
6 stmt (replace-byte! {bytes!} {byidx} {byte})
4 stmt (append-bytes! {bytes!} {byte+})
3 stmt (append-bytes! {bytes!} {bytes})
1 stmt (append-bytes! {bytes!} {bytelist})
2 bytes (replace-byte! {bytes} {byidx} {byte})
2 bytes {bytes!}
1 bool (bytearray? {any})
1 bool (bytearray? {notbytes})
1 any (extract-byte {notbytes} 0)
1 any (bytearray->list {notbytes})
1 any (append-bytes {notbytes} 1)
1 any (append-bytes {bytes} {notbytes})
1 any (replace-byte! {notbytes} 0 1)
1 any (extract-bytes {notbytes} 0 1)
1 any (take 1 {notbytes})
1 any (length {notbytes})
3 byte (extract-byte {bytes!} (- (length {bytes!}) 1))
1 byte (extract-byte {bytes!} (length {bytes!}))
2 stmt (replace-byte! {bytes!} (- (length {bytes!}) 1) {byte})
2 bytes (extract-bytes {bytes!} {byidx} (- (length {bytes!}) {byidx}))
`)
	ops("bits", `
5 int (binary-and {bits} {bits})
5 int (binary-or {bits} {bits})
3 int (binary-not {u32})
4 int (left-shift {bits} {shiftn})
4 int (right-shift {bits} {shiftn})
2 int (binary-and (right-shift {bits} {shiftn}) 255)
2 bool (== (binary-and {bits} (binary-not {u32})) {bits})
1 int (binary-or {any} {bits})
1 int (left-shift {bits} {flt})
`)
	subTypes["int"] = append(subTypes["int"], "byte", "bits")
	register(progProp("C24", "histories of 6-16 forms over byte arrays that share, copy, slice, append to and overwrite one another, ending with every variable, and bitwise operations over the whole 64-bit range; non-trivial: at least six values compared",
		26000, 600000, []string{"bytes", "bits"}, progOpts{types: []string{"bytes", "bytes", "bytes", "bits"}, results: []string{"bytes", "int", "list", "bool", "byte"}, minF: 6, maxF: 16, depth: 2, stmtPct: 35, echo: true},
		func(f []string, r *progResult) bool { return r.good(6) }).tune(func(g *Gen) { g.pPrim = 90 }))
}
