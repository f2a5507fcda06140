package main

func bytesArg(v V, what string) *MBytes {
	b, ok := v.(*MBytes)
	if !ok {
		lispErr("%s needs a bytearray", what)
	}
	return b
}

func toBytes(vs []V) *MBytes {
	r := &MBytes{}
	for _, v := range vs {
		switch x := v.(type) {
		case int64:
			if x < 0 || x > 255 {
				lispErr("not a byte: %d", x)
			}
			r.b = append(r.b, byte(x))
		case *MBytes:
			r.b = append(r.b, x.b...)
		default:
			lispErr("not a byte")
		}
	}
	return r
}

func init() {
	prim("list->bytearray list-to-bytearray", "1", func(in *Interp, a []V, env *MEnv) V {
		if a[0] == nil || !isListP(a[0]) {
			lispErr("list->bytearray needs a non-empty list")
		}
		unspecIf(!properList(a[0]), "bytearray of an improper list")
		return toBytes(arr(a[0]))
	})
	prim("bytearray->list bytearray-to-list", "1", func(in *Interp, a []V, env *MEnv) V {
		var r []V
		for _, c := range bytesArg(a[0], "bytearray->list").b {
			r = append(r, int64(c))
		}
		return list(r...)
	})
	index := func(b *MBytes, v V, what string) int {
		i := intArg(v, what)
		if i < 0 || i >= int64(len(b.b)) {
			lispErr("%s: index out of range", what)
		}
		return int(i)
	}
	replace := func(b *MBytes, a []V) {
		i := index(b, a[1], "replace-byte")
		v := intArg(a[2], "replace-byte")
		if v < 0 || v > 255 {
			lispErr("not a byte")
		}
		b.b[i] = byte(v)
	}
	prim("replace-byte", "3", func(in *Interp, a []V, env *MEnv) V {
		b := mCopy(bytesArg(a[0], "replace-byte"), 0).(*MBytes)
		replace(b, a)
		return b
	})
	prim("replace-byte!", "3", func(in *Interp, a []V, env *MEnv) V {
		replace(bytesArg(a[0], "replace-byte!"), a)
		return a[0]
	})
	prim("extract-byte", "2", func(in *Interp, a []V, env *MEnv) V {
		b := bytesArg(a[0], "extract-byte")
		return int64(b.b[index(b, a[1], "extract-byte")])
	})
	prim("extract-bytes", "3", func(in *Interp, a []V, env *MEnv) V {
		b := bytesArg(a[0], "extract-bytes")
		i, n := intArg(a[1], "extract-bytes"), intArg(a[2], "extract-bytes")
		unspecIf(i == int64(len(b.b)) && n == 0, "extracting nothing from the end")
		if i < 0 || i >= int64(len(b.b)) || n < 0 || n > int64(len(b.b))-i {
			lispErr("extract-bytes out of range")
		}
		return &MBytes{append([]byte{}, b.b[i:i+n]...)}
	})
	joined := func(a []V) *MBytes {
		if len(a) == 0 {
			lispErr("append-bytes needs a bytearray")
		}
		b := bytesArg(a[0], "append-bytes")
		extra := a[1:]
		if len(extra) == 1 && isListP(extra[0]) {
			unspecIf(!properList(extra[0]), "bytes of an improper list")
			extra = arr(extra[0])
		}
		unspecIf(len(extra) == 0, "appending no bytes")
		return &MBytes{append(append([]byte{}, b.b...), toBytes(extra).b...)}
	}
	prim("append-bytes", "*", func(in *Interp, a []V, env *MEnv) V { return joined(a) })
	prim("append-bytes!", "*", func(in *Interp, a []V, env *MEnv) V {
		b := joined(a)
		a[0].(*MBytes).b = b.b
		return a[0]
	})

	prim("binary-and", "2", func(in *Interp, a []V, env *MEnv) V {
		return intArg(a[0], "binary-and") & intArg(a[1], "binary-and")
	})
	prim("binary-or", "2", func(in *Interp, a []V, env *MEnv) V {
		return intArg(a[0], "binary-or") | intArg(a[1], "binary-or")
	})
	prim("binary-not", "1", func(in *Interp, a []V, env *MEnv) V {
		n := intArg(a[0], "binary-not")
		unspecIf(n < 0 || n > 0xFFFFFFFF, "complement of a number over 32 bits")
		return 0xFFFFFFFF - n
	})
	shift := func(f func(x, k uint64) uint64) func(in *Interp, a []V, env *MEnv) V {
		return func(in *Interp, a []V, env *MEnv) V {
			x, k := intArg(a[0], "shift"), intArg(a[1], "shift")
			unspecIf(k < 0, "negative shift")
			if k > 63 {
				return int64(0)
			}
			for ; k > 0; k-- {
				x = int64(f(uint64(x), 1))
			}
			return x
		}
	}
	prim("left-shift", "2", shift(func(x, k uint64) uint64 { return x * 2 }))
	prim("right-shift", "2", shift(func(x, k uint64) uint64 { return x / 2 }))
}
