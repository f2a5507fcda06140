package main

// The model's channels, atomics and processes, for programs whose result does
// not depend on the schedule: a process runs at once, to its end.

type mChan struct {
	cap    int
	q      []V
	closed bool
}

type mAtomic struct{ v int64 }

type mProc struct {
	sched     bool
	pending   bool // scheduled far in the future
	racy      bool
	abandoned bool
	reset     bool
	joined    bool
	wake      bool
	val       V
}

func mObj(v V, kind string) interface{} {
	if o, ok := v.(*MObj); ok && o.kind == kind {
		return o.data
	}
	lispErr("%s expected", kind)
	return nil
}

func init() {
	ch := func(v V) *mChan { return mObj(v, "Channel").(*mChan) }
	prim("make-channel", "0|1", func(in *Interp, a []V, env *MEnv) V {
		c := &mChan{}
		if len(a) == 1 {
			n := intArg(a[0], "make-channel")
			if n < 0 {
				lispErr("negative size")
			}
			if n > 1<<60 {
				lispErr("size too big")
			}
			unspecIf(n > 1<<20, "huge channel")
			c.cap = int(n)
		}
		return &MObj{kind: "Channel", data: c}
	})
	prim("channel-write", "2", func(in *Interp, a []V, env *MEnv) V {
		c := ch(a[0])
		if c.closed {
			lispErr("closed")
		}
		unspecIf(len(c.q) >= c.cap, "would block")
		c.q = append(c.q, a[1])
		return nil
	})
	prim("channel-try-write", "2", func(in *Interp, a []V, env *MEnv) V {
		c := ch(a[0])
		if c.closed {
			lispErr("closed")
		}
		if len(c.q) >= c.cap {
			return false
		}
		c.q = append(c.q, a[1])
		return true
	})
	prim("channel-read", "1", func(in *Interp, a []V, env *MEnv) V {
		c := ch(a[0])
		if len(c.q) > 0 {
			v := c.q[0]
			c.q = c.q[1:]
			return list(v, true)
		}
		unspecIf(!c.closed, "would block")
		return list(nil, false)
	})
	prim("channel-try-read", "1", func(in *Interp, a []V, env *MEnv) V {
		c := ch(a[0])
		if len(c.q) > 0 {
			v := c.q[0]
			c.q = c.q[1:]
			return list(true, v, true)
		}
		if c.closed {
			return list(true, nil, false)
		}
		return list(false, nil, true)
	})
	prim("close-channel", "1", func(in *Interp, a []V, env *MEnv) V {
		c := ch(a[0])
		if c.closed {
			lispErr("closed twice")
		}
		c.closed = true
		return nil
	})

	at := func(v V) *mAtomic { return mObj(v, "Atomic").(*mAtomic) }
	prim("atomic", "0|1", func(in *Interp, a []V, env *MEnv) V {
		x := &mAtomic{}
		if len(a) == 1 {
			x.v = intArg(a[0], "atomic")
		}
		return &MObj{kind: "Atomic", data: x}
	})
	prim("atomic-load", "1", func(in *Interp, a []V, env *MEnv) V { return at(a[0]).v })
	prim("atomic-store!", "2", func(in *Interp, a []V, env *MEnv) V {
		x, n := at(a[0]), intArg(a[1], "atomic-store!")
		x.v = n
		return nil
	})
	prim("atomic-add!", "2", func(in *Interp, a []V, env *MEnv) V {
		x, n := at(a[0]), intArg(a[1], "atomic-add!")
		x.v += n
		return x.v
	})
	prim("atomic-swap!", "2", func(in *Interp, a []V, env *MEnv) V {
		x, n := at(a[0]), intArg(a[1], "atomic-swap!")
		o := x.v
		x.v = n
		return o
	})
	prim("atomic-compare-and-swap!", "3", func(in *Interp, a []V, env *MEnv) V {
		x, o, n := at(a[0]), intArg(a[1], "cas"), intArg(a[2], "cas")
		if x.v != o {
			return false
		}
		x.v = n
		return true
	})

	proc := func(v V) *mProc { return mObj(v, "Process").(*mProc) }
	// start runs the function now; what it does before somebody joins it is
	// visible only then, so programs do not look earlier
	start := func(in *Interp, f *MFn, args []V, p *mProc, env *MEnv) V {
		o := &MObj{kind: "Process", data: p}
		n := len(args) + 1
		if f.vararg && n < f.req || !f.vararg && n != f.req {
			lispErr("arity of a process")
		}
		if p.pending {
			return o
		}
		var fr *MFrame
		if f.slot && env.frame != nil {
			unspec("method as process")
		}
		t := len(in.trace)
		in.procs = append(in.procs, o)
		in.nextProc = o
		v, err := in.try(func() V { return in.callFn(f, append([]V{o}, args...), env, fr, false) })
		in.procs = in.procs[:len(in.procs)-1]
		unspecIf(len(in.trace) != t, "effects of a process")
		if err == nil {
			p.val = v
		}
		return o
	}
	prim("fork", ">=1", func(in *Interp, a []V, env *MEnv) V {
		f, ok := a[0].(*MFn)
		if !ok {
			lispErr("fork needs a function")
		}
		return start(in, f, a[1:], &mProc{}, env)
	})
	prim("schedule", ">=2", func(in *Interp, a []V, env *MEnv) V {
		n := intArg(a[0], "schedule")
		f, ok := a[1].(*MFn)
		if !ok {
			lispErr("schedule needs a function")
		}
		unspecIf(n > 20 && n < 60000, "delay of a process")
		return start(in, f, a[2:], &mProc{sched: true, pending: n > 20}, env)
	})
	prim("join", "1", func(in *Interp, a []V, env *MEnv) V {
		p := proc(a[0])
		for i, o := range in.procs {
			if o.data == p {
				unspecIf(i < len(in.procs)-1, "join on a process that waits for this one")
				return nil
			}
		}
		if p.joined {
			lispErr("joined twice")
		}
		unspecIf(p.racy, "abandoned about when it was due")
		unspecIf(p.pending && !p.abandoned, "would block")
		p.joined = true
		return p.val
	})
	prim("abandon", "1", func(in *Interp, a []V, env *MEnv) V {
		p := proc(a[0])
		if !p.sched {
			lispErr("not scheduled")
		}
		if !p.pending && !p.joined {
			p.racy = true
		}
		p.abandoned = true
		return newStr("OK")
	})
	prim("reset-timeout", "1", func(in *Interp, a []V, env *MEnv) V {
		p := proc(a[0])
		if !p.sched {
			lispErr("not scheduled")
		}
		unspecIf(p.reset || !p.pending || p.abandoned, "reset of a process that may have run")
		p.reset = true
		return newStr("OK")
	})
	prim("wake", "1", func(in *Interp, a []V, env *MEnv) V {
		proc(a[0]).wake = true
		return newStr("OK")
	})
	prim("proc-sleep", "2", func(in *Interp, a []V, env *MEnv) V {
		p, n := proc(a[0]), intArg(a[1], "proc-sleep")
		if p.wake {
			unspecIf(n < 5000, "woken about when the time was over")
			p.wake = false
			return true
		}
		unspecIf(n > 2, "would sleep")
		return false
	})
}
