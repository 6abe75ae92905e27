package main

// C01: decoding and printing any bytes never crashes.

func init() {
	checks["C01"] = &checkDef{run: checkC01, min: 120, crash: true,
		rule: "Abstract interpretation of every decoder over an unknown byte sequence of unknown length into a receiver of unknown contents, of every printer over what was decoded, of every listener over one received frame of any length and contents, and of the activity that drains the queues over every kind of item: each index, slice, conversion, nil dereference, type assertion, panic and process exit reached is an obligation that must be impossible to fail."}
}

func checkC01(c *Ctx) {
	for _, f := range frameTypes {
		st := c.st0.clone()
		p := c.symAlloc(st, f.typ, "old."+f.name)
		outs := c.method(st, f.dec, f.dec, p, rxBytes(c.e, "rx."+f.name))
		n, bad := 0, 0
		for _, o := range outs {
			if !c.ok("no-exit", f.dec, o.exit == "", "decoding can end the process") {
				continue
			}
			if sureNil(o.st, o.ret[0]) {
				n++
			} else if isErr(o.st, o.ret[0]) {
				bad++
			} else {
				n++
			}
		}
		c.ok("outcome", f.dec, n > 0, "no input is accepted")
		c.ok("outcome", f.dec, bad > 0, "no input is refused")
		if c.tier == "thorough" || len(outs) <= 40 {
			for _, o := range outs {
				if o.exit == "" && !isErr(o.st, o.ret[0]) {
					c.printAll(f, o.st, p)
				}
			}
		} else {
			var acc *State
			for _, o := range outs {
				if o.exit == "" && !isErr(o.st, o.ret[0]) {
					if acc == nil {
						acc = o.st
					} else {
						acc = newJoiner(acc, o.st).finish(acc)
					}
				}
			}
			if acc != nil {
				c.printAll(f, acc, p)
			}
		}
	}
	c.nodeSurvives()
}

// nodeSurvives: hearing a frame and handling what was decoded from it.
func (c *Ctx) nodeSurvives() {
	n := c.node()
	if n.main == nil {
		return
	}
	ends := func(o *Outcome) bool {
		switch o.exit {
		case "", "again", "block":
			return false
		}
		return true
	}
	for _, l := range n.listeners {
		name := "listener " + l.net + " " + shortName(l.ev.Fn.Fn.String())
		k := 0
		for _, h := range c.listen(l) {
			k++
			c.ok("no-exit", name, !ends(h.o), "a received frame can end the process (%s)", exitText(h.o))
		}
		c.ok("no-exit", name, k > 0, "no path reads a frame")
	}
	n.dispatch("one item", c.packetAlts(nil), false, nil, nil)
	for _, d := range n.disp {
		if d.alt != "" {
			c.ok("no-exit", c.activity(d)+" on "+d.queueKey()+" "+d.alt, !ends(d.o), "handling a %s item can end the process (%s)", d.alt, exitText(d.o))
		}
	}
}

func (c *Ctx) printAll(f frameT, st *State, p *PtrV) {
	for _, pr := range f.prints {
		st := st.clone()
		st.env = nil
		outs := c.method(st, pr, pr, p)
		c.ok("outcome", pr, len(outs) > 0, "printing has no normal outcome")
		for _, o := range outs {
			c.ok("no-exit", pr, o.exit == "", "printing can end the process")
		}
	}
}
