package main

import (
	"go/types"

	"vsacheck/eng"
)

func init() { reg("C10", ruleC10) }

// ruleC10: between looking an accumulator up and changing it, the eviction must not be able to
// take it out of the map.
func ruleC10(c *Ctx) {
	c.rule("pinned-use", "a request changes an accumulator only while holding a lock that the eviction holds exclusively when it removes an entry (taken before the lookup), so that a change never lands on an instance that is no longer registered")
	r := c.core()
	// locks held exclusively at every removal
	var excl map[*types.Var]bool
	removals := 0
	for _, f := range c.kindCyclesMust("evict") {
		for _, p := range c.corePaths(f) {
			for _, ev := range p.Events {
				if ev.Kind != "call" || !isMapDelete(ev.Name) || !isField(ev.Recv, r.counters) {
					continue
				}
				removals++
				here := map[*types.Var]bool{}
				for _, a := range ev.Held {
					if v, ok := a.Obj.(*types.Var); ok && a.Op == "fa" && lockMode(p, ev, a) == "lock" {
						here[v] = true
					}
				}
				if excl == nil {
					excl = here
				}
				for v := range excl {
					if !here[v] {
						delete(excl, v)
					}
				}
			}
		}
	}
	c.check(removals > 0, "pinned-use", "eviction:removes", 0, "no removal was found")
	for _, rt := range c.apiRoutes() {
		if rt.fn == nil {
			continue
		}
		e := c.engine()
		c.opaque(e, ".", churnPkg)
		for _, p := range c.run(e, rt.fn, nil, rt.bind, nil) {
			for _, ev := range p.Events {
				if ev.Kind != "call" || !hasSuffix(ev.Name, "(*vsa.VSA).TryConsume", "(*vsa.VSA).TryRefund", "(*vsa.VSA).Update") {
					continue
				}
				ok := false
				for _, a := range ev.Held {
					v, isv := a.Obj.(*types.Var)
					if !isv || !excl[v] {
						continue
					}
					// held since before the lookup
					for _, l := range p.Events {
						if l.Seq >= ev.Seq {
							break
						}
						if l.Kind == "call" && hasSuffix(l.Name, "sync.Map).Load", "sync.Map).LoadOrStore") && isField(l.Recv, r.counters) {
							for _, b := range l.Held {
								ok = ok || b == a
							}
						}
					}
				}
				c.check(ok, "pinned-use", rt.pattern, ev.Pos, "the accumulator is changed without excluding its removal by the eviction: the change is lost when the eviction takes the entry in between")
			}
		}
	}
	c.min("pinned-use", 3)
}

// lockMode: "lock" or "rlock", how an address held at ev was last acquired.
func lockMode(p *eng.Path, at *eng.Event, addr *eng.Term) string {
	m := ""
	for _, ev := range p.Events {
		if ev.Seq >= at.Seq {
			break
		}
		if (ev.Kind == "lock" || ev.Kind == "rlock" || ev.Kind == "trylock") && ev.Addr == addr {
			m = ev.Kind
			if m == "trylock" {
				m = "lock"
			}
		}
	}
	return m
}
