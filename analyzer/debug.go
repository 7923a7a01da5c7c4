package main

import (
	"fmt"
	"os"
	"sort"
)

// dumpHeads prints how often each loop head was joined (GOAST_HEADS).
func (e *Engine) dumpHeads(us []*Unit) {
	if !e.debugHeads {
		return
	}
	for ui, u := range us {
		var ks []string
		for k := range u.headers {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			g := u.headers[k]
			j := 0
			for _, v := range g.variants {
				j += v.joins
			}
			fmt.Fprintf(os.Stderr, "HEAD unit %d joins %d variants %d total %d visits %d: %s\n", ui, j, len(g.variants), g.total, g.visits, firstLines(k, 1))
		}
		for k, s := range u.sites {
			fmt.Fprintf(os.Stderr, "SITE unit %d joins %d: %s\n", ui, s.joins, firstLines(k, 4))
		}
		if u.ent != nil {
			fmt.Fprintf(os.Stderr, "ENTRY %d %s\n%s\n%s\n", ui, u.ent.c.shape, u.ent.c.st.zone.compact(), u.ent.c.st.factLine())
			for _, k := range u.exitOrder {
				x := u.exitKeys[k]
				fmt.Fprintf(os.Stderr, "EXIT %d ver %d %s\n%s\n%s\n", ui, x.ver, x.c.shape, x.c.st.zone.compact(), x.c.st.factLine())
			}
		}
		fmt.Fprintf(os.Stderr, "UNIT %d %s deps %d exits %d\n", ui, u.name, len(u.deps), len(u.exitOrder))
	}
}

// compact prints a zone as classes of symbols with a constant distance, and the order between classes.
func (z *Zone) compact() string {
	out := ""
	done := map[int]bool{}
	var reps []int
	name := func(i int) string {
		if i == 0 {
			return "0"
		}
		return fmt.Sprint("s", z.ids[i])
	}
	for i := range z.ids {
		if done[i] {
			continue
		}
		out += "{" + name(i)
		for j := i + 1; j < len(z.ids); j++ {
			if a, b := z.at(i, j), z.at(j, i); a < inf && a == -b {
				done[j] = true
				out += fmt.Sprintf(" %s%+d", name(j), -a)
			}
		}
		out += "}"
		reps = append(reps, i)
	}
	for _, i := range reps {
		for _, j := range reps {
			if i != j && z.at(i, j) < inf {
				out += fmt.Sprintf(" %s-%s<=%d", name(i), name(j), z.at(i, j))
			}
		}
	}
	return out
}

func (st *State) factLine() string {
	out := ""
	for _, f := range st.bytes {
		if b, ok := f.set.single(); ok {
			out += fmt.Sprintf(" T%d[%v]=%q", f.src, f.off, b)
		} else {
			out += fmt.Sprintf(" T%d[%v]~", f.src, f.off)
		}
	}
	return out
}
