package main

import (
	"fmt"
	"reflect"

	"github.com/maxnikulin/burl/pkg/burl_util"

	"verif/core"
)

// listCase is a history of values given to one list option.
type listCase struct {
	Default []string
	Cap     int // extra capacity of the default list
	Values  []string
}

// listModel is the specification: the list, whether values were appended to
// undiscarded defaults and the changes made so far.
type listModel struct {
	list    []string
	log     []string
	state   int // 0 untouched, 1 appended, 2 discarded
	refused bool
}

func (m *listModel) set(v string) (ok bool) {
	if v == "" {
		if m.state == 1 {
			return false
		}
		m.list, m.log, m.state = nil, []string{""}, 2
		return true
	}
	m.list = append(m.list[:len(m.list):len(m.list)], v)
	m.log = append(m.log[:len(m.log):len(m.log)], v)
	if m.state == 0 {
		m.state = 1
	}
	return true
}

func same(a, b []string) bool {
	return len(a) == 0 && len(b) == 0 || reflect.DeepEqual(a, b)
}

func mkList(def []string, extra int) *[]string {
	l := make([]string, len(def), len(def)+extra)
	copy(l, def)
	return &l
}

func (x *listCase) run() (bad string) {
	defer func() {
		if p := recover(); p != nil {
			bad = fmt.Sprintf("panic: %v", p)
		}
	}()
	l := mkList(x.Default, x.Cap)
	f := burl_util.NewMultiStringFlag(l)
	m := &listModel{list: append([]string{}, x.Default...)}
	for i := 0; ; i++ {
		if !same(*l, m.list) || !same(f.Values(), m.list) {
			return fmt.Sprintf("after %q: list %q, Values %q instead of %q", x.Values[:i], *l, f.Values(), m.list)
		}
		if f.IsModified() != (m.state != 0) {
			return fmt.Sprintf("after %q: IsModified is %v", x.Values[:i], f.IsModified())
		}
		log := append([]string{}, f.ModifiedValues()...)
		if !same(log, m.log) {
			return fmt.Sprintf("after %q: recorded changes are %q instead of %q", x.Values[:i], log, m.log)
		}
		// The record recreates the list from the same default, whatever its capacity.
		for extra := 0; extra <= 2; extra++ {
			l2 := mkList(x.Default, extra)
			f2 := burl_util.NewMultiStringFlag(l2)
			for _, v := range log {
				if err := f2.Set(v); err != nil {
					return fmt.Sprintf("after %q: replay of %q: %v", x.Values[:i], log, err)
				}
			}
			if !same(*l2, m.list) || !same(f2.ModifiedValues(), log) || f2.IsModified() != (m.state != 0) {
				return fmt.Sprintf("after %q: replay of %q gives %q", x.Values[:i], log, *l2)
			}
		}
		if i == len(x.Values) {
			break
		}
		ok := m.set(x.Values[i])
		err := f.Set(x.Values[i])
		if ok != (err == nil) {
			return fmt.Sprintf("after %q: Set(%q) returned %v", x.Values[:i], x.Values[i], err)
		}
	}
	return ""
}

func c18(c *core.Ctx) {
	c.Rule("breadth-first over all histories of values of a list option; at every state the list, the modification mark, the recorded changes and their replay are compared with the specification; non-trivial: distinct histories")
	depth := core.Pick(c, 7, 9)
	vals := []string{"", "a", "b", "-x y"}
	core.Explore(c, "histories", fmt.Sprintf("default lists of 0..3 values with spare capacity 0..4, all histories up to %d values of %d kinds; repeated patterns of 1..3 values up to 257 values", depth, len(vals)), func(yield func(listCase) bool) {
		// long histories: repeated patterns after an optional beginning
		for _, n := range []int{8, 9, 10, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257} {
			for w := range core.Words(len(vals), 1, 3) {
				for first := -1; first < len(vals); first++ {
					v := []string{}
					if first >= 0 {
						v = append(v, vals[first])
					}
					for i := 0; len(v) < n; i++ {
						v = append(v, vals[w[i%len(w)]])
					}
					if n > 40 && len(w) > 2 {
						continue
					}
					if !yield(listCase{[]string{"d", "e"}, n % 3, v}) {
						return
					}
				}
			}
		}
		for n := 0; n <= depth; n++ {
			for w := range core.Words(len(vals), n, n) {
				v := []string{}
				for _, k := range w {
					v = append(v, vals[k])
				}
				for _, def := range [][]string{{}, {"d"}, {"d", "e"}, {"", "a", "d"}} {
					for extra := 0; extra <= 4; extra += 2 {
						if n == depth && (extra == 2) {
							continue
						}
						if !yield(listCase{def, extra, v}) {
							return
						}
					}
				}
			}
		}
	}, func(w *core.Worker, x listCase) core.Out {
		bad := x.run()
		if c.ReplayCase == nil {
			c.Distinct(fmt.Sprintf("%q %d %q", x.Default, x.Cap, x.Values))
		}
		if bad != "" {
			return core.Bad("list:"+core.ShortHash(bad), "default %q (+%d): %s", x.Default, x.Cap, bad)
		}
		return core.Out{}
	})
	// two options interleaved: neither may disturb the other
	core.Explore(c, "two", "two options with defaults from one backing array, all interleaved histories up to 6 values", func(yield func([]int) bool) {
		for w := range core.Words(6, 0, core.Pick(c, 5, 7)) {
			if !yield(w) {
				return
			}
		}
	}, func(w *core.Worker, x []int) core.Out {
		back := []string{"d", "e", "f", "g", "h"}
		a, b := back[0:2:2], back[2:4:4]
		l := []*[]string{&a, &b}
		f := []*burl_util.MultiStringFlag{burl_util.NewMultiStringFlag(&a), burl_util.NewMultiStringFlag(&b)}
		m := []*listModel{{list: []string{"d", "e"}}, {list: []string{"f", "g"}}}
		for i, k := range x {
			v := []string{"", "p", "q"}[k/2]
			ok := m[k%2].set(v)
			if err := f[k%2].Set(v); ok != (err == nil) {
				return core.Bad("two", "%v: step %d returned %v", x, i, err)
			}
			for n := range l {
				if !same(*l[n], m[n].list) || !same(f[n].ModifiedValues(), m[n].log) {
					return core.Bad("two", "%v: after step %d list %d is %q, changes %q", x, i, n, *l[n], f[n].ModifiedValues())
				}
			}
		}
		if c.ReplayCase == nil {
			c.Distinct(fmt.Sprint("two", x))
		}
		return core.Out{}
	})
	c.Sample(listCase{[]string{"d"}, 0, []string{"a", "", "b"}})
}
