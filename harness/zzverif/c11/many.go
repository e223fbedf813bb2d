package c11

import (
	"context"
	"fmt"

	"github.com/nlpodyssey/spago/nn"
)

// Models with many parameters and many submodels.
func H_Many() {
	n := []int{5, 9, 17, 33}[pick(4)]
	var ps params
	var ms models
	var s spec
	byName := map[string]*leaf{}
	var subs [9]nn.Model
	for i := 0; i < n; i++ {
		ps = append(ps, fresh())
		l, c := newLeaf()
		ms = append(ms, l)
		s.child(l, c)
	}
	s.own = append(s.own, ps...)
	var m nn.Model
	switch pick(4) {
	case 0:
		m = &struct {
			nn.Module
			P params
			M models
		}{P: ps, M: ms}
	case 1:
		for i := 0; i < n; i++ {
			l, c := newLeaf()
			byName[fmt.Sprint("item", i)] = l
			s.child(l, c)
		}
		m = &struct {
			nn.Module
			P params
			M models
			N map[string]*leaf
		}{P: ps, M: ms, N: byName}
	case 2:
		for i := range subs {
			l, c := newLeaf()
			subs[i] = l
			s.child(l, c)
		}
		m = &struct {
			nn.Module
			S [9]nn.Model
			P params
			M models
		}{S: subs, P: ps, M: ms}
	case 3: // a chain: the submodels deep inside each other
		type node struct {
			nn.Module
			P    *nn.Param
			Next nn.Model
		}
		var in nn.Model
		s = spec{}
		for i := range ps {
			c := s
			s = spec{own: params{ps[i]}}
			if in != nil {
				s.child(in, c)
			}
			in = &node{P: ps[i], Next: in}
		}
		m = in
	}
	checkAll(m, s)
	var got params
	for p := range nn.StreamParams(ps)(context.Background()) {
		got = append(got, p)
	}
	for i := range ps {
		if len(got) != n || got[i] != ps[i] {
			panic("streamed parameters differ")
		}
	}
}
