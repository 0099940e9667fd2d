//go:build c23

package main

import (
	"fmt"

	"github.com/codeallergy/value"
)

type Leaf struct {
	N value.Number `tag:"1"`
	S value.String `tag:"2"`
}

type Outer struct {
	L *Leaf         `tag:"3"`
	R []*Leaf       `tag:"2" repeated:"true"`
	V value.Value   `tag:"1"`
	A [2]value.Bool `tag:"4"`
}

type Node struct {
	Name value.String `tag:"1"`
	Next *Node        `tag:"2"`
	Kids []*Node      `tag:"3"`
}

type Ping struct {
	N    value.Number `tag:"1"`
	Pong *Pong        `tag:"2"`
}

type Pong struct {
	S    value.String `tag:"1"`
	Ping *Ping        `tag:"2"`
}

type BadInner struct {
	N value.Number `tag:"1"`
	M value.Number `tag:"1"`
}

type BadOuter struct {
	B *BadInner `tag:"1"`
	L *Leaf     `tag:"2"`
}

type Tree struct {
	Leaf *Leaf     `tag:"1"`
	Bad  *BadInner `tag:"2"`
}

func leaf(i int64) *Leaf { return &Leaf{value.Long(i), value.Utf8("s")} }

func samples() map[string]func() any {
	return map[string]func() any{
		"Leaf": func() any { return leaf(5) },
		"Outer": func() any {
			return &Outer{L: leaf(1), R: []*Leaf{leaf(2), leaf(3)}, V: value.Tuple(value.Long(1)), A: [2]value.Bool{value.True, value.False}}
		},
		"Node": func() any {
			return &Node{value.Utf8("a"), &Node{Name: value.Utf8("b")}, []*Node{{Name: value.Utf8("c")}}}
		},
		"Ping":     func() any { return &Ping{value.Long(1), &Pong{value.Utf8("x"), &Ping{N: value.Long(2)}}} },
		"Pong":     func() any { return &Pong{value.Utf8("x"), &Ping{value.Long(1), &Pong{S: value.Utf8("y")}}} },
		"BadInner": func() any { return &BadInner{N: value.Long(1)} },
		"BadOuter": func() any { return &BadOuter{L: leaf(1)} },
	}
}

func fresh(name string) any {
	switch name {
	case "Leaf":
		return &Leaf{}
	case "Outer":
		return &Outer{}
	case "Node":
		return &Node{}
	case "Ping":
		return &Ping{}
	case "Pong":
		return &Pong{}
	case "BadInner":
		return &BadInner{}
	}
	return &BadOuter{}
}

func structOps(names ...string) []op {
	sm := samples()
	var ops []op
	for _, n := range names {
		n := n
		ops = append(ops, op{"PackStruct(" + n + ")", func(any) any { return pair(value.PackStruct(sm[n]())) }})
		enc, err := value.PackStruct(sm[n]())
		if err != nil {
			enc = []byte{0x81, 1, 5}
		}
		ops = append(ops, op{"UnpackStruct(" + n + ")", func(any) any {
			x := fresh(n)
			if err := value.UnpackStruct(append([]byte(nil), enc...), x, true); err != nil {
				return err
			}
			// packing again shows the fields; done after the execution
			return func() string { return canon(pair(value.PackStruct(x))) }
		}})
	}
	return ops
}

func structGroups(thorough bool) []group {
	var gs []group
	two := func(a, b op, bound int) scenario {
		return scenario{name: "first use: " + a.name + " || " + b.name, setup: func() any { return nil }, ops: []op{a, b}, bound: bound, observe: none}
	}
	all := structOps("Leaf", "Outer", "Node", "Ping", "Pong", "BadInner", "BadOuter")
	for i, a := range all {
		a, rest := a, all[i:]
		gs = append(gs, group{"structs " + a.name, func() []scenario {
			var out []scenario
			for _, b := range rest {
				out = append(out, two(a, b, 1))
			}
			return out
		}})
	}
	// deeper on the smallest types
	small := structOps("Leaf", "BadInner")
	for i, a := range small {
		for _, b := range small[i:] {
			a, b := a, b
			k := 2
			gs = append(gs, group{fmt.Sprintf("structs, %d preemptions: %s, %s", k, a.name, b.name), func() []scenario { return []scenario{two(a, b, k)} }})
		}
	}
	rec := structOps("Ping", "Pong", "Node")
	if thorough {
		rec = all
	}
	for i, a := range rec {
		for _, b := range rec[i:] {
			a, b := a, b
			if thorough {
				gs = append(gs, group{fmt.Sprintf("structs, 2 preemptions: %s, %s", a.name, b.name), func() []scenario { return []scenario{two(a, b, 2)} }})
			}
		}
		a, b, c := a, rec[(i+1)%len(rec)], rec[(i+2)%len(rec)]
		gs = append(gs, group{"structs, three threads: " + a.name, func() []scenario {
			return []scenario{{name: "first use: " + a.name + " || " + b.name + " || " + c.name, setup: func() any { return nil }, ops: []op{a, b, c}, bound: 1, observe: none},
				{name: "first use: " + a.name + " three times", setup: func() any { return nil }, ops: []op{a, a, a}, bound: 1, observe: none}}
		}})
	}
	// two calls in every thread, and a struct shared by packing threads
	sm := samples()
	for _, n := range []string{"Outer", "Node", "Ping"} {
		n := n
		gs = append(gs, group{"shared struct " + n, func() []scenario {
			pack := op{"PackStruct(shared " + n + ")", func(s any) any { return pair(value.PackStruct(s)) }}
			obs := func(s any) string { return canon(pair(value.PackStruct(s))) }
			later := op{"pack, then unpack", func(s any) any {
				b, err := value.PackStruct(s)
				if err != nil {
					return err
				}
				x := fresh(n)
				if err := value.UnpackStruct(b, x, false); err != nil {
					return err
				}
				return func() string { return canon(pair(value.PackStruct(x))) }
			}}
			return []scenario{
				{name: "shared " + n + ": pack || pack", setup: func() any { return sm[n]() }, ops: []op{pack, pack}, bound: 1, observe: none},
				{name: "shared " + n + ", known type: pack || pack", setup: func() any { x := sm[n](); value.PackStruct(x); return x }, ops: []op{pack, pack}, bound: 1, observe: obs},
				{name: "shared " + n + ": pack || pack and unpack", setup: func() any { return sm[n]() }, ops: []op{pack, later}, bound: 1, observe: none},
			}
		}})
	}
	return gs
}
