package main

import (
	"runtime"
	"unsafe"
	"weak"
)

// pin refers weakly to an array or object of a document, or to a result list.
type pin struct {
	what string
	task int
	op   int
	p    weak.Pointer[byte]
}

// weakly returns a weak reference to the memory of an array or object, if it has some.
func weakly(v any) (weak.Pointer[byte], bool) {
	switch v := v.(type) {
	case []any:
		if cap(v) > 0 {
			return weak.Make((*byte)(unsafe.Pointer(&v[:1][0]))), true
		}
	case map[string]any:
		if v != nil {
			return weak.Make(*(**byte)(unsafe.Pointer(&v))), true
		}
	}
	return weak.Pointer[byte]{}, false
}

const maxPins = 3000

// watch notes the arrays and objects of a document.
func (x *scenRun) watch(v any, what string, task, op int) {
	if len(x.pins) >= maxPins {
		return
	}
	if p, ok := weakly(v); ok {
		x.pins = append(x.pins, pin{what, task, op, p})
	}
	switch v := v.(type) {
	case []any:
		for _, e := range v {
			x.watch(e, what, task, op)
		}
	case map[string]any:
		for _, e := range v {
			x.watch(e, what, task, op)
		}
	}
}

// pinned looks for what's kept alive by nothing but the library. All other references must be gone.
func (x *scenRun) pinned() {
	n := 0
	for i := 0; i < 4; i++ { // more than sync.Pool and finalizers need
		runtime.GC()
	}
	for _, p := range x.pins {
		if p.p.Value() != nil {
			if n == 0 {
				x.viol("pinned", p.task, p.op, "part of %s is still referred to after every call has returned", p.what)
			}
			n++
		}
	}
	x.report.Pins += len(x.pins)
}
