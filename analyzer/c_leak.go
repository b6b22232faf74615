package main

import (
	"fmt"

	"golang.org/x/tools/go/ssa"
)

// Programs' main jobs: their return ends the process, which closes what a failed phase left open.
var leakDrivers = map[string]string{
	"jobs.RunIntrinsic":                  "the whole three-phase job; its caller exits the process",
	"indexedhashes.CreateHashIndexFiles": "a one-shot developer job on a hard-wired path; holds the store until the process exits",
	"indexedhashes.CreateHashEmptyFiles": "a one-shot developer job on a hard-wired path; holds the store until the process exits",
}

func init() {
	checks["C06"] = func(P *Prog) *Result {
		r := newResult()
		r.Rules = []string{"handle-ownership: every acquired handle (os.Open/Create/OpenFile, mmap.Map, http response, or an in-module constructor that hands one over) is, at every exit of the acquiring function, closed (directly, deferred, through a helper or through the object holding it), returned on success, or stored in an object the caller holds", "failed-bake: a bake of the layered store in which a file operation fails, and which reports it, leaves no file open for writing"}
		r.Assume = []string{"a path that panics ends the process", "an object the caller already holds can be closed by the caller after a failure"}
		l := newLK(P)
		for _, f := range P.Funcs {
			if testHelper(f) {
				continue
			}
			if _, driver := leakDrivers[fnName(f)]; driver {
				r.count("exempt drivers", 1)
				continue
			}
			r.count("functions", 1)
			fds := l.analyse(f)
			byAcq := map[string]bool{}
			for _, q := range l.acquisitions(f) {
				r.count("acquisitions", 1)
				if primitiveAcquire(&q.in.(*ssa.Call).Call) {
					r.count("primitive acquisitions", 1)
				}
				key := fmt.Sprintf("%p/%d/%d", q.in, q.result, q.param)
				if byAcq[key] {
					continue
				}
				byAcq[key] = true
				r.sample(P.Pos(q.in.Pos()) + " " + q.name + " in " + fnName(f))
			}
			n := len(l.acquisitions(f)) - len(fds)
			r.Obligations += n
			r.Discharged += n
			for _, fd := range fds {
				var steps []string
				for _, b := range fd.path {
					for _, in := range b.Instrs {
						if in.Pos().IsValid() {
							steps = append(steps, P.Pos(in.Pos()))
							break
						}
					}
				}
				if fd.at != nil && fd.at.Pos().IsValid() {
					steps = append(steps, "ends at "+P.Pos(fd.at.Pos()))
				}
				r.oblig(false, Finding{Rule: "handle-ownership", Func: fnName(f), Construct: fd.name, Pos: P.Pos(fd.acq.Pos()), Msg: fd.why, Path: steps})
			}
		}
		r.floor("acquisitions", 60)
		r.floor("primitive acquisitions", 30)
		b := &bakes{P: P, r: r, what: "C06"}
		b.all()
		r.floor("bakes that fail", 100)
		return r
	}
}
