package flow

import (
	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// With Sched set, goroutines started by the function are followed in every order in which they can
// take turns: one runs until it waits for something that another has not done yet. The function itself
// may continue from a wait as soon as it can, or after any of the others had turns.

type susp struct {
	ready func(*State) bool
	k     func(*State)
}

// runnable lists the goroutines that can continue, as functions that let one do so.
func (e *Engine) runnable(st *State) (out []func(*State)) {
	for i := range st.pend {
		i := i
		out = append(out, func(s *State) {
			p := s.pend[i]
			s.pend = append(append([]*pendingG{}, s.pend[:i]...), s.pend[i+1:]...)
			e.enter(s, p.fn.Fn, p.fn.Bind, p.args, 1, p.id, func(s2 *State, _ Val) { s2.yield(s2) })
		})
	}
	for i := range st.susp {
		i := i
		if st.susp[i].ready(st) {
			out = append(out, func(s *State) {
				w := s.susp[i]
				s.susp = append(append([]*susp{}, s.susp[:i]...), s.susp[i+1:]...)
				w.k(s)
			})
		}
	}
	return
}

// await continues with k once ready holds.
func (e *Engine) await(st *State, fr *frame, at token.Pos, ready func(*State) bool, k func(*State)) {
	if fr.gor != 0 {
		if ready(st) {
			k(st)
			return
		}
		st.susp = append(st.susp[:len(st.susp):len(st.susp)], &susp{ready, k})
		st.yield(st)
		return
	}
	if len(e.Paths) >= e.MaxPath {
		e.Over = true
		return
	}
	ok := ready(st)
	if ok {
		k(st.clone())
	}
	rs := e.runnable(st)
	for _, r := range rs {
		s2 := st.clone()
		s2.yield = func(s *State) { e.await(s, fr, at, ready, k) }
		r(s2)
	}
	if !ok && len(rs) == 0 {
		e.path(&Path{St: st, How: "blocked", At: at, Where: fr.fn})
	}
}

// rest lets what was started and has not ended run.
func (e *Engine) rest(st *State, k func(*State)) {
	rs := e.runnable(st)
	if len(rs) == 0 {
		k(st)
		return
	}
	st.Late = true
	st.yield = func(s *State) { e.rest(s, k) }
	rs[0](st)
}

// Waiting is the number of goroutines that wait for ever.
func (st *State) Waiting() int { return len(st.susp) }

func (e *Engine) schedSend(st *State, fr *frame, ch, v Val, at token.Pos, k func(*State)) {
	c := Strip(ch)
	key := c.Key()
	if st.Done["closed:"+key] {
		e.path(&Path{St: st, How: "panic", At: at, Where: fr.fn})
		return
	}
	put := func(s *State) {
		s.Trace = append(s.Trace, &Event{Kind: "send", Recv: c, Args: []Val{v}, Fn: fr.fn, Pos: at, Gor: fr.gor, Held: len(s.held), Locks: s.held})
		s.chans[key] = append(s.chans[key][:len(s.chans[key]):len(s.chans[key])], v)
	}
	n, local := st.chCap[key]
	switch {
	case !local || n < 0:
		put(st)
		k(st)
	case n == 0:
		put(st)
		e.await(st, fr, at, func(s *State) bool { return len(s.chans[key]) == 0 }, k)
	default:
		e.await(st, fr, at, func(s *State) bool { return int64(len(s.chans[key])) < n }, func(s *State) {
			if s.Done["closed:"+key] {
				e.path(&Path{St: s, How: "panic", At: at, Where: fr.fn})
				return
			}
			put(s)
			k(s)
		})
	}
}

func (st *State) arrived(key string) bool {
	return len(st.chans[key]) > 0 || st.Done["closed:"+key]
}

func (e *Engine) schedRecv(st *State, fr *frame, ch Val, t types.Type, commaOk bool, at token.Pos, k cont) {
	c := Strip(ch)
	key := c.Key()
	if _, local := st.chans[key]; !local {
		e.recv(st, fr, ch, t, commaOk, k)
		return
	}
	e.await(st, fr, at, func(s *State) bool { return s.arrived(key) }, func(s *State) { e.recv(s, fr, ch, t, commaOk, k) })
}

func (e *Engine) schedSelect(st *State, fr *frame, x *ssa.Select, k func(*State)) {
	var locals []string
	opaque := false
	for _, s := range x.States {
		key := Strip(e.val(st, fr, s.Chan)).Key()
		if _, local := st.chans[key]; local && s.Dir == types.RecvOnly {
			locals = append(locals, key)
		} else {
			opaque = true
		}
	}
	if opaque || !x.Blocking || len(locals) == 0 {
		e.doSelect(st.clone(), fr, x, k)
		if len(locals) == 0 || !x.Blocking {
			return
		}
		for _, l := range locals {
			if st.arrived(l) {
				return // followed already
			}
		}
	}
	// nothing else happens before one of the others has done something
	ready := func(s *State) bool {
		for _, l := range locals {
			if s.arrived(l) {
				return true
			}
		}
		return false
	}
	e.await(st, fr, x.Pos(), ready, func(s *State) {
		for i, sc := range x.States {
			ch := e.val(s, fr, sc.Chan)
			key := Strip(ch).Key()
			if _, local := s.chans[key]; !local || sc.Dir != types.RecvOnly || !s.arrived(key) {
				continue
			}
			e.recv(s.clone(), fr, ch, sc.Chan.Type().Underlying().(*types.Chan).Elem(), false, func(s2 *State, v Val) {
				ev := *s2.Trace[len(s2.Trace)-1]
				s2.env[fr.id][x] = selected(x, i, Const{constant.MakeBool(!ev.Closed)}, v)
				k(s2)
			})
		}
	})
}

// selected is what a select yields when its i-th case was taken.
func selected(x *ssa.Select, i int, ok, val Val) Tuple {
	t := Tuple{Const{constant.MakeInt64(int64(i))}, ok}
	for j, s := range x.States {
		if s.Dir == types.RecvOnly {
			if j == i {
				t = append(t, val)
			} else {
				t = append(t, ZeroOf(s.Chan.Type().Underlying().(*types.Chan).Elem()))
			}
		}
	}
	return t
}

// schedWait models the counter of a WaitGroup.
func (e *Engine) schedWait(st *State, fr *frame, ev *Event, k func(*State)) bool {
	key := ""
	if ev.Recv != nil {
		key = "wg:" + Strip(ev.Recv).Key()
	}
	note := func(s *State) {
		ne := *ev
		ne.Res = Tuple{}
		s.Trace = append(s.Trace, &ne)
	}
	n := int64(-1)
	switch ev.Name {
	case "(*sync.WaitGroup).Done":
	case "(*sync.WaitGroup).Add":
		c, ok := Strip(ev.Args[0]).(Const)
		if !ok {
			return false
		}
		n, _ = constant.Int64Val(c.V)
	case "(*sync.WaitGroup).Wait":
		e.await(st, fr, ev.Pos, func(s *State) bool { return s.chCap[key] == 0 }, func(s *State) {
			note(s)
			k(s)
		})
		return true
	default:
		return false
	}
	note(st)
	st.chCap[key] += n
	if st.chCap[key] < 0 {
		e.path(&Path{St: st, How: "panic", At: ev.Pos, Where: fr.fn})
		return true
	}
	k(st)
	return true
}
