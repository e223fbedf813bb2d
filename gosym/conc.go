package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// recording gives the recorder when events of this thread count.
func (th *Thread) recording() *crec {
	r := th.p.crec
	if r == nil || !r.on || th.p.initDepth > 0 {
		return nil
	}
	return r
}

func (th *Thread) owner() *Thread {
	for th.own != nil {
		th = th.own
	}
	return th
}

func (th *Thread) memAccess(loc any, write bool) {
	if write && th.p.spec != nil {
		th.p.spec.note(loc)
	}
	if r := th.recording(); r != nil {
		r.mem(th.owner(), loc, write)
	}
}

func (th *Thread) block(why string, ready func() bool) {
	panic(blockReq{ready, why})
}

// gate is called by every synchronisation operation before it has any effect:
// under a controlled schedule the thread stops here until it is its turn.
func (th *Thread) gate() {
	if th.recording() == nil {
		return
	}
	if th.own != nil {
		panic(abort("synchronisation inside a nested call at %s", th.where()))
	}
	if th.inInstr {
		return
	}
	if th.granted {
		th.granted = false
		th.inInstr = true
		return
	}
	panic(blockReq{func() bool { return true }, "gate"})
}

// syncEv records a completed synchronisation operation.
func (th *Thread) syncEv(kind string, obj any, v ...V) {
	if r := th.recording(); r != nil {
		r.sync(th, kind, obj, v)
	}
}

func (c *Chan) waitingRecv() *chWaiter {
	for _, w := range c.recvq {
		if !w.done {
			return w
		}
	}
	return nil
}
func (c *Chan) firstSend() *chWaiter {
	for _, w := range c.sendq {
		if !w.done {
			return w
		}
	}
	return nil
}
func (c *Chan) dropDone() {
	var q []*chWaiter
	for _, w := range c.sendq {
		if !w.done {
			q = append(q, w)
		}
	}
	c.sendq = q
	q = nil
	for _, w := range c.recvq {
		if !w.done {
			q = append(q, w)
		}
	}
	c.recvq = q
}

func (th *Thread) send(c *Chan, v V) {
	if c == nil {
		th.block("send on nil channel", func() bool { return false })
	}
	th.gate()
	th.touchChan(c)
	if w := th.pendWait; w != nil {
		th.pendWait = nil
		if w.done {
			th.syncEv("send", c, v)
			return
		}
		w.done = true
		c.dropDone()
	}
	if c.closed {
		panic(th.p.rtPanic("send on closed channel"))
	}
	if w := c.waitingRecv(); w != nil {
		w.v, w.ok, w.done = v, true, true
		c.dropDone()
		th.syncEv("send", c, v)
		return
	}
	if len(c.buf) < c.cap {
		c.buf = append(c.buf, v)
		th.syncEv("send", c, v)
		return
	}
	if c.cap > 0 {
		th.block("chan send", func() bool { return len(c.buf) < c.cap || c.closed || c.waitingRecv() != nil })
	}
	w := &chWaiter{th: th, v: v}
	c.sendq = append(c.sendq, w)
	th.pendWait = w
	th.block("chan send", func() bool { return w.done || c.closed })
}

func (th *Thread) recv(c *Chan, et types.Type) (V, bool) {
	if c == nil {
		th.block("receive from nil channel", func() bool { return false })
	}
	th.gate()
	th.touchChan(c)
	if w := th.pendWait; w != nil {
		th.pendWait = nil
		if w.done {
			th.syncEv("recv", c, w.ok, w.v)
			return w.v, w.ok
		}
		w.done = true
		c.dropDone()
	}
	if v, ok, got := c.tryRecv(th, et); got {
		th.syncEv("recv", c, ok, v)
		return v, ok
	}
	w := &chWaiter{th: th}
	c.recvq = append(c.recvq, w)
	th.pendWait = w
	th.block("chan receive", func() bool { return w.done || c.closed || len(c.buf) > 0 || c.firstSend() != nil })
	return nil, false
}

func (c *Chan) tryRecv(th *Thread, et types.Type) (V, bool, bool) {
	if len(c.buf) > 0 {
		v := c.buf[0]
		c.buf = append([]V{}, c.buf[1:]...)
		if w := c.firstSend(); w != nil && c.cap > 0 {
			c.buf = append(c.buf, w.v)
			w.done = true
			c.dropDone()
		}
		return v, true, true
	}
	if w := c.firstSend(); w != nil {
		w.done = true
		c.dropDone()
		return w.v, true, true
	}
	if c.closed {
		return th.p.zero(et), false, true
	}
	return nil, false, false
}

func (th *Thread) closeChan(c *Chan) {
	if c == nil {
		panic(th.p.rtPanic("close of nil channel"))
	}
	th.gate()
	th.touchChan(c)
	if c.closed {
		panic(th.p.rtPanic("close of closed channel"))
	}
	c.closed = true
	th.syncEv("close", c)
}

func (th *Thread) selectStmt(fr *Frame, x *ssa.Select) V {
	p := th.p
	type st struct {
		c    *Chan
		send bool
		v    V
		et   types.Type
	}
	var sts []st
	for _, s := range x.States {
		c := th.get(fr, s.Chan).(*Chan)
		e := st{c: c, send: s.Dir == types.SendOnly, et: s.Chan.Type().Underlying().(*types.Chan).Elem()}
		if e.send {
			e.v = copyVal(th.get(fr, s.Send))
		}
		sts = append(sts, e)
	}
	th.gate()
	if r := th.recording(); r != nil {
		th.sel = &selRec{block: x.Blocking}
		for _, s := range sts {
			if s.c != nil {
				th.touchChan(s.c)
			}
			th.sel.cases = append(th.sel.cases, selCase{s.c, s.send, s.v})
		}
		defer func() { th.sel = nil }()
	}
	isReady := func(s st) bool {
		if s.c == nil {
			return false
		}
		if s.send {
			return s.c.closed || len(s.c.buf) < s.c.cap || s.c.waitingRecv() != nil
		}
		return s.c.closed || len(s.c.buf) > 0 || s.c.firstSend() != nil
	}
	mk := func(idx int, recvOK bool, val V) V {
		t := Tuple{int64(idx), recvOK}
		for i, s := range sts {
			if s.send {
				continue
			}
			if i == idx {
				t = append(t, val)
			} else {
				t = append(t, p.zero(s.et))
			}
		}
		return t
	}
	var rdy []int
	for i, s := range sts {
		if isReady(s) {
			rdy = append(rdy, i)
		}
	}
	if len(rdy) == 0 {
		if !x.Blocking {
			if th.sel != nil {
				th.sel.idx = -1
				th.syncEv("default", nil)
			}
			return mk(-1, false, nil)
		}
		th.block("select", func() bool {
			for _, s := range sts {
				if isReady(s) {
					return true
				}
			}
			return false
		})
	}
	k := rdy[0]
	if len(rdy) > 1 {
		if r := th.recording(); r != nil {
			k = r.selectChoice(th, rdy)
		} else {
			k = rdy[p.choose(len(rdy))]
		}
	}
	if th.sel != nil {
		th.sel.idx = k
	}
	s := sts[k]
	if s.send {
		th.send(s.c, s.v)
		return mk(k, false, nil)
	}
	v, ok, _ := s.c.tryRecv(th, s.et)
	th.syncEv("recv", s.c, ok, v)
	return mk(k, ok, v)
}
