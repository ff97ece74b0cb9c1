// Package context replaces the standard package in the rewritten code: the
// standard cancellation machinery with virtual deadlines and scheduling points.
package context

import (
	std "context"
	"sync/atomic"
	"time"

	"verif/vsched"
)

func WithCancel(parent std.Context) (std.Context, std.CancelFunc) {
	ctx, cancel := std.WithCancel(parent)
	return ctx, func() { vsched.Point("cancel"); cancel() }
}

func WithCancelCause(parent std.Context) (std.Context, std.CancelCauseFunc) {
	ctx, cancel := std.WithCancelCause(parent)
	return ctx, func(cause error) { vsched.Point("cancel"); cancel(cause) }
}

type deadlineCtx struct {
	std.Context
	deadline time.Time
	timedOut atomic.Bool
}

func (c *deadlineCtx) Deadline() (time.Time, bool) { return c.deadline, true }
func (c *deadlineCtx) Err() error {
	if c.timedOut.Load() {
		return std.DeadlineExceeded
	}
	return c.Context.Err()
}

func WithDeadline(parent std.Context, d time.Time) (std.Context, std.CancelFunc) {
	if !vsched.Active() {
		return std.WithDeadline(parent, d)
	}
	ctx, cancel := std.WithCancel(parent)
	c := &deadlineCtx{Context: ctx, deadline: d}
	t := vsched.NewSyncedTimer(d.Sub(vsched.PeekNow()), func() {
		if ctx.Err() == nil {
			c.timedOut.Store(true)
			cancel()
		}
	})
	return c, func() { vsched.Point("cancel"); t.Stop(); cancel() }
}

func WithTimeout(parent std.Context, d time.Duration) (std.Context, std.CancelFunc) {
	if !vsched.Active() {
		return std.WithTimeout(parent, d)
	}
	return WithDeadline(parent, vsched.PeekNow().Add(d))
}

func WithDeadlineCause(parent std.Context, d time.Time, cause error) (std.Context, std.CancelFunc) {
	if !vsched.Active() {
		return std.WithDeadlineCause(parent, d, cause)
	}
	return WithDeadline(parent, d)
}

func WithTimeoutCause(parent std.Context, d time.Duration, cause error) (std.Context, std.CancelFunc) {
	if !vsched.Active() {
		return std.WithTimeoutCause(parent, d, cause)
	}
	return WithTimeout(parent, d)
}

// AfterFunc runs f in a goroutine of the scheduler
func AfterFunc(ctx std.Context, f func()) (stop func() bool) {
	if !vsched.Active() {
		return std.AfterFunc(ctx, f)
	}
	stopped := make(chan struct{})
	var ran, once vsched.Cell
	vsched.GoNamed("after", func() {
		if vsched.Select(false, vsched.RecvCase(ctx.Done()).C(), vsched.RecvCase[struct{}](stopped).C()) == 0 && once.Get() == 0 {
			ran.Set(1)
			f()
		}
	})
	return func() bool {
		vsched.Point("stop")
		if ran.Get()+once.Get() > 0 {
			return false
		}
		once.Set(1)
		vsched.Close(stopped)
		return true
	}
}
