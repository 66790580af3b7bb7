package hist

import (
	"errors"
	"fmt"
)

// Sync, Connect and so on run a lifecycle operation on the real cache and log it.

func (w *World) op(f string, args ...any) {
	w.Log = append(w.Log, fmt.Sprintf("[now %d] ", Clock.Load())+fmt.Sprintf(f, args...))
	w.Feed = nil
}

// Note records an operation that is made without the World.
func (w *World) Note(f string, args ...any) { w.op(f, args...) }

func (w *World) Sync(t string)    { w.op("Sync(%s)", t); w.C.Sync(t) }
func (w *World) Connect(t string) { w.op("Connect(%s)", t); w.C.Connect(t) }
func (w *World) ConnectError(t, e string) {
	w.op("ConnectError(%s, %s)", t, e)
	w.C.ConnectError(t, errors.New(e))
}
func (w *World) UpdateMetadata() { w.op("UpdateMetadata"); w.C.UpdateMetadata() }
func (w *World) UpdateSize()     { w.op("UpdateSize"); w.C.UpdateSize() }

// Reset resets a target in cache and model.
func (w *World) Reset(t string) {
	w.op("Reset(%s)", t)
	w.C.Reset(t)
	if w.M[t] != nil {
		w.M[t] = &Target{Leaves: map[string]Leaf{}}
	}
}

// Remove removes a target from cache and model.
func (w *World) Remove(t string) {
	w.op("Remove(%s)", t)
	w.C.Remove(t)
	delete(w.M, t)
}

// Add adds a target that does not exist to cache and model.
func (w *World) Add(t string) {
	w.op("Add(%s)", t)
	w.C.Add(t)
	w.M[t] = &Target{Leaves: map[string]Leaf{}}
}

// Targets returns all targets of the configuration.
func (w *World) Targets() []string { return w.Cfg.Targets }
