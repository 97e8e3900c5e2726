package u

// Hook runs F once, at the At-th of the places it is put into.
type Hook struct {
	At, n int
	F     func()
}

func (h *Hook) place() {
	h.n++
	if h.F != nil && h.n-1 == h.At {
		f := h.F
		h.F = nil
		f()
	}
}

// Done runs F unless it has run.
func (h *Hook) Done() {
	if f := h.F; f != nil {
		h.F = nil
		f()
	}
}

// HookWriter has a place before and one after each write is taken.
type HookWriter struct {
	*Writer
	*Hook
}

func (w HookWriter) Write(p []byte) (int, error) {
	w.place()
	n, err := w.Writer.Write(p)
	w.place()
	return n, err
}

// HookReader has a place before and one after each read is filled.
type HookReader struct {
	*Reader
	*Hook
}

func (r HookReader) Read(p []byte) (int, error) {
	r.place()
	n, err := r.Reader.Read(p)
	r.place()
	return n, err
}
