package vs

import (
	"io"
	"os"
)

type stdoutGate struct {
	o      Obj
	used   bool
	closed bool
}

func gateOf() *stdoutGate {
	return Local("stdout", func() any { return &stdoutGate{} }).(*stdoutGate)
}

// StdoutBlock makes writes to the standard output block, as those to a pipe
// nobody reads, until it is called with false.
func StdoutBlock(block bool) {
	g := gateOf()
	g.o.Write("stdout gate")
	g.used, g.closed = true, block
}

type stdout struct{ f *os.File }

func (s stdout) Write(b []byte) (int, error) {
	if e := ex; e != nil && !e.dead {
		if g := gateOf(); g.used {
			WaitUntil("write to standard output", &g.o, func() bool { return !g.closed })
		}
	}
	return s.f.Write(b)
}

// Stdout replaces os.Stdout where it is used as a writer.
func Stdout(f *os.File) io.Writer { return stdout{f} }
