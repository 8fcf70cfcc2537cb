// Code generated by tools/genalias; DO NOT EDIT.

package vsignal

import std "os/signal"

var Ignored = std.Ignored
