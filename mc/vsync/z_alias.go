// Code generated by tools/genalias; DO NOT EDIT.

package vsync

import std "sync"

type Locker = std.Locker
