// Package argv sets the command line before the packages importing it are
// initialised.
package argv

import (
	"os"
	"strings"
)

func init() { Use(1) }

// Use sets the nth command line of VMC_ARGV, which separates them by "|".
func Use(n int) {
	os.Args = []string{"vanflow-tool"}
	l := strings.Split(os.Getenv("VMC_ARGV"), "|")
	if n <= len(l) {
		os.Args = append(os.Args, strings.Fields(l[n-1])...)
	}
}
