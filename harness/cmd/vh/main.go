// Command vh runs the property checks.
package main

import (
	"pkgrverif/h"
	_ "pkgrverif/props"
)

func main() { h.Main() }
