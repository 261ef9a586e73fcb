// Program ora checks the properties of the package ora.
package main

import "verif/rt"

func main() {
	rt.Main(c13, c14, c15, c16, c17, c18)
}
