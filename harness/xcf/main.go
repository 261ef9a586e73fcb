// Program xcf checks the properties of the package xcf, and those of both
// formats.
package main

import "verif/rt"

func main() {
	rt.Main(c19, c20, c21, c22, c23, c24, c25, c26, c27, c28, c29, c31, c32)
}
