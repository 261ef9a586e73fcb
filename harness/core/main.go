// Program core checks the properties of the packages limage and lcolor.
package main

import "verif/rt"

func main() {
	rt.Main(c01, c02, c03, c04, c05, c06, c07, c08, c09, c10, c11, c12, c30)
}
