// Command core decides the properties observable through the public API.
package main

import "github.com/asap2Go/calibrationReader/zz_verif/pbt"

func main() { pbt.Main() }
