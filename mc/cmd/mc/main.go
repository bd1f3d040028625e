// Command mc runs one property's exploration.
package main

import "verif/mc/app"

func main() { app.Main() }
