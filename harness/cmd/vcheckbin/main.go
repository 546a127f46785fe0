package main

import (
	_ "verifharness/checks"
	"verifharness/vk"
)

func main() { vk.Main() }
