package main

import "github.com/vito/booklit"

func init() {
	booklit.RegisterPlugin("tp", newTP)
	booklit.RegisterPlugin("tq", newTQ)
}
