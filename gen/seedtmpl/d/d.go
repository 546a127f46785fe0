// Package d holds what every demonstration needs.
package d

import (
	"fmt"
	"log/slog"
	"os"
	"reflect"
	"time"

	"demo/plc"

	"github.com/danomagnum/gologix"
)

// Client connects a client to the controller.
func Client(p *plc.PLC) *gologix.Client {
	slog.SetDefault(slog.New(slog.DiscardHandler))
	port, _, err := p.Listen()
	Must(err)
	cl := gologix.NewClient("127.0.0.1")
	cl.Controller.Port = uint(port)
	cl.SocketTimeout = 3 * time.Second
	return cl
}

// Connected is Client plus Connect.
func Connected(p *plc.PLC) *gologix.Client {
	cl := Client(p)
	Must(cl.Connect())
	return cl
}

// Must stops the demonstration on an error.
func Must(err error) {
	if err != nil {
		Bad("unexpected error: %v", err)
	}
}

// Bad reports the broken property.
func Bad(f string, a ...any) {
	fmt.Printf("BROKEN: "+f+"\n", a...)
	os.Exit(1)
}

// Eq compares.
func Eq(what string, got, want any) {
	if !reflect.DeepEqual(got, want) {
		Bad("%s: got %v (%T), want %v (%T)", what, got, got, want, want)
	}
}

// Dims makes tag dimensions.
func Dims(n ...int) []int { return n }

// S formats.
func S(f string, a ...any) string { return fmt.Sprintf(f, a...) }
