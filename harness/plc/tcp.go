package plc

import (
	"io"
	"net"
	"sync"
)

// Listen serves the controller on a loopback TCP port; it returns the port and
// a stop function.  Requests of all connections are handled one at a time.
func (p *PLC) Listen() (int, func(), error) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return 0, nil, err
	}
	var mu sync.Mutex
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			mu.Lock()
			s := p.NewSession()
			mu.Unlock()
			go func() {
				defer c.Close()
				hdr := make([]byte, 24)
				for {
					if _, err := io.ReadFull(c, hdr); err != nil {
						break
					}
					f := append(append([]byte(nil), hdr...), make([]byte, le.Uint16(hdr[2:]))...)
					if _, err := io.ReadFull(c, f[24:]); err != nil {
						break
					}
					mu.Lock()
					rep := s.Handle(f)
					mu.Unlock()
					if rep != nil {
						if _, err := c.Write(rep); err != nil {
							break
						}
					}
				}
				mu.Lock()
				s.Ended = true
				mu.Unlock()
			}()
		}
	}()
	return l.Addr().(*net.TCPAddr).Port, func() { l.Close() }, nil
}
