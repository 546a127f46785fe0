package plc

import "fmt"

var typeNames = map[uint16]string{0xC1: "BOOL", 0xC2: "SINT", 0xC3: "INT", 0xC4: "DINT", 0xC5: "LINT", 0xC6: "USINT", 0xC7: "UINT", 0xC8: "UDINT", 0xC9: "ULINT", 0xCA: "REAL", 0xCB: "LREAL", 0xD1: "BYTE", 0xD2: "WORD", 0xD3: "DWORD", 0xD4: "LWORD"}

// Encode is the type encoding string of the structure (Rockwell's
// TypeEncode_CIPRW): the name, then every member's type; bits are left out,
// the member that holds them counts.
func (u *UDT) Encode() string {
	s := u.Name
	for _, m := range u.Members {
		if m.Bit >= 0 {
			continue
		}
		t := typeNames[m.Type&0xFF]
		if m.UDT != nil {
			t = m.UDT.Encode()
		}
		s += "," + t
		if m.Dim > 0 {
			s += fmt.Sprintf("[%d]", m.Dim)
		}
	}
	return s
}

// CRC16 is the CRC-16/ARC of b.
func CRC16(b []byte) uint16 {
	var c uint16
	for _, x := range b {
		c ^= uint16(x)
		for i := 0; i < 8; i++ {
			if c&1 == 1 {
				c = c>>1 ^ 0xA001
			} else {
				c >>= 1
			}
		}
	}
	return c
}

// predefined structures have handles of their own.
var predefined = map[string]uint16{"STRING": 0x0FCE, "TIMER": 0x0F83, "COUNTER": 0x0F82, "CONTROL": 0x0F81}

// RealHandle sets the structure's handle to what a controller computes.
func (u *UDT) RealHandle() *UDT {
	for _, m := range u.Members {
		if m.UDT != nil {
			m.UDT.RealHandle()
		}
	}
	u.Handle = CRC16([]byte(u.Encode()))
	if h, ok := predefined[u.Name]; ok {
		u.Handle = h
	}
	return u
}
