package checks

import (
	"fmt"
	"strings"
	"time"

	"verifharness/vk"
)

// C04: a request the controller refuses is reported as an error.

// refusal is one way of refusing a request, made of the reply to it.
type refusal struct {
	layer string
	n     func(f []byte) int // alternatives for this reply
	make  func(f []byte, i int) (reply []byte, status int)
}

// cipAt is where the service byte of the reply is (0: it has none).
func cipAt(f []byte) int {
	if len(f) < 24 || cmdOf(f) != 0x6F && cmdOf(f) != 0x70 {
		return 0
	}
	at := lastItem(f)
	if at > 0 && cmdOf(f) == 0x70 {
		at += 2
	}
	if at+4 > len(f) {
		return 0
	}
	return at
}

// withStatus sets a service's reply status: s has the reply from the service
// byte on.
func withStatus(s []byte, status, ext int, keep bool) []byte {
	r := []byte{s[0], 0, byte(status), byte(ext)}
	for i := 0; i < ext; i++ {
		r = append(r, byte(0x05+i), 0x21)
	}
	if keep {
		r = append(r, s[4+2*int(s[3]):]...)
	}
	return r
}

// multiParts splits a multiple service reply into its entries.
func multiParts(s []byte) [][]byte {
	if len(s) < 6 || s[0] != 0x8A {
		return nil
	}
	b := s[4:]
	n := int(le.Uint16(b))
	var r [][]byte
	for i := 0; i < n; i++ {
		from := int(le.Uint16(b[2+2*i:]))
		to := len(b)
		if i+1 < n {
			to = int(le.Uint16(b[4+2*i:]))
		}
		r = append(r, b[from:to])
	}
	return r
}

func joinMulti(head byte, parts [][]byte) []byte {
	b := le.AppendUint16(nil, uint16(len(parts)))
	off := 2 + 2*len(parts)
	for _, p := range parts {
		b = le.AppendUint16(b, uint16(off))
		off += len(p)
	}
	for _, p := range parts {
		b = append(b, p...)
	}
	return append([]byte{0x8A, 0, head, 0}, b...)
}

var encapStatuses = func() []uint32 {
	var r []uint32
	for i := uint32(1); i < 256; i++ {
		r = append(r, i)
	}
	return append(r, 0x100, 0x6400, 0x10000, 0x640000, 0x1000000, 0x80000000, 0xFFFFFFFF)
}()

var refusals = []refusal{
	{"encapsulation", func(f []byte) int { return 2 * len(encapStatuses) }, func(f []byte, i int) ([]byte, int) {
		if i%2 == 1 {
			f = f[:24]
			le.PutUint16(f[2:], 0)
		}
		le.PutUint32(f[8:], encapStatuses[i/2])
		return f, int(encapStatuses[i/2])
	}},
	{"service", func(f []byte) int {
		if cipAt(f) == 0 {
			return 0
		}
		return 255 * 6
	}, func(f []byte, i int) ([]byte, int) {
		at := cipAt(f)
		st := 1 + i/6
		return setLens(append(f[:at:at], withStatus(f[at:], st, i%3, i%6 >= 3)...), true), st
	}},
	{"entry", func(f []byte) int {
		at := cipAt(f)
		if at == 0 {
			return 0
		}
		return len(multiParts(f[at:])) * 255 * 12
	}, func(f []byte, i int) ([]byte, int) {
		at := cipAt(f)
		parts := multiParts(f[at:])
		n := i % len(parts)
		i /= len(parts)
		st := 1 + i/12
		parts[n] = withStatus(parts[n], st, i%3, i%6 >= 3)
		head := byte(0)
		if i%12 >= 6 {
			head = 0x1E
		}
		return setLens(append(f[:at:at], joinMulti(head, parts)...), true), st
	}},
}

// attribute lists: the reply has, per attribute, the number, a status and if
// that is 0 the value.
var attrSizes = map[string][]int{"GetControllerPropList": {2, 2, 4, 4, 4}, "GetTemplateInstanceAttr": {4, 4, 2, 2}, "ListMembers": {4, 4, 2, 2}}

func refuseAttr(f []byte, sizes []int, i int) ([]byte, int) {
	at := cipAt(f) + 6
	n := i % len(sizes)
	st := []int{1, 5, 8, 9, 0x0A, 0x14, 0xFF, 0x100, 0x0F00, 0xFFFF}[i/len(sizes)%10]
	keep := i/len(sizes) >= 10
	out := append([]byte(nil), f[:at]...)
	for j, s := range sizes {
		rec := append([]byte(nil), f[at:at+4+s]...)
		at += 4 + s
		if j == n {
			le.PutUint16(rec[2:], uint16(st))
			if !keep {
				rec = rec[:4]
			}
		}
		out = append(out, rec...)
	}
	return setLens(append(out, f[at:]...), true), st
}

// reqClass is the class a request addresses, 0 if it starts otherwise.
func reqClass(f []byte) int {
	at := lastItem(f)
	if cmdOf(f) == 0x70 {
		at += 2
	}
	if at == 0 || at+4 > len(f) || f[at+2] != 0x20 {
		return 0
	}
	return int(f[at+3])
}

func reqService(f []byte) int {
	at := cipAt(f)
	if at == 0 {
		return 0
	}
	return int(f[at])
}

func statusUnit(op cop) vk.Unit {
	var reps [][]byte
	return vk.Unit{Name: op.name, Run: func(c *vk.C) {
		if reps == nil {
			reps = nominal(c, &op, nil)
		}
		k := c.Choose(len(reps), "reply")
		layers := len(refusals)
		sizes := attrSizes[op.name]
		isAttr := sizes != nil && cipAt(reps[k]) > 0 && reps[k][cipAt(reps[k])] == 0x83
		if isAttr {
			layers++
		}
		li := c.Choose(layers, "layer")
		layer := "attribute"
		n := 20 * len(sizes)
		if op.name == "GetControllerPropList" {
			n = 10 * len(sizes) // its result has the statuses of the attributes
		}
		if li < len(refusals) {
			layer = refusals[li].layer
			n = refusals[li].n(reps[k])
		}
		if n == 0 {
			c.Stop()
		}
		i := c.Choose(n, "refusal")
		status, class, service := 0, 0, 0
		done := false
		r := newReplyRig(c)
		r.alter = func(j int, frame, reply []byte) []byte {
			if j != k {
				return reply
			}
			done = true
			class, service = reqClass(frame), reqService(frame)
			reply = append([]byte(nil), reply...)
			if layer == "attribute" {
				reply, status = refuseAttr(reply, sizes, i)
			} else {
				if refusals[li].n(reply) <= i {
					done = false
					return reply
				}
				reply, status = refusals[li].make(reply, i)
			}
			return reply
		}
		o, ended := r.run(c, &op)
		c.Trans(r.frames)
		c.Distinct(op.name, k, layer, i)
		c.State(op.name, k, layer, o.err == nil)
		if !done {
			c.Stop() // the request was another one this time
		}
		c.Validated()
		c.Sample(func() string {
			return fmt.Sprintf("%s, request %d (service %#x class %#x) refused with %s status %#x: %v", op.name, k, service, class, layer, status, o.err)
		})
		desc := fmt.Sprintf("%s with request %d (service %#x, class %#x) refused with %s status %#x (case %d)", op.name, k, service, class, layer, status, i)
		key := fmt.Sprintf("%s:%s:%#x/%#x", op.name, layer, service, class)
		if !ended {
			c.Fail("endless:"+key, "%s: still sending after %d requests", desc, r.limit)
		}
		switch {
		case o.err != nil && o.touched != "":
			c.Fail("touched:"+key, "%s: %s (error %v)", desc, o.touched, o.err)
		case o.err != nil:
		case layer == "service" && status == 6 && o.wrong == "":
			// there is more, and the operation asked for it
		case op.name == "ListAllTags" && (class == 0x6C || class == 0x68 && k == 0 && layer == "service") && o.wrong == "":
			// type details and the list of programs are not needed
		case class == 0x01 && service == 0x0E && !strings.HasPrefix(op.name, "GetAttrSingle") && op.name != "GenericCIPMessage" && o.wrong == "":
			// the firmware revision only tells whether instance numbers may be used for names
		case op.name == "Connect" && service == 0x5B && o.wrong == "" && r.frames > len(reps):
			// a smaller connection was opened instead
		default:
			c.Fail("ignored:"+key, "%s reports success %s", desc, o.wrong)
		}
		r.alter = nil
		r.healthy(c, key, 3)
	}}
}

func init() {
	vk.Register(&vk.Check{
		ID:    "C04",
		Level: "model_checking",
		Rule:  "one case is one client operation, one of its requests and one refusal of it: every encapsulation status 1..255 (and some above) with and without payload, every general status 1..255 with 0 to 2 extended status words with and without payload, for multiple service replies every such status in every entry under overall status success and embedded service error, for attribute lists error statuses of every attribute. Every case is non-trivial: the operation must report an error, leave the destination alone and leave the client usable.",
		Units: func(tier string) []vk.Unit {
			var us []vk.Unit
			for _, op := range replyOps() {
				us = append(us, vk.Shard(statusUnit(op), 2, 3)...)
			}
			return us
		},
		Bounds: map[string]any{
			"operations":        "every exported operation of Client, Connect and Disconnect included",
			"requests":          "every request of the operation",
			"statuses":          "encapsulation 1..255 and 7 larger; general 1..255 x 0..2 extended words x payload kept or not; every entry of a multiple service reply; 10 attribute statuses per attribute",
			"accepted anyway":   "partial transfer that the operation follows up correctly; the program list and template reads within ListAllTags; a refused large connection replaced by a small one",
			"reference content": "about 20 tags, 2 programs, 1 template",
		},
		MaxProcs:    1,
		QuickBudget: 200 * time.Second, ThoroughBudget: 13 * time.Minute,
		HangAfter: 60 * time.Second,
	})
}
