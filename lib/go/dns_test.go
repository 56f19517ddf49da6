package vh

// A stand-in DNS server behind the resolver of the Go library.

import (
	"context"
	"encoding/binary"
	"io"
	"net"
	"strings"
	"sync"
)

type svServer struct {
	Host   string `json:"host"`
	Port   int    `json:"port"`
	Scheme string `json:"scheme"`
}

// svDNS answers SRV questions from a zone
type svDNS struct {
	mu    sync.Mutex
	zone  map[string][]svServer
	asked map[string]bool
	count map[string]int
	hook  func(name string) // after counting, before answering
}

func (d *svDNS) set(z map[string][]svServer) {
	d.mu.Lock()
	defer d.mu.Unlock()
	d.zone, d.asked, d.count, d.hook = z, map[string]bool{}, map[string]int{}, nil
}

func svName(n string) []byte {
	var out []byte
	for _, l := range strings.Split(strings.TrimSuffix(n, "."), ".") {
		out = append(append(out, byte(len(l))), l...)
	}
	return append(out, 0)
}

func (d *svDNS) answer(q []byte) []byte {
	name, i := []string{}, 12
	for q[i] != 0 {
		name = append(name, string(q[i+1:i+1+int(q[i])]))
		i += int(q[i]) + 1
	}
	n := strings.Join(name, ".")
	d.mu.Lock()
	d.asked[n] = true
	d.count[n]++
	hook := d.hook
	d.mu.Unlock()
	if hook != nil {
		hook(n)
	}
	d.mu.Lock()
	found := d.zone[n]
	d.mu.Unlock()
	out := append([]byte{}, q[:i+5]...)
	binary.BigEndian.PutUint16(out[2:], 0x8580)
	if len(found) == 0 {
		binary.BigEndian.PutUint16(out[2:], 0x8583)
	}
	binary.BigEndian.PutUint16(out[6:], uint16(len(found)))
	binary.BigEndian.PutUint16(out[8:], 0)
	binary.BigEndian.PutUint16(out[10:], 0)
	for k := len(found) - 1; k >= 0; k-- { // the order of the answer is not the order of the priorities
		t := svName(found[k].Host)
		rr := append([]byte{0xc0, 12, 0, 33, 0, 1, 0, 0, 0, 60}, byte((6+len(t))>>8), byte(6+len(t)))
		rr = binary.BigEndian.AppendUint16(rr, uint16(10+k))
		rr = binary.BigEndian.AppendUint16(rr, 0)
		rr = binary.BigEndian.AppendUint16(rr, uint16(found[k].Port))
		out = append(append(out, rr...), t...)
	}
	return out
}

func (d *svDNS) dial(_ context.Context, _, _ string) (net.Conn, error) {
	a, b := net.Pipe()
	go func() {
		defer b.Close()
		for {
			l := make([]byte, 2)
			if _, err := io.ReadFull(b, l); err != nil {
				return
			}
			q := make([]byte, binary.BigEndian.Uint16(l))
			if _, err := io.ReadFull(b, q); err != nil {
				return
			}
			r := d.answer(q)
			b.Write(append(binary.BigEndian.AppendUint16(nil, uint16(len(r))), r...))
		}
	}()
	return a, nil
}

