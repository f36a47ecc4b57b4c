// Package sim contains the simulated world (MySQL instances, clients,
// Kubernetes objects) that the real MOCO code is run against.
package sim

import (
	"bufio"
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"net"
	"strings"
	"sync"

	"github.com/go-sql-driver/mysql"
)

// This file implements the server side of the MySQL client/server protocol,
// as far as go-sql-driver/mysql with interpolated parameters needs it.

// SQLError is returned to the client as an ERR packet.
type SQLError struct {
	Code  uint16
	State string
	Msg   string
}

func (e *SQLError) Error() string { return fmt.Sprintf("%d (%s) %s", e.Code, e.State, e.Msg) }

// ErrDropConn makes the server drop the connection instead of answering.
var ErrDropConn = errors.New("drop connection")

// Result is a result set.  A nil *Result means an OK packet.
type Result struct {
	Cols []string
	Rows [][]any // string or nil
}

// Handler serves one server endpoint.
type Handler interface {
	// Connect is called once per connection; an error refuses the connection.
	Connect() (uint64, error)
	Query(conn uint64, q string) (*Result, error)
	Disconnect(conn uint64)
}

var (
	endpointsMu sync.Mutex
	endpoints   = map[string]func() (Handler, error){}
	registerOne sync.Once
)

// RegisterEndpoint makes dialing `host` (any port) reach h.
func RegisterEndpoint(host string, h func() (Handler, error)) {
	registerOne.Do(func() {
		mysql.RegisterDialContext("tcp", dial)
	})
	endpointsMu.Lock()
	endpoints[host] = h
	endpointsMu.Unlock()
}

// UnregisterEndpoint removes an endpoint.
func UnregisterEndpoint(host string) {
	endpointsMu.Lock()
	delete(endpoints, host)
	endpointsMu.Unlock()
}

func dial(_ context.Context, addr string) (net.Conn, error) {
	host, _, err := net.SplitHostPort(addr)
	if err != nil {
		return nil, err
	}
	endpointsMu.Lock()
	f := endpoints[host]
	endpointsMu.Unlock()
	if f == nil {
		return nil, fmt.Errorf("sim: no route to %s", addr)
	}
	h, err := f()
	if err != nil {
		return nil, err
	}
	id, err := h.Connect()
	if err != nil {
		return nil, err
	}
	c, s := net.Pipe()
	go serve(s, h, id)
	return c, nil
}

type packetIO struct {
	c   net.Conn
	r   *bufio.Reader
	seq byte
}

func (p *packetIO) read() ([]byte, error) {
	var hdr [4]byte
	if _, err := io.ReadFull(p.r, hdr[:]); err != nil {
		return nil, err
	}
	n := int(hdr[0]) | int(hdr[1])<<8 | int(hdr[2])<<16
	p.seq = hdr[3] + 1
	buf := make([]byte, n)
	_, err := io.ReadFull(p.r, buf)
	return buf, err
}

func (p *packetIO) frame(out, payload []byte) []byte {
	n := len(payload)
	out = append(out, byte(n), byte(n>>8), byte(n>>16), p.seq)
	p.seq++
	return append(out, payload...)
}

func lenenc(b []byte, s string) []byte {
	n := len(s)
	switch {
	case n < 251:
		b = append(b, byte(n))
	case n < 1<<16:
		b = append(b, 0xfc, byte(n), byte(n>>8))
	default:
		b = append(b, 0xfd, byte(n), byte(n>>8), byte(n>>16))
	}
	return append(b, s...)
}

const caps = 0x00000001 | 0x00000002 | 0x00000004 | 0x00000008 | 0x00000200 | 0x00002000 | 0x00008000 | 0x00080000 | 0x00020000

func serve(c net.Conn, h Handler, id uint64) {
	defer c.Close()
	defer h.Disconnect(id)
	p := &packetIO{c: c, r: bufio.NewReader(c)}

	// handshake v10
	var b []byte
	b = append(b, 10)
	b = append(b, "8.4.0-sim"...)
	b = append(b, 0)
	b = binary.LittleEndian.AppendUint32(b, uint32(id))
	b = append(b, "12345678"...)
	b = append(b, 0)
	b = append(b, byte(caps&0xff), byte((caps>>8)&0xff))
	b = append(b, 255)
	b = append(b, 2, 0)
	b = append(b, byte((caps>>16)&0xff), byte((caps>>24)&0xff))
	b = append(b, 21)
	b = append(b, make([]byte, 10)...)
	b = append(b, "123456789012"...)
	b = append(b, 0)
	b = append(b, "mysql_native_password"...)
	b = append(b, 0)
	if _, err := c.Write(p.frame(nil, b)); err != nil {
		return
	}
	if _, err := p.read(); err != nil {
		return
	}
	ok := []byte{0, 0, 0, 2, 0, 0, 0}
	if _, err := c.Write(p.frame(nil, ok)); err != nil {
		return
	}

	for {
		pkt, err := p.read()
		if err != nil || len(pkt) == 0 {
			return
		}
		var out []byte
		switch pkt[0] {
		case 1: // COM_QUIT
			return
		case 14: // COM_PING
			_, err := h.Query(id, "/*ping*/")
			if err != nil {
				return
			}
			out = p.frame(nil, ok)
		case 3: // COM_QUERY
			res, err := h.Query(id, string(pkt[1:]))
			var se *SQLError
			switch {
			case err == nil && res == nil:
				out = p.frame(nil, ok)
			case err == nil:
				out = resultset(p, res)
			case errors.As(err, &se):
				out = p.frame(nil, errPacket(se))
			default:
				return
			}
		default:
			out = p.frame(nil, errPacket(&SQLError{1047, "08S01", fmt.Sprintf("sim: unsupported command %d", pkt[0])}))
		}
		if _, err := c.Write(out); err != nil {
			return
		}
	}
}

func errPacket(e *SQLError) []byte {
	b := []byte{0xff, byte(e.Code), byte(e.Code >> 8), '#'}
	b = append(b, (e.State + "HY000")[:5]...)
	return append(b, e.Msg...)
}

func resultset(p *packetIO, r *Result) []byte {
	var out []byte
	out = p.frame(out, []byte{byte(len(r.Cols))})
	for _, col := range r.Cols {
		var b []byte
		b = lenenc(b, "def")
		b = lenenc(b, "")
		b = lenenc(b, "")
		b = lenenc(b, "")
		b = lenenc(b, col)
		b = lenenc(b, col)
		b = append(b, 0x0c, 255, 0, 0, 4, 0, 0, 0xfd, 0, 0, 0, 0, 0)
		out = p.frame(out, b)
	}
	eof := []byte{0xfe, 0, 0, 2, 0}
	out = p.frame(out, eof)
	for _, row := range r.Rows {
		var b []byte
		for _, v := range row {
			if v == nil {
				b = append(b, 0xfb)
			} else {
				b = lenenc(b, v.(string))
			}
		}
		out = p.frame(out, b)
	}
	return p.frame(out, eof)
}

// normSQL collapses whitespace and removes comments and a trailing semicolon.
func normSQL(q string) string {
	q = strings.TrimSpace(q)
	q = strings.TrimSuffix(q, ";")
	return strings.Join(strings.Fields(q), " ")
}

// Serve speaks the protocol on an accepted connection until it ends.
func Serve(c net.Conn, h Handler) {
	id, err := h.Connect()
	if err != nil {
		_ = c.Close()
		return
	}
	serve(c, h, id)
}
