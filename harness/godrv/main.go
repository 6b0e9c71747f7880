// Batch driver over the Go package: the commands of driver.c, answered the same way.
//
//	L slot hex               load                -> l err
//	K slot namehex           key by name         -> k id
//	N slot key               name by key         -> n hex
//	E slot cap fill raw fail ans...              -> r err datahex flags ncb nraw events...
//	D slot hex raw fail                          -> r ...
//	X what slot              misuse              -> x err...
//	S code                   error text          -> s hex
//	Q <E or D command>       queue a job, run it -> its answer
//	G goroutines rounds seed run all queued jobs concurrently -> g runs mismatches first
//	C                        forget the queue    -> c
//	M n images...            memory: in each of four windows, n times the queued jobs,
//	                         loading and closing the images and misuse
//	                                             -> m bytes objects goroutines (growth, per window)
//
// err: 0-6 for the package's own errors, else t and the text in hex.
package main

/*
#include <stddef.h>
extern size_t __sanitizer_get_current_allocated_bytes(void) __attribute__((weak));
static size_t allocated(void) {
	return __sanitizer_get_current_allocated_bytes ? __sanitizer_get_current_allocated_bytes() : 0;
}
*/
import "C"

import (
	"bufio"
	"bytes"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"math"
	"math/rand"
	"os"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"unsafe"

	concordia "github.com/Toyz/concordia/go"
)

type answer struct {
	u uint64
	s *string
}

type host struct {
	enc       bool
	raw       bool
	failAt    int64
	ans       []answer
	apos      int
	store     map[uint16]uint64
	lastCount uint32
	ncb, nraw int64
	flags     int
	log       bytes.Buffer
	yield     bool
}

var errRefuse = errors.New("refused")

func (h *host) next() answer {
	if h.apos >= len(h.ans) {
		h.flags |= 2
		return answer{}
	}
	h.apos++
	return h.ans[h.apos-1]
}

func (h *host) head(op concordia.OpCode, key uint16) {
	fmt.Fprintf(&h.log, " %02x:%d:", uint8(op), key)
}

func (h *host) cb(ctx *concordia.Context, key uint16, op concordia.OpCode, v concordia.Value) error {
	h.ncb++
	if h.yield && h.ncb%3 == 0 {
		runtime.Gosched()
	}
	if (ctx.Mode() == concordia.ModeEncode) != h.enc {
		h.flags |= 512
	}
	if h.failAt != 0 && h.ncb == h.failAt {
		return errRefuse
	}
	switch op {
	case concordia.OpCtxQuery, concordia.OpLoadCtx:
		v.SetUint64(h.store[key])
		if v.Uint64() != h.store[key] {
			h.flags |= 1024
		}
		return nil
	case concordia.OpStoreCtx:
		h.store[key] = v.Uint64()
		h.head(op, key)
		fmt.Fprintf(&h.log, "%d", v.Uint64())
		return nil
	case concordia.OpEnterStruct, concordia.OpExitStruct, concordia.OpArrEnd:
		h.head(op, key)
		return nil
	case concordia.OpRawBytes:
		if !h.raw {
			return errRefuse
		}
		h.nraw++
		if h.lastCount > 0 {
			p := unsafe.Slice((*byte)(v.UnsafeAddr()), h.lastCount)
			for i := range p {
				if h.enc {
					p[i] = byte(h.next().u)
				}
				fmt.Fprintf(&h.log, " r8:%d:%d", key, p[i])
				h.store[key] = uint64(p[i])
			}
		}
		h.head(concordia.OpArrEnd, 0)
		return nil
	case concordia.OpStrNull, concordia.OpStrPreU8, concordia.OpStrPreU16, concordia.OpStrPreU32:
		h.head(op, key)
		if h.enc {
			a := h.next()
			if a.s == nil {
				h.flags |= 2
				return nil
			}
			if h.ncb%4 == 0 { // a value may be set more than once
				v.SetString("other")
			}
			v.SetString(*a.s)
			if v.String() != *a.s {
				h.flags |= 1024
			}
			fmt.Fprintf(&h.log, "s%x", *a.s)
		} else {
			fmt.Fprintf(&h.log, "s%x", v.String())
		}
		return nil
	}
	var a uint64
	if h.enc && op != concordia.OpArrFixed && op != concordia.OpArrDynamic {
		a = h.next().u
	}
	h.head(op, key)
	var got uint64
	signed := false
	switch op {
	case concordia.OpIoBool, concordia.OpIoBitBool:
		if h.enc {
			if a&255 < 2 {
				v.SetBool(a&255 == 1)
			} else {
				v.SetUint8(uint8(a))
			}
		}
		got = uint64(v.Uint8())
		if v.Bool() != (got != 0) {
			h.flags |= 1024
		}
	case concordia.OpIoU8, concordia.OpArrPreU8:
		if h.enc {
			v.SetUint8(uint8(a))
		}
		got = uint64(v.Uint8())
	case concordia.OpIoU16, concordia.OpArrPreU16:
		if h.enc {
			v.SetUint16(uint16(a))
		}
		got = uint64(v.Uint16())
	case concordia.OpIoU32, concordia.OpArrPreU32:
		if h.enc {
			v.SetUint32(uint32(a))
		}
		got = uint64(v.Uint32())
	case concordia.OpIoU64, concordia.OpIoBitU:
		if h.enc {
			v.SetUint64(a)
		}
		got = v.Uint64()
	case concordia.OpIoI8:
		if h.enc {
			v.SetInt8(int8(a))
		}
		got, signed = uint64(v.Int8()), true
	case concordia.OpIoI16:
		if h.enc {
			v.SetInt16(int16(a))
		}
		got, signed = uint64(v.Int16()), true
	case concordia.OpIoI32:
		if h.enc {
			v.SetInt32(int32(a))
		}
		got, signed = uint64(v.Int32()), true
	case concordia.OpIoI64, concordia.OpIoBitI:
		if h.enc {
			v.SetInt64(int64(a))
		}
		got, signed = uint64(v.Int64()), true
	case concordia.OpIoF32:
		if h.enc {
			v.SetFloat32(math.Float32frombits(uint32(a)))
		}
		f := v.Float32()
		fmt.Fprintf(&h.log, "%d", math.Float32bits(f))
		h.store[key] = math.Float64bits(float64(f))
		return nil
	case concordia.OpIoF64:
		if h.enc {
			v.SetFloat64(math.Float64frombits(a))
		}
		got = math.Float64bits(v.Float64())
	case concordia.OpArrFixed, concordia.OpArrDynamic:
		got = uint64(v.Uint32())
	default:
		h.log.WriteString("?")
		return nil
	}
	if signed {
		fmt.Fprintf(&h.log, "%d", int64(got))
	} else {
		fmt.Fprintf(&h.log, "%d", got)
	}
	switch op {
	case concordia.OpArrPreU8, concordia.OpArrPreU16, concordia.OpArrPreU32, concordia.OpArrFixed, concordia.OpArrDynamic:
		h.lastCount = uint32(got)
	default:
		h.store[key] = got
	}
	return nil
}

func code(err error) string {
	if err == nil {
		return "0"
	}
	for i, e := range []error{nil, concordia.GoErrOOB, concordia.GoErrInvalidOp, concordia.GoErrValidation, concordia.GoErrCallback, concordia.GoErrStackOverflow, concordia.GoErrStackUnderflow} {
		if e != nil && errors.Is(err, e) {
			return strconv.Itoa(i)
		}
	}
	return "t" + hex.EncodeToString([]byte(err.Error()))
}

func unhex(s string) []byte {
	if s == "-" {
		return []byte{}
	}
	b, err := hex.DecodeString(s)
	if err != nil {
		panic(err)
	}
	return b
}

func hx(b []byte) string {
	if len(b) == 0 {
		return "-"
	}
	return hex.EncodeToString(b)
}

type slot struct {
	image []byte
	prog  *concordia.Program
}

var slots [64]slot

func num(s string) int64 {
	n, err := strconv.ParseInt(s, 10, 64)
	if err != nil {
		panic(err)
	}
	return n
}

func run(f []string, yield, oneshot bool) string {
	h := &host{enc: f[0] == "E", store: map[uint16]uint64{}, yield: yield}
	s := &slots[num(f[1])]
	var data []byte
	if h.enc {
		data = bytes.Repeat([]byte{byte(num(f[3]))}, int(num(f[2])))
		h.raw, h.failAt = f[4] == "1", num(f[5])
		for _, a := range f[6:] {
			if a[0] == 's' {
				t := string(unhex(a[1:]))
				h.ans = append(h.ans, answer{u: uint64(len(t)), s: &t})
			} else {
				u, err := strconv.ParseUint(a, 16, 64)
				if err != nil {
					panic(err)
				}
				h.ans = append(h.ans, answer{u: u})
			}
		}
	} else {
		data = unhex(f[2])
		h.raw, h.failAt = f[3] == "1", num(f[4])
	}
	mode := concordia.ModeDecode
	if h.enc {
		mode = concordia.ModeEncode
	}
	before := append([]byte{}, data...)
	var err error
	if oneshot {
		img := append([]byte{}, s.image...)
		err = concordia.Execute(img, data, mode, h.cb)
		if !bytes.Equal(img, s.image) {
			h.flags |= 1
		}
	} else {
		err = s.prog.Execute(data, mode, h.cb)
	}
	if !h.enc && !bytes.Equal(before, data) {
		h.flags |= 4
	}
	return fmt.Sprintf("r %s %s %d %d %d%s", code(err), hx(data), h.flags, h.ncb, h.nraw, h.log.String())
}

func misuse(what string, s *slot) (ans string) {
	defer func() {
		if r := recover(); r != nil {
			ans = "panic " + hex.EncodeToString([]byte(fmt.Sprint(r)))
		}
	}()
	ok := func(ctx *concordia.Context, k uint16, op concordia.OpCode, v concordia.Value) error { return nil }
	switch what {
	case "nilcb":
		return code(s.prog.Execute(make([]byte, 4096), concordia.ModeDecode, nil))
	case "nilcbenc":
		return code(s.prog.Execute(make([]byte, 4096), concordia.ModeEncode, nil))
	case "nildata":
		return code(s.prog.Execute(nil, concordia.ModeDecode, ok))
	case "emptydata":
		return code(s.prog.Execute([]byte{}, concordia.ModeDecode, ok))
	case "closed":
		p, err := concordia.LoadProgram(s.image)
		if err != nil {
			return code(err)
		}
		p.Close()
		p.Close()
		e := p.Execute(make([]byte, 16), concordia.ModeDecode, ok)
		if p.GetKeyName(0) != "" || p.GetKeyID("x") != 0xFFFF {
			return "closed program still answers"
		}
		return code(e)
	case "nilprog":
		var p *concordia.Program
		return code(p.Execute(make([]byte, 16), concordia.ModeDecode, ok))
	case "zeroprog":
		p := &concordia.Program{}
		e := p.Execute(make([]byte, 16), concordia.ModeDecode, ok)
		p.Close()
		return code(e)
	case "empty":
		_, err := concordia.LoadProgram(nil)
		_, err2 := concordia.LoadProgram([]byte{})
		return code(err) + " " + code(err2) + " " + code(concordia.Execute(nil, nil, concordia.ModeDecode, ok))
	}
	return "?"
}

func main() {
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := bufio.NewWriterSize(os.Stdout, 1<<20)
	type job struct {
		f    []string
		want string
	}
	var queue []job
	for {
		line, err := in.ReadString('\n')
		if err == io.EOF {
			return
		}
		f := strings.Fields(line)
		switch f[0] {
		case "L":
			s := &slots[num(f[1])]
			if s.prog != nil {
				s.prog.Close()
			}
			s.image = unhex(f[2])
			s.prog, err = concordia.LoadProgram(append([]byte{}, s.image...))
			fmt.Fprintf(out, "l %s\n", code(err))
		case "K":
			fmt.Fprintf(out, "k %d\n", slots[num(f[1])].prog.GetKeyID(string(unhex(f[2]))))
		case "N":
			fmt.Fprintf(out, "n %s\n", hx([]byte(slots[num(f[1])].prog.GetKeyName(uint16(num(f[2]))))))
		case "E", "D":
			fmt.Fprintln(out, run(f, false, false))
		case "O":
			fmt.Fprintln(out, run(f[1:], false, true))
		case "X":
			fmt.Fprintf(out, "x %s\n", misuse(f[1], &slots[num(f[2])]))
		case "S":
			fmt.Fprintf(out, "s %s\n", hx([]byte(concordia.Error(num(f[1])).String())))
		case "C":
			queue = nil
			fmt.Fprintln(out, "c")
		case "Q":
			w := run(f[1:], false, false)
			queue = append(queue, job{f[1:], w})
			fmt.Fprintln(out, w)
		case "G":
			var wg sync.WaitGroup
			var mu sync.Mutex
			runs, bad, first := 0, 0, "-"
			for g := 0; g < int(num(f[1])) && len(queue) > 0; g++ {
				wg.Add(1)
				rnd := rand.New(rand.NewSource(num(f[3])*1000 + int64(g)))
				go func() {
					defer wg.Done()
					for i := 0; i < int(num(f[2])); i++ {
						j := queue[rnd.Intn(len(queue))]
						w := run(j.f, rnd.Intn(2) == 0, rnd.Intn(4) == 0)
						if rnd.Intn(64) == 0 {
							runtime.GC()
						}
						mu.Lock()
						runs++
						if w != j.want {
							bad++
							if first == "-" {
								first = hex.EncodeToString([]byte(strings.Join(j.f, " ") + " | " + j.want + " | " + w))
							}
						}
						mu.Unlock()
					}
				}()
			}
			wg.Wait()
			fmt.Fprintf(out, "g %d %d %s\n", runs, bad, first)
		case "M":
			n := int(num(f[1]))
			var images [][]byte
			for _, h := range f[2:] {
				images = append(images, unhex(h))
			}
			work := func() {
				for _, j := range queue {
					run(j.f, false, false)
					run(j.f, true, true)
				}
				for _, im := range images {
					p, err := concordia.LoadProgram(im)
					if err == nil {
						p.GetKeyName(0)
						p.GetKeyID("nosuch")
						p.Close()
					}
				}
				for _, w := range []string{"closed", "nilprog", "zeroprog", "empty", "nildata", "nilcb"} {
					misuse(w, &slots[0])
				}
			}
			sizes := func() (int64, int64, int64) {
				runtime.GC()
				runtime.GC()
				var m runtime.MemStats
				runtime.ReadMemStats(&m)
				return int64(C.allocated()), int64(m.HeapObjects), int64(runtime.NumGoroutine())
			}
			work()
			fmt.Fprint(out, "m")
			for k := 0; k < 4; k++ {
				a, b, c := sizes()
				for i := 0; i < n; i++ {
					work()
				}
				x, y, z := sizes()
				fmt.Fprintf(out, " %d %d %d", x-a, y-b, z-c)
			}
			fmt.Fprintln(out)
		default:
			fmt.Fprintln(out, "?")
		}
		out.Flush()
	}
}
