// Command driver executes scenarios against the library in /repo and records what
// was observed as a trace for TLC. It judges nothing.
//
//	driver gen  <area> <seed> <scale>      scenarios on stdout, one JSON object per line
//	driver expand <area> <seed>            abstract scenarios (from TLC) on stdin made concrete
//	driver exec <scenarios>                trace on stdout, one JSON object per scenario
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"log"
	"os"
	"path/filepath"
	"strconv"
	"time"
)

type M = map[string]interface{}

// Bs prints as an array of numbers.
type Bs []byte

func (b Bs) MarshalJSON() ([]byte, error) {
	out := make([]byte, 0, 4*len(b)+2)
	out = append(out, '[')
	for i, x := range b {
		if i > 0 {
			out = append(out, ',')
		}
		out = strconv.AppendUint(out, uint64(x), 10)
	}
	return append(out, ']'), nil
}

// N is the big-endian form of a number without leading zeros.
func N(n uint64) Bs {
	b := Bs{}
	for ; n > 0; n >>= 8 {
		b = append(Bs{byte(n)}, b...)
	}
	return b
}

func raw(v interface{}) []byte {
	switch x := v.(type) {
	case nil:
		return nil
	case Bs:
		return append([]byte{}, x...)
	case []byte:
		return append([]byte{}, x...)
	case []interface{}:
		b := make([]byte, len(x))
		for i := range x {
			b[i] = byte(num(x[i]))
		}
		return b
	}
	panic(fmt.Sprintf("driver: not bytes: %T", v))
}

func num(v interface{}) int {
	switch x := v.(type) {
	case int:
		return x
	case float64:
		return int(x)
	}
	panic(fmt.Sprintf("driver: not a number: %T", v))
}

func by(m M, k string) []byte { return raw(m[k]) }
func in(m M, k string) int    { return num(m[k]) }
func st(m M, k string) string { s, _ := m[k].(string); return s }
func obj(v interface{}) M     { o, _ := v.(M); return o }
func u64(v interface{}) uint64 {
	var n uint64
	for _, x := range raw(v) {
		n = n<<8 | uint64(x)
	}
	return n
}
func list(v interface{}) []interface{} {
	switch x := v.(type) {
	case nil:
		return nil
	case []interface{}:
		return x
	case []int:
		var r []interface{}
		for _, i := range x {
			r = append(r, i)
		}
		return r
	case []M:
		var r []interface{}
		for _, i := range x {
			r = append(r, i)
		}
		return r
	}
	panic(fmt.Sprintf("driver: not a list: %T", v))
}

var callTimeout = 20 * time.Second

// guard runs f and reports how it ended: ok, panic or hang.
func guard(f func()) string {
	done := make(chan string, 1)
	go func() {
		r := "panic"
		defer func() {
			if r == "panic" {
				if p := recover(); p != nil {
					fmt.Fprintln(os.Stderr, "recovered:", p)
				}
			}
			done <- r
		}()
		f()
		r = "ok"
	}()
	select {
	case r := <-done:
		return r
	case <-time.After(callTimeout):
		return "hang"
	}
}

func errs(err error) string {
	if err != nil {
		return "err"
	}
	return "ok"
}

type session interface{ step(op M, ev M) }

func newSession(kind string, sc M) session {
	switch kind {
	case "addr":
		return newAddrSession()
	case "key":
		return newKeySession()
	case "ed":
		return &edSession{}
	case "tx":
		return newTxSession(sc)
	case "node":
		return newNodeSession(sc)
	case "wallet":
		return newWalletSession(sc)
	case "proto":
		return newProtoSession()
	}
	panic("driver: unknown area " + kind)
}

type closer interface{ close() }

func runScenario(sc M) M {
	if st(sc, "area") == "par" {
		return runPar(sc)
	}
	s := newSession(st(sc, "area"), sc)
	if c, ok := s.(closer); ok {
		defer c.close()
	}
	out := M{"id": sc["id"], "area": sc["area"], "ev": runOps(s, list(sc["ops"]))}
	for k, v := range sc {
		if k != "ops" && k != "id" && k != "area" {
			out[k] = v
		}
	}
	return out
}

func main() {
	if filepath.Base(os.Args[0]) == "cardano-cli" {
		fakeCli()
		return
	}
	log.SetOutput(ioutil.Discard)
	defer removeWorld()
	w := bufio.NewWriterSize(os.Stdout, 1<<20)
	defer w.Flush()
	switch os.Args[1] {
	case "gen":
		seed, _ := strconv.ParseInt(os.Args[3], 10, 64)
		scale, _ := strconv.Atoi(os.Args[4])
		generate(os.Args[2], seed, scale, func(sc M) {
			b, err := json.Marshal(sc)
			if err != nil {
				panic(err)
			}
			w.Write(b)
			w.WriteByte('\n')
		})
	case "expand":
		seed, _ := strconv.ParseInt(os.Args[3], 10, 64)
		sc := bufio.NewScanner(os.Stdin)
		sc.Buffer(nil, 1<<26)
		expand(os.Args[2], seed, sc, func(sc M) {
			b, err := json.Marshal(sc)
			if err != nil {
				panic(err)
			}
			w.Write(b)
			w.WriteByte('\n')
		})
	case "exec":
		f, err := os.Open(os.Args[2])
		if err != nil {
			log.SetOutput(os.Stderr)
			log.Fatal(err)
		}
		r := bufio.NewReaderSize(f, 1<<20)
		for {
			line, err := r.ReadBytes('\n')
			if len(line) > 1 {
				var sc M
				if e := json.Unmarshal(line, &sc); e != nil {
					panic(e)
				}
				b, e := json.Marshal(runScenario(sc))
				if e != nil {
					panic(e)
				}
				w.Write(b)
				w.WriteByte('\n')
				w.Flush()
			}
			if err != nil {
				break
			}
		}
	}
}
