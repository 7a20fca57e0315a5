package main

import (
	"bufio"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/sha256"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/hex"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"io"
	"io/ioutil"
	"math/big"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/fivebinaries/go-cardano-serialization/network"
	"github.com/fivebinaries/go-cardano-serialization/node"
	"github.com/fivebinaries/go-cardano-serialization/tx"
)

// ---- stand-ins for the backends. They answer from the current op's description
// and record every request; nothing leaves this machine.

type world struct {
	mu     sync.Mutex
	op     M
	subs   []M     // concurrent operations
	ledger *ledger // what a wallet pays from
	reqs   []M
	gets   int
	dir    string
}

var theWorld *world

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func startWorld() *world {
	dir, err := ioutil.TempDir("", "verif-node-")
	must(err)
	w := &world{dir: dir}
	key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	must(err)
	ca := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "verif"}, NotBefore: time.Now().Add(-time.Hour),
		NotAfter: time.Now().Add(240 * time.Hour), IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageCertSign | x509.KeyUsageDigitalSignature}
	der, err := x509.CreateCertificate(rand.Reader, ca, ca, &key.PublicKey, key)
	must(err)
	caFile := filepath.Join(dir, "ca.pem")
	must(ioutil.WriteFile(caFile, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der}), 0644))
	certs := map[string]*tls.Certificate{}
	var cmu sync.Mutex
	serial := int64(2)
	certFor := func(host string) *tls.Certificate {
		cmu.Lock()
		defer cmu.Unlock()
		if c := certs[host]; c != nil {
			return c
		}
		serial++
		t := &x509.Certificate{SerialNumber: big.NewInt(serial), Subject: pkix.Name{CommonName: host}, DNSNames: []string{host},
			NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(240 * time.Hour), KeyUsage: x509.KeyUsageDigitalSignature,
			ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth}}
		d, err := x509.CreateCertificate(rand.Reader, t, ca, &key.PublicKey, key)
		must(err)
		c := &tls.Certificate{Certificate: [][]byte{d, der}, PrivateKey: key}
		certs[host] = c
		return c
	}
	l, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			go w.serve(c, certFor)
		}
	}()
	proxy := "http://" + l.Addr().String()
	for _, v := range []string{"HTTPS_PROXY", "HTTP_PROXY", "https_proxy", "http_proxy"} {
		os.Setenv(v, proxy)
	}
	os.Setenv("NO_PROXY", "")
	os.Setenv("no_proxy", "")
	os.Setenv("SSL_CERT_FILE", caFile)
	os.Setenv("SSL_CERT_DIR", filepath.Join(dir, "nocerts"))
	// the fake cardano-cli is this program under another name
	bin := filepath.Join(dir, "bin")
	must(os.Mkdir(bin, 0755))
	self, err := os.Executable()
	must(err)
	must(os.Symlink(self, filepath.Join(bin, "cardano-cli")))
	os.Setenv("PATH", bin+":"+os.Getenv("PATH"))
	os.Setenv("VERIF_FAKE_CLI", dir)
	cwd := filepath.Join(dir, "cwd")
	must(os.Mkdir(cwd, 0755))
	must(os.Chdir(cwd))
	return w
}

func (w *world) serve(c net.Conn, certFor func(string) *tls.Certificate) {
	defer c.Close()
	br := bufio.NewReader(c)
	scheme := "http"
	first := true
	for {
		req, err := http.ReadRequest(br)
		if err != nil {
			return
		}
		if req.Method == http.MethodConnect && first {
			host, _, _ := net.SplitHostPort(req.Host)
			io.WriteString(c, "HTTP/1.1 200 Connection established\r\n\r\n")
			t := tls.Server(c, &tls.Config{Certificates: []tls.Certificate{*certFor(host)}, NextProtos: []string{"http/1.1"}})
			if t.Handshake() != nil {
				return
			}
			c, br, scheme, first = t, bufio.NewReader(t), "https", false
			continue
		}
		first = false
		body, _ := ioutil.ReadAll(req.Body)
		if !w.answer(c, scheme, req, body) {
			return
		}
	}
}

func chars(s string) Bs { return Bs(s) }

func (w *world) answer(c io.Writer, scheme string, req *http.Request, body []byte) bool {
	w.mu.Lock()
	defer w.mu.Unlock()
	host := req.Host
	path := req.URL.Path
	q := req.URL.Query()
	page, _ := strconv.Atoi(q.Get("page"))
	count, _ := strconv.Atoi(q.Get("count"))
	if page < 1 {
		page = 1
	}
	if count < 1 || count > 100 {
		count = 100
	}
	w.gets++
	f := obj(w.op["fault"])
	kind := st(f, "kind")
	if sched := list(f["sched"]); sched != nil { // the k-th request is answered by the k-th entry
		kind = "none"
		if w.gets <= len(sched) {
			kind = sched[w.gets-1].(string)
		}
	}
	// a fault strikes at the given page, and for every attempt unless it is transient
	hit := kind != "" && kind != "none" && (f["page"] == nil || in(f, "page") == page)
	if hit && f["times"] != nil {
		n := in(f, "times")
		if n == 0 {
			hit = false
		}
		f["times"] = n - 1
	}
	status, out := 200, ""
	switch {
	case strings.HasSuffix(path, "/utxos") && req.Method == "GET":
		out = bfUtxos(w.opFor(path), page, count, q.Get("order"))
	case strings.HasSuffix(path, "/epochs/latest/parameters") && req.Method == "GET":
		out = bfParams(w.op)
	case strings.HasSuffix(path, "/blocks/latest") && req.Method == "GET":
		out = bfTip(w.op)
	case strings.HasSuffix(path, "/tx/submit") && req.Method == "POST":
		out = fmt.Sprintf("%q", string(raw(w.op["txid"])))
		if w.ledger != nil {
			if id, _, ok := w.ledger.submit(body); ok {
				out = fmt.Sprintf("%q", id)
			} else {
				status, out = 400, `{"status_code":400,"error":"Bad Request","message":"transaction submit error"}`
			}
		} else if w.subs != nil {
			out = fmt.Sprintf("%q", idOf(body))
			time.Sleep(5 * time.Millisecond)
		}
	case path == "/login": // where a gateway sends its clients
		out = "<html>please sign in</html>"
	default:
		status, out = 404, `{"status_code":404,"error":"Not Found","message":"unexpected"}`
	}
	clen, extra := -1, ""
	if hit && path != "/login" {
		switch kind {
		case "drop":
			status = 0
		case "cut":
			clen = len(out)
			out = out[:len(out)/2]
		case "garbage":
			out = "<html>gateway</html>"
		case "half":
			out = out[:len(out)/2]
		case "wrongtype":
			out = `"unexpected"`
		default:
			status, _ = strconv.Atoi(kind)
			out = fmt.Sprintf(`{"status_code":%d,"error":"refused","message":"refused by test"}`, status)
			if status/100 == 3 {
				extra = "Location: https://" + host + "/login\r\n"
			}
		}
	}
	w.reqs = append(w.reqs, M{"via": "http", "scheme": scheme, "host": chars(host), "method": req.Method, "path": chars(path),
		"page": page, "count": count, "pid": chars(req.Header.Get("project_id")), "ctype": chars(req.Header.Get("Content-Type")),
		"body": Bs(body), "status": status, "hit": hit})
	if status == 0 {
		return false
	}
	if clen < 0 {
		clen = len(out)
	}
	fmt.Fprintf(c, "HTTP/1.1 %d %s\r\nContent-Type: application/json\r\n%sContent-Length: %d\r\n\r\n%s", status, http.StatusText(status), extra, clen, out)
	return clen == len(out)
}

// ---- rendering of what the backend holds

func dec(v interface{}) string { return new(big.Int).SetBytes(raw(v)).String() }

// field renders a number, or what a malformed answer has in its place.
func field(op M, name string) string {
	if m := obj(op["mal"]); st(m, "field") == name {
		return st(m, "text")
	}
	return dec(op[name])
}

type utxo struct{ h, ix, amt string }

func utxoAt(op M, set []interface{}, i int) utxo {
	u := obj(set[i])
	r := utxo{hex.EncodeToString(by(u, "h")), dec(u["ix"]), dec(u["amt"])}
	if m := obj(op["mal"]); m != nil && m["at"] != nil && in(m, "at") == i+1 {
		switch st(m, "field") {
		case "h":
			r.h = st(m, "text")
		case "ix":
			r.ix = st(m, "text")
		case "amt":
			r.amt = st(m, "text")
		}
	}
	return r
}

// opFor is the operation a request belongs to, when several are under way
func (w *world) opFor(path string) M {
	for _, o := range w.subs {
		text := st(o, "text")
		if o["text"] == nil && o["a"] != nil {
			text = mkAddr(obj(o["a"])).String()
		}
		if st(o, "op") == "utxos" && strings.Contains(path, "/"+text+"/") {
			return o
		}
	}
	return w.op
}

// idOf is the id the backend gives to what it received, when several submissions are under way
func idOf(b []byte) string {
	h := sha256.Sum256(b)
	return hex.EncodeToString(h[:])
}

func bfUtxos(op M, page, count int, order string) string {
	set := list(op["set"])
	var out []string
	for k := (page - 1) * count; k < page*count && k < len(set); k++ {
		i := k
		if order == "desc" {
			i = len(set) - 1 - k
		}
		u := utxoAt(op, set, i)
		o := obj(set[i])
		amts := []string{fmt.Sprintf(`{"unit":"lovelace","quantity":%q}`, u.amt)}
		for j := 0; j < in(o, "assets"); j++ {
			unit := strings.Repeat("ab", 28) + hex.EncodeToString([]byte(assetName(o, j)))
			a := fmt.Sprintf(`{"unit":%q,"quantity":"%d"}`, unit, 12*(j+1))
			if o["pos"] != nil && in(o, "pos") > j {
				amts = append(amts[:len(amts)-1:len(amts)-1], a, amts[len(amts)-1])
			} else {
				amts = append(amts, a)
			}
		}
		if m := obj(op["mal"]); st(m, "field") == "nolove" && in(m, "at") == i+1 {
			for j, a := range amts {
				if strings.Contains(a, `"lovelace"`) {
					amts = append(amts[:j:j], amts[j+1:]...)
					break
				}
			}
		}
		out = append(out, fmt.Sprintf(`{"tx_hash":%q,"tx_index":%s,"output_index":%s,"amount":[%s],"block":%q,"data_hash":null}`,
			u.h, u.ix, u.ix, strings.Join(amts, ","), strings.Repeat("cd", 32)))
	}
	return "[" + strings.Join(out, ",") + "]"
}

func exitCode(f M) int {
	if f["code"] == nil {
		return 1
	}
	return in(f, "code")
}

func assetName(u M, j int) string {
	if u["odd"] != nil {
		return []string{"lovelace", "", "0", "ada"}[(in(u, "odd")+j)%4]
	}
	return fmt.Sprintf("asset%d", j)
}

func bfParams(op M) string {
	return fmt.Sprintf(`{"epoch":225,"min_fee_a":%s,"min_fee_b":%s,"max_block_size":65536,"max_tx_size":%s,"max_block_header_size":1100,`+
		`"key_deposit":"2000000","pool_deposit":"500000000","e_max":18,"n_opt":150,"a0":0.3,"rho":0.003,"tau":0.2,"decentralisation_param":0.5,`+
		`"extra_entropy":null,"protocol_major_ver":%s,"protocol_minor_ver":%s,"min_utxo":%s,"min_pool_cost":"340000000","nonce":"00"}`,
		field(op, "per"), field(op, "fix"), field(op, "max"), field(op, "maj"), field(op, "min"), quote(field(op, "utxo")))
}

func quote(s string) string {
	if strings.HasPrefix(s, "!") { // verbatim
		return s[1:]
	}
	return strconv.Quote(s)
}

func bfTip(op M) string {
	return fmt.Sprintf(`{"time":1641338934,"height":%s,"hash":%q,"slot":%s,"epoch":%s,"epoch_slot":312794,"slot_leader":"pool1","size":3,"tx_count":1,`+
		`"output":"128314491794","fees":"592661","block_vrf":"vrf","previous_block":"aa","next_block":null,"confirmations":0}`,
		field(op, "block"), strings.Repeat("4e", 32), field(op, "slot"), field(op, "epoch"))
}

func cliOut(op M) string {
	switch st(op, "op") {
	case "utxos":
		set := list(op["set"])
		var b strings.Builder
		b.WriteString("                           TxHash                                 TxIx        Amount\n")
		b.WriteString("--------------------------------------------------------------------------------------\n")
		for i := range set {
			u := utxoAt(op, set, i)
			fmt.Fprintf(&b, "%s  %4s        %s lovelace", u.h, u.ix, u.amt)
			o := obj(set[i])
			for j := 0; j < in(o, "assets"); j++ {
				fmt.Fprintf(&b, " + %d %s.%s", 12*(j+1), strings.Repeat("ab", 28), assetName(o, j))
			}
			switch in(o, "datum") {
			case 1:
				b.WriteString(" + TxOutDatumNone")
			case 2:
				fmt.Fprintf(&b, " + TxOutDatumHash ScriptDataInAlonzoEra %q", strings.Repeat("9e", 32))
			}
			b.WriteString("\n")
		}
		return b.String()
	case "params":
		return fmt.Sprintf(`{
    "txFeePerByte": %s,
    "minUTxOValue": %s,
    "decentralization": 0,
    "utxoCostPerWord": 34482,
    "stakePoolDeposit": 500000000,
    "poolRetireMaxEpoch": 18,
    "extraPraosEntropy": null,
    "collateralPercentage": 150,
    "stakePoolTargetNum": 500,
    "maxBlockBodySize": 73728,
    "maxTxSize": %s,
    "treasuryCut": 0.2,
    "monetaryExpansion": 3.0e-3,
    "executionUnitPrices": {"priceSteps": 7.21e-5, "priceMemory": 5.77e-2},
    "protocolVersion": {"minor": %s, "major": %s},
    "txFeeFixed": %s,
    "stakeAddressDeposit": 2000000,
    "maxBlockHeaderSize": 1100
}
`, field(op, "per"), field(op, "utxo"), field(op, "max"), field(op, "min"), field(op, "maj"), field(op, "fix"))
	case "tip":
		return fmt.Sprintf(`{
    "epoch": %s,
    "hash": "%s",
    "slot": %s,
    "block": %s,
    "era": "Alonzo",
    "syncProgress": "100.00"
}
`, field(op, "epoch"), strings.Repeat("4e", 32), field(op, "slot"), field(op, "block"))
	case "submit":
		return string(raw(op["txid"])) + "\n"
	}
	return ""
}

// fakeCli is the fake cardano-cli: it records its arguments (and the file given with
// --tx-file) and answers what the driver prepared.
func fakeCli() {
	dir := os.Getenv("VERIF_FAKE_CLI")
	rec := M{"via": "cli", "hit": false, "page": 1}
	args := []Bs{}
	for _, a := range os.Args[1:] {
		args = append(args, chars(a))
	}
	rec["args"] = args
	rec["file"], rec["cbor"] = "none", Bs{}
	addr := ""
	if os.Getenv("VERIF_FAKE_SLOW") != "" {
		time.Sleep(30 * time.Millisecond)
	}
	for i, a := range os.Args[1:] {
		if a == "--address" && i+2 < len(os.Args) {
			addr = os.Args[i+2]
		}
		if a == "--tx-file" && i+2 < len(os.Args) {
			rec["file"] = "bad"
			if b, err := ioutil.ReadFile(os.Args[i+2]); err == nil {
				var env struct {
					CborHex string `json:"cborHex"`
				}
				if json.Unmarshal(b, &env) == nil {
					if raw, err := hex.DecodeString(env.CborHex); err == nil {
						rec["file"], rec["cbor"] = "ok", Bs(raw)
					}
				}
			}
		}
	}
	b, _ := json.Marshal(rec)
	f, err := os.OpenFile(filepath.Join(dir, "calls"), os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644)
	must(err)
	f.Write(append(b, '\n'))
	f.Close()
	ans, err := ioutil.ReadFile(filepath.Join(dir, "answer"))
	must(err)
	var a struct {
		Out    string
		Exit   int
		Kill   bool
		ByAddr map[string]string // concurrent operations
		Hash   bool
		ByCmd  map[string]string // a wallet
		Ledger *ledger
	}
	must(json.Unmarshal(ans, &a))
	if a.ByCmd != nil {
		if len(os.Args) > 2 {
			a.Out = a.ByCmd[os.Args[1]+" "+os.Args[2]]
		}
	}
	if a.Ledger != nil && rec["file"] != "none" {
		id, _, ok := a.Ledger.submit(rec["cbor"].(Bs))
		a.Out = id + "\n"
		if !ok || rec["file"] != "ok" {
			a.Out, a.Exit = "", 1
		}
	}
	if o, ok := a.ByAddr[addr]; ok {
		a.Out = o
	} else if a.Hash && rec["file"] == "ok" {
		a.Out = idOf(rec["cbor"].(Bs)) + "\n"
	}
	fmt.Fprintln(os.Stderr, "Warning: this is a stand-in") // as cardano-cli may
	io.WriteString(os.Stdout, a.Out)
	if a.Exit != 0 {
		fmt.Fprintln(os.Stderr, "Command failed: refused by test")
	}
	if a.Kill {
		syscall.Kill(os.Getpid(), syscall.SIGKILL)
		time.Sleep(time.Minute)
	}
	os.Exit(a.Exit)
}

// ---- the session

type nodeSession struct {
	w     *world
	nodes map[int]node.Node
	nets  map[int]*network.NetworkInfo
	kinds map[int]string
	tmp   string

	mu      sync.Mutex
	queries int
	lists   [][]tx.TxInput
	texts   []string
}

func newNodeSession(sc M) *nodeSession {
	if theWorld == nil {
		theWorld = startWorld()
		callTimeout = 120 * time.Second
	}
	s := &nodeSession{w: theWorld, nodes: map[int]node.Node{}, nets: map[int]*network.NetworkInfo{}, kinds: map[int]string{}}
	s.tmp = filepath.Join(s.w.dir, "tmp")
	os.RemoveAll(s.tmp)
	must(os.Mkdir(s.tmp, 0755))
	return s
}

func (s *nodeSession) close() {}

func removeWorld() {
	if theWorld != nil {
		os.RemoveAll(theWorld.dir)
	}
}

func (s *nodeSession) txOf(v interface{}) tx.Tx {
	ts := newTxSession(obj(v))
	ev := M{}
	for _, o := range list(obj(v)["ops"]) {
		ts.step(obj(o), ev)
	}
	return *ts.hs[len(ts.hs)-1].t
}

func (s *nodeSession) step(op, ev M) {
	if st(op, "op") == "new" {
		ni := &network.NetworkInfo{NetworkId: byte(in(op, "id")), ProtocolMagic: uint32(u64(op["magic"]))}
		s.nets[in(op, "n")] = ni
		s.kinds[in(op, "n")] = st(op, "backend")
		ev["r"] = guard(func() {
			if st(op, "backend") == "bf" {
				s.nodes[in(op, "n")] = node.NewBlockfrostClient(string(by(op, "pid")), ni)
			} else if st(op, "path") == "default" {
				s.nodes[in(op, "n")] = node.NewCardanoCliNode(ni)
			} else if st(op, "path") == "missing" {
				s.nodes[in(op, "n")] = node.NewCardanoCliNode(ni, filepath.Join(s.w.dir, "bin", "no-such-cli"))
			} else {
				s.nodes[in(op, "n")] = node.NewCardanoCliNode(ni, filepath.Join(s.w.dir, "bin", "cardano-cli"))
			}
		})
		return
	}
	if st(op, "op") == "netmut" { // the caller reuses its NetworkInfo
		ni := s.nets[in(op, "n")]
		ni.NetworkId ^= 1
		ni.ProtocolMagic++
		ev["r"] = "ok"
		return
	}
	// prepare the backend
	s.w.mu.Lock()
	s.w.op, s.w.reqs, s.w.gets, s.w.subs = op, nil, 0, nil
	for _, o := range list(op["subs"]) {
		s.w.subs = append(s.w.subs, obj(o))
	}
	s.w.mu.Unlock()
	calls := filepath.Join(s.w.dir, "calls")
	os.Remove(calls)
	ans := M{"Out": cliOut(op), "Exit": 0, "Kill": false}
	os.Unsetenv("VERIF_FAKE_SLOW")
	if s.w.subs != nil {
		byAddr := M{}
		for _, o := range s.w.subs {
			if st(o, "op") == "utxos" {
				byAddr[mkAddr(obj(o["a"])).String()] = cliOut(o)
			}
		}
		ans["ByAddr"], ans["Hash"] = byAddr, true
		os.Setenv("VERIF_FAKE_SLOW", "1")
	}
	f := obj(op["fault"])
	kind := st(f, "kind")
	if sched := list(f["sched"]); len(sched) > 0 {
		kind = sched[0].(string)
	}
	switch kind {
	case "", "none":
	case "exit": // fails and prints nothing
		ans["Out"], ans["Exit"] = "", exitCode(f)
	case "exitout": // fails although it printed an answer
		ans["Exit"] = exitCode(f)
	case "kill":
		ans["Kill"] = true
	case "garbage":
		ans["Out"] = "<html>gateway</html>\nwhat is\nthis\n"
		if f["text"] != nil {
			ans["Out"] = st(f, "text")
		}
	case "tail": // a whole answer and something after it
		ans["Out"] = cliOut(op) + st(f, "text")
	case "half":
		o := cliOut(op)
		ans["Out"] = o[:len(o)/2]
	case "cut": // cut inside the last line, before its amount ends
		o := strings.TrimRight(cliOut(op), "\n")
		i := strings.LastIndex(o, " lovelace")
		if i < 0 {
			i = len(o) / 2
		}
		if f["back"] != nil {
			i -= in(f, "back")
		}
		ans["Out"] = o[:i]
	}
	b, err := json.Marshal(ans)
	must(err)
	must(ioutil.WriteFile(filepath.Join(s.w.dir, "answer"), b, 0644))
	os.Setenv("TMPDIR", s.tmp)
	defer os.Unsetenv("TMPDIR")

	if subs := s.w.subs; subs != nil {
		evs := make([]M, len(subs))
		var wg sync.WaitGroup
		for k := range subs {
			evs[k] = M{}
			for n, v := range subs[k] {
				evs[k][n] = v
			}
			if op["serial"] != nil { // one after the other, to see what each gives alone
				s.call(subs[k], evs[k])
				continue
			}
			wg.Add(1)
			go func(k int) {
				defer wg.Done()
				s.call(subs[k], evs[k])
			}(k)
		}
		wg.Wait()
		ev["subs"], ev["r"] = evs, "ok"
	} else {
		s.call(op, ev)
	}
	reqs := []M{}
	s.w.mu.Lock()
	reqs = append(reqs, s.w.reqs...)
	s.w.mu.Unlock()
	if b, err := ioutil.ReadFile(calls); err == nil {
		for _, l := range strings.Split(strings.TrimSpace(string(b)), "\n") {
			var m M
			must(json.Unmarshal([]byte(l), &m))
			reqs = append(reqs, m)
		}
	}
	ev["reqs"], ev["kept"] = reqs, s.kept()
	left, _ := ioutil.ReadDir(s.tmp)
	here, _ := ioutil.ReadDir(".")
	ev["left"] = len(left) + len(here)
	// the text of a malformed answer is not needed in the trace
	if m := obj(op["mal"]); m != nil {
		ev["mal"] = M{"field": st(m, "field")}
	} else {
		ev["mal"] = M{"field": "none"}
	}
	if f != nil {
		ev["fault"] = M{"kind": kind, "times": f["times"]}
		if f["times"] == nil {
			ev["fault"] = M{"kind": st(f, "kind"), "times": 99}
		}
	} else {
		ev["fault"] = M{"kind": "none", "times": 0}
	}
}

// got: the caller keeps what a query returned, or uses it for something else
func (s *nodeSession) got(res []tx.TxInput) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.queries++; s.queries%3 == 0 {
		for i := range res {
			scribble(res[i].TxHash)
			res[i].Amount, res[i].Index = 7, 7
		}
		return
	}
	s.lists, s.texts = append(s.lists, res), append(s.texts, fmt.Sprint(res))
}

// kept: what earlier queries returned is still the same
func (s *nodeSession) kept() bool {
	s.mu.Lock()
	defer s.mu.Unlock()
	for i, l := range s.lists {
		if fmt.Sprint(l) != s.texts[i] {
			return false
		}
	}
	return true
}

// call makes one call on a node and records its outcome
func (s *nodeSession) call(op, ev M) {
	var err error
	n := s.nodes[in(op, "n")]
	r := "ok"
	ev["list"], ev["txhash"], ev["sent"] = []M{}, Bs{}, Bs{}
	switch st(op, "op") {
	case "utxos":
		var res []tx.TxInput
		a := mkAddr(obj(op["a"]))
		r = guard(func() { res, err = n.UTXOs(a) })
		if r == "ok" && err == nil {
			l := []M{}
			for _, x := range res {
				l = append(l, M{"h": append(Bs{}, x.TxHash...), "ix": N(uint64(x.Index)), "amt": N(uint64(x.Amount))})
			}
			ev["list"] = l
			s.got(res)
		}
	case "submit":
		t := s.txOf(op["tx"])
		sent, e := t.Bytes()
		must(e)
		ev["sent"] = Bs(sent)
		var h string
		r = guard(func() { h, err = n.SubmitTx(t) })
		ev["txhash"] = chars(h)
		delete(ev, "tx")
	case "params":
		r = guard(func() {
			p, e := n.ProtocolParameters()
			ev["out"], err = protoM(&p), e
		})
		if ev["out"] == nil {
			ev["out"] = protoM(nil)
		}
	case "tip":
		ev["out"] = M{"slot": Bs{}, "epoch": Bs{}, "block": Bs{}}
		r = guard(func() {
			t, e := n.QueryTip()
			ev["out"], err = M{"slot": N(uint64(t.Slot)), "epoch": N(uint64(t.Epoch)), "block": N(uint64(t.Block))}, e
		})
	}
	if r == "ok" {
		r = errs(err)
	}
	ev["r"] = r
}
