package sim

import (
	"bytes"
	crand "crypto/rand"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"reflect"
	"regexp"
	"runtime"
	"sort"
	"strings"
	"syscall"
	"time"

	btpcrypto "github.com/icon-project/btp/common/crypto"
	"github.com/icon-project/btp/common/wallet"

	"btpsim/relaycmd"
)

func init() {
	register("save", runSave)
	register("wallet", runWallet)
	register("start", func(w *World) { runRelay(w, relayOpts{viaMain: true}) })
}

// svEntropy is the system's source of randomness: deterministic, never a zero
// byte, with short reads and failures.
type svEntropy struct {
	w     *World
	s     uint64
	short int
	fail  int // the n-th read fails
	n     int
	fired bool
}

func (e *svEntropy) Read(b []byte) (int, error) {
	e.n++
	if e.fail > 0 && e.n == e.fail {
		e.fired = true
		e.w.Fault("entropy: error")
		return 0, syscall.EIO
	}
	n := len(b)
	if n > 1 && e.short > 0 && e.w.C.P(e.short) {
		e.w.Fault("entropy: short read")
		n = 1 + e.w.C.N(n-1)
	}
	for i := range b[:n] {
		e.s ^= e.s << 13
		e.s ^= e.s >> 7
		e.s ^= e.s << 17
		b[i] = byte(e.s%255) + 1
	}
	return n, nil
}

func setEntropy(w *World, e *svEntropy) {
	old := crand.Reader
	crand.Reader = e
	w.cleanup = append(w.cleanup, func() { crand.Reader = old })
}

// svDisk stands between the command and the file system, and keeps the
// command inside its scratch directory.
type svDisk struct {
	w    *World
	base string

	op    string // open, readseq, write, mkdir: what is to fail
	match string // in files whose name contains this
	nth   int
	how   int // write: 0 error, 1 short, 2 killed before, 3 in the middle, 4 after
	fired bool
	kill  func()

	logErr int // rate of write errors of the log
}

func (d *svDisk) hit(op, name string) bool {
	if d.fired || d.op != op || !strings.Contains(name, d.match) {
		return false
	}
	d.nth--
	if d.nth > 0 {
		return false
	}
	d.fired = true
	return true
}

func (d *svDisk) path(op, name string, write bool) error {
	abs, err := filepath.Abs(name)
	if err != nil {
		return err
	}
	if write && abs != d.base && !strings.HasPrefix(abs, d.base+"/") && abs != os.DevNull {
		d.w.FailLater("outside", "the command wants to %s %s, which it was not told about", op, abs)
		return syscall.EACCES
	}
	if !strings.HasPrefix(abs, d.base+"/") {
		return nil
	}
	if d.hit(op, abs) {
		d.w.Fault("disk: " + op + " error")
		d.w.Tracef("FAULT %s %s fails", op, abs[len(d.base):])
		return syscall.EIO
	}
	return nil
}

func (d *svDisk) io(op, name string, b []byte, do func([]byte) (int, error)) (int, error, bool) {
	abs, err := filepath.Abs(name)
	if err != nil || !strings.HasPrefix(abs, d.base+"/") {
		return 0, nil, false
	}
	if op == "write" && d.logErr > 0 && strings.HasSuffix(abs, ".log") && d.w.C.P(d.logErr) {
		d.w.Fault("disk: log write error")
		return 0, &os.PathError{Op: "write", Path: name, Err: syscall.ENOSPC}, true
	}
	if !d.hit(op, abs) {
		return 0, nil, false
	}
	d.w.Tracef("FAULT %s %s how=%d", op, abs[len(d.base):], d.how)
	switch {
	case op == "readseq":
		if d.how == 1 && len(b) > 4 {
			d.w.Fault("disk: read error after a part")
			d.fired, d.nth, d.how = false, 1, 0
			n, err := do(b[:4])
			return n, err, true
		}
		d.w.Fault("disk: read error")
		return 0, &os.PathError{Op: "read", Path: name, Err: syscall.EIO}, true
	case op == "sync" || d.how == 0:
		d.w.Fault("disk: " + op + " error")
		return 0, &os.PathError{Op: op, Path: name, Err: syscall.EIO}, true
	case d.how == 1:
		d.w.Fault("disk: short write")
		n, err := do(b[:d.w.C.N(len(b))])
		if err != nil {
			return n, err, true
		}
		return n, &os.PathError{Op: "write", Path: name, Err: syscall.ENOSPC}, true
	case d.how == 2:
		d.w.Fault("killed before a write")
		d.kill()
		return 0, nil, false
	case d.how == 3:
		d.w.Fault("killed in the middle of a write")
		n, err := do(b[:d.w.C.N(len(b))])
		d.kill()
		if err != nil {
			return n, err, true
		}
		m, err := do(b[n:])
		return n + m, err, true
	default:
		d.w.Fault("killed after a write")
		n, err := do(b)
		d.kill()
		return n, err, true
	}
}

// svSide is one side of a configuration as the user means it.
type svSide struct {
	addr, endpoint string
	bridge         bool
	opts           map[string]string
	secretFile     string
	pw             []byte
	key            []byte // nil: to be generated
	coin           string
}

type svCfg struct {
	side         [2]svSide
	dir          string
	maxSize      bool
	offset       int64
	logLevel     string
	consoleLevel string
	baseDir      string // absolute, or empty
	logFile      string
	maxBackups   int
	compress     bool
}

type saveSim struct {
	w    *World
	s    *Sched
	d    *svDisk
	root string // the user's directory
	cwd  string
	n    int
	proc *Proc
	snap string // what a killed command left
}

var svSideName = [2]string{"src", "dst"}

// command runs the relay command with these arguments to its end.
func (r *saveSim) command(env map[string]string, args ...string) (ok bool) {
	w := r.w
	r.n++
	p := w.NewProc(fmt.Sprintf("cmd%d", r.n))
	r.proc = p
	os.Args = append([]string{"btp2"}, args...)
	for k, v := range env {
		os.Setenv(k, v)
	}
	w.spawn(p, func() {
		relaycmd.Main()
		p.exit("returned")
	})
	if !r.s.RunUntil(w.Now()+3600*time.Second, func() bool { return p.dead }) {
		if w.verbose {
			b := make([]byte, 1<<20)
			fmt.Println(string(b[:runtime.Stack(b, true)]))
		}
		w.Fail("hang", "the command %q does not end", args)
	}
	for k := range env {
		os.Unsetenv(k)
	}
	if w.Failed() {
		panic(abortRun{})
	}
	return p.reason == "returned"
}

func (r *saveSim) write(name string, b []byte) string {
	f := filepath.Join(r.root, name)
	if err := os.MkdirAll(filepath.Dir(f), 0755); err != nil {
		r.w.Infra("%v", err)
	}
	if err := os.WriteFile(f, b, 0644); err != nil {
		r.w.Infra("%v", err)
	}
	return f
}

// given spells a path the way a user might.
func (r *saveSim) given(abs string) string {
	if r.w.C.N(2) == 0 {
		return abs
	}
	rel, _ := filepath.Rel(r.cwd, abs)
	return rel
}

func (c *svCfg) clone() *svCfg {
	x := *c
	return &x
}

// values that are hard to carry around
var svHard = []string{"x", "a b", "ä€", `q"uo'te`, "<&>", `back\slash`, "{brace}", "[x]", "1", "true", "null", "a=b,c", "#", "%41"}

// change picks new values for some settings; the result is the configuration
// meant, and how it is told to the command.
func (r *saveSim) change(c *svCfg, first bool) (args []string, env map[string]string) {
	C := r.w.C
	env = map[string]string{}
	tell := func(flag, val string) {
		if C.N(3) == 2 {
			env["BTP2_"+strings.ToUpper(strings.ReplaceAll(flag, ".", "_"))] = val
		} else if C.N(2) == 0 {
			args = append(args, "--"+flag+"="+val)
		} else {
			args = append(args, "--"+flag, val)
		}
	}
	some := func(n int) bool { return C.N(n) == n-1 }
	for i := range c.side {
		sd, nm := &c.side[i], svSideName[i]
		if first || some(4) {
			sd.addr = fmt.Sprintf("btp://0x%x.%s/cx%040x", 1+C.N(300), []string{"icon", "eth", "hardhat"}[C.N(3)], C.N(1<<30))
			tell(nm+".address", sd.addr)
		}
		if first || some(4) {
			sd.endpoint = fmt.Sprintf("http://%s%d.sim:90%02d/api", nm, r.n, C.N(100))
			if C.N(3) == 2 {
				sd.endpoint = svHard[C.N(len(svHard))]
			}
			tell(nm+".endpoint", sd.endpoint)
		}
		if some(3) && !sd.bridge {
			sd.bridge = true
			if C.N(2) == 0 {
				args = append(args, "--"+nm+".bridge_mode")
			} else {
				env["BTP2_"+strings.ToUpper(nm)+"_BRIDGE_MODE"] = "true"
			}
		}
		if some(4) {
			sd.opts = map[string]string{}
			var l []string
			for k := 1 + C.N(3); k > 0; k-- {
				key, v := fmt.Sprintf("opt_%d", C.N(9)), []string{"0x10", "100", "a b", "x=y", "1.5"}[C.N(5)]
				if _, dup := sd.opts[key]; !dup {
					sd.opts[key] = v
					l = append(l, key+"="+v)
				}
			}
			args = append(args, "--"+nm+".options="+strings.Join(l, ","))
		}
		if first {
			switch C.N(4) {
			case 1:
				sd.pw = []byte(svHard[C.N(len(svHard))] + "-password")
				tell(nm+".key_password", string(sd.pw))
			case 2:
				sd.pw = append([]byte("hush!"), C.Bytes(C.N(20))...)
				sd.secretFile = r.given(r.write(fmt.Sprintf("keys/%s%d.secret", nm, r.n), sd.pw))
				tell(nm+".key_secret", sd.secretFile)
			case 3:
				sd.pw = []byte("from-file\n")
				sd.secretFile = r.given(r.write(fmt.Sprintf("keys/%s%d.secret", nm, r.n), sd.pw))
				tell(nm+".key_secret", sd.secretFile)
				if C.N(2) == 1 { // a secret file comes before a password
					tell(nm+".key_password", "something else")
				}
			}
			if C.N(2) == 1 {
				f, key, coin := r.keyFile(fmt.Sprintf("%s%d", nm, r.n), sd.pw)
				sd.key, sd.coin = key, coin
				tell(nm+".key_store", r.given(f))
			}
		} else if sd.secretFile == "" && sd.pw != nil {
			tell(nm+".key_password", string(sd.pw))
		}
	}
	if some(2) {
		c.dir = []string{"front", "reverse", "both"}[C.N(3)]
		tell("direction", c.dir)
	}
	if some(3) {
		c.maxSize = true
		args = append(args, "--maxSizeTx")
	}
	if some(3) {
		c.offset = []int64{1, 100, 1 << 40, -1}[C.N(4)]
		tell("offset", fmt.Sprint(c.offset))
	}
	lv := []string{"trace", "debug", "info", "warn", "error", "fatal", "panic"}
	if some(2) {
		c.logLevel = lv[C.N(len(lv))]
		tell("log_level", c.logLevel)
	}
	if first || some(3) {
		c.consoleLevel = "panic"
		tell("console_level", c.consoleLevel)
	}
	if some(3) {
		c.baseDir = filepath.Join(r.root, "data", fmt.Sprint(C.N(4)))
		tell("base_dir", r.given(c.baseDir))
	}
	if some(3) {
		c.logFile = filepath.Join(r.root, "logs", fmt.Sprint("relay", C.N(4), ".log"))
		tell("log_writer.filename", r.given(c.logFile))
	}
	if some(4) {
		c.maxBackups = 1 + C.N(9)
		tell("log_writer.maxbackups", fmt.Sprint(c.maxBackups))
	}
	if some(4) {
		c.compress = true
		args = append(args, "--log_writer.compress")
	}
	return args, env
}

// keyFile makes a key store file as another program would have.
func (r *saveSim) keyFile(name string, pw []byte) (file string, key []byte, coin string) {
	C := r.w.C
	key = keccak([]byte(fmt.Sprint("key", name, C.N(1<<20))))
	coin = []string{"icx", "evm", ""}[C.N(3)]
	p := ksParams{N: []int{65536, 2, 1024}[C.N(3)], R: []int{8, 1}[C.N(2)], P: []int{1, 2}[C.N(2)], DK: 32,
		Salt: keccak([]byte("salt" + name))[:[]int{8, 32}[C.N(2)]], IV: keccak([]byte("iv" + name))[:16]}
	b := ksWrite(key, pw, coin, p, "4d1a2f6c-0b1c-4f0e-8b5e-9a0d3f6e7c21")
	if C.N(2) == 1 {
		var buf bytes.Buffer
		json.Indent(&buf, b, "", "\t")
		b = buf.Bytes()
	}
	return r.write("keys/"+name+".json", b), key, coin
}

// compare tells how a stored configuration differs from what was meant.
// Generated keys become part of what is meant from then on.
func (r *saveSim) compare(c *svCfg, file string, b []byte) string {
	var m map[string]interface{}
	if err := json.Unmarshal(b, &m); err != nil {
		return "is not JSON"
	}
	get := func(path string) interface{} {
		var v interface{} = m
		for _, k := range strings.Split(path, ".") {
			x, _ := v.(map[string]interface{})
			v = x[k]
		}
		return v
	}
	want := map[string]interface{}{
		"direction": c.dir, "maxSizeTx": c.maxSize, "offset": float64(c.offset), "log_level": c.logLevel, "console_level": c.consoleLevel,
		"log_writer.maxbackups": float64(c.maxBackups), "log_writer.compress": c.compress, "log_writer.maxsize": float64(100),
	}
	for i, sd := range c.side {
		nm := svSideName[i]
		want[nm+".address"], want[nm+".endpoint"], want[nm+".bridge_mode"] = sd.addr, sd.endpoint, sd.bridge
		if sd.secretFile != "" {
			want[nm+".key_secret"] = sd.secretFile
		}
		for k, v := range sd.opts {
			want[nm+".options."+k] = v
		}
	}
	var ks []string
	for k := range want {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		if got := get(k); !reflect.DeepEqual(got, want[k]) {
			return fmt.Sprintf("has %s = %v instead of %v", k, got, want[k])
		}
	}
	for i, sd := range c.side {
		o, _ := get(svSideName[i] + ".options").(map[string]interface{})
		if len(o) != len(sd.opts) {
			return fmt.Sprintf("has %d options for %s instead of %d", len(o), svSideName[i], len(sd.opts))
		}
		if s, _ := get(svSideName[i] + ".key_secret").(string); s != sd.secretFile {
			return "has a key_secret nobody gave"
		}
	}
	for k, abs := range map[string]string{"base_dir": c.baseDir, "log_writer.filename": c.logFile} {
		got, _ := get(k).(string)
		if got != "" && !filepath.IsAbs(got) {
			got = filepath.Join(filepath.Dir(file), got)
		}
		// without a base directory the place of the file or of the command is as good as none
		if got != abs && !(k == "base_dir" && abs == "") {
			return fmt.Sprintf("has %s = %v, which is not %q", k, get(k), strings.TrimPrefix(abs, r.d.base))
		}
	}
	for i := range c.side {
		sd, nm := &c.side[i], svSideName[i]
		raw, _ := json.Marshal(get(nm + ".key_store"))
		key, addr, coin, p, err := ksRead(raw, sd.pw)
		if err != nil {
			return fmt.Sprintf("has a key store for %s which does not open with its password: %v", nm, err)
		}
		if sd.key == nil {
			if other := c.side[1-i].key; other != nil && bytes.Equal(other, key) {
				return "has the same key on both sides"
			}
			sd.key, sd.coin = key, "icx"
			if p.N < 1<<14 || p.R < 8 || len(p.Salt) < 8 || bytes.HasSuffix(p.Salt, []byte{0}) || bytes.HasSuffix(p.IV, []byte{0}) {
				return fmt.Sprintf("has a weak key store for %s: n=%d r=%d salt=%x iv=%x", nm, p.N, p.R, p.Salt, p.IV)
			}
		}
		if !bytes.Equal(sd.key, key) {
			return fmt.Sprintf("has another key for %s", nm)
		}
		if coin != sd.coin {
			return fmt.Sprintf("has coin type %q for %s", coin, nm)
		}
		if want := ksAddress(key, coin); addr != want {
			return fmt.Sprintf("has the address %s for %s, the key's is %s", addr, nm, want)
		}
		if len(sd.pw) > 4 && bytes.Contains(b, sd.pw) || bytes.Contains(b, []byte(hex.EncodeToString(key))) {
			return "contains a password or a key in the clear"
		}
		if s, _ := get(nm + ".key_password").(string); s != "" {
			return "contains a password"
		}
	}
	return ""
}

// plan chooses a disk fault for the next command.
func (r *saveSim) plan() {
	C := r.w.C
	r.d.op, r.d.fired, r.snap = "", false, ""
	if C.N(2) == 0 {
		return
	}
	switch C.N(6) {
	case 0:
		r.d.op, r.d.match, r.d.nth = "readseq", []string{".secret", ".json", "/keys/"}[C.N(3)], 1+C.N(3)
		r.d.how = C.N(2)
	case 1:
		r.d.op, r.d.match, r.d.nth = "open", []string{".secret", ".json", "/keys/", "/conf/"}[C.N(4)], 1+C.N(3)
	case 2:
		r.d.op, r.d.match, r.d.nth = "mkdir", "/conf", 1
	default:
		r.d.op, r.d.match, r.d.nth = "write", "/conf/", 1
		r.d.how = C.N(5)
		if C.N(8) == 7 {
			r.d.nth = 2
		}
	}
}

func newSaveSim(w *World) *saveSim {
	resetGlobals()
	base := kvScratch()
	r := &saveSim{w: w, s: NewSched(w)}
	r.d = &svDisk{w: w, base: base}
	r.root = filepath.Join(base, "u", "v", "w")
	r.cwd = filepath.Join(r.root, "here")
	if err := os.MkdirAll(r.cwd, 0755); err != nil {
		w.Infra("%v", err)
	}
	if err := os.Chdir(r.cwd); err != nil {
		w.Infra("%v", err)
	}
	args := os.Args
	os.VerifIO, os.VerifPath = r.d.io, r.d.path
	w.cleanup = append(w.cleanup, func() {
		os.VerifIO, os.VerifPath = nil, nil
		os.Args = args
		os.Chdir("/")
		os.RemoveAll(base)
		for _, e := range os.Environ() {
			if strings.HasPrefix(e, "BTP2_") {
				os.Unsetenv(e[:strings.IndexByte(e, '=')])
			}
		}
	})
	return r
}

func tree(root string) map[string]string {
	m := map[string]string{}
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err == nil {
			s := "dir"
			if fi.Mode().IsRegular() {
				b, _ := os.ReadFile(p)
				s = string(b)
			}
			m[p[len(root):]] = s
		}
		return nil
	})
	return m
}

func runSave(w *World) {
	C := w.C
	r := newSaveSim(w)
	w.refuse = true
	setEntropy(w, &svEntropy{w: w, s: uint64(C.N(1<<30))*2 + 1, short: []int{0, 300}[C.N(2)]})
	r.d.kill = func() {
		w.Tracef("%s killed", r.proc.name)
		r.snap = filepath.Join(r.d.base, "snap")
		if err := copyDir(filepath.Join(r.root, "conf"), r.snap); err != nil && !os.IsNotExist(err) {
			w.Infra("%v", err)
		}
	}
	type stored struct {
		cfg  *svCfg
		file string
	}
	var have []stored // what a file holds for certain
	lookup := func(f string) *svCfg {
		for _, x := range have {
			if x.file == f {
				return x.cfg
			}
		}
		return nil
	}
	set := func(f string, c *svCfg) {
		for i := range have {
			if have[i].file == f {
				have = append(have[:i], have[i+1:]...)
				break
			}
		}
		if c != nil {
			have = append(have, stored{c, f})
		}
	}
	steps := 1 + C.N(4)
	for i := 0; i < steps; i++ {
		var c *svCfg
		var args []string
		var env map[string]string
		from := ""
		if len(have) > 0 && C.N(3) > 0 {
			x := have[C.N(len(have))]
			c, from = x.cfg.clone(), x.file
			args, env = r.change(c, false)
			args = append(args, []string{"-c", "--config"}[C.N(2)], r.given(from))
		} else {
			c = &svCfg{dir: "both", logLevel: "debug", consoleLevel: "trace"}
			args, env = r.change(c, true)
		}
		to := filepath.Join(r.root, []string{"conf/a.json", "conf/b.json", "conf/sub/c.json"}[C.N(3)])
		at := C.N(2)
		sv := []string{"save", r.given(to)}
		if at == 0 {
			args = append(args, sv...)
		} else {
			args = append(sv, args...)
		}
		prev := lookup(to)
		wrong := -1
		if C.N(6) == 5 { // a password that is not the one
			for k := range c.side {
				if c.side[k].key != nil && c.side[k].secretFile == "" {
					wrong = k
				}
			}
			if wrong >= 0 {
				nm := svSideName[wrong]
				delete(env, "BTP2_"+strings.ToUpper(nm)+"_KEY_PASSWORD")
				args = append(args, "--"+nm+".key_password=not-"+string(c.side[wrong].pw))
			}
		}
		r.plan()
		w.Tracef("save %s from %q wrong=%d fault=%s/%s/%d/%d: %d arguments, %d variables", filepath.Base(to), filepath.Base(from), wrong, r.d.op, r.d.match, r.d.nth, r.d.how, len(args), len(env))
		before, _ := os.ReadFile(to)
		ok := r.command(env, args...)
		w.Tracef("ok=%v fired=%v killed=%v", ok, r.d.fired, r.snap != "")
		w.Count("save")
		fired := r.d.fired
		r.d.op = ""
		if ok && wrong >= 0 {
			w.Fail("wrong-password", "save succeeds although the password of %s is wrong", svSideName[wrong])
		}
		if !ok && !fired && wrong < 0 {
			w.Fail("refused", "without any fault the save of a valid configuration failed")
		}
		if r.snap != "" { // the command was killed: what it left is what there is
			if err := os.RemoveAll(filepath.Join(r.root, "conf")); err != nil {
				w.Infra("%v", err)
			}
			if err := copyDir(r.snap, filepath.Join(r.root, "conf")); err != nil {
				w.Infra("%v", err)
			}
			os.RemoveAll(r.snap)
			ok = false
		}
		b, err := os.ReadFile(to)
		switch {
		case ok:
			if err != nil {
				w.Fail("not-saved", "save reports success and there is no file")
			}
			if d := r.compare(c, to, b); d != "" {
				w.Fail("saved", "save reports success and the file %s (fault fired: %v)", d, fired)
			}
			set(to, c)
			w.nontrivial = true
		case wrong >= 0 && r.snap == "" && !fired:
			if !bytes.Equal(b, before) {
				w.Fail("wrong-password", "save with a wrong password changed the file")
			}
		default:
			// the file holds the old, the new, or nothing that loads
			set(to, nil)
			x := c.clone()
			if err == nil && r.compare(x, to, b) == "" {
				set(to, x)
			} else if err == nil && prev != nil && r.compare(prev, to, b) == "" {
				set(to, prev)
			} else if err == nil {
				other := filepath.Join(r.root, "conf", fmt.Sprint("broken", i, ".json"))
				if r.command(nil, "-c", to, "save", other) {
					w.Fail("broken", "a save failed or was interrupted, and what it left loads as a different configuration")
				}
				os.Remove(to)
			}
		}
		// everything else is as it was
		for _, h := range have {
			if b, err := os.ReadFile(h.file); err != nil || r.compare(h.cfg, h.file, b) != "" {
				w.Fail("others", "%s changed although the command was not about it", filepath.Base(h.file))
			}
		}
	}
	if len(have) == 0 {
		return
	}
	// start from one of them: no chain can be reached, so the relay ends, and all it leaves behind is its log
	x := have[C.N(len(have))]
	t0 := tree(filepath.Dir(r.root))
	args := []string{"start", "-c", r.given(x.file)}
	wrong := C.N(4) == 3
	for i, sd := range x.cfg.side {
		if sd.secretFile != "" {
			continue
		}
		pw := string(sd.pw)
		if wrong {
			pw += "x"
		}
		if pw != "" {
			args = append(args, "--"+svSideName[i]+".key_password="+pw)
		}
	}
	w.Tracef("start wrong=%v", wrong)
	if r.command(nil, args...) {
		w.Fail("start", "start returns without an error although nothing can be reached")
	}
	w.Count("start")
	t1 := tree(filepath.Dir(r.root))
	var ks []string
	for k := range t0 {
		ks = append(ks, k)
	}
	for k := range t1 {
		if _, there := t0[k]; !there {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	logName := strings.TrimPrefix(x.cfg.logFile, filepath.Dir(r.root))
	for _, k := range ks {
		if t0[k] == t1[k] {
			continue
		}
		if x.cfg.logFile != "" && (k == logName || k == filepath.Dir(logName)) {
			continue
		}
		_, a := t0[k]
		_, b := t1[k]
		w.Fail("leaves", "starting the relay changed %s, which is not its log (before: %v, after: %v)", k, a, b)
	}
}

// writeConfig makes the files a relay is started from: key stores, secrets and
// a configuration, written by hand or by the command's save.
func (n *relayNode) writeConfig() {
	r, sv := n.r, n.r.save
	w := r.w
	C := w.C
	side := func(i int, c simChain) map[string]interface{} {
		key := detKey(10*n.id + 1 + i)
		coin := "icx"
		if _, ok := c.(*ethChain); ok {
			coin = []string{"evm", ""}[C.N(2)]
		}
		pw := []byte{}
		m := map[string]interface{}{"address": c.Addr(), "endpoint": "http://nowhere.sim", "bridge_mode": r.bridge[i]}
		switch C.N(3) {
		case 1:
			pw = []byte("password")
			m["key_password"] = string(pw)
		case 2:
			pw = []byte("secret\n")
			m["key_secret"] = sv.write(fmt.Sprintf("keys/%d-%d.secret", n.id, i), pw)
		}
		b := ksWrite(key, pw, coin, ksParams{N: 1024, R: 8, P: 1, DK: 32, Salt: keccak(key)[:8], IV: keccak(key)[8:24]}, "4d1a2f6c-0b1c-4f0e-8b5e-9a0d3f6e7c21")
		if C.N(2) == 0 {
			m["key_store"] = json.RawMessage(b)
		} else {
			m["key_store"] = sv.write(fmt.Sprintf("keys/%d-%d.json", n.id, i), b)
		}
		return m
	}
	m := map[string]interface{}{"src": side(0, r.a), "dst": side(1, r.b), "direction": r.dir, "log_level": "panic", "console_level": "panic"}
	if C.N(3) == 2 {
		m["log_level"] = "trace"
		m["log_writer"] = map[string]interface{}{"filename": "relay.log", "maxsize": 100}
		sv.d.logErr = []int{0, 0, 100, 1000}[C.N(4)]
	}
	b, _ := json.Marshal(m)
	n.config = sv.write(fmt.Sprintf("conf/relay%d.json", n.id), b)
}

// startMain starts the relay by its command.
func (n *relayNode) startMain(urlA, urlB string) {
	r, sv, p := n.r, n.r.save, n.p
	if r.prof.faulty && r.w.C.N(4) == 3 {
		sv.d.op, sv.d.match, sv.d.nth, sv.d.fired = []string{"readseq", "open"}[r.w.C.N(2)], []string{"conf", "keys"}[r.w.C.N(2)], 1+r.w.C.N(3), false
		sv.d.how = r.w.C.N(2)
	}
	os.Args = []string{"btp2", "start", "-c", n.config, "--src.endpoint=" + urlA, "--dst.endpoint=" + urlB}
	r.w.spawn(p, func() {
		relaycmd.Main()
		p.exit("returned")
	})
}

// runWallet checks the key stores and wallets themselves.
func runWallet(w *World) {
	C := w.C
	resetGlobals()
	ent := &svEntropy{w: w, s: uint64(C.N(1<<30))*2 + 1, short: []int{0, 300}[C.N(2)]}
	setEntropy(w, ent)
	p := w.NewProc("wallet")
	done := false
	w.spawn(p, func() {
		runWallet1(w, ent)
		done = true
	})
	s := NewSched(w)
	if !s.RunUntil(time.Hour, func() bool { return done || p.dead || w.Failed() }) {
		w.Fail("hang", "a call does not return")
	}
}

var svID = regexp.MustCompile(`"id": ?"[^"]*"`)

func runWallet1(w *World, ent *svEntropy) {
	C := w.C
	fail := func(sig, f string, a ...interface{}) { w.FailLater(sig, f, a...) }
	secret := keccak([]byte(fmt.Sprint("wallet", C.N(1<<20))))
	if C.N(8) == 7 {
		copy(secret, make([]byte, 1+C.N(8))) // leading zeroes
	}
	pw := []byte(svHard[C.N(len(svHard))])
	if C.N(3) == 2 {
		pw = bytes.TrimRight(C.Bytes(C.N(70)), "\x00") // HMAC does not see zeroes at the end of a key
	}
	sk, err := btpcrypto.ParsePrivateKey(append([]byte{}, secret...))
	if err != nil {
		fail("parse", "%v", err)
		return
	}
	coin := "icx"
	var ks []byte
	switch C.N(3) {
	case 0, 1:
		if C.N(3) == 2 {
			ent.fail = 1 + C.N(4)
		}
		if C.N(2) == 0 {
			ks, err = wallet.EncryptKeyAsKeyStore(sk, append([]byte{}, pw...))
		} else {
			x, _ := wallet.NewIcxWalletFromPrivateKey(sk)
			ks, err = wallet.KeyStoreFromWallet(x, append([]byte{}, pw...))
		}
		ent.fail = 0
		if err != nil {
			if !ent.fired {
				fail("encrypt", "a key cannot be encrypted: %v", err)
			}
			return
		}
		w.Tracef("made fired=%v", ent.fired)
		key, addr, c, par, err := ksRead(ks, pw)
		switch {
		case err != nil:
			fail("encrypt", "the key store made for a key does not open: %v (entropy failed: %v)", err, ent.fired)
		case !bytes.Equal(key, secret) || addr != ksAddress(secret, "icx") || c != "icx":
			fail("encrypt", "the key store made for a key holds another (%s %s)", c, addr)
		case bytes.HasSuffix(par.Salt, []byte{0}) || bytes.HasSuffix(par.IV, []byte{0}) || len(par.Salt) < 8 || par.N < 1<<14:
			fail("weak", "salt=%x iv=%x n=%d (entropy failed: %v)", par.Salt, par.IV, par.N, ent.fired)
		}
		if k2, err := wallet.EncryptKeyAsKeyStore(sk, pw); err == nil {
			if _, _, _, p2, err := ksRead(k2, pw); err == nil && (bytes.Equal(p2.Salt, par.Salt) || bytes.Equal(p2.IV, par.IV)) {
				fail("weak", "two key stores share salt or initialization vector")
			}
		}
	default:
		coin = []string{"icx", "evm", ""}[C.N(3)]
		par := ksParams{N: []int{65536, 2, 1024}[C.N(3)], R: []int{8, 1}[C.N(2)], P: []int{1, 2}[C.N(2)], DK: []int{32, 64}[C.N(2)], Salt: C.Bytes(8), IV: C.Bytes(16)}
		ks = ksWrite(secret, pw, coin, par, "4d1a2f6c-0b1c-4f0e-8b5e-9a0d3f6e7c21")
		w.Tracef("given %q", coin)
	}
	if w.Failed() {
		return
	}
	w.nontrivial = true
	// the identifier of a made key store is not from the simulator's entropy
	ks = svID.ReplaceAll(ks, []byte(`"id":"4d1a2f6c-0b1c-4f0e-8b5e-9a0d3f6e7c21"`))
	in := append([]byte{}, ks...)
	pwd := append([]byte{}, pw...)
	damage := C.N(5)
	what := ""
	switch damage {
	case 1:
		k := 1
		if coin == "icx" {
			k += C.N(2) // a key store of the other kind need not have an address, so two may go unnoticed
		}
		for ; k > 0; k-- {
			i, bit := C.N(len(in)), C.N(8)
			in[i] ^= 1 << bit
			what += fmt.Sprintf("bit %d of byte %d (%q to %q) ", bit, i, ks[i], in[i])
		}
		w.Fault("disk: bits flipped")
	case 2:
		in = in[:C.N(len(in))]
		what = fmt.Sprintf("cut to %d", len(in))
		w.Fault("disk: file cut")
	case 3:
		i := C.N(len(in))
		j := i + 1 + C.N(12)
		if j > len(in) {
			j = len(in)
		}
		in = append(in[:i:i], in[j:]...)
		what = fmt.Sprintf("%d..%d (%q) missing", i, j, ks[i:j])
		w.Fault("disk: bytes missing")
	case 4:
		pwd = append(pwd, 'x')
		if C.N(2) == 1 && len(pwd) > 1 {
			pwd = pwd[:len(pwd)-2]
		}
		what = "wrong password"
	}
	x, err := wallet.DecryptKeyStore(in, pwd)
	w.Tracef("%x damage=%d %s err=%v", secret[:2], damage, what, err != nil)
	w.State("%d %v %s", damage, err != nil, coin)
	if err != nil {
		if damage == 0 {
			fail("decrypt", "a good key store (%s) does not open: %v", coin, err)
		}
		return
	}
	if damage == 4 {
		fail("decrypt", "a key store opens with the wrong password")
		return
	}
	if x == nil || reflect.ValueOf(x).IsNil() {
		fail("decrypt", "no wallet and no error (%s)", what)
		return
	}
	evm := strings.ToLower("0x" + ksAddress(secret, ""))
	icx := ksAddress(secret, "icx")
	got := strings.ToLower(x.Address())
	if got != evm && got != icx || damage == 0 && (coin == "icx") != (got == icx) {
		fail("another", "a key store gives a wallet with another address: %s (%s)", got, what)
		return
	}
	if got != icx {
		return
	}
	// signatures and shared secrets of the ICON wallet
	h := keccak(C.Bytes(1 + C.N(40)))
	sig, err := x.Sign(h)
	if err != nil || len(sig) != 65 {
		fail("sign", "err=%v length %d", err, len(sig))
		return
	}
	if who, err := recoverIcx(h, sig); err != nil || who != icx {
		fail("sign", "a signature of %s recovers to %s (%v)", icx, who, err)
		return
	}
	k2 := keccak(append([]byte("other"), secret...))
	sk2, _ := btpcrypto.ParsePrivateKey(k2)
	y, _ := wallet.NewIcxWalletFromPrivateKey(sk2)
	plain := C.Bytes(C.N(100))
	if C.N(4) == 3 {
		ent.n, ent.fired, ent.fail = 0, false, 1+C.N(2)
	}
	e, err := wallet.NewEncrypted(x, y.PublicKey(), append([]byte{}, plain...))
	if err != nil {
		if !ent.fired {
			fail("encrypted", "%v", err)
		}
		return
	}
	b, _ := json.Marshal(e)
	var e2 wallet.Encrypted
	if err := json.Unmarshal(b, &e2); err != nil {
		fail("encrypted", "%v", err)
		return
	}
	d, err := e2.Decrypt(y)
	if err != nil || !bytes.Equal(d, plain) {
		fail("encrypted", "what was encrypted for another wallet does not decrypt to itself (%v)", err)
		return
	}
	if len(plain) > 12 && bytes.Equal(e2.CipherText, plain) {
		fail("encrypted", "the ciphertext is the plaintext")
	}
	if len(e2.Param) < 4 || bytes.Equal(e2.Param[:4], make([]byte, 4)) {
		fail("weak", "no salt (entropy failed: %v)", ent.fired)
	}
}

var _ io.Reader = (*svEntropy)(nil)
