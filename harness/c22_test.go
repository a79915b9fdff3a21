package harness

import (
	"bytes"
	"context"
	"encoding/binary"
	"fmt"
	"io"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"google.golang.org/grpc"
	"google.golang.org/grpc/grpclog"
	"istio.io/api/mixer/adapter/model/v1beta1"
	"pgregory.net/rapid"

	"github.com/gogo/protobuf/types"
	authnz "github.com/ibm-cloud-security/app-identity-and-access-adapter/config/template"
)

// The built command, as its image runs it, against a fake cluster.

// process is one running adapter command.
type process struct {
	cmd  *exec.Cmd
	out  *bytes.Buffer
	mu   sync.Mutex
	done chan struct{}
	err  error
}

func (p *process) Write(b []byte) (int, error) {
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.out.Len() < 1<<20 {
		p.out.Write(b)
	}
	return len(b), nil
}

func (p *process) text() string {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.out.String()
}

func (p *process) exited() bool {
	select {
	case <-p.done:
		return true
	default:
		return false
	}
}

func (p *process) kill() {
	_ = p.cmd.Process.Kill()
	<-p.done
}

// spawn starts the command with its own empty home.
func spawn(t testing.TB, c *Cluster, home string, args ...string) *process {
	home, err := os.MkdirTemp(home, "p")
	if err != nil {
		t.Fatal(err)
	}
	conf := filepath.Join(home, "kubeconfig")
	if err := os.WriteFile(conf, []byte(fmt.Sprintf(`{"apiVersion":"v1","kind":"Config","current-context":"x","clusters":[{"name":"x","cluster":{"server":%q}}],"users":[{"name":"x","user":{}}],"contexts":[{"name":"x","context":{"cluster":"x","user":"x"}}]}`, c.srv.URL)), 0o600); err != nil {
		t.Fatal(err)
	}
	p := &process{out: &bytes.Buffer{}, done: make(chan struct{})}
	p.cmd = exec.Command(os.Getenv("VERIF_BINARY"), args...)
	p.cmd.Dir = home
	p.cmd.Env = []string{"HOME=" + home, "KUBECONFIG=" + conf, "PATH=" + home}
	p.cmd.Stdout, p.cmd.Stderr = p, p
	if err := p.cmd.Start(); err != nil {
		t.Fatalf("the command does not start: %v", err)
	}
	go func() { p.err = p.cmd.Wait(); close(p.done) }()
	return p
}

// listening: something accepts connections there.
func listening(port int) bool {
	c, err := net.DialTimeout("tcp", fmt.Sprintf("127.0.0.1:%d", port), time.Second)
	if err != nil {
		return false
	}
	_ = c.Close()
	return true
}

// freePort is the next port from a start that nobody listens on.
func freePort(from int) int {
	for {
		if l, err := net.Listen("tcp", fmt.Sprintf(":%d", from)); err == nil {
			_ = l.Close()
			return from
		}
		from++
	}
}

// wire is the authorization service at the other end of a connection.
type wire struct{ conn *grpc.ClientConn }

// field appends a length-delimited protobuf field.
func field(b []byte, num int, val []byte) []byte {
	b = binary.AppendUvarint(b, uint64(num)<<3|2)
	b = binary.AppendUvarint(b, uint64(len(val)))
	return append(b, val...)
}

// fields splits a protobuf message; varints are given as 8 bytes, big endian.
func fields(b []byte, f func(num int, val []byte)) bool {
	for len(b) > 0 {
		tag, n := binary.Uvarint(b)
		if n <= 0 {
			return false
		}
		b = b[n:]
		v, n := binary.Uvarint(b)
		if n <= 0 {
			return false
		}
		b = b[n:]
		switch tag & 7 {
		case 0:
			f(int(tag>>3), binary.BigEndian.AppendUint64(nil, v))
		case 2:
			if uint64(len(b)) < v {
				return false
			}
			f(int(tag>>3), b[:v])
			b = b[v:]
		default:
			return false
		}
	}
	return true
}

// HandleAuthnZ writes and reads the messages by the numbers of template_handler_service.proto, as the mixer does.
func (w *wire) HandleAuthnZ(_ context.Context, r *authnz.HandleAuthnZRequest) (*authnz.HandleAuthnZResponse, error) {
	strs := func(vals ...string) (b []byte) {
		for i, v := range vals {
			if v != "" {
				b = field(b, i+1, []byte(v))
			}
		}
		return
	}
	in := r.Instance
	req := strs(in.Request.Scheme, in.Request.Host, in.Request.Path)
	req = field(req, 4, strs(in.Request.Headers.Cookies, in.Request.Headers.Authorization))
	req = field(req, 5, strs(in.Request.Params.Error, in.Request.Params.Code, in.Request.Params.State))
	prop := field(field(nil, 1, []byte("k")), 2, field(nil, 1, []byte("v"))) // properties the policies do not use
	tgt := field(strs(in.Target.Namespace, in.Target.Service, in.Target.Method, in.Target.Path), 5, prop)
	msg := field(field(field(nil, 1, req), 2, tgt), 72295727, []byte("instance.ns"))
	msg = field(field(nil, 1, msg), 3, []byte("dedup-id"))
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	var raw []byte
	if err := w.conn.Invoke(ctx, "/authnz.HandleAuthnZService/HandleAuthnZ", msg, &raw, grpc.CallCustomCodec(rawCodec{})); err != nil {
		return nil, err
	}
	return decodeResponse(raw)
}

// decodeResponse reads an answer by the numbers of the proto files.
func decodeResponse(raw []byte) (*authnz.HandleAuthnZResponse, error) {
	res := &authnz.HandleAuthnZResponse{}
	good := fields(raw, func(num int, val []byte) {
		switch num {
		case 1: // CheckResult
			res.Result = &v1beta1.CheckResult{}
			fields(val, func(num int, val []byte) {
				if num == 1 { // rpc.Status
					fields(val, func(num int, val []byte) {
						st := &res.Result.Status
						switch num {
						case 1:
							st.Code = int32(binary.BigEndian.Uint64(val))
						case 2:
							st.Message = string(val)
						case 3:
							a := &types.Any{}
							fields(val, func(num int, val []byte) {
								if num == 1 {
									a.TypeUrl = string(val)
								} else {
									a.Value = val
								}
							})
							st.Details = append(st.Details, a)
						}
					})
				}
			})
		case 2:
			res.Output = &authnz.OutputMsg{}
			fields(val, func(num int, val []byte) {
				if num == 1 {
					res.Output.Authorization = string(val)
				} else {
					res.Output.SessionCookie = string(val)
				}
			})
		}
	})
	if !good {
		return nil, fmt.Errorf("the answer is not protobuf")
	}
	return res, nil
}

// listens tells the ports a process of ours accepts TCP connections on; none if that cannot be told.
func listens(pid int) (ports []int) {
	mine := map[string]bool{}
	fds, _ := os.ReadDir(fmt.Sprintf("/proc/%d/fd", pid))
	for _, fd := range fds {
		if to, err := os.Readlink(fmt.Sprintf("/proc/%d/fd/%s", pid, fd.Name())); err == nil && strings.HasPrefix(to, "socket:[") {
			mine[strings.TrimSuffix(strings.TrimPrefix(to, "socket:["), "]")] = true
		}
	}
	seen := map[int]bool{}
	for _, table := range []string{"tcp", "tcp6"} {
		raw, _ := os.ReadFile(fmt.Sprintf("/proc/%d/net/%s", pid, table))
		for _, line := range strings.Split(string(raw), "\n") {
			f := strings.Fields(line)
			if len(f) < 10 || f[3] != "0A" || !mine[f[9]] {
				continue
			}
			if n, err := strconv.ParseInt(f[1][strings.LastIndex(f[1], ":")+1:], 16, 32); err == nil {
				seen[int(n)] = true
			}
		}
	}
	return sortedInts(seen)
}

// patience is how long to wait: less once there is a verdict and an example is made smaller.
func patience(n int) time.Duration {
	if hung.Load() {
		return secs(8)
	}
	return secs(n)
}

// connect waits until the process serves and makes it a Live adapter.
func connect(p *process, c *Cluster, port int) (*Live, *wire, string) {
	deadline := time.Now().Add(patience(45))
	for !listening(port) {
		if p.exited() {
			return nil, nil, fmt.Sprintf("the process ended by itself: %v", p.err)
		}
		if time.Now().After(deadline) {
			hung.Store(true)
			return nil, nil, "nobody listens on the port asked for"
		}
		time.Sleep(3 * time.Millisecond)
	}
	ctx, cancel := context.WithTimeout(context.Background(), 45*time.Second)
	defer cancel()
	conn, err := grpc.DialContext(ctx, fmt.Sprintf("127.0.0.1:%d", port), grpc.WithInsecure(), grpc.WithBlock())
	if err != nil {
		return nil, nil, "no gRPC connection"
	}
	w := &wire{conn}
	return &Live{c: c, h: w, nop: newTenant()}, w, ""
}

// rawCodec sends bytes as they are.
type rawCodec struct{}

func (rawCodec) Marshal(v interface{}) ([]byte, error) { return v.([]byte), nil }
func (rawCodec) Unmarshal(b []byte, v interface{}) error {
	*(v.(*[]byte)) = b
	return nil
}
func (rawCodec) String() string { return "proto" }

// genArgs draws a permitted command line.
func genArgs(rt *rapid.T, from int) (args []string, port, hash, block int) {
	port, hash, block = freePort(from), 32, 16
	var groups [][]string
	add := func(g ...string) { groups = append(groups, g) }
	long := func(name string, v interface{}) {
		if rapid.Bool().Draw(rt, "separate") {
			add("--"+name, fmt.Sprint(v))
		} else {
			add(fmt.Sprintf("--%s=%v", name, v))
		}
	}
	switch rapid.SampledFrom([]string{"long", "long", "-p", "-pN"}).Draw(rt, "port-form") {
	case "long":
		long("port", port)
	case "-p":
		add("-p", strconv.Itoa(port))
	case "-pN":
		add(fmt.Sprintf("-p%d", port))
	}
	hashes, blocks := []int{32, 64}, []int{16, 24, 32}
	hashSet := rapid.IntRange(0, 3).Draw(rt, "hash-flag") > 0
	if hashSet {
		hash = rapid.SampledFrom(hashes).Draw(rt, "hash")
		long("hash-key", hash)
	}
	if rapid.IntRange(0, 3).Draw(rt, "block-flag") > 0 {
		block = rapid.SampledFrom(blocks).Draw(rt, "block")
		long("block-key", block)
	}
	switch rapid.SampledFrom([]string{"", "--json", "-j", "--json=true", "--json=false"}).Draw(rt, "json") {
	case "--json":
		add("--json")
	case "-j":
		add("-j")
	case "--json=true":
		add("--json=true")
	case "--json=false":
		add("--json=false")
	}
	switch rapid.IntRange(0, 3).Draw(rt, "level-flag") {
	case 0:
	case 1:
		long("level", rapid.IntRange(-1, 7).Draw(rt, "level"))
	case 2:
		add("-l", strconv.Itoa(rapid.IntRange(-1, 7).Draw(rt, "level")))
	}
	groups = rapid.Permutation(groups).Draw(rt, "order")
	if rapid.IntRange(0, 3).Draw(rt, "repeat") == 0 { // the last one counts
		first := rapid.SampledFrom(hashes).Draw(rt, "first-hash")
		groups = append([][]string{{fmt.Sprintf("--hash-key=%d", first)}}, groups...)
		if !hashSet {
			hash = first
		}
	}
	for _, g := range groups {
		args = append(args, g...)
	}
	return
}

func TestC22(t *testing.T) {
	ev := newEvidence("C22", "the built command run with generated command lines: permitted ones (every combination and spelling of port, key sizes, logging) serve generated cluster histories, logins, sessions and restarts over gRPC, four processes side by side, judged by the same reference as an adapter in this process; refused ones must end at once without listening or touching the cluster; non-trivial: a decision by a policy, a login or a restart was checked, or a refused command line ended",
		"the process is ended by SIGKILL: what it does on SIGTERM is not claimed")
	defer ev.Write(t)
	if os.Getenv("VERIF_BINARY") == "" {
		t.Fatal("no binary to check")
	}
	caseTime = func() time.Time { return time.Now().Truncate(time.Second) } // the processes see the real one
	grpclog.SetLoggerV2(grpclog.NewLoggerV2(io.Discard, io.Discard, io.Discard))
	home := t.TempDir()
	tn := newTenant()
	for k := 0; k < c20Versions; k++ {
		doc := jwks(jwk(fmt.Sprintf("k%d", k), &testKeys[k].PublicKey))
		tn.serve(fmt.Sprintf("jwks-%d", k), func(Rec) Reply { return Reply{Status: 200, Body: doc} })
	}

	run(t, ev, "refused", 120, 3000, func(rt *rapid.T) {
		port := freePort(12000)
		bad := rapid.SampledFrom([][]string{
			{"--hash-key=16"}, {"--hash-key=24"}, {"--hash-key=0"}, {"--hash-key=-32"}, {"--hash-key=128"}, {"--hash-key=33"}, {"--hash-key=320"}, {"--hash-key=288"}, {"--hash-key="}, {"--hash-key=x"}, {"--hash-key=32.0"}, {"--hash-key=0x20"}, {"--hash-key", "31"},
			{"--block-key=8"}, {"--block-key=0"}, {"--block-key=64"}, {"--block-key=-16"}, {"--block-key=17"}, {"--block-key=160"}, {"--block-key=272"}, {"--block-key="}, {"--block-key=sixteen"}, {"--block-key", "20"}, {"--block-key=1e1"},
			{"--port=65536"}, {"--port=-1"}, {"--port=http"}, {"--port="}, {"--port=1.5"},
			{"--level=debug"}, {"--level=200"}, {"--level="},
			{"--json=perhaps"},
			{"--hashkey=32"}, {"--hash"}, {"--unknown"}, {"-x"}, {"--hash_key=32"},
			{"serve"}, {"32"}, {"-"}, {"--", "--hash-key=32"},
		}).Draw(rt, "refused")
		rest := rapid.SampledFrom([][]string{{}, {"--hash-key=64"}, {"--block-key=24", "-j"}, {"-l", "-1"}}).Draw(rt, "rest")
		first := rapid.Bool().Draw(rt, "first")
		if bad[0] == "--" { // everything after it is an argument
			first = false
		}
		args := append([]string{fmt.Sprintf("--port=%d", port)}, rest...)
		if strings.HasPrefix(bad[0], "--port") {
			args = append([]string{}, rest...)
		}
		if first {
			args = append(append([]string{}, bad...), args...)
		} else {
			args = append(args, bad...)
		}
		what := strings.ReplaceAll(strings.Join(args, " "), strconv.Itoa(port), "PORT")
		c := newCluster()
		defer c.srv.Close()
		p := spawn(t, c, home, args...)
		defer p.kill()
		select {
		case <-p.done:
		case <-time.After(patience(60)):
			hung.Store(true)
			rt.Fatalf("%q: the command goes on", what)
		}
		c.mu.Lock()
		rv := c.rv
		c.mu.Unlock()
		switch {
		case p.err == nil:
			rt.Fatalf("%q: the command ends as if it had succeeded", what)
		case listening(port) || c.lists > 0 || rv != 10:
			rt.Fatalf("%q: the command was at work before it was refused", what)
		}
		ev.Case(what, true, func() interface{} { return map[string]interface{}{"refused": what} })
		ev.Label("refused " + strings.SplitN(bad[0], "=", 2)[0])
	})

	run(t, ev, "port taken", 6, 60, func(rt *rapid.T) {
		c := newCluster()
		defer c.srv.Close()
		l, err := net.Listen("tcp", ":0")
		if err != nil {
			t.Fatal(err)
		}
		defer l.Close()
		p := spawn(t, c, home, "-p", strconv.Itoa(l.Addr().(*net.TCPAddr).Port), fmt.Sprintf("--level=%d", rapid.IntRange(-1, 7).Draw(rt, "level")))
		defer p.kill()
		select {
		case <-p.done:
		case <-time.After(patience(60)):
			hung.Store(true)
			rt.Fatalf("the port is taken, but the command goes on")
		}
		if p.err == nil {
			rt.Fatalf("the port is taken, but the command ends as if it had succeeded")
		}
		ev.Case("port taken", true, nil)
	})

	run(t, ev, "served", 14, 400, func(rt *rapid.T) {
		const width = 4
		type unit struct {
			a           *lane
			args        [2][]string
			port        [2]int
			hash, block int
			garbage     [][]byte
			paths       []string
			log         []string
			bad         string
		}
		var us []*unit
		for i := 0; i < width; i++ {
			u := &unit{a: newLane(tn, genPlan(rt))}
			u.args[0], u.port[0], u.hash, u.block = genArgs(rt, 12000+1000*i)
			u.args[1], u.port[1], _, _ = genArgs(rt, 12500+1000*i)
			for k := 0; k < 4; k++ {
				u.garbage = append(u.garbage, rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(rt, "garbage"))
			}
			u.paths = []string{rapid.SampledFrom([]string{"/", "/shop", "/a/b.c"}).Draw(rt, "path")}
			us = append(us, u)
		}
		one := func(u *unit) string {
			a := u.a
			i := 0
			for ; a.steps[i].Op != "start"; i++ {
				a.apply(a.steps[i])
			}
			defer func() {
				a.c.srv.CloseClientConnections()
				go a.c.srv.Close()
			}()
			p := spawn(t, a.c, home, u.args[0]...)
			defer func() { p.kill() }()
			l, w, bad := connect(p, a.c, u.port[0])
			if bad != "" {
				return bad
			}
			defer func() { _ = w.conn.Close() }()
			a.l = l
			if all := listens(p.cmd.Process.Pid); len(all) > 0 && fmt.Sprint(all) != fmt.Sprint([]int{u.port[0]}) {
				return fmt.Sprintf("the command listens on %d ports: the one asked for and others", len(all))
			}
			if a.rest(i + 1); a.bad != "" {
				return a.bad + a.log()
			}
			// logins over the wire
			app := newApp(l, nil)
			defer app.tn.close()
			if !l.sync() {
				return "the process does not pick up its configuration"
			}
			b, b2 := &Browser{}, &Browser{}
			g := grant{access: app.accessToken(nil), id: app.idToken(nil), ref: "r1"}
			path := u.paths[0]
			if ans := b.login(app, path, "code", g); !ans.Redirect() || ans.Header("location") != "https://shop.example.com"+path {
				return "login over the wire: " + ans.everything()
			}
			if ans := b.send(app, app.req(path)); !ans.OK() || ans.Auth != "Bearer "+g.access+" "+g.id {
				return "session over the wire: " + ans.everything()
			}
			hash, block := l.cookieKeys()
			if len(hash) != u.hash || len(block) != u.block {
				return fmt.Sprintf("the cookie keys have %d and %d bytes, asked for were %d and %d", len(hash), len(block), u.hash, u.block)
			}
			// nonsense in between
			for _, g := range u.garbage {
				var res []byte
				ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
				_ = w.conn.Invoke(ctx, "/authnz.HandleAuthnZService/HandleAuthnZ", g, &res, grpc.CallCustomCodec(rawCodec{}))
				cancel()
				if c, err := net.Dial("tcp", fmt.Sprintf("127.0.0.1:%d", u.port[0])); err == nil {
					_, _ = c.Write(g)
					_, _ = io.WriteString(c, "PRI * HTTP/2.0\r\n\r\nSM\r\n\r\nxxxxxxxxxxxxxxxxxxxxxxxx")
					_ = c.Close()
				}
			}
			var wg sync.WaitGroup
			results := make([]Answer, 16)
			for k := range results {
				wg.Add(1)
				go func(k int) {
					defer wg.Done()
					r := app.req(path)
					if k%2 == 0 {
						r.Cookies = b.header()
					}
					if k%4 > 1 { // as many bytes of headers as proxies let through
						r.Cookies += "; pad=" + strings.Repeat("x", 4000<<(k/3))
					}
					results[k] = l.do(r.msg())
				}(k)
			}
			wg.Wait()
			for k, ans := range results {
				if k%2 == 0 && !ans.OK() || k%2 == 1 && !app.isLogin(ans) {
					return fmt.Sprintf("request %d of 16 at once: %s", k, ans.everything())
				}
			}
			if ans := b.send(app, app.req(strings.TrimSuffix(path, "/")+"/oidc/logout")); !ans.Redirect() {
				return "logout over the wire: " + ans.everything()
			}
			// a login begun with this process is completed with the next one, whatever its key sizes
			begun := b2.send(app, app.req(path))
			_, q, ok := authRequest(begun)
			if !ok {
				return "no login over the wire: " + begun.everything()
			}
			if p.exited() {
				return fmt.Sprintf("the process ended by itself: %v", p.err)
			}
			p.kill()
			if listening(u.port[0]) {
				return "somebody else listens on the port"
			}
			p = spawn(t, a.c, home, u.args[1]...)
			l2, w2, bad := connect(p, a.c, u.port[1])
			if bad != "" {
				return "restarted: " + bad
			}
			defer func() { _ = w2.conn.Close() }()
			a.l, app.l = l2, l2
			if !l2.sync() {
				return "the restarted process does not pick up its configuration"
			}
			if ans := b.send(app, app.req(path)); !app.isLogin(ans) {
				return "restarted: an old session gets " + ans.everything()
			}
			app.issue("code2", grant{access: g.access, id: g.id})
			r := app.req(strings.TrimSuffix(path, "/") + "/oidc/callback")
			r.Code, r.State = "code2", q.Get("state")
			if ans := b2.send(app, r); !ans.Redirect() || ans.SetCookie() == nil {
				return "restarted: a login begun before gets " + ans.everything()
			}
			if ans := b2.send(app, app.req(path)); !ans.OK() {
				return "restarted: the new session gets " + ans.everything()
			}
			if h2, b2 := l2.cookieKeys(); !bytes.Equal(h2, hash) || !bytes.Equal(b2, block) {
				return "restarted: the cookie keys have changed"
			}
			for _, s := range a.steps {
				if s.Op == "ask" {
					for _, r := range s.Asks {
						if bad := a.ask(r); bad != "" {
							return fmt.Sprintf("restarted: request %s %s/%s %s: %s%s", r.Method, r.NS, r.Svc, r.Path, bad, a.log())
						}
					}
				}
			}
			return ""
		}
		var wg sync.WaitGroup
		for _, u := range us {
			wg.Add(1)
			go func(u *unit) { defer wg.Done(); u.bad = one(u) }(u)
		}
		wg.Wait()
		tn.forget()
		for _, u := range us {
			line := func(k int) string {
				return strings.ReplaceAll(strings.Join(u.args[k], " "), strconv.Itoa(u.port[k]), "PORT")
			}
			if u.bad != "" {
				rt.Fatalf("%q then %q: %s", line(0), line(1), stripRandom(scrubPorts(u.bad)))
			}
			ev.Case(line(0)+"|"+line(1)+fmt.Sprint(u.a.steps), true, func() interface{} {
				return map[string]interface{}{"command": line(0), "restarted": line(1), "history": u.a.steps}
			})
			for k, n := range u.a.asked {
				ev.LabelN("decided over the wire: "+k, n)
			}
			ev.Label(fmt.Sprintf("keys %d/%d", u.hash, u.block))
		}
	})
}
