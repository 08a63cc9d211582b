package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C26: how servers are served, how the gRPC client dials, and what the server
// process is assembled from.

func init() {
	register("C26", checkC26,
		"path-sensitive dataflow over SSA: arguments of every TLS constructor, listener and dial call under the configuration facts of its partition; call sites of such calls enumerated over the module",
		"every call in the module that serves, dials or builds transport credentials lies on the analysed partitions; plain-text serving and dialling only under the insecure flag of the configuration; certificate, key, roots and addresses are those configured; the server process wires the configured policy, database and servers")
}

// transportCalls are the library calls that decide how bytes travel.
var transportCalls = map[string]string{
	"net/http.ListenAndServe":                                    "http-plain",
	"net/http.Serve":                                             "http-plain",
	"(*net/http.Server).ListenAndServe":                          "http-plain",
	"(*net/http.Server).Serve":                                   "http-plain",
	"net/http.ListenAndServeTLS":                                 "http-tls",
	"net/http.ServeTLS":                                          "http-tls",
	"(*net/http.Server).ListenAndServeTLS":                       "http-tls",
	"(*net/http.Server).ServeTLS":                                "http-tls",
	"google.golang.org/grpc.NewServer":                           "grpc-server",
	"google.golang.org/grpc.Dial":                                "grpc-dial",
	"google.golang.org/grpc.DialContext":                         "grpc-dial",
	"google.golang.org/grpc.NewClient":                           "grpc-dial",
	"google.golang.org/grpc.WithInsecure":                        "grpc-insecure",
	"google.golang.org/grpc/credentials/insecure.NewCredentials": "grpc-insecure",
	"google.golang.org/grpc.WithTransportCredentials":            "grpc-creds",
	"google.golang.org/grpc.WithCredentialsBundle":               "grpc-other",
	"google.golang.org/grpc.WithContextDialer":                   "grpc-other",
	"google.golang.org/grpc.WithDialer":                          "grpc-other",
	"google.golang.org/grpc/credentials.NewTLS":                  "tls-config",
	"google.golang.org/grpc/credentials.NewClientTLSFromCert":    "tls-client-pool",
	"google.golang.org/grpc/credentials.NewClientTLSFromFile":    "tls-other",
	"google.golang.org/grpc/credentials.NewServerTLSFromFile":    "tls-server-file",
	"google.golang.org/grpc/credentials.NewServerTLSFromCert":    "tls-other",
	"crypto/tls.Listen":                                          "tls-other",
	"crypto/tls.NewListener":                                     "tls-other",
	"crypto/tls.Dial":                                            "tls-other",
}

func checkC26(c *Check) {
	sites := map[ssa.Instruction]string{}
	for _, fn := range c.w.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if call, ok := in.(ssa.CallInstruction); ok {
					if g := call.Common().StaticCallee(); g != nil && transportCalls[fullName(g)] != "" {
						sites[in] = fullName(g)
						c.count("transport calls")
					}
				}
				if st, ok := in.(*ssa.Store); ok {
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
						if n, _ := fieldName(derefType(fa.X.Type()), fa.Field); n == "InsecureSkipVerify" {
							k, ok := st.Val.(*ssa.Const)
							c.must(ok && k.Value != nil && k.Value.String() == "false", "verification-kept", fn.String(), in.Pos(), "the verification of server certificates is switched off in %s", fn)
						}
					}
				}
			}
		}
	}
	t := &transport{c: c, seen: map[ssa.Instruction]bool{}}
	if fn := c.fn("server/grpc", "StartServer"); fn != nil {
		t.grpcServer(fn)
	}
	if fn := c.fn("server/httprest", "StartServer"); fn != nil {
		t.restServer(fn)
	}
	if fn := c.fn("server/grpc", "Client.Dial"); fn != nil {
		t.dial(fn)
	}
	if fn := c.fn("cmd/vdbserver", "main"); fn != nil {
		t.process(fn)
	}
	for in, name := range sites {
		c.must(t.seen[in], "transport-call-analysed", in.Parent().String(), in.Pos(), "%s is called in %s, outside what serves and dials under the configuration", name, in.Parent())
	}
	c.min("transport calls", 6)
}

type transport struct {
	c    *Check
	seen map[ssa.Instruction]bool
}

// walk visits the transport calls of every partition.
func (t *transport) walk(e *exploration, visit func(p *Path, f *Facts, ev *Event, kind string)) {
	for _, p := range e.paths {
		if p.facts().dead {
			continue
		}
		allEvents(p, func(q *Path, ev *Event) {
			if k := transportCalls[ev.Callee]; k != "" && (ev.Kind == ECall || ev.Kind == EGo) {
				t.seen[ev.Instr] = true
				t.c.count("calls on partitions")
				visit(q, q.at(ev), ev, k)
			}
		})
	}
}

func (t *transport) confParam(fn *ssa.Function) *Term {
	for _, p := range fn.Params {
		if isNamedType(derefType(p.Type()), "pb.ServerConfig") {
			return ParamSym(p)
		}
	}
	t.c.anchorFail("configuration parameter of " + fn.String())
	return nil
}

func (t *transport) serviceParam(fn *ssa.Function) *Term {
	for _, p := range fn.Params {
		if n, ok := p.Type().(*types.Named); ok && strings.HasSuffix(n.Obj().Name(), "ServiceServer") {
			return ParamSym(p)
		}
	}
	t.c.anchorFail("service parameter of " + fn.String())
	return nil
}

// strip removes the interface wrapping of a value.
func strip(t *Term) *Term {
	for t != nil && t.Op == OIface {
		t = t.Args[0]
	}
	return t
}

func madeBy(p *Path, t *Term, callee string) *Event {
	t = strip(t)
	if t == nil {
		return nil
	}
	for _, ev := range p.St.events {
		if ev.Kind == ECall && ev.Callee == callee && len(ev.Res) > 0 && strip(ev.Res[0]) == t {
			return ev
		}
	}
	return nil
}

func listElems(t *Term) ([]*Term, bool) {
	switch {
	case t == nil || t.IsNil() || t.Op == OZero:
		return nil, true
	case t.Op == OList:
		return t.Args, true
	case t.Op == OAppend:
		a, ok := listElems(t.Args[0])
		b, ok2 := listElems(t.Args[1])
		return append(append([]*Term{}, a...), b...), ok && ok2
	}
	return nil, false
}

func (t *transport) grpcServer(fn *ssa.Function) {
	c := t.c
	conf, svc := t.confParam(fn), t.serviceParam(fn)
	if conf == nil || svc == nil {
		return
	}
	e := c.explore(fn, litNil(conf).Not())
	t.walk(e, func(p *Path, f *Facts, ev *Event, kind string) {
		switch kind {
		case "grpc-server":
			if f.Implies(asLit(SF(conf, "InsecureServerForTesting"))) {
				c.count("insecure servers")
				return
			}
			why := "it is given no transport credentials"
			opts, ok := listElems(ev.Snap[0])
			if !ok {
				why = "its options are not known"
			}
			for _, o := range opts {
				cr := madeBy(p, o, "google.golang.org/grpc.Creds")
				if cr == nil {
					continue
				}
				if tc := madeBy(p, cr.Args[0], "google.golang.org/grpc/credentials.NewServerTLSFromFile"); tc != nil &&
					eqv(f, tc.Args[0], SF(conf, "ServerCertPath")) && eqv(f, tc.Args[1], SF(conf, "ServerKeyPath")) && succeeded(f, tc) {
					why = ""
				} else if why = t.serverConfig(p, f, cr.Args[0], conf); why == "" {
					break
				}
			}
			c.must(why == "", "server-uses-tls", "grpc.StartServer", ev.Pos, "the gRPC server can serve without the configured certificate and key although the insecure flag is not set: %s", why)
		case "tls-server-file":
		case "tls-config":
		default:
			c.fail("transport-call-analysed", "grpc.StartServer", ev.Pos, "%s is not known to keep the transport of the gRPC server secure", ev.Callee)
		}
	})
	for _, p := range e.paths {
		if p.facts().dead || p.End == "exit" || p.End == "panic" {
			continue
		}
		f := p.facts()
		if p.End == "return" && len(p.Results) > 0 && p.retErr() != nil && f.Implies(litNil(p.retErr()).Not()) {
			continue
		}
		// what is served, and where
		var served, lis *Event
		for _, ev := range p.St.events {
			if ev.Callee == "(*google.golang.org/grpc.Server).Serve" {
				served, lis = ev, madeBy(p, ev.Args[1], "net.Listen")
			}
		}
		if !c.must(served != nil, "server-serves", "grpc.StartServer", p.Pos, "the gRPC server can return without serving and without an error") {
			continue
		}
		c.count("servers")
		c.must(madeBy(p, served.Args[0], "google.golang.org/grpc.NewServer") != nil, "server-serves", "grpc.StartServer", served.Pos, "the gRPC server served is not the one that was set up")
		c.must(lis != nil && eqv(f, lis.Args[0], SF(conf, "GrpcListenProtocol")) && eqv(f, lis.Args[1], SF(conf, "GrpcListenBind")), "configured-address", "grpc.StartServer", served.Pos, "the gRPC server listens elsewhere than configured")
		reg := false
		for _, ev := range p.St.events {
			if strings.HasSuffix(ev.Callee, ".RegisterVerifiableDataStructuresServiceServer") && ev.Seq < served.Seq && strip(ev.Args[0]) == strip(served.Args[0]) && strip(ev.Args[1]) == svc {
				reg = true
			}
		}
		c.must(reg, "serves-the-service", "grpc.StartServer", served.Pos, "the gRPC server serves something else than the given service")
	}
	c.min("servers", 2)
}

// serverConfig: credentials made from a configuration holding the configured pair.
func (t *transport) serverConfig(p *Path, f *Facts, creds, conf *Term) string {
	n := madeBy(p, creds, "google.golang.org/grpc/credentials.NewTLS")
	if n == nil {
		return "its credentials are not made from the configured certificate and key"
	}
	certs, ok := listElems(SF(n.Snap[0], "Certificates"))
	if !ok || len(certs) != 1 {
		return "its certificates are not known"
	}
	pair := madeBy(p, certs[0], "crypto/tls.LoadX509KeyPair")
	if pair == nil || !eqv(f, pair.Args[0], SF(conf, "ServerCertPath")) || !eqv(f, pair.Args[1], SF(conf, "ServerKeyPath")) || !succeeded(f, pair) {
		return "its certificate is not the configured one"
	}
	return ""
}

func (t *transport) restServer(fn *ssa.Function) {
	c := t.c
	conf, svc := t.confParam(fn), t.serviceParam(fn)
	create := c.fn("server/httprest", "CreateRESTHandler")
	if conf == nil || svc == nil || create == nil {
		return
	}
	e := c.exploreWith(fn, func(ex *Explorer) { ex.opaque = func(g *ssa.Function) bool { return g == create } }, litNil(conf).Not())
	site := map[*Event]bool{}
	t.walk(e, func(p *Path, f *Facts, ev *Event, kind string) {
		site[ev] = true
		switch kind {
		case "http-plain":
			c.must(f.Implies(asLit(SF(conf, "InsecureServerForTesting"))), "server-uses-tls", "httprest.StartServer", ev.Pos, "the REST server can serve without TLS although the insecure flag is not set")
		case "http-tls":
			n := len(ev.Args)
			i := n - 2 // methods: certificate and key last
			if strings.HasPrefix(ev.Callee, "net/http.ListenAndServeTLS") {
				i = 1
			}
			c.must(eqv(f, ev.Args[i], SF(conf, "ServerCertPath")) && eqv(f, ev.Args[i+1], SF(conf, "ServerKeyPath")), "server-uses-tls", "httprest.StartServer", ev.Pos, "the REST server serves with a certificate or key other than the configured ones")
			if strings.HasPrefix(ev.Callee, "(") {
				cfg := SF(ev.Snap[0], "TLSConfig")
				for _, n := range []string{"Certificates", "GetCertificate", "GetConfigForClient"} {
					c.must(cfg == nil || f.Implies(litNil(cfg)) || isNilVal(f, SF(cfg, n)), "server-uses-tls", "httprest.StartServer", ev.Pos, "the REST server is given certificates other than the configured one")
				}
			}
		default:
			c.fail("transport-call-analysed", "httprest.StartServer", ev.Pos, "%s is not known to keep the transport of the REST server secure", ev.Callee)
		}
	})
	for _, p := range e.paths {
		f := p.facts()
		if f.dead || p.End == "exit" || p.End == "panic" {
			continue
		}
		if p.End == "return" && p.retErr() != nil && f.Implies(litNil(p.retErr()).Not()) {
			continue
		}
		var served *Event
		for _, ev := range p.St.events {
			if site[ev] {
				served = ev
			}
		}
		if !c.must(served != nil, "server-serves", "httprest.StartServer", p.Pos, "the REST server can return without serving and without an error") {
			continue
		}
		c.count("servers")
		var addr, h *Term
		switch {
		case strings.HasPrefix(served.Callee, "net/http.ListenAndServe"):
			addr, h = served.Args[0], served.Args[len(served.Args)-1]
		case strings.HasPrefix(served.Callee, "(*net/http.Server).ListenAndServe"):
			addr, h = SF(served.Snap[0], "Addr"), SF(served.Snap[0], "Handler")
		}
		c.must(addr != nil && eqv(f, addr, SF(conf, "RestListenBind")), "configured-address", "httprest.StartServer", served.Pos, "the REST server listens elsewhere than configured")
		mk := madeBy(p, h, fullName(create))
		c.must(mk != nil && strip(mk.Args[0]) == svc, "serves-the-service", "httprest.StartServer", served.Pos, "the REST server serves something else than the given service")
	}
	c.min("servers", 2)
}

func (t *transport) dial(fn *ssa.Function) {
	c := t.c
	g := ParamSym(fn.Params[0])
	e := c.explore(fn, litNil(g).Not())
	insecure := SF(g, "NoGrpcSecurity")
	der := SF(g, "CertDer")
	t.walk(e, func(p *Path, f *Facts, ev *Event, kind string) {
		switch kind {
		case "grpc-insecure":
			c.must(f.Implies(asLit(insecure)), "client-verifies", "Client.Dial", ev.Pos, "the gRPC client can connect without transport security although its no-security flag is not set")
		case "tls-config":
			why := t.clientConfig(p, f, ev.Snap[0], der)
			c.must(why == "", "client-verifies", "Client.Dial", ev.Pos, "the gRPC client can accept a server it should not: %s", why)
		case "tls-client-pool":
			why := t.pool(p, f, ev.Args[0], der)
			if why == "" && !f.Implies(litEQ0(LenOf(ev.Args[1]))) {
				why = "the server name is overridden"
			}
			c.must(why == "", "client-verifies", "Client.Dial", ev.Pos, "the gRPC client can accept a server it should not: %s", why)
		case "grpc-creds":
			ok := false
			for _, n := range []string{"google.golang.org/grpc/credentials.NewTLS", "google.golang.org/grpc/credentials.NewClientTLSFromCert", "google.golang.org/grpc/credentials/insecure.NewCredentials"} {
				ok = ok || madeBy(p, ev.Args[0], n) != nil
			}
			c.must(ok, "client-verifies", "Client.Dial", ev.Pos, "the transport credentials of the gRPC client come from elsewhere")
		case "grpc-dial":
			c.count("dials")
			i := len(ev.Args) - 2
			c.must(eqv(f, ev.Args[i], SF(g, "Address")), "configured-address", "Client.Dial", ev.Pos, "the gRPC client connects to another address than the given one")
			opts, ok := listElems(ev.Snap[i+1])
			n := 0
			for _, o := range opts {
				if madeBy(p, o, "google.golang.org/grpc.WithTransportCredentials") != nil {
					n++
				}
				if madeBy(p, o, "google.golang.org/grpc.WithInsecure") != nil {
					n++
				}
			}
			c.must(ok && n > 0, "client-verifies", "Client.Dial", ev.Pos, "the gRPC client dials without transport credentials")
		default:
			c.fail("transport-call-analysed", "Client.Dial", ev.Pos, "%s is not known to keep the transport of the gRPC client secure", ev.Callee)
		}
	})
	for _, p := range e.paths {
		f := p.facts()
		if p.End != "return" || f.dead || !p.maySucceed() {
			continue
		}
		c.count("connections")
		ok := false
		for _, ev := range p.St.events {
			if transportCalls[ev.Callee] == "grpc-dial" && succeeded(f, ev) {
				for _, n := range p.St.events {
					if strings.HasSuffix(n.Callee, ".NewVerifiableDataStructuresServiceClient") && len(n.Args) == 1 && strip(n.Args[0]) == strip(ev.Res[0]) {
						ok = true
					}
				}
			}
		}
		c.must(ok, "client-uses-connection", "Client.Dial", p.Pos, "the gRPC client returned does not use the connection that was dialled")
	}
	c.min("connections", 3)
	c.min("dials", 3)
}

// clientConfig: "" when the configuration verifies the server against the given
// roots, or the system's when none are given.
func (t *transport) clientConfig(p *Path, f *Facts, cfg, der *Term) string {
	if cfg == nil {
		return "its configuration is not known"
	}
	if k := SF(cfg, "InsecureSkipVerify"); k == nil || !f.Implies(asLit(k).Not()) {
		return "verification is switched off"
	}
	if k := SF(cfg, "ServerName"); k == nil || !f.Implies(litEQ0(LenOf(k))) {
		return "the server name is overridden"
	}
	return t.pool(p, f, SF(cfg, "RootCAs"), der)
}

func (t *transport) pool(p *Path, f *Facts, roots, der *Term) string {
	if roots == nil {
		return "its roots are not known"
	}
	if f.Implies(litNil(roots)) {
		if f.Implies(litEQ0(LenOf(der))) || f.Implies(litNil(der)) {
			return ""
		}
		return "the system roots are used although a certificate is given"
	}
	if madeBy(p, roots, "crypto/x509.NewCertPool") == nil {
		return "its roots do not start from an empty pool"
	}
	added := false
	for _, ev := range p.St.events {
		if ev.Kind != ECall || len(ev.Args) == 0 || strip(ev.Args[0]) != strip(roots) || !strings.HasPrefix(ev.Callee, "(*crypto/x509.CertPool).") {
			continue
		}
		if ev.Callee == "(*crypto/x509.CertPool).AppendCertsFromPEM" && ev.Args[1] == der {
			if f.Implies(asLit(ev.Res[0])) {
				added = true
			}
			continue
		}
		if !strings.HasPrefix(ev.Callee, "(*crypto/x509.CertPool).Append") && !strings.HasPrefix(ev.Callee, "(*crypto/x509.CertPool).Add") {
			continue
		}
		return "other roots are added"
	}
	if !added {
		return "the given certificate may not be among its roots"
	}
	return ""
}

// process checks what the server process starts.
func (t *transport) process(fn *ssa.Function) {
	c := t.c
	gs, rs := c.fn("server/grpc", "StartServer"), c.fn("server/httprest", "StartServer")
	impl := c.serviceImpl()
	if gs == nil || rs == nil || impl == nil {
		return
	}
	e := c.exploreWith(fn, func(ex *Explorer) {
		ex.opaque = func(g *ssa.Function) bool { return g == gs || g == rs }
		ex.goRun = true
	})
	t.walk(e, func(p *Path, f *Facts, ev *Event, kind string) {
		c.fail("transport-call-analysed", "vdbserver", ev.Pos, "the server process calls %s itself", ev.Callee)
	})
	args := "g:os.Args"
	starts := map[*ssa.Function]map[*ssa.Function]bool{gs: {gs: true}, rs: {rs: true}}
	for _, p := range e.paths {
		for _, ev := range p.St.events {
			if (ev.Kind == ECall || ev.Kind == EGo) && (ev.Fn == gs || ev.Fn == rs) {
				for _, fn := range ev.Stack {
					starts[ev.Fn][fn] = true
				}
			}
		}
	}
	for _, p := range e.paths {
		f := p.facts()
		if f.dead {
			continue
		}
		started := map[*ssa.Function]*Event{}
		var conf, read *Term // the configuration read from the file
		for _, ev := range p.St.events {
			if strings.HasSuffix(ev.Callee, "prototext.Unmarshal") || strings.HasSuffix(ev.Callee, "prototext.UnmarshalOptions).Unmarshal") {
				if madeBy(p, ev.Args[len(ev.Args)-2], "os.ReadFile") != nil && succeeded(f, ev) {
					conf = ev.Args[len(ev.Args)-1]
					read = ev.Val
				}
			}
		}
		configured := SymLen(f, args, 2)
		for _, ev := range p.St.events {
			if ev.Kind != ECall && ev.Kind != EGo || ev.Fn != gs && ev.Fn != rs {
				continue
			}
			c.count("servers started")
			started[ev.Fn] = ev
			if ev.Kind == ECall && !inGoroutine(p, ev) {
				for _, nx := range p.St.events {
					if nx.Seq > ev.Seq && (nx.Kind == EGo || nx.Kind == ECall) && nx.Fn != nil && (starts[gs][nx.Fn] || starts[rs][nx.Fn]) {
						c.fail("configured-servers-run", "vdbserver", ev.Pos, "a server is started after one that runs until the process ends")
					}
				}
			}
			svc := t.service(ev.Snap[1], impl)
			if !c.must(svc != nil, "configured-process", "vdbserver", ev.Pos, "the server process serves something other than a service it created") {
				continue
			}
			policy := strip(SF(svc, "AccessPolicy"))
			if conf == nil {
				// the demonstration mode
				c.must(f.Implies(configured.Not()), "demo-only-without-configuration", "vdbserver", ev.Pos, "the server process can start without reading its configuration although one is given")
				continue
			}
			c.must(strip(ev.Args[0]) == strip(conf), "configured-process", "vdbserver", ev.Pos, "a server is started with a configuration other than the one read")
			cf := SF(ev.Snap[0], "Accounts")
			if st, ok := gs.Params[0].Type().(*types.Pointer).Elem().Underlying().(*types.Struct); ok && read != nil {
				for i := 0; i < st.NumFields(); i++ {
					n := st.Field(i).Name()
					if st.Field(i).Exported() {
						a, b := SF(ev.Snap[0], n), SF(read, n)
						c.must(a != nil && (a == b || eqv(f, a, b)), "configuration-as-read", "vdbserver "+n, ev.Pos, "a server is started with a %s other than the one configured: %s", n, brief(a))
					}
				}
			}
			c.must(typedAs(policy, "policy.Static") && cf != nil && isPolicyOf(policy, cf), "configured-policy", "vdbserver", ev.Pos, "the configured server process does not enforce the configured accounts: its policy is %s", brief(policy))
			w, r := SF(SF(svc, "Mutator"), "Writer"), SF(svc, "Reader")
			c.must(isStore(w, SF(ev.Snap[0], "BoltDbPath")) && isStore(r, SF(ev.Snap[0], "BoltDbPath")), "configured-database", "vdbserver", ev.Pos, "the configured server process does not use the configured database: %s, %s", brief(w), brief(r))
			flag := "GrpcServer"
			if ev.Fn == rs {
				flag = "RestServer"
			}
			c.must(p.at(ev).Implies(asLit(SF(ev.Snap[0], flag))), "only-configured-servers", "vdbserver", ev.Pos, "the server process can start a server that is not configured (%s)", flag)
		}
		if conf != nil && (p.End == "block" || p.End == "return") {
			for _, ev := range p.St.events {
				if ev.Kind == EGo && ev.Fn != nil {
					for _, g := range []*ssa.Function{gs, rs} {
						if starts[g][ev.Fn] {
							started[g] = ev
						}
					}
				}
			}
			snap := e.ex.Snap(p.St, conf, nil)
			for fl, g := range map[string]*ssa.Function{"GrpcServer": gs, "RestServer": rs} {
				if b := SF(snap, fl); b != nil && !f.Implies(asLit(b).Not()) {
					c.must(started[g] != nil, "configured-servers-run", "vdbserver "+fl, p.Pos, "the server process may not start a server that is configured (%s)", fl)
				}
			}
		}
	}
	c.min("servers started", 3)
}

// SymLen is the fact that a global list has n elements.
func SymLen(f *Facts, name string, n int64) Lit {
	for _, l := range f.lits {
		var x *Term
		l.A.Any(func(t *Term) bool {
			if t.Op == OSym && t.Aux == name {
				x = t
			}
			return x != nil
		})
		if x != nil {
			return litEQ0(AddC(LenOf(x), -n))
		}
	}
	return Lit{tTrue, false}
}

// typedAs: the value is (a pointer to) a struct of the named type.
func typedAs(t *Term, suffix string) bool {
	t = strip(t)
	if t != nil && t.Op == OApp && t.Aux == "&" {
		t = t.Args[0]
	}
	return t != nil && t.Op == OStruct && isNamedType(t.Type, suffix)
}

// service gives the parts of a service of the implementing type.
func (t *transport) service(v *Term, impl types.Type) *Term {
	v = strip(v)
	if v != nil && v.Op == OApp && v.Aux == "&" {
		v = v.Args[0]
	}
	if v == nil || v.Op != OStruct || !types.Identical(derefType(v.Type).Underlying(), derefType(impl).Underlying()) {
		return nil
	}
	return v
}

func isPolicyOf(pol, accounts *Term) bool { return SF(pol, "Policy") == accounts }

func isStore(s, path *Term) bool {
	return typedAs(s, "bolt.Storage") && path != nil && SF(s, "Path") == path
}

// inGoroutine: the event belongs to a function started by a go statement.
func inGoroutine(p *Path, ev *Event) bool {
	for _, g := range p.St.events {
		if g.Kind != EGo || g.Seq > ev.Seq {
			continue
		}
		for _, fn := range ev.Stack {
			if fn == g.Fn {
				return true
			}
		}
	}
	return false
}
