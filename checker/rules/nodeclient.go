package rules

import (
	"strings"

	"verif/checker/engine"
)

func init() {
	register(&Prop{
		ID:   "P38",
		Note: "every node client call is reduced to the HTTP request it sends and to the conditions under which it returns data, and compared with the interface of the node",
		Min:  200,
		Run:  func(c *Ctx) { c.nodeclient() },
	})
}

// httpCall is a request of the client and what comes back, as terms of the caller's arguments.
type httpCall struct {
	client             string // the *Client
	ctx                string
	serix              string
	method, path, body string
}

func (h httpCall) request() string {
	return "http.NewRequestWithContext(" + h.ctx + ", \"" + h.method + "\", strcat(" + h.client + ".BaseURL, " + h.path + "), " + h.body + ")"
}
func (h httpCall) sent() string {
	return "Do(" + h.client + ".opts.httpClient, res(" + h.request() + ", 0))"
}
func (h httpCall) response() string { return "res(" + h.sent() + ", 0)" }
func (h httpCall) status() string   { return h.response() + ".StatusCode" }
func (h httpCall) read() string     { return "io.ReadAll(" + h.response() + ".Body)" }
func (h httpCall) answered() string {
	return "ok(" + h.request() + ", 1) && ok(" + h.sent() + ", 1)"
}
func (h httpCall) decoded(T string) string {
	return "JSONDecode(" + h.serix + ", " + h.ctx + ", res(" + h.read() + ", 0), zeroval(" + T + "), nil)"
}

func plainClient(client string) string {
	return client + ".opts.requestURLHook == nil && " + client + ".opts.userInfo == nil"
}

func committed(client string) string { return "Underlying(" + client + ".apiProvider.committedAPI)" }

func (c *Ctx) nodeclient() {
	opaque := []string{"Bech32", "SetCommittedSlot"}
	get := func(anchor string, names []string, kase, assume, client, path, T string) (*Sum, httpCall) {
		a := plainClient(client)
		if assume != "" {
			a += " && " + assume
		}
		h := httpCall{client: client, ctx: "ctx", serix: committed(client), method: "GET", path: path, body: "nil"}
		return c.Sum("nodeclient:"+anchor, Opt{Names: names, Assume: a, Opaque: opaque, Case: kase, Events: true}), h
	}
	// JSON answers
	bech := func(client, a string) string {
		return "Bech32(" + a + ", Bech32HRP(ProtocolParameters(" + client + ".apiProvider.committedAPI)))"
	}
	lit := func(parts ...string) string { return "strcat(" + strings.Join(parts, ", ") + ")" }
	type jsonGet struct {
		anchor, names, kase, assume, path, T string
	}
	core := `"/api/core/v3/`
	for _, g := range []jsonGet{
		{"Client.Routes", "", "", "", `"/api/routes"`, "api.RoutesResponse"},
		{"Client.Info", "", "", "", core + `info"`, "api.InfoResponse"},
		{"Client.NetworkMetrics", "", "", "", core + `network/metrics"`, "api.NetworkMetricsResponse"},
		{"Client.BlockMetadataByBlockID", "id", "", "", lit(core+`blocks/"`, "ToHex(id)", `"/metadata"`), "api.BlockMetadataResponse"},
		{"Client.BlockIssuance", "", "", "", core + `blocks/issuance"`, "api.IssuanceBlockHeaderResponse"},
		{"Client.OutputMetadataByID", "id", "", "", lit(core+`outputs/"`, "ToHex(id)", `"/metadata"`), "api.OutputMetadata"},
		{"Client.TransactionIncludedBlockMetadata", "id", "", "", lit(core+`transactions/"`, "ToHex(id)", `"/included-block/metadata"`), "api.BlockMetadataResponse"},
		{"Client.TransactionMetadata", "id", "", "", lit(core+`transactions/"`, "ToHex(id)", `"/metadata"`), "api.TransactionMetadataResponse"},
		{"Client.CommitmentByID", "id", "", "", lit(core+`commitments/"`, "ToHex(id)"), "iotago.Commitment"},
		{"Client.CommitmentUTXOChangesByID", "id", "", "", lit(core+`commitments/"`, "ToHex(id)", `"/utxo-changes"`), "api.UTXOChangesResponse"},
		{"Client.CommitmentUTXOChangesFullByID", "id", "", "", lit(core+`commitments/"`, "ToHex(id)", `"/utxo-changes/full"`), "api.UTXOChangesFullResponse"},
		{"Client.CommitmentBySlot", "slot", "", "", lit(core+`commitments/by-slot/"`, "decimal(slot)"), "iotago.Commitment"},
		{"Client.CommitmentUTXOChangesBySlot", "slot", "", "", lit(core+`commitments/by-slot/"`, "decimal(slot)", `"/utxo-changes"`), "api.UTXOChangesResponse"},
		{"Client.CommitmentUTXOChangesFullBySlot", "slot", "", "", lit(core+`commitments/by-slot/"`, "decimal(slot)", `"/utxo-changes/full"`), "api.UTXOChangesFullResponse"},
		{"Client.Congestion", "a ws cid", "", "ws == 0 && len(cid) == 0", lit(core+`accounts/"`, bech("c", "a"), `"/congestion"`), "api.CongestionResponse"},
		{"Client.Congestion", "a ws cid", "a work score", "ws > 0 && len(cid) == 0", lit(core+`accounts/"`, bech("c", "a"), `"/congestion?"`, `query("workScore", decimal(ws))`), "api.CongestionResponse"},
		{"Client.Congestion", "a ws cid", "a commitment", "ws == 0 && len(cid) == 1", lit(core+`accounts/"`, bech("c", "a"), `"/congestion?"`, `query("commitmentId", ToHex(cid[0]))`), "api.CongestionResponse"},
		{"Client.Congestion", "a ws cid", "a work score and a commitment", "ws > 0 && len(cid) == 1", lit(core+`accounts/"`, bech("c", "a"), `"/congestion?"`, `query("workScore", decimal(ws), "commitmentId", ToHex(cid[0]))`), "api.CongestionResponse"},
		{"Client.Validators", "size cursor", "", "size == 0 && len(cursor) == 0", core + `validators"`, "api.ValidatorsResponse"},
		{"Client.Validators", "size cursor", "a page size", "size > 0 && len(cursor) == 0", lit(core+`validators?"`, `query("pageSize", decimal(size))`), "api.ValidatorsResponse"},
		{"Client.Validators", "size cursor", "a cursor", "size == 0 && len(cursor) == 1", lit(core+`validators?"`, `query("cursor", cursor[0])`), "api.ValidatorsResponse"},
		{"Client.Validators", "size cursor", "a page size and a cursor", "size > 0 && len(cursor) == 1", lit(core+`validators?"`, `query("pageSize", decimal(size), "cursor", cursor[0])`), "api.ValidatorsResponse"},
		{"Client.Validator", "a", "", "", lit(core+`validators/"`, bech("c", "a")), "api.ValidatorResponse"},
		{"Client.Rewards", "id", "", "", lit(core+`rewards/"`, "ToHex(id)"), "api.ManaRewardsResponse"},
		{"Client.Committee", "epoch", "", "len(epoch) == 0", core + `committee"`, "api.CommitteeResponse"},
		{"Client.Committee", "epoch", "an epoch", "len(epoch) == 1", lit(core+`committee?"`, `query("epoch", decimal(epoch[0]))`), "api.CommitteeResponse"},
		{"managementClient.PeerByID", "id", "", "", lit(`"/api/management/v1/peers/"`, "id"), "api.PeerInfo"},
		{"managementClient.Peers", "", "", "", `"/api/management/v1/peers"`, "api.PeersResponse"},
		{"blockIssuerClient.Info", "", "", "", `"/api/blockissuer/v1/info"`, "api.BlockIssuerInfo"},
	} {
		client := "c"
		if !strings.HasPrefix(g.anchor, "Client.") {
			client = "c.core"
		}
		s, h := get(g.anchor, append([]string{"c", "ctx"}, strings.Fields(g.names)...), g.kase, g.assume, client, g.path, g.T)
		if g.anchor == "Client.Info" || g.anchor == "Client.NetworkMetrics" {
			h.serix = "iotago.CommonSerixAPI()"
		}
		premise := ""
		if g.anchor == "Client.Info" {
			s.Called("moves the committed slot", "SetCommittedSlot", h.status()+" != 204", "arg0 == c.apiProvider && arg1 == unle32(out("+h.decoded(g.T)+", 3, "+g.T+").Status.LatestCommitmentID[32:])")
		}
		if g.anchor == "Client.Info" { // an answer without content holds no status to look at
			premise = h.status() + " != 204"
		}
		s.Exact("only decoded answers", premise, h.answered()+" && ("+h.status()+" == 204 || ("+h.status()+" == 200 || "+h.status()+" == 201) && ok("+h.read()+", 1) && ok("+h.decoded(g.T)+"))")
		s.Require("the content of the answer", "implies("+h.status()+" != 204, content(ret0) == out("+h.decoded(g.T)+", 3, "+g.T+"))")
		s.AtCall("sends the request", "Do", "arg1 == res("+h.request()+", 0)")
	}

	accept := `at(now(arg1.Header), "Accept")[0] == "application/json"`
	acceptRaw := `at(now(arg1.Header), "Accept")[0] == "application/vnd.iota.serializer-v2"`
	_ = accept
	// binary answers
	body := func(h httpCall) string { return "res(" + h.read() + ", 0)" }
	answer := func(h httpCall) string {
		return h.answered() + " && (" + h.status() + " == 200 || " + h.status() + " == 201) && ok(" + h.read() + ", 1)"
	}
	block := func(h httpCall) string { return "dyn(iotago.BlockFromBytes(c), " + body(h) + ")" }
	opaque = append(opaque, "iotago.BlockFromBytes", "APIForSlot", "OutputID")
	for anchor, path := range map[string]string{
		"Client.BlockByBlockID":           lit(core+`blocks/"`, "ToHex(id)"),
		"Client.TransactionIncludedBlock": lit(core+`transactions/"`, "ToHex(id)", `"/included-block"`),
	} {
		s, h := get(anchor, []string{"c", "ctx", "id"}, "", "", "c", path, "")
		s.Exact("only decoded answers", h.status()+" != 204", answer(h)+" && ok("+block(h)+", 2)")
		s.Result("the block of the answer", 0, h.status()+" != 204", "res("+block(h)+", 0)")
		s.AtCall("sends the request", "Do", "arg1 == res("+h.request()+", 0) && "+acceptRaw)
	}
	{
		s, h := get("Client.BlockWithMetadataByBlockID", []string{"c", "ctx", "id"}, "", "", "c", lit(core+`blocks/"`, "ToHex(id)", `"/full"`), "")
		meta := "Decode(APIForSlot(c, id.Slot()), slice(" + body(h) + ", res(" + block(h) + ", 1)), zeroval(api.BlockMetadataResponse), nil)"
		meta = strings.Replace(meta, "id.Slot()", "unle32(id[32:])", 1)
		meta = strings.Replace(meta, "slice("+body(h)+", res("+block(h)+", 1))", body(h)+"[res("+block(h)+", 1):]", 1)
		s.Exact("only decoded answers", h.status()+" != 204", answer(h)+" && ok("+block(h)+", 2) && ok("+meta+", 1)")
		s.RequireIf("the block and the metadata of the answer", h.status()+" != 204", "ret0.Block == res("+block(h)+", 0) && content(ret0.Metadata) == out("+meta+", 2, api.BlockMetadataResponse)")
		s.AtCall("sends the request", "Do", "arg1 == res("+h.request()+", 0) && "+acceptRaw)
	}
	decode := func(h httpCall, T string) string {
		return "Decode(c.apiProvider.committedAPI, " + body(h) + ", zeroval(" + T + "), list(serix.WithValidation()))"
	}
	for anchor, v := range map[string][2]string{
		"Client.OutputByID":             {"", "api.OutputResponse"},
		"Client.OutputWithMetadataByID": {`"/full"`, "api.OutputWithMetadataResponse"},
	} {
		path := lit(core+`outputs/"`, "ToHex(id)")
		if v[0] != "" {
			path = lit(core+`outputs/"`, "ToHex(id)", v[0])
		}
		s, h := get(anchor, []string{"c", "ctx", "id"}, "", "", "c", path, "")
		o := "out(" + decode(h, v[1]) + ", 2, " + v[1] + ")"
		derived := "OutputID(" + o + ".OutputIDProof, " + o + ".Output)"
		s.Exact("only decoded answers that prove the identifier", h.status()+" != 204", answer(h)+" && ok("+decode(h, v[1])+", 1) && ok("+derived+", 1) && res("+derived+", 0) == id")
		s.Result("the output of the answer", 0, h.status()+" != 204", o+".Output")
		if v[0] != "" {
			s.Result("the metadata of the answer", 1, h.status()+" != 204", o+".Metadata")
		}
		s.AtCall("sends the request", "Do", "arg1 == res("+h.request()+", 0) && "+acceptRaw)
	}
	{
		s, h := get("Client.TransactionByID", []string{"c", "ctx", "id"}, "", "", "c", lit(core+`transactions/"`, "ToHex(id)"), "")
		s.Exact("only decoded answers", h.status()+" != 204", answer(h)+" && ok("+decode(h, "iotago.Transaction")+", 1)")
		s.RequireIf("the transaction of the answer", h.status()+" != 204", "content(ret0) == out("+decode(h, "iotago.Transaction")+", 2, iotago.Transaction)")
		s.AtCall("sends the request", "Do", "arg1 == res("+h.request()+", 0) && "+acceptRaw)
	}

	// submitting
	{
		enc := "Encode(res(APIForVersion(c, b.Header.ProtocolVersion), 0), b, nil)"
		h := httpCall{client: "c", ctx: "ctx", method: "POST", path: core + `blocks"`, body: "bytes.NewReader(res(" + enc + ", 0))"}
		s := c.Sum("nodeclient:Client.SubmitBlock", Opt{Names: []string{"c", "ctx", "b"}, Opaque: []string{"APIForVersion", "iotago.BlockIDFromHexString"}, Events: true,
			Assume: plainClient("c") + " && res(" + enc + ", 0) != nil"})
		id := `iotago.BlockIDFromHexString(at(` + h.response() + `.Header, "Location")[0])`
		s.Exact("only accepted blocks", "", "ok(APIForVersion(c, b.Header.ProtocolVersion), 1) && ok("+enc+", 1) && "+h.answered()+" && ("+h.status()+" == 200 || "+h.status()+" == 201 || "+h.status()+" == 204) && ok("+id+", 1)")
		s.Result("the identifier assigned by the node", 0, "", "res("+id+", 0)")
		s.AtCall("sends the block", "Do", "arg1 == res("+h.request()+`, 0) && at(now(arg1.Header), "Content-Type")[0] == "application/vnd.iota.serializer-v2"`)
	}
	{
		req := func(alias string) string { return "&api.AddPeerRequest{MultiAddress: a, Alias: " + alias + "}" }
		for n, alias := range []string{`""`, "alias[0]"} {
			enc := "JSONEncode(" + committed("c.core") + ", ctx, " + req(alias) + ", nil)"
			h := httpCall{client: "c.core", ctx: "ctx", serix: committed("c.core"), method: "POST", path: `"/api/management/v1/peers"`, body: "bytes.NewReader(res(" + enc + ", 0))"}
			s := c.Sum("nodeclient:managementClient.AddPeer", Opt{Names: []string{"c", "ctx", "a", "alias"}, Events: true, Lens: map[string]int{"alias": n}, Case: alias,
				Assume: plainClient("c.core") + " && res(" + enc + ", 0) != nil"})
			s.Exact("only decoded answers", "", "ok("+enc+", 1) && "+h.answered()+" && ("+h.status()+" == 204 || ("+h.status()+" == 200 || "+h.status()+" == 201) && ok("+h.read()+", 1) && ok("+h.decoded("api.PeerInfo")+"))")
			s.RequireIf("the content of the answer", h.status()+" != 204", "content(ret0) == out("+h.decoded("api.PeerInfo")+", 3, api.PeerInfo)")
			s.AtCall("sends the peer", "Do", "arg1 == res("+h.request()+`, 0) && at(now(arg1.Header), "Content-Type")[0] == "application/json" && `+accept)
		}
		h := httpCall{client: "c.core", ctx: "ctx", method: "DELETE", path: lit(`"/api/management/v1/peers/"`, "id"), body: "nil"}
		s := c.Sum("nodeclient:managementClient.RemovePeerByID", Opt{Names: []string{"c", "ctx", "id"}, Events: true, Assume: plainClient("c.core")})
		s.Exact("only if the node did it", "", h.answered()+" && ("+h.status()+" == 204 || "+h.status()+" == 200 || "+h.status()+" == 201)")
		s.AtCall("sends the request", "Do", "arg1 == res("+h.request()+", 0)")
	}

	// health
	for anchor, path := range map[string]string{"Client.Health": `"/health"`, "Client.NetworkHealth": core + `network/health"`} {
		h := httpCall{client: "c", ctx: "ctx", method: "GET", path: path, body: "nil"}
		var foreign []string // errors of the libraries are not errors of this package
		for _, e := range []string{"res(" + h.request() + ", 1)", "res(" + h.sent() + ", 1)", "res(" + h.read() + ", 1)", "json.Unmarshal(res(" + h.read() + ", 0), zeroval(nodeclient.HTTPErrorResponseEnvelope))"} {
			foreign = append(foreign, "!isErr("+e+", nodeclient.ErrHTTPServiceUnavailable)")
		}
		s, h := get(anchor, []string{"c", "ctx"}, "", strings.Join(foreign, " && "), "c", path, "")
		good := "(" + h.status() + " == 204 || " + h.status() + " == 200 || " + h.status() + " == 201)"
		msg := "res(" + h.read() + ", 0)"
		readable := "ok(" + h.read() + ", 1) && (len(" + msg + ") == 0 || json.Unmarshal(" + msg + ", zeroval(nodeclient.HTTPErrorResponseEnvelope)) == nil)"
		s.Result("healthy only if the node says so", 0, "", h.answered()+" && "+good)
		s.Exact("unavailable is an answer", "", h.answered()+" && ("+good+" || "+h.status()+" == 503 && "+readable+")")
		s.AtCall("sends the request", "Do", "arg1 == res("+h.request()+", 0)")
	}

	// errors and options
	{
		h := httpCall{client: "c", ctx: "ctx", method: "", path: "", body: "nil"}
		request := "http.NewRequestWithContext(ctx, m, strcat(c.BaseURL, route), nil)"
		sent := "Do(c.opts.httpClient, res(" + request + ", 0))"
		resp := "res(" + sent + ", 0)"
		msg := "res(io.ReadAll(" + resp + ".Body), 0)"
		readable := "ok(" + request + ", 1) && ok(" + sent + ", 1) && ok(io.ReadAll(" + resp + ".Body), 1) && (len(" + msg + ") == 0 || json.Unmarshal(" + msg + ", zeroval(nodeclient.HTTPErrorResponseEnvelope)) == nil)"
		_ = h
		for _, f := range []string{"Do", "DoWithRequestHeaderHook"} {
			names := []string{"c", "ctx", "m", "route", "req", "res"}
			assume := plainClient("c") + " && req == nil && res == nil"
			if f != "Do" {
				names = []string{"c", "ctx", "m", "route", "hook", "req", "res"}
				assume += " && hook == nil"
			}
			s := c.Sum("nodeclient:Client."+f, Opt{Names: names, Assume: assume, Case: "no content"})
			for code, e := range map[string]string{"400": "BadRequest", "500": "InternalServerError", "404": "NotFound", "401": "Unauthorized", "501": "NotImplemented", "503": "ServiceUnavailable"} {
				s.Always("status "+code+" has its own error", readable+" && "+resp+".StatusCode == "+code, "isErr(ret1, nodeclient.ErrHTTP"+e+")")
			}
			s.Always("another status is an unknown error", readable+" && !("+resp+".StatusCode == 400 || "+resp+".StatusCode == 500 || "+resp+".StatusCode == 404 || "+resp+".StatusCode == 401 || "+resp+".StatusCode == 501 || "+resp+".StatusCode == 503 || "+resp+".StatusCode == 200 || "+resp+".StatusCode == 201 || "+resp+".StatusCode == 204)", "isErr(ret1, nodeclient.ErrHTTPUnknownError)")
			s.Result("the response", 0, "", resp)
		}
		s := c.Sum("nodeclient:Client.Do", Opt{Names: []string{"c", "ctx", "m", "route", "req", "res"}, Case: "a URL hook", Assume: "c.opts.requestURLHook != nil && req == nil && res == nil", Events: true})
		hooked := "http.NewRequestWithContext(ctx, m, dyn(c.opts.requestURLHook, strcat(c.BaseURL, route)), nil)"
		s.AtCall("the hook decides on the URL", "Do", "arg1 == res("+hooked+", 0)")
		s.AtCall("authenticates", "Do", "implies(c.opts.userInfo != nil, now(arg1.URL.User) == c.opts.userInfo)")
		s = c.Sum("nodeclient:Client.DoWithRequestHeaderHook", Opt{Names: []string{"c", "ctx", "m", "route", "hook", "req", "res"}, Case: "a header hook", Assume: plainClient("c") + " && hook != nil && req == nil && res == nil", Events: true})
		s.Called("the hook sees the header", "dyn:hook", "", "arg0 == hook && arg1 == res("+request+", 0).Header")
	}
	c.nodeclientPlugins(lit, bech)
}

// nodeclientPlugins: the clients of the optional parts of a node.
func (c *Ctx) nodeclientPlugins(lit func(...string) string, bech func(client, a string) string) {
	// availability
	s := c.Sum("nodeclient:Client.NodeSupportsRoute", Opt{Names: []string{"c", "ctx", "route"}, Opaque: []string{"Routes"}})
	s.Exact("known only if the node told its routes", "", "ok(Routes(c, ctx), 1)")
	s.Result("one of the routes of the node", 0, "", "ok(Routes(c, ctx), 1) && some(v, res(Routes(c, ctx), 0).Routes, v == route)")
	for _, p := range [][3]string{
		{"Management", "management/v1", "ErrManagementPluginNotAvailable"},
		{"Indexer", "indexer/v2", "ErrIndexerPluginNotAvailable"},
		{"EventAPI", "mqtt/v2", "ErrMQTTPluginNotAvailable"},
		{"BlockIssuer", "blockissuer/v1", "ErrBlockIssuerPluginNotAvailable"},
	} {
		sup := `NodeSupportsRoute(c, ctx, "` + p[1] + `")`
		s := c.Sum("nodeclient:Client."+p[0], Opt{Names: []string{"c", "ctx"}, Opaque: []string{"NodeSupportsRoute", "nodeclient.newEventAPIClient"}})
		s.Exact("only if the node offers it", "", "ok("+sup+", 1) && res("+sup+", 0)")
		s.Always("says so if the node does not offer it", "ok("+sup+", 1) && !res("+sup+", 0)", "isErr(ret1, nodeclient."+p[2]+")")
	}

	// initialisation
	s = c.Sum("nodeclient:New", Opt{Names: []string{"url", "opts"}, Opaque: []string{"Info", "AddProtocolParametersAtEpoch"}, Lens: map[string]int{"opts": 0}, Events: true})
	s.ob("the parameters of the node from their epoch on", func() {
		n := 0
		for _, ev := range s.Out.E.Events {
			calls := engine.Unbox(ev.T)
			if ev.Kind != "call" || len(calls) == 0 || calls[0].T.Op != "call" || calls[0].T.Sym != "AddProtocolParametersAtEpoch" {
				continue
			}
			n++
			for _, a := range calls {
				params, epoch := a.T.Args[1], a.T.Args[2]
				if params.Op != "field" || params.Sym != "Parameters" || epoch.Op != "field" || epoch.Sym != "StartEpoch" || params.Args[0] != epoch.Args[0] || params.Args[0].Op != "elem" {
					Failf("at %s: %s are not the parameters and the epoch of an entry of the answer", c.Pos(ev.Pos), a.T)
				}
				if l := params.Args[0].Args[0].String(); !strings.HasPrefix(l, "Info(") || !strings.HasSuffix(l, ".ProtocolParameters") {
					Failf("at %s: the parameters are not those of the answer but %s", c.Pos(ev.Pos), l)
				}
			}
			if ok, _, w := engine.Sat(c.P, engine.And(s.Out.Succ(), engine.Not(ev.G))); ok {
				Failf("at %s: parameters of the answer are left out: %v", c.Pos(ev.Pos), w)
			}
		}
		if n == 0 {
			Failf("no parameters are taken over")
		}
	})

	// indexer
	{
		for q, route := range map[string]string{
			"OutputsQuery": "", "BasicOutputsQuery": "/basic", "AccountsQuery": "/account", "AnchorsQuery": "/anchor", "FoundriesQuery": "/foundry", "NFTsQuery": "/nft", "DelegationOutputsQuery": "/delegation",
		} {
			h := httpCall{client: "c.core", ctx: "ctx", serix: committed("c.core"), method: "GET", path: lit(`"/api/indexer/v2/outputs`+route+`?"`, "res(URLParams(q), 0)"), body: "nil"}
			s := c.Sum("nodeclient:IndexerResultSet.Next", Opt{Made: "nodeclient:indexerClient.Outputs", Outer: []string{"c", "ctx", "q"}, Names: []string{"r"}, Events: true, Case: q, Opaque: []string{"URLParams", "SetOffset"},
				Assume: plainClient("c.core") + " && is(q, *api." + q + ")"})
			resp := "out(" + h.decoded("api.IndexerResponse") + ", 3, api.IndexerResponse)"
			good := "ok(URLParams(q), 1) && " + h.answered() + " && (" + h.status() + " == 200 || " + h.status() + " == 201) && ok(" + h.read() + ", 1) && ok(" + h.decoded("api.IndexerResponse") + ")"
			s.AtCall("sends the request", "Do", "arg1 == res("+h.request()+", 0)")
			s.Result("more only if the node answered with items", 0, h.status()+" != 204", good+" && len("+resp+".Items) > 0")
			s.Always("failures are kept", "!("+good+") && "+h.status()+" != 204", "final(r.Error) != nil")
			s.Always("the answer is kept", good, "content(final(r.Response)) == "+resp)
		}
		next := c.Sum("nodeclient:IndexerResultSet.Next", Opt{Names: []string{"r"}, Events: true, Case: "any"})
		asked := "!(r.firstQueryDone && r.Response.Cursor == \"\") && dyn(r.nextFunc) == nil"
		next.Result("more only if there was more to ask for", 0, "", asked+" && len(r.Response.Items) > 0")
		next.Called("continues behind the answer", "SetOffset", asked, "arg0 == r.query && arg1 == &r.Response.Cursor")
		next.Always("remembers that it asked", asked, "final(r.firstQueryDone)")
		ids := "OutputIDs(r.Response.Items)"
		s := c.Sum("nodeclient:IndexerResultSet.Outputs", Opt{Names: []string{"r", "ctx"}, Opaque: []string{"OutputByID", "OutputIDs"}})
		s.Exact("only if all outputs were found", "", "ok("+ids+", 1) && all(v, res("+ids+", 0), ok(OutputByID(r.client, ctx, v), 1))")
		s.Result("the outputs of the answer in its order", 0, "", "collect(v, res("+ids+", 0), true, res(OutputByID(r.client, ctx, v), 0))")
	}
	for _, q := range [][4]string{
		{"Account", "AccountOutput", "account/", ""}, {"Anchor", "AnchorOutput", "anchor/", ""}, {"NFT", "NFTOutput", "nft/", ""},
		{"Foundry", "FoundryOutput", "foundry/", "id"}, {"Delegation", "DelegationOutput", "delegation/", "id"},
	} {
		param := bech("c.core", "a")
		if q[3] != "" {
			param = "ToHex(a)"
		}
		path := lit(`"/api/indexer/v2/outputs/`+q[2]+`"`, param)
		h := httpCall{client: "c.core", ctx: "ctx", serix: committed("c.core"), method: "GET", path: path, body: "nil"}
		s := c.Sum("nodeclient:indexerClient."+q[0], Opt{Names: []string{"c", "ctx", "a"}, Assume: plainClient("c.core"), Opaque: []string{"Bech32", "OutputByID", "OutputIDs"}, Events: true})
		resp := "out(" + h.decoded("api.IndexerResponse") + ", 3, api.IndexerResponse)"
		ids := "OutputIDs(" + resp + ".Items)"
		output := "OutputByID(c.core, ctx, res(" + ids + ", 0)[0])"
		s.Exact("only an output found by the indexer and proven by the node", h.status()+" != 204", h.answered()+" && ("+h.status()+" == 200 || "+h.status()+" == 201) && ok("+h.read()+", 1) && ok("+h.decoded("api.IndexerResponse")+") && len("+resp+".Items) != 0 && ok("+ids+", 1) && ok("+output+", 1) && is(res("+output+", 0), *iotago."+q[1]+")")
		s.RequireIf("its identifier", h.status()+" != 204", "content(ret0) == res("+ids+", 0)[0]")
		s.RequireIf("the output", h.status()+" != 204", "ret1 == iface(res("+output+", 0), *iotago."+q[1]+")")
		s.RequireIf("the slot of the indexer", h.status()+" != 204", "ret2 == "+resp+".CommittedSlot")
		s.AtCall("sends the request", "Do", "arg1 == res("+h.request()+`, 0) && at(now(arg1.Header), "Accept")[0] == "application/json"`)
	}
	c.nodeclientIssuer()
	c.nodeclientEvents(lit, bech)
}

// nodeclientIssuer: handing a payload to a block issuer.
func (c *Ctx) nodeclientIssuer() {
	headers := `at(now(arg1.Header), "Content-Type")[0] == "application/vnd.iota.serializer-v2" && `
	issue := func(payload, cid string) (httpCall, string, string, string) {
		enc := "Encode(c.core.apiProvider.committedAPI, " + payload + ", list(serix.WithValidation()))"
		mine := "Mine(pow.New(workers), ctx, res(" + enc + ", 0), res(Info(c, ctx), 0).PowTargetTrailingZeros)"
		h := httpCall{client: "c.core", ctx: "ctx", serix: committed("c.core"), method: "POST", path: `"/api/blockissuer/v1/issue"`, body: "bytes.NewReader(res(" + enc + ", 0))"}
		good := "ok(Info(c, ctx), 1) && ok(" + enc + ", 1) && ok(" + mine + ", 1) && " + h.answered() + " && (" + h.status() + " == 204 || (" + h.status() + " == 200 || " + h.status() + " == 201) && ok(" + h.read() + ", 1) && ok(" + h.decoded("api.BlockCreatedResponse") + "))"
		call := "arg1 == res(" + h.request() + ", 0) && " + headers + `at(now(arg1.Header), "X-Iota-Blockissuer-Commitment-Id")[0] == ToHex(` + cid + `) && at(now(arg1.Header), "X-Iota-Blockissuer-Pow-Nonce")[0] == decimal(res(` + mine + ", 0))"
		return h, enc, good, call
	}
	{
		h, enc, good, call := issue("payload", "cid")
		s := c.Sum("nodeclient:blockIssuerClient.SendPayload", Opt{Names: []string{"c", "ctx", "payload", "cid", "workers"}, Opaque: []string{"Info", "pow.New", "Mine"}, Events: true,
			Assume: plainClient("c.core") + " && res(" + enc + ", 0) != nil"})
		s.Exact("only if the issuer created the block", "", good)
		s.RequireIf("the answer of the issuer", h.status()+" != 204", "content(ret0) == out("+h.decoded("api.BlockCreatedResponse")+", 3, api.BlockCreatedResponse)")
		s.AtCall("sends the payload, the commitment and the nonce", "Do", call)
	}
	{
		issuance := "res(BlockIssuance(c.core, ctx), 0).LatestCommitment"
		h, enc, good, call := issue("res(Build(b), 0)", "res(ID("+issuance+"), 0)")
		parsed := "iotago.ParseBech32(res(Info(c, ctx), 0).BlockIssuerAddress)"
		s := c.Sum("nodeclient:blockIssuerClient.SendPayloadWithTransactionBuilder", Opt{Names: []string{"c", "ctx", "b", "index", "workers"}, Events: true,
			Opaque: []string{"Info", "pow.New", "Mine", "BlockIssuance", "iotago.ParseBech32", "CreationSlot", "SetCreationSlot", "AllotMinRequiredManaAndStoreRemainingManaInOutput", "Build", "ID", "AccountID"},
			Assume: plainClient("c.core") + " && res(" + enc + ", 0) != nil"})
		s.Exact("only if the issuer created the block", "", good+" && ok("+parsed+", 2) && is(res("+parsed+", 1), *iotago.AccountAddress) && ok(BlockIssuance(c.core, ctx), 1) && ok(Build(b), 1) && ok(ID("+issuance+"), 1)")
		s.Result("the payload that was built", 0, "", "res(Build(b), 0)")
		s.RequireIf("the answer of the issuer", h.status()+" != 204", "content(ret1) == out("+h.decoded("api.BlockCreatedResponse")+", 3, api.BlockCreatedResponse)")
		s.AtCall("sends the payload, the commitment and the nonce", "Do", call)
		s.AtCall("a creation slot that was set is kept", "SetCreationSlot", "CreationSlot(b) == 0 && arg1 == "+issuance+".Slot")
		s.Called("there is a creation slot", "SetCreationSlot", "CreationSlot(b) == 0", "arg0 == b")
		s.Called("mana for the issuer", "AllotMinRequiredManaAndStoreRemainingManaInOutput", "", "arg0 == b && arg1 == CreationSlot(b) && arg2 == "+issuance+".ReferenceManaCost && arg3 == AccountID(res("+parsed+", 1)) && arg4 == index")
	}
}

// nodeclientEvents: the subscriptions of the event API.
func (c *Ctx) nodeclientEvents(lit func(...string) string, bech func(client, a string) string) {
	raw := `"/raw"`
	for _, t := range [][3]string{
		{"CommitmentsLatest", "", `"commitments/latest"`},
		{"CommitmentsFinalized", "", `"commitments/finalized"`},
		{"Blocks", "", `"blocks"`},
		{"BlocksValidation", "", `"blocks/validation"`},
		{"BlocksBasic", "", `"blocks/basic"`},
		{"BlocksBasicWithTaggedData", "", `"blocks/basic/tagged-data"`},
		{"BlocksBasicWithTaggedDataByTag", "a", lit(`"blocks/basic/tagged-data/"`, "hexutil.EncodeHex(a)")},
		{"BlocksBasicWithTransactions", "", `"blocks/basic/transaction"`},
		{"BlocksBasicWithTransactionsWithTaggedData", "", `"blocks/basic/transaction/tagged-data"`},
		{"BlocksBasicWithTransactionsWithTaggedDataByTag", "a", lit(`"blocks/basic/transaction/tagged-data/"`, "hexutil.EncodeHex(a)")},
		{"BlockMetadataTransactionIncludedBlocksByTransactionID", "a", lit(`"transactions/"`, "ToHex(a)", `"/included-block-metadata"`)},
		{"TransactionMetadataByTransactionID", "a", lit(`"transaction-metadata/"`, "ToHex(a)")},
		{"BlockMetadataByBlockID", "a", lit(`"block-metadata/"`, "ToHex(a)")},
		{"BlockMetadataAcceptedBlocks", "", `"block-metadata/accepted"`},
		{"BlockMetadataConfirmedBlocks", "", `"block-metadata/confirmed"`},
		{"OutputWithMetadataByOutputID", "a", lit(`"outputs/"`, "ToHex(a)")},
		{"OutputsWithMetadataByAccountID", "a", lit(`"outputs/account/"`, bech("e.Client", "ToAddress(a)"))},
		{"OutputsWithMetadataByAnchorID", "a", lit(`"outputs/anchor/"`, bech("e.Client", "ToAddress(a)"))},
		{"OutputsWithMetadataByFoundryID", "a", lit(`"outputs/foundry/"`, "ToHex(a)")},
		{"OutputsWithMetadataByNFTID", "a", lit(`"outputs/nft/"`, bech("e.Client", "ToAddress(a)"))},
		{"OutputsWithMetadataByDelegationID", "a", lit(`"outputs/delegation/"`, "ToHex(a)")},
		{"OutputsWithMetadataByUnlockConditionAndAddress", "cond a", lit(`"outputs/unlock/"`, "cond", `"/"`, bech("e.Client", "a"))},
	} {
		topic := lit(t[2], raw)
		s := c.Sum("nodeclient:EventAPIClient."+t[0], Opt{Names: append([]string{"e"}, strings.Fields(t[1])...), Opaque: []string{"Bech32", "ToAddress", "hexutil.EncodeHex"}, Events: true})
		s.Called("subscribes to the topic", "Subscribe", "", "arg0 == e.MQTTClient && arg1 == "+topic)
		s.AtCall("only to the topic", "Subscribe", "arg1 == "+topic)
	}
}
