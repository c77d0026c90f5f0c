package rules

import (
	"fmt"
	"strings"

	"verif/checker/engine"
)

// P31: bech32 texts and addresses.

func init() {
	register(&Prop{ID: "P31", Min: 300, Note: "bech32", Run: func(c *Ctx) {
		base32Rules(c)
		bech32Rules(c)
		encodeRules(c)
		parseRules(c)
	}})
}

// base32Rules: digit q of the encoding holds bits 5q..5q+4 of the input, most significant first; what remains of the last digit is zero.
// Every length a text of at most 90 characters can have is decided.
func base32Rules(c *Ctx) {
	for k := 0; k <= 83; k++ {
		assume := "true"
		for i := 0; i < k; i++ {
			assume += fmt.Sprintf(" && src[%d]&224 == 0", i)
		}
		d := c.Sum("bech32/internal/base32:Decode", Opt{Names: []string{"dst", "src"}, Lens: map[string]int{"src": k}, Assume: assume, Case: fmt.Sprint("length ", k)})
		digit := func(p int) string { return fmt.Sprintf("bit(src[%d], %d)", p/5, 4-p%5) }
		n := k * 5 / 8
		pad := "true"
		for p := n * 8; p < k*5; p++ {
			pad += " && !" + digit(p)
		}
		if k*5-n*8 >= 5 {
			pad = "false" // the last digit holds nothing
		}
		if pad == "false" {
			d.Rejects("decodable lengths and padding", "true")
			continue
		}
		d.Exact("decodable lengths and padding", "", pad)
		d.Result("decoded length", 0, "", fmt.Sprint(n))
		d.Require("decoded bytes", bitsSpec(n, 8, k*5, digit, "dst"))
	}
	for k := 0; k <= 52; k++ {
		n := (k*8 + 4) / 5
		e := c.Sum("bech32/internal/base32:Encode", Opt{Names: []string{"dst", "src"}, Lens: map[string]int{"src": k}, Case: fmt.Sprint("length ", k)})
		e.Result("encoded length", 0, "", fmt.Sprint(n))
		e.Require("encoded digits", bitsSpec(n, 5, k*8, func(p int) string { return fmt.Sprintf("bit(src[%d], %d)", p/8, 7-p%8) }, "dst"))
	}
}

// bitsSpec: the n groups of w bits of dst hold the given stream, zero behind its end; higher bits of an element are zero.
func bitsSpec(n, w, total int, stream func(p int) string, dst string) string {
	var cs []string
	for j := 0; j < n; j++ {
		for b := 0; b < 8; b++ {
			p := j*w + w - 1 - b
			if b >= w || p >= total {
				cs = append(cs, fmt.Sprintf("!bit(final(%s[%d]), %d)", dst, j, b))
				continue
			}
			cs = append(cs, fmt.Sprintf("iff(bit(final(%s[%d]), %d), %s)", dst, j, b, stream(p)))
		}
	}
	if len(cs) == 0 {
		return "true"
	}
	return strings.Join(cs, " && ")
}

func bech32Rules(c *Ctx) {
	opaque := []string{"bech32.bech32Polymod", "bech32.bech32HrpExpand", "base32.Decode", "base32.Encode", "bech32.bech32VerifyChecksum!1"}
	ascii := "all(c, s, s[c_k] == strings.ToLower(s)[c_k] || s[c_k] == strings.ToUpper(s)[c_k])" // no character is upper and lower case
	d := c.Sum("bech32:Decode", Opt{Names: []string{"s"}, Opaque: opaque, Assume: ascii})
	d.Require("length", "len(s) <= 90")
	p := `strings.LastIndex(s, "1")`
	d.Require("separator", p+" >= 1 && "+p+" + 6 <= len(s)")
	d.Require("printable prefix", "all(c, s[0:"+p+"], c >= 33 && c <= 126)")
	d.Require("printable data", "all(c, s["+p+":], c >= 33 && c <= 126)")
	d.Require("single case", "!(some(c, s, s[c_k] != strings.ToLower(s)[c_k]) && some(c, s, s[c_k] != strings.ToUpper(s)[c_k]))")
	data := "strings.ToLower(s)[" + p + "+1:]"
	d.Require("alphabet", "all(c, "+data+", bech32.charset.decMap["+data+"[c_k]] != 255)")
	d.Require("checksum", "bech32.bech32VerifyChecksum(strings.ToLower(s)[0:"+p+"])")
	d.Result("prefix", 0, "", "strings.ToLower(s)[0:"+p+"]")
}

func encodeRules(c *Ctx) {
	opaque := []string{"bech32.bech32Polymod", "bech32.bech32HrpExpand", "base32.Encode", "base32.EncodedLen", "bech32.bech32CreateChecksum!1", "encode!1"}
	e := c.Sum("bech32:Encode", Opt{Names: []string{"hrp", "src"}, Opaque: opaque, Assume: "all(c, hrp, hrp[c_k] == strings.ToLower(hrp)[c_k] || hrp[c_k] == strings.ToUpper(hrp)[c_k])"})
	e.Require("length", "len(hrp) + base32.EncodedLen(len(src)) + 7 <= 90")
	e.Require("prefix", "len(hrp) > 0")
	e.Require("printable prefix", "all(c, hrp, c >= 33 && c <= 126)")
	e.Require("single case", "!(some(c, hrp, hrp[c_k] != strings.ToLower(hrp)[c_k]) && some(c, hrp, hrp[c_k] != strings.ToUpper(hrp)[c_k]))")
	lower := "hrp == strings.ToLower(hrp)"
	text := "cat(hrp, \"1\", bech32.charset.encode())"
	e.Accepts("accepts every lower case prefix that fits", lower+" && all(c, hrp, c >= 33 && c <= 126 && hrp[c_k] == strings.ToLower(hrp)[c_k]) && len(hrp) > 0 && len(hrp) + base32.EncodedLen(len(src)) + 7 <= 90")
	_ = text
	v := c.Sum("bech32:bech32VerifyChecksum", Opt{Names: []string{"hrp", "data"}, Opaque: opaque})
	v.ResultB("the checksum covers prefix and data", 0, "", "bech32.bech32Polymod(cat(bech32.bech32HrpExpand(hrp), data)) == 1")
	h := c.Sum("bech32:bech32HrpExpand", Opt{Names: []string{"s"}})
	h.Result("expanded prefix", 0, "", "cat(collect(c, s, true, c>>5), bytelist(0), collect(c, s, true, c&31))")
	n := c.Sum("bech32:encoding.encode", Opt{Names: []string{"e", "src"}})
	n.Result("alphabet", 0, "", "collect(d, src, true, e.enc[d])")
}

// parseRules: a text denotes one address: the whole payload is read as the kind of address its first byte names.
func parseRules(c *Ctx) {
	p := c.Sum(":ParseBech32", Opt{Names: []string{"s"}, Events: true, Opaque: []string{"bech32.Decode", "iotago.MultiAddressReferenceFromBytes", "iotago.AddressCapabilitiesBitMaskFromBytes"}})
	data := "res(bech32.Decode(s), 1)"
	p.Require("valid bech32", "ok(bech32.Decode(s), 2)")
	p.Require("payload", "len("+data+") > 0")
	p.Result("prefix", 0, "", "res(bech32.Decode(s), 0)")
	whole := func(kind, is string) {
		p.Called(kind+" payload read whole", "Decode", is, "arg2 == "+data+" && ok(call, 1) && res(call, 0) == len("+data+")")
	}
	whole("restricted", data+"[0] == iotago.AddressRestricted && "+data+"[1] != iotago.AddressMulti")
	for kind, typ := range map[string]string{"Ed25519": "Ed25519Address", "Account": "AccountAddress", "NFT": "NFTAddress", "Anchor": "AnchorAddress", "ImplicitAccountCreation": "ImplicitAccountCreationAddress"} {
		is := data + "[0] == iotago.Address" + kind
		p.RequireIf(kind+" kind", is, "is(ret1, *iotago."+typ+")")
		whole(kind, is)
	}
	p.RequireIf("multi kind", data+"[0] == iotago.AddressMulti", "ok(iotago.MultiAddressReferenceFromBytes("+data+"), 2) && ret1 == res(iotago.MultiAddressReferenceFromBytes("+data+"), 0) && res(iotago.MultiAddressReferenceFromBytes("+data+"), 1) == len("+data+")")
	ref := "iotago.MultiAddressReferenceFromBytes(" + data + "[1:])"
	caps := "iotago.AddressCapabilitiesBitMaskFromBytes(" + data + "[1+res(" + ref + ", 1):])"
	restrictedMulti := data + "[0] == iotago.AddressRestricted && " + data + "[1] == iotago.AddressMulti"
	p.RequireIf("restricted multi kind", restrictedMulti, "ok("+ref+", 2) && ok("+caps+", 2) && is(ret1, *iotago.RestrictedAddress) && as(ret1, *iotago.RestrictedAddress, Address) == res("+ref+", 0) && as(ret1, *iotago.RestrictedAddress, AllowedCapabilities) == res("+caps+", 0)")
	p.RequireIf("restricted multi consumed", restrictedMulti, "1 + res("+ref+", 1) + res("+caps+", 1) == len("+data+")")
	p.RequireIf("restricted kind", data+"[0] == iotago.AddressRestricted", "is(ret1, *iotago.RestrictedAddress) && len("+data+") > 1")
}

var _ = engine.True
