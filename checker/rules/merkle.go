package rules

import (
	"strings"

	"verif/checker/engine"
)

// P32: Merkle trees and inclusion proofs.

func init() {
	register(&Prop{ID: "P32", Min: 12, Note: "merkle trees and proofs", Run: func(c *Ctx) {
		name := func(anchor string) string {
			if f := c.Find(anchor); f != nil {
				return engine.FuncName(f)
			}
			return "?"
		}
		V := "[*iotago.APIByter[iotago.TxEssenceOutput]]"
		leaf := func(x string) string { return "digest(t.hash, cat(bytelist(0), " + x + "))" }
		node := func(l, r string) string { return "digest(t.hash, cat(bytelist(1), " + l + ", " + r + "))" }
		split := "1 << (bits.Len(wrap(len(data) - 1)) - 1)"

		// the tree
		hash := c.Sum("merklehasher:Hasher.Hash", Opt{Names: strings.Fields("t data"), Opaque: []string{"Hash"}})
		k := "(" + split + ")"
		hash.Result("no values", 0, "len(data) == 0", "digest(t.hash, bytelist())")
		hash.Result("one value", 0, "len(data) == 1", leaf("data[0]"))
		hash.Result("more values", 0, "len(data) >= 2", node("Hash(t, data[0:"+k+"])", "Hash(t, data["+k+":])"))
		hash.NoPanic("total", "true")
		c.Sum("merklehasher:Hasher.EmptyRoot", Opt{Names: []string{"t"}}).Result("no values", 0, "true", "digest(t.hash, bytelist())")
		hv := c.Sum("merklehasher:Hasher.HashValues", Opt{Names: strings.Fields("t values"), Opaque: []string{"Hash", "Bytes"}})
		list := "collect(v, values, true, res(Bytes(v), 0))"
		hv.Result("hashes all values in order", 0, "true", "Hash(t, "+list+")")
		hv.Exact("succeeds", "true", "all(v, values, res(Bytes(v), 1) == nil)")

		// inclusion proofs
		cp := name("merklehasher:Hasher.ComputeProofForIndex~")
		vh := func(x string) string { return "&merklehasher.ValueHash" + V + "{Hash: " + x + "}" }
		lh := func(x string) string { return "&merklehasher.LeafHash" + V + "{Hash: " + x + "}" }
		nd := func(l, r string) string { return "&merklehasher.Node" + V + "{Left: " + l + ", Right: " + r + "}" }
		p := c.Sum("merklehasher:Hasher.ComputeProofForIndex~", Opt{Names: strings.Fields("t data index"), Opaque: []string{"Hash", cp}})
		p.Result("one value", 0, "len(data) == 1", vh(leaf("data[0]")))
		p.Result("two values, first", 0, "len(data) == 2 && index == 0", nd(vh(leaf("data[0]")), lh(leaf("data[1]"))))
		p.Result("two values, second", 0, "len(data) == 2 && index == 1", nd(lh(leaf("data[0]")), vh(leaf("data[1]"))))
		p.Result("left half", 0, "len(data) > 2 && index < "+k, nd("res("+cp+"(t, data[0:"+k+"], index), 0)", lh("Hash(t, data["+k+":])")))
		p.Result("right half", 0, "len(data) > 2 && index >= "+k, nd(lh("Hash(t, data[0:"+k+"])"), "res("+cp+"(t, data["+k+":], index - "+k+"), 0)"))
		p.Accepts("always computed", "len(data) <= 2")
		at := c.Sum("merklehasher:Hasher.ComputeProofForIndex", Opt{Names: strings.Fields("t values index"), Opaque: []string{"Hash", "Bytes", cp}})
		at.Result("proves the indexed value", 0, "true", "&merklehasher.Proof"+V+"{MerkleHashable: res("+cp+"(t, "+list+", index), 0)}")
		at.Exact("index in range", "true", "index >= 0 && index < len(values) && all(v, values, res(Bytes(v), 1) == nil) && res("+cp+"(t, "+list+", index), 1) == nil")
		val := c.Sum("merklehasher:Hasher.ComputeProof", Opt{Names: strings.Fields("t values value"), Opaque: []string{"ComputeProofForIndex", "Bytes"}})
		val.Require("proves a value that is there", "some(v, values, res(Bytes(v), 0) == res(Bytes(value), 0))")

		// verification
		cv := name("merklehasher:Proof.ContainsValue~")
		sees := c.Sum("merklehasher:Proof.ContainsValue~", Opt{Names: strings.Fields("h x"), Opaque: []string{cv}})
		T := func(n string) string { return "*merklehasher." + n + V }
		sees.ResultB("value in the proof", 0, "true", "is(h, "+T("ValueHash")+") && as(h, "+T("ValueHash")+", Hash) == x || is(h, "+T("Node")+") && ("+
			cv+"(as(h, "+T("Node")+", Left), x) || "+cv+"(as(h, "+T("Node")+", Right), x))")
		has := c.Sum("merklehasher:Proof.ContainsValue", Opt{Names: strings.Fields("p value t"), Opaque: []string{"Bytes", cv}})
		has.ResultB("hash of the value", 0, "res(Bytes(value), 1) == nil", cv+"(p.MerkleHashable, "+leaf("res(Bytes(value), 0)")+")")
		has.Exact("computed", "true", "res(Bytes(value), 1) == nil")
		c.Sum("merklehasher:Proof.Hash", Opt{Names: strings.Fields("p t")}).Result("hash of the tree", 0, "true", "hash(p.MerkleHashable, t)")
		c.Sum("merklehasher:Node.hash", Opt{Names: strings.Fields("p t")}).Result("hash of a node", 0, "true", node("hash(p.Left, t)", "hash(p.Right, t)"))
		c.Sum("merklehasher:ValueHash.hash", Opt{Names: strings.Fields("p t")}).Result("hash of the value", 0, "true", "p.Hash")
		c.Sum("merklehasher:LeafHash.hash", Opt{Names: strings.Fields("p t")}).Result("hash of a leaf", 0, "true", "p.Hash")
	}})
}
