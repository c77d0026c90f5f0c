package rules

import "strings"

func init() {
	register(&Prop{
		ID:   "P42",
		Note: "signers look keys up by the plain address and sign with exactly that key; key managers and accounts hand out matching paths, keys and addresses",
		Min:  30,
		Run:  func(c *Ctx) { c.wallet() },
	})
}

// wallet: key lookup, signing and key derivation.
func (c *Ctx) wallet() {
	// registration
	for _, k := range []struct{ kase, assume, key string }{
		{"a plain address", "!is(k[0].Address, *iotago.RestrictedAddress)", "Key(k[0].Address)"},
		{"a restricted address", "is(k[0].Address, *iotago.RestrictedAddress)", "Key(as(k[0].Address, *iotago.RestrictedAddress, Address))"},
	} {
		s := c.Sum(":NewInMemoryAddressSigner", Opt{Names: []string{"k"}, Assume: k.assume, Lens: map[string]int{"k": 1}, Case: k.kase})
		s.Require("the key is found by the address", "at(final(ret0.addrKeys), "+k.key+") == k[0].Keys")
	}

	key := func(a string) string { return "at(s.addrKeys, Key(" + a + "))" }
	for _, k := range []struct{ kase, assume, addr string }{
		{"an ed25519 address", "is(addr, *iotago.Ed25519Address)", "addr"},
		{"an implicit account creation address", "is(addr, *iotago.ImplicitAccountCreationAddress)", "addr"},
		{"a restricted address", "is(addr, *iotago.RestrictedAddress) && is(as(addr, *iotago.RestrictedAddress, Address), *iotago.Ed25519Address)", "as(addr, *iotago.RestrictedAddress, Address)"},
	} {
		mapped := "has(s.addrKeys, Key(" + k.addr + ")) && is(" + key(k.addr) + ", crypto_ed25519.PrivateKey)"
		pub := "Public(" + key(k.addr) + ")"
		assume := k.assume + " && implies(is(" + key(k.addr) + ", crypto_ed25519.PrivateKey), is(" + pub + ", crypto_ed25519.PublicKey))"
		s := c.Sum(":InMemoryAddressSigner.Sign", Opt{Names: []string{"s", "addr", "msg"}, Assume: assume, Case: k.kase})
		s.Exact("only with the key of the address", "", mapped)
		s.Result("the signature of the message", 0, "", "&iotago.Ed25519Signature{PublicKey: fit32("+pub+"), Signature: fit64(ed25519.Sign("+key(k.addr)+", msg))}")
		s = c.Sum(":InMemoryAddressSigner.SignerUIDForAddress", Opt{Names: []string{"s", "addr"}, Assume: assume, Case: k.kase})
		s.Exact("only for mapped addresses", "", mapped)
		s.Result("the identifier of the public key", 0, "", "blake2b.Sum256("+pub+")")
		s = c.Sum(":InMemoryAddressSigner.EmptySignatureForAddress", Opt{Names: []string{"s", "addr"}, Assume: k.assume, Case: k.kase})
		s.Accepts("always", "true")
		s.Require("an empty signature", "zero(as(ret0, *iotago.Ed25519Signature, PublicKey)) && zero(as(ret0, *iotago.Ed25519Signature, Signature)) && ret0 != nil")
	}

	// key managers
	derived := func(path string) string {
		return "res(slip10.DeriveKeyFromPath(m.seed, eddsa.Ed25519(), " + path + "), 0)"
	}
	s := c.Sum("wallet:KeyManager.Path", Opt{Names: []string{"m", "i"}, Lens: map[string]int{"i": 0}, Case: "no index"})
	s.Result("the path of the manager", 0, "", "m.path")
	s = c.Sum("wallet:KeyManager.Path", Opt{Names: []string{"m", "i"}, Lens: map[string]int{"i": 1}, Case: "an index"})
	s.Require("the hardened index is the last part of the path", "len(m.path) >= 5 && biteq(ret0[4], i[0], 31) && bit(ret0[4], 31)")
	for _, j := range []string{"0", "1", "2", "3"} {
		s.Require("part "+j+" is the manager's", "ret0["+j+"] == m.path["+j+"]")
	}
	s.Require("leaves the manager's path", "final(m.path) == m.path && final(m.path[4]) == m.path[4]")
	s = c.Sum("wallet:KeyManager.KeyPair", Opt{Names: []string{"m", "i"}, Opaque: []string{"Path"}})
	s.Result("the derived private key", 0, "", "res(Ed25519Key("+derived("Path(m, i)")+".Key), 1)")
	s.Result("the derived public key", 1, "", "res(Ed25519Key("+derived("Path(m, i)")+".Key), 0)")
	pub := "res(KeyPair(m, i), 1)"
	s = c.Sum("wallet:KeyManager.Address", Opt{Names: []string{"m", "t", "i"}, Opaque: []string{"KeyPair"}})
	s.Exact("for key addresses only", "", "t == 0 || t == 32")
	for t, n := range map[string]string{"0": "Ed25519Address", "32": "ImplicitAccountCreationAddress"} {
		s.RequireIf("the "+n+" of the derived key", "t == "+t, "is(ret0, *iotago."+n+") && content(ret0) == blake2b.Sum256("+pub+")")
	}
	for n, idx := range map[int][]string{0: {""}, 2: {"list(i[0])", "list(i[1])"}} {
		s := c.Sum("wallet:KeyManager.AddressSigner", Opt{Names: []string{"m", "i"}, Opaque: []string{"KeyPair", "iotago.NewInMemoryAddressSignerFromEd25519PrivateKeys"}, Lens: map[string]int{"i": n}})
		var ks []string
		for _, x := range idx {
			if x == "" {
				x = "nil"
			}
			ks = append(ks, "res(KeyPair(m, "+x+"), 0)")
		}
		s.Result("signs with the derived keys", 0, "", "iotago.NewInMemoryAddressSignerFromEd25519PrivateKeys(list("+strings.Join(ks, ", ")+"))")
	}
	s = c.Sum("wallet:NewKeyManager", Opt{Names: []string{"seed", "path"}})
	s.Exact("only for valid paths", "", "ok(bip32path.ParsePath(path), 1)")
	s.Require("keeps seed and path", "ret0.seed == seed && ret0.path == res(bip32path.ParsePath(path), 0)")
	s = c.Sum("wallet:NewKeyManagerFromMnemonic", Opt{Names: []string{"words", "path"}})
	seed := "bip39.MnemonicToSeed(bip39.ParseMnemonic(words), \"\")"
	s.Exact("only for 24 valid words", "", "len(bip39.ParseMnemonic(words)) == 24 && ok("+seed+", 1) && ok(bip32path.ParsePath(path), 1)")
	s.Require("keeps seed and path", "ret0.seed == res("+seed+", 0) && ret0.path == res(bip32path.ParsePath(path), 0)")
	s.NoPanic("never panics", "")
	s = c.Sum("wallet:NewKeyManagerFromRandom", Opt{Names: []string{"path"}})
	s.Require("keeps the path", "ret0.path == res(bip32path.ParsePath(path), 0)")

	// accounts
	s = c.Sum("wallet:NewEd25519Account", Opt{Names: []string{"id", "key"}})
	s.Require("keeps identifier and key", "ret0.accountID == id && ret0.privateKey == key")
	s = c.Sum("wallet:Ed25519Account.ID", Opt{Names: []string{"a"}})
	s.Result("the identifier", 0, "", "a.accountID")
	s = c.Sum("wallet:Ed25519Account.PrivateKey", Opt{Names: []string{"a"}})
	s.Result("the key", 0, "", "a.privateKey")
	s = c.Sum("wallet:Ed25519Account.Address", Opt{Names: []string{"a"}})
	s.Require("the address of the account", "content(ret0) == a.accountID")
	s = c.Sum("wallet:Ed25519Account.OwnerAddress", Opt{Names: []string{"a"}})
	s.Require("the address of the key", "is(ret0, *iotago.Ed25519Address) && content(ret0) == blake2b.Sum256(Public(a.privateKey))")
	s = c.Sum("wallet:AccountFromParams", Opt{Names: []string{"hex", "key"}, Opaque: []string{"iotago.AccountIDFromHexString"}})
	s.Exact("only for valid parameters", "", "ok(iotago.AccountIDFromHexString(hex), 1) && ok(crypto.ParseEd25519PrivateKeyFromString(key), 1)")
	s.Require("the parameters", "as(ret0, *wallet.Ed25519Account, accountID) == res(iotago.AccountIDFromHexString(hex), 0) && as(ret0, *wallet.Ed25519Account, privateKey) == res(crypto.ParseEd25519PrivateKeyFromString(key), 0)")
	s.NoPanic("never panics", "")
}
