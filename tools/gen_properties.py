#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (one place to edit)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if observe: d["anchors"]["observe_at"]=observe
    assert len(title)<=80,(id,len(title))
    P.append(d)
I=["inputs"];H=["inputs","histories"]
p("P01","An input is consumed only with a valid unlock of its current owner",
 "A signed transaction is accepted only if every consumed output is unlocked by its current owner: a signature that is valid for the owner's address over the transaction's signing message, a reference to the input that first unlocked the same address, or, for a chain address, a reference to the input that unlocked that chain. A multi address needs unlocks of total weight at least its threshold, one unlock slot per address, no nested multi unlock, and unlocks inside it never unlock anything else. Anchors unlock their own address only in a state transition.",
 I,"all signed transactions, owner address kinds, unlock kinds and reference patterns",
 "Tests sample a few dozen address/unlock combinations; authorisation must hold for every combination of owner kind, unlock kind, index and reference chain.",
 ["vm/vm.go","signature_ed25519.go","unlock*.go"],
 [("unlock dispatch by owner kind","vm/vm.go unlockAddress / unlockOutput"),("unlocked-address bookkeeping","vm/vm.go unlockedAddressesSet"),("owner resolution incl. expiration","vm/vm.go addressToUnlock, checkExpiration")],
 ["ValidateUnlocks result"])
p("P02","Signatures are accepted only if cryptographically bound to key and message",
 "An Ed25519 signature is accepted for an address only if the address is the hash of the carried public key and the signature verifies under that key over exactly the given message. A block or attestation signature is accepted only if its public key is not the empty key and the signature verifies over the signing message built from header hash and body hash. A non-Ed25519 signature is rejected.",
 I,"all signatures, keys, addresses and messages","A test shows one forged signature rejected; soundness is about every signature/address/message.",
 ["signature_ed25519.go","signature.go","block.go","attestation.go"],
 [("address match + verify","signature_ed25519.go Valid/MatchesAddress"),("block signature","block.go VerifySignature/signingMessage"),("attestation signature","attestation.go VerifySignature")])
p("P03","Timelocks and expirations bind to the committed slot, never in favour",
 "A consumed output with a timelock is accepted only if a commitment input is present and the timelock slot is not after the earliest slot the transaction can be included in (commitment slot plus minimum committable age). An output with an expiration is unlockable only by its return address once that earliest slot reached the expiration, only by its owner while the latest possible slot (commitment slot plus maximum committable age) is before it, and by nobody in between.",
 I,"all outputs, commitment slots and protocol parameters","The boundary arithmetic is tested at a handful of slots with one parameter set.",
 ["vm/vm.go","unlock_cond.go","unlock_cond_timelock.go","unlock_cond_expiration.go"],
 [("timelock exec function","vm/vm.go ExecFuncTimelocks"),("bounded slots","vm/vm.go PastBoundedSlotIndex/FutureBoundedSlotIndex, checkExpiration"),("condition set checks","unlock_cond.go")])
p("P04","Sender and issuer features name addresses the transaction unlocked",
 "Every output carrying a sender feature is accepted only if the sender address (or the address a restricted sender wraps) was unlocked by the transaction. A newly created account, anchor or NFT carrying an issuer feature is accepted only if the issuer address was unlocked.",
 I,"all outputs with sender or issuer features","A test checks a few outputs; the rule covers every output of every transaction.",
 ["vm/vm.go","vm/nova/vm.go"],
 [("sender exec function","vm/vm.go ExecFuncSenderUnlocked"),("issuer check on genesis","vm/vm.go IsIssuerOnOutputUnlocked; vm/nova/vm.go *GenesisValid")])
p("P05","Base tokens are conserved and storage deposits are returned",
 "A transaction is accepted only if the base tokens of all its consumed outputs equal the base tokens of all its created outputs. For every storage-deposit-return condition on a consumed output that is not expired, the transaction must create simple transfers to the return address worth at least the sum of the amounts owed to it.",
 I,"all multisets of inputs and outputs and return conditions","Conservation is over every combination of outputs; tests use a few fixed amounts.",
 ["vm/vm.go","output.go","output_basic.go"],
 [("balance exec function","vm/vm.go ExecFuncBalancedBaseTokens"),("simple transfers","output.go SimpleTransfer sums")])
p("P06","Mana is never created and never overflows in balance accounting",
 "Mana entering a transaction is exactly the decayed stored mana plus generated potential mana of every consumed output plus claimed rewards; mana leaving is the stored mana of every created output plus all allotments; any overflow is an error. A transaction is accepted only if mana out does not exceed mana in, and mana may be burned only when the transaction's capabilities allow it. Mana on an account that has a block issuer feature before or after the transition can only stay on that account, be allotted to it, or move to outputs time-locked to it.",
 I,"all sets of inputs, outputs, allotments and rewards","Overflow and lock conditions depend on arbitrary amounts and slots.",
 ["vm/vm.go","vm/nova/vm.go","mana.go"],
 [("mana in","vm/vm.go TotalManaIn"),("mana out","vm/vm.go TotalManaOut"),("balance","vm/vm.go ExecFuncBalancedMana"),("account lock","vm/nova/vm.go accountBlockIssuer*")])
p("P07","Native tokens are conserved except by their own foundry",
 "A transaction whose native tokens on the input side differ from those on the output side for some token is accepted only if the foundry of that token is itself transitioned in the transaction and its minted or melted counters account exactly for the difference; a lower output sum without the foundry is accepted only if the transaction's capabilities allow burning native tokens, and a higher output sum without the foundry is never accepted. Sums that overflow 256 bits are rejected.",
 I,"all token multisets on inputs and outputs, with and without foundries","Conservation quantifies over all token sets and amounts.",
 ["vm/vm.go","vm/nova/vm.go","token_scheme_simple.go","output.go"],
 [("native token exec","vm/vm.go ExecFuncBalancedNativeTokens"),("sums","output.go NativeTokenSum"),("foundry state transition","vm/nova/vm.go foundryStateChangeValid; token_scheme_simple.go StateTransition")])
p("P08","Every chain in or out of a transaction is checked by its transition rule",
 "For every chain among the inputs the transition rule of its type is applied either to the continuing output or, if there is none, as a destruction; for every chain that only appears among the outputs the creation rule is applied; any rule failure rejects the transaction. A chain can only continue as an output of its own type (an implicit account as an account), created chains must carry an empty identifier, and at most one of the consumed outputs may be an implicit account creation address.",
 I,"all combinations of input and output chains","Tests run chosen transitions; the guarantee is that no chain escapes its rule.",
 ["vm/vm.go","vm/nova/vm.go","chain.go","output.go"],
 [("chain transitions exec","vm/vm.go ExecFuncChainTransitions"),("dispatch","vm/nova/vm.go ChainSTVF"),("complete exec list","vm/nova/vm.go NewVirtualMachine"),("chain sets","output.go ChainOutputSet, vm/types.go ChainInputSet")])
p("P09","Account transitions preserve identity, immutables and the foundry counter",
 "An account state transition is accepted only if the immutable features are unchanged and the foundry counter never decreases and equals the previous counter plus the number of foundries created under the account in the transaction. A new account may not claim staking or rewards inconsistently, and an account is destroyed only if the transaction capabilities allow it, it has no active staking and its block issuer feature, if any, has expired.",
 I,"all account transitions","Tests sample transitions; the rule is universally quantified.",
 ["vm/nova/vm.go"],[("account STVF","vm/nova/vm.go accountSTVF, accountStateChangeValid, accountGenesisValid, accountDestructionValid")])
p("P10","Block issuer feature changes respect expiry, commitment and credits",
 "Adding, keeping, extending or removing a block issuer feature is accepted only with a commitment input; a removed feature must have expired before the commitment slot; an added or changed expiry must not lie before the latest slot the transaction can be included in. A non-expired feature can be modified only if the account's block issuance credit is supplied and not negative, also when the account is destroyed.",
 I,"all block issuer feature transitions, slots and credit values","Boundary slots and credit combinations are infinite; tests use a few.",
 ["vm/nova/vm.go","feat_blockissuer.go"],[("block issuer STVF","vm/nova/vm.go accountBlockIssuerSTVF, accountBlockIssuerStateChangeValid and genesis/destruction variants")])
p("P11","Staking features and rewards follow the epoch bounds",
 "A staking feature is only valid together with a block issuer feature that never expires before the staking ends, and with a staked amount covered by the output amount. A new or reset staking starts in the epoch of the latest possible inclusion slot and lasts at least the unbonding period; until it expired its amount, cost and start stay fixed and the end epoch can only grow to at least the same bound. Rewards are claimed exactly when an expired staking is removed or reset.",
 I,"all staking transitions and epochs","Epoch arithmetic at all boundaries cannot be sampled.",
 ["vm/nova/vm.go","output_account.go","output.go"],[("staking STVF","vm/nova/vm.go accountStaking*Valid"),("syntactic staking rules","output.go OutputsSyntacticalAccount")])
p("P12","Anchor transitions separate state and governance control",
 "An anchor state transition (state index plus one) is accepted only if the governor, state controller and metadata stay unchanged; a governance transition (same state index) only if state index, amount, mana and state metadata stay unchanged; any other state index is rejected. Immutable features never change, a new anchor requires its issuer, and destruction requires the transaction capability.",
 I,"all anchor transitions","Universally quantified over transitions.",
 ["vm/nova/vm.go","output_anchor.go"],[("anchor STVF","vm/nova/vm.go anchorSTVF and helpers"),("owner depends on transition kind","output_anchor.go Owner")])
p("P13","Foundries keep supply invariants for their whole life",
 "A foundry is created only with its account transitioning in the same transaction, a serial number strictly above the account's previous and at most its next foundry counter with no gap or disorder, and a minted amount equal to the native tokens created. Minted and melted counters never decrease, melted never exceeds minted, circulating supply never exceeds the maximum, the maximum never changes, and token changes equal counter changes. A foundry is destroyed only when its circulating supply is zero and the capability is set; a transition never changes its immutable features.",
 H,"all histories of foundry transitions","Conservation over histories requires each transition rule to hold for all amounts.",
 ["vm/nova/vm.go","token_scheme_simple.go","output_foundry.go"],[("foundry STVF","vm/nova/vm.go foundry*Valid"),("token scheme","token_scheme_simple.go")])
p("P14","NFTs keep their immutable data and are destroyed only when allowed",
 "An NFT transition is accepted only if its immutable features are unchanged, a new NFT only with an unlocked issuer if it names one and an empty identifier, and a destruction only if the transaction's capabilities allow it.",
 I,"all NFT transitions","Universally quantified.",["vm/nova/vm.go"],[("NFT STVF","vm/nova/vm.go nftSTVF and helpers")])
p("P15","Delegations start, delay and end at the epochs the protocol dictates",
 "A delegation is created only with an empty identifier, an end epoch of zero, a delegated amount equal to its deposit amount and the start epoch the protocol prescribes for the commitment slot. It can be transitioned once, from the zero identifier, keeping amount, validator, start epoch and setting the prescribed end epoch, without claiming rewards; it is destroyed only with its reward claimed or, before it started, without.",
 I,"all delegation transitions and slots","Epoch boundaries across all parameters cannot be sampled.",
 ["vm/nova/vm.go","vm/vm.go","output_delegation.go"],[("delegation STVF","vm/nova/vm.go delegation*Valid"),("epoch computation","vm/nova/vm.go delegationStartEpoch/delegationEndEpoch")])
p("P16","Implicit accounts can only become regular block issuer accounts",
 "An implicit account can only be consumed by creating the account with the identifier derived from its output, which must carry a block issuer feature meeting the expiry and credit rules, and staking only under the rules of a new stake; it cannot be destroyed, and its locked mana may only flow as for other block issuer accounts. Addresses of that kind are not allowed as address of account, NFT or delegation outputs nor as state controller or governor of anchors.",
 I,"all implicit account transitions","Universally quantified.",["vm/nova/vm.go","output.go","vm/types.go"],[("implicit account STVF","vm/nova/vm.go implicitAccountSTVF"),("syntactic restriction","output.go OutputsSyntacticalImplicitAccountCreationAddress")])
p("P17","Capability flags gate exactly what they name",
 "Burning native tokens, burning mana and destroying an account, anchor, foundry or NFT are each accepted only if the transaction's own flag for that action is set. Each capability getter reads the bit that the corresponding option sets, no two capabilities share a bit, and absent bytes mean not allowed.",
 I,"all capability bitmasks and actions","256^n bitmasks times actions.",
 ["transaction_capabilities_bitmask.go","address_capabilities_bitmask.go","bitmask.go","vm/vm.go","vm/nova/vm.go"],
 [("bitmask accessors","*_capabilities_bitmask.go"),("gates","vm")])
p("P18","Transaction syntactic validation enforces every structural rule",
 "A transaction passes syntactic validation only if its inputs are unique, context inputs and allotments are unique, valid and within limits, reward inputs point at existing inputs, block issuance credit or reward inputs come with a commitment input, the payload is of an allowed kind, and all output rules pass. A signed transaction additionally needs exactly one valid unlock per input and its network identifier must match the protocol.",
 I,"all transactions","Any combination of fields; tests hit one rule at a time.",
 ["transaction.go","transaction_essence.go","signed_transaction.go","input.go","input_context.go","allotment.go"],
 [("transaction validation","transaction.go syntacticallyValidate"),("essence","transaction_essence.go"),("validators","input.go, allotment.go")])
p("P19","Outputs are accepted only if individually well-formed",
 "Every output of a transaction must hold at least the storage deposit its size requires, all outputs together at most the token supply, and respect the per-type rules: storage deposit return sanity, future expirations and timelocks, native token amounts non-zero and of the own foundry only, chain outputs not self-owned and consistent between identifier and counters, foundry scheme sanity, unique chains, unlock conditions and features of allowed types, and address restrictions.",
 I,"all outputs","Each rule must run for every output of every transaction.",
 ["output.go","transaction.go"],[("output validators","output.go Outputs* funcs"),("list","transaction.go syntacticallyValidate")])
p("P20","Blocks are accepted only if structurally and temporally consistent",
 "A block passes validation exactly if it fits the block size limit, its protocol version is the one of the API it is validated with and its network id that of the parameters, its commitment is neither too old nor too recent for its issuing slot (commitments to the genesis slot are never too recent), no weak parent is also a strong or shallow-like parent, and its body is valid. A basic block carrying a transaction additionally needs the transaction's creation slot not after the block's slot and a commitment input inside the same window and not newer than the block's own commitment; a validation block needs the highest supported version not below the block's version.",
 I,"all blocks","Every rule must hold for all slot combinations.",
 ["block.go","api_v3.go"],[("block validation","block.go syntacticallyValidate")])
p("P21","Unlock lists are structurally sound",
 "In an accepted unlock list all signature unlocks are unique, every reference unlock points to an earlier unlock of the kind it may reference, empty and nested multi unlocks appear only where allowed, and multi unlocks are unique and refer only to earlier unlocks.",
 I,"all unlock lists","Combinatorial in list position and kind.",["unlock.go","unlock_*.go"],[("unlock validators","unlock.go UnlocksSigUniqueAndRefValidator")])
p("P22","Every protocol type is registered completely and unambiguously",
 "Each concrete output, input, context input, unlock, unlock condition, feature, address, signature, payload, block body and block issuer key kind is registered for serialization exactly once with a type code unique in its family, can occur in exactly the containers the protocol allows, and those containers enforce uniqueness, ordering and the length limits. The declared kind of an object equals the type code it is serialized with.",
 I,"all types of all serializable families","Tests serialise samples; a missing or duplicated registration shows up only for the combination concerned.",
 ["api_v3.go","api_common.go"],[("registrations","api_v3.go V3API, api_common.go"),("type codes","*.go Type()")])
p("P23","Decoding hostile bytes or text fails with an error instead of crashing",
 "Parsing identifiers, addresses, output ids, commitments, hex text, bech32 text, signatures, block issuer keys and protocol versions from arbitrary bytes or text never panics: every index, slice and copy is covered by a length check, wrong lengths are errors, and the reported number of consumed bytes is the number actually used.",
 I,"all byte strings and texts","Fuzzing samples; the property is for all lengths.",
 ["*_id.gen.go","identifier*.gen.go","address*.go","signature_ed25519.go","block_issuer_key*.go","output_id.go","hexutil","bech32","gen"],
 [("length checks","decode functions")])
p("P24","Declared sizes count every serialized field",
 "The size an object reports is the sum over all fields that are serialized for it, with the right length prefix and type byte, so that block size limits and work score computations apply to the true encoding.",
 I,"all objects","Round trip samples cannot show a field missing from the size for rare configurations.",
 ["*.go"],[("Size methods","Size()")])
p("P25","Copies are deep and equality is total",
 "Cloning an output, feature, unlock condition, transaction, unlock, allotment or address yields an independent copy with every field preserved: changing one never changes the other, and cloning never fails. Two objects compare equal exactly if all their serialized fields are equal.",
 I,"all objects","Sharing only shows when a later mutation happens.",
 ["output_*.go","feat*.go","unlock*.go","address_*.go"],[("Clone/Equal methods","Clone(), Equal()")])
p("P26","Work score accounts for every constituent",
 "The work score of a block is the sum of the scores of its body, payload, transaction, inputs, context inputs, outputs, unlock conditions, features, native tokens, allotments, unlocks and signatures, each priced with its own parameter; any overflow is an error and validation blocks cost nothing.",
 I,"all blocks","A missing constituent only shows for blocks containing it.",["workscore.go","*.go"],[("WorkScore methods","WorkScore()")])
p("P27","Storage deposits cover every stored part of an output",
 "The storage score of an output is the fixed offset plus the factor-weighted sizes of all its data and the scores of all its conditions, features, block issuer keys, staking and delegation parts and addresses; the minimum deposit is that score times the storage cost, and an output below the minimum is rejected. Implicit account creation uses the score of the account it must become.",
 I,"all outputs and parameter sets","Sampled outputs only.",["storagescore.go","output_*.go","feat*.go","unlock_cond*.go","address_*.go"],[("StorageScore methods","StorageScore()"),("deposit check","storagescore.go CoversMinDeposit")])
p("P28","Identifiers and commitments bind all content",
 "A block, transaction, signed transaction, output, commitment, roots or protocol parameter identifier is a hash over the complete serialized content (header, body, signature; essence; outputs in order with index; all roots), extended with the object's own slot. Signing messages and input commitments bind the full content as well, and identifiers of chains derive from the hash of the creating output's identifier.",
 I,"all objects and all pairs of differing objects","Collision-freedom is about every pair of contents.",
 ["block.go","transaction.go","signed_transaction.go","commitment.go","commitment_roots.go","output_id.go","gen"],[("ID methods","ID(), Root(), SigningMessage()")])
p("P29","Canonical order comparisons are consistent",
 "Every comparison used to sort or check canonical lists (identifiers, indexes, keys, allotments, context inputs, unlock conditions, features, addresses) is a total order over the object's whole key, and sorted insertion and uniqueness checks use the same key as the decoder.",
 I,"all pairs of elements","Order axioms are over all pairs/triples.",["*.go"],[("Compare methods","Compare(), Sort()")])
p("P30","Restricted addresses receive only what their capabilities allow",
 "An output is accepted on a restricted address only if the address allows native tokens, mana, timelocks, expirations, storage deposit returns and the output kind it is used for, each checked against its own flag; addresses in every receiving role are checked.",
 I,"all outputs and capability masks","2^8 masks times output shapes.",["output.go","address_restricted.go","address_capabilities_bitmask.go"],[("restriction validator","output.go OutputsSyntacticalAddressRestrictions")])
p("P31","Bech32 text decodes only if well-formed and checksummed",
 "Decoding accepts a text only if it is at most the maximum length, single-case printable ASCII with a separator in range, all data characters in the alphabet, a valid checksum and canonical zero padding; encoding refuses invalid prefixes and decode inverts it. Address parsing accepts only the address kinds defined and only when the whole payload is consumed.",
 I,"all strings","Unicode and padding corner cases.",["bech32","address.go"],[("decoder","bech32/bech32.go Decode")])
p("P32","Merkle roots and inclusion proofs separate leaves from nodes",
 "Leaf hashes and inner node hashes use distinct prefixes, the tree splits at the largest power of two below the size, and the hash of a proof is recomputed by the same rules, so a proof verifies only for a value contained at its place; index arguments out of range are errors. An output id proof is accepted only if commitment, index and output hash lead to the given output identifier.",
 I,"all lists, indexes and proofs","All list lengths and forged proofs.",["merklehasher","output_id_proof.go"],[("hasher","merklehasher/*.go")])
p("P33","The protocol version in force is determined solely by slot",
 "For every slot the version, API and parameters an epoch-based provider returns are those of the latest version whose start epoch is at or before the slot's epoch; unknown versions are errors and never fall back silently; a single-version provider always returns its one API.",
 ["inputs","schedules","histories"],"all slots, version schedules and interleavings","Interleavings and schedules cannot be enumerated by tests.",
 ["api_epoch_based_provider.go","api_protocol_epoch_versions.go","api_single_version_provider.go"],[("version lookup","api_protocol_epoch_versions.go VersionForEpoch"),("provider locking","api_epoch_based_provider.go")])
p("P34","Protocol parameters are compared, hashed and derived completely",
 "Two protocol parameter sets are equal exactly when all their fields are, the parameter hash covers the full serialization, every option sets the parameter it names, and accessors return the field they name; the network id, the genesis block id, the derived mana parameters and the providers of the API come from these parameters alone.",
 ["inputs","configurations"],"all parameter sets","A missing field shows only when that field alone differs.",["api_protocol_parameters.go","api_v3_protocol_parameters.go","rmc.go","workscore.go","storagescore.go","mana.go"],[("Equals methods","Equals()"),("options","With*")])
p("P35","Slot, epoch and time conversions are mutually consistent",
 "Slot start and end times, epochs of slots and epoch boundaries are mutually inverse: each epoch holds exactly the configured number of slots, slots before genesis map to epoch zero, and counts of slots since and before epoch borders agree with those boundaries for any genesis slot.",
 ["inputs","configurations"],"all times, slots, epochs and parameters","Tests use genesis slot zero only.",["timeprovider.go"],[("time provider","timeprovider.go")])
p("P36","Mana generation and decay never favour the holder",
 "Decay and generation refuse a target slot before the creation slot, are computed on the excess above the storage deposit, use 64-bit overflow-checked arithmetic throughout and bound lookup tables, and stored mana is only ever decayed.",
 I,"all amounts and slot pairs","64-bit ranges.",["mana_decay_provider.go","mana.go"],[("decay provider","mana_decay_provider.go")])
p("P37","Builders change only what is named, unlock inputs and account for all mana",
 "Every setter and transition of the output, block and transaction builders changes exactly the field it names and none after an error was recorded; a builder with a recorded error builds nothing. A built transaction contains every added input, output, context input, allotment and reward, with allotments and context inputs in canonical order; each input is unlocked by the signature of its owner, a reference to the earlier unlock of the same signer, or a reference to the earlier input holding the chain that owns it, and building fails otherwise. The mana available on the input side is the stored and potential mana of every input plus rewards, bound to the account for account outputs; outputs and allotments take it account-bound mana first and never more than there is; allotting or storing the remainder never drops mana. Mana overflows are reported.",
 H,"all builder call sequences, one step at a time from any builder state; unlocks for one and two inputs","Tests run a few call orders.",["builder"],[("builders","builder/*.go")])
p("P38","The node client reports failures and sends what was asked",
 "Each client call requests the route for its operation with the caller's identifiers, surfaces every transport, status and decoding failure as an error, maps status codes to their distinct errors and returns data only from a successful response.",
 ["inputs","fault_sequences"],"all calls and server behaviours","Mock servers exercise only success responses.",["nodeclient","api"],[("http dispatcher","nodeclient/http.go"),("calls","nodeclient/http_api_client.go")])
p("P39","Nested addresses, canonical lists and metadata keys are well-formed",
 "A multi address is accepted only if its members are plain (neither multi, restricted nor implicit account creation) addresses in strictly ascending order, each with a positive weight, and its threshold lies between one and the total weight; a restricted address never wraps another restricted or an implicit account creation address and its capability bytes have no superfluous trailing zero; return, state controller and governor addresses are never implicit account creation addresses; block issuer keys, block and transaction id lists are strictly ascending; metadata keys are printable ASCII without spaces.",
 I,"all encodings","Fixtures cover few malformed shapes.",["address_multi.go","address_restricted.go","feat_metadata.go","serializer_wrappers.go"],[("validators","address_multi.go, feat_metadata.go, api_v3.go")])
p("P40","Shared objects are safe for concurrent use",
 "State that is shared between goroutines and guarded by a lock is only ever read or written with that lock held, every lock is released on all paths and never taken twice or in opposite orders, state read atomically is only written atomically, and package-level tables are never written after initialisation.",
 ["schedules"],"all interleavings","Races need specific schedules.",["api_epoch_based_provider.go","api_v3_protocol_parameters.go","nodeclient"],[("locks","sync mutex fields")])
p("P41","Reference mana cost follows the congestion rule within bounds",
 "The mana cost of a block is its work score times the reference mana cost, reported as an error on overflow; a parameter set built for a snapshot is rejected unless its congestion thresholds, liveness thresholds and committable ages are mutually ordered and its mana factors do not overflow.",
 I,"all work scores and costs","64-bit ranges.",["mana.go","rmc.go","workscore.go","block.go","api_v3_protocol_parameters.go"],[("mana cost","block.go ManaCost, workscore.go")])
p("P42","Signers sign only with the key of the address and wallets hand out matching keys",
 "An in-memory signer signs for an ed25519, implicit account creation or restricted ed25519 address exactly when a private key is mapped to the (underlying) address, with that key over the given message, and puts that key's public key into the signature; signer identifiers are equal exactly for equal public keys; empty signatures are empty. A key manager derives keys from its seed and path with the hardened index as the last part, leaves its own path unchanged, and its addresses and signers belong to the derived keys; mnemonics other than 24 valid words and invalid paths are rejected; an account's addresses are those of its identifier and key.",
 I,"all addresses, keys, paths and messages","Tests use a handful of keys.",["address_signer.go","wallet"],[("signer","address_signer.go"),("key manager","wallet/keymanager.go"),("account","wallet/account.go")])
p("P43","Executing a transaction never crashes the virtual machine",
 "Executing a syntactically valid transaction against the ledger's resolved inputs returns success or an error and never panics: the state transition function of every chain kind (account, implicit account conversion, anchor, foundry, NFT, delegation; genesis, state change, destruction) and every execution step (timelocks, sender unlocked, base token balance, native token balance, chain transitions, mana balance, implicit account creation limit) reaches no explicit panic, no failing unchecked type assertion, no dereference of an absent feature, unlock condition, chain or commitment input, and no index or slice out of bounds, whatever chains, features, unlock conditions and contextual inputs the transaction combines.",
 I,"all syntactically valid transactions and resolved inputs","A test runs the combinations of chains and features someone thought of; a crash needs one nobody did (e.g. creating a foundry from the account an implicit account is just converted to).",["vm","vm/nova"],[("state transitions","vm/nova/vm.go"),("execution steps","vm/vm.go")])
p("P44","Unlockability and contents of outputs and transactions are told truthfully",
 "For every output, address and slot bounds, UnlockableBy answers exactly what the unlock rules enforce: nobody while the timelock has not expired at the earliest inclusion slot; from the expiration slot on only the return address; strictly before it (at the latest inclusion slot) only the owner; nobody in between; anchors ask the owner their next state demands and surface an undeterminable owner. The input accessors of a transaction return every UTXO, context, block issuance credit and reward input, each of its kind, complete and in order, no commitment input when there is none, and never panic on a known kind; the parent accessors of block bodies return the parents of their kind.",
 I,"all outputs, addresses, slot bounds, transactions and blocks","Tests ask for a few outputs and slots; a wallet relies on the answer for every output kind at every boundary, and a wrong one makes it build transactions the network rejects.",["."],[("unlockability","output.go"),("conditions","unlock_cond.go"),("inputs","transaction.go")])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
print(len(P))
