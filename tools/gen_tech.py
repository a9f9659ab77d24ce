#!/usr/bin/env python3
"""Per-property technique and note for MANIFEST.json."""
import json
S="stateful model-based property testing (proptest, shrinking): "
T={
"C01":("property-based testing: generated votes and exact-boundary parameters against big-integer arithmetic","poll library driven directly; parameters placed at -1/0/+1 atomic unit of exact vote shares; early end, end and preview compared"),
"C02":(S+"poll histories against a map model","histories over several polls and voters on the poll library and, in a second share, on whole DAOs"),
"C03":(S+"whole-DAO histories against a reference DAO model","DAOs of all four kinds created through the real factory; every proposal is compared after every step"),
"C04":(S+"whole-DAO histories biased to early finalisation and cool-down instants","clock jumps to end and cool-down instants with -1/0/+1 s"),
"C05":(S+"whole-DAO histories biased to deposits","native, CW20 and NFT deposits, owners and approvals, exact balances of all parties after every step"),
"C06":(S+"whole-DAO histories biased to councils","council proposals, votes and edits, allowed and forbidden action kinds"),
"C07":(S+"whole-DAO histories biased to weight changes under open proposals","tallies and available votes of every proposal compared after every weight change"),
"C08":(S+"membership histories against a ledger, historical totals replayed","token, denom, NFT memberships alone and (a share of the cases) inside whole DAOs"),
"C09":(S+"stake/unstake/claim histories against a ledger and exact balances","release instants hit at -1/0/+1 ns and blocks"),
"C10":(S+"NFT stake/unstake/claim histories against an ownership model","several collections, several users, long claim lists"),
"C11":(S+"membership histories with recording listeners, reports replayed","listener replay equals true weights after every step; multisig edit/replace"),
"C12":(S+"weight/distribution/claim histories against exact rational entitlements","upper bound exact, lower bound with the stated rounding loss; whole-DAO share of the cases"),
"C13":(S+"minimum-weight histories against exact rational entitlements","failed distributions must move nothing"),
"C14":(S+"whole-DAO histories, reward splits against membership weights","all four DAO kinds, from creation on"),
"C15":("property-based testing: generated (operation, caller, DAO state) triples; storage and balance digests must not change for others","every privileged message of every contract; callers include members, other DAO contracts and other DAOs' contracts"),
"C16":(S+"whitelist edit histories against a set model; whole-DAO share","all page sizes, native/CW20/NFT/multi-token entries"),
"C17":(S+"whole-DAO histories with attestations","every user entry point tried signed and unsigned"),
"C18":(S+"whole-DAO histories with configuration changes, plus creation requests","boundary values of all settings"),
"C19":(S+"registry histories against an ordered map","multi-digit versions, every page size"),
"C20":(S+"upgrade histories against filter-and-sort oracle, probe contracts record each migration","up to 60 intermediate versions, failing steps injected"),
"C21":("property-based testing: generated creation requests against what was asked for","every membership kind; created contracts inspected by queries and contract info"),
"C22":(S+"deploy/reply histories with forged, reordered and repeated replies, independent address derivation","sha256/bech32 derivation recomputed by the harness"),
"C23":("property-based testing: generated packets, callers and collection states against expected messages and resulting stakes","proxy and membership run together"),
"C24":("differential property testing: facade against direct queries and direct calls on twin DAOs","each adapted message list executed on one twin and the direct call on the other"),
"C25":("metamorphic property testing: every listing paged with every page size against the known population","all listings of all contracts"),
"C26":(S+"legacy populations migrated in random steps, conservation after every step","legacy storage written directly in the legacy layout"),
"C27":(S+"whole-DAO histories with failing and invalid actions (injected faults)","atomicity judged on the full DAO state"),
"C28":(S+"whole-DAO histories, treasury balances against executed proposals","native, CW20, NFT"),
"C29":(S+"whole-DAO histories biased to metadata and settings updates","all fields compared after every step"),
"C30":("differential property testing against a stub of the pre-rewrite contract with generated state","stub answers in the old format and records what it was sent"),
}
json.dump({k:{"technique":a,"note":b+". Seeded generated search, bounded case count (see evidence); no proof."} for k,(a,b) in T.items()},open('/verif/tools/techniques.json','w'),indent=1)
