#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/props.py)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]))
    if observe: d["anchors"]["observe_at"] = observe
    assert len(title) <= 80, title
    P.append(d)

p("P01", "Returned trust chains are cryptographically linked to a trust anchor",
  "Every trust chain returned by trust resolution starts with the entity configuration of the requested entity, links each statement to the next superior (the issuer of one is the subject of the next), and ends with the entity configuration of a configured trust anchor. Every statement in it carries a signature that verifies under the keys its superior published for it, and the trust anchor's own statements verify under the keys pinned for that anchor when keys are pinned. No attacker who does not hold those keys can get a chain returned, whatever documents, hints and headers the visited servers serve.",
  ["inputs", "configurations"],
  "all federation topologies, signing keys, iss/sub values, key sets and pinned anchor keys within the stated number of entities",
  "Tests resolve a handful of fixed, honest federations; the attacker's documents form an unbounded input space and a missing check is invisible on honest input.",
  ["trustresolver.go", "entitystatement.go", "internal/jwx/jws.go", "trustanchor.go"],
  [("tree building, iss/sub checks", "trustresolver.go:resolve"), ("signature verification from the anchor downwards", "trustresolver.go:verifySignatures"), ("chain extraction", "trustresolver.go:chains")],
  ["TrustResolver.ResolveToValidChains", "TrustResolver.ResolveToValidChainsWithoutVerifyingMetadata"])
p("P02", "Trust resolution returns every valid chain, whatever other branches do",
  "If a path of correctly signed, currently valid, constraint-satisfying statements leads from the entity through its authority hints to a configured trust anchor (the first one on the path), resolution returns that path as a chain, exactly once. Broken, unreachable, expired, mis-signed or cyclic sibling branches never remove, duplicate or change the chains of good branches.",
  ["inputs", "configurations", "fault_sequences"],
  "all topologies within the stated size, with every combination of faults (unreachable, mis-signed, expired, wrong iss/sub) on branches",
  "Tests cover three fixed topologies without any faulty branch; interactions between sibling branches are combinatorial.",
  ["trustresolver.go"],
  [("sibling branches are skipped individually", "trustresolver.go:resolve"), ("compaction of verified authorities", "trustresolver.go:verifySignatures"), ("chain extraction", "trustresolver.go:chains")])
p("P03", "No trust chain contains an expired or not-yet-valid statement",
  "At the moment a trust chain is returned from trust resolution, every statement in it - the entity's own configuration, every subordinate statement and the trust anchor's configuration - is within its validity period (not issued in the future, not expired). This also holds when statements or whole results were cached by an earlier resolution and time has passed since.",
  ["inputs", "histories"],
  "all issuance and expiry times of all statements, and all amounts of time between two resolutions",
  "Tests use freshly issued statements with a fixed 300 s lifetime and never advance the clock.",
  ["trustresolver.go", "entitystatement.go", "unixtime/unixtime.go", "cache/cache.go"],
  [("TimeValid checks", "trustresolver.go:resolve"), ("time verification", "unixtime/unixtime.go:VerifyTime"), ("cache lifetimes", "trustresolver.go:entityStmtCacheSet, cacheSetTrustChains")])
p("P04", "Superiors' constraints are enforced on every chain",
  "A chain is returned only if, for every subordinate statement in it that carries constraints, the number of intermediates below the issuer does not exceed max_path_length, every entity below it has a host name (compared byte by byte) matched by a permitted entry (when given) and by no excluded entry, and only allowed entity types (federation_entity is always allowed) occur below it. Conversely, constraints that are satisfied never cause a chain to be dropped.",
  ["inputs", "configurations"],
  "all constraint values on all statements of a chain of the stated length, all host names and entity-type sets",
  "No existing test sets constraints on a resolved chain; boundary values and the interplay of several constrained superiors are unsampled.",
  ["trustresolver.go", "metadata.go"],
  [("constraint check", "trustresolver.go:checkConstraints, matchNamingConstraint"), ("entity type collection", "metadata.go:GuessEntityTypes")])
p("P05", "Resolution terminates and never loops, for any authority-hint graph",
  "Trust resolution terminates for every graph of authority hints (cycles, self references, duplicates, dead ends), and no returned chain visits an entity twice. It does not crash on entity configurations that lack metadata, keys, or endpoints.",
  ["inputs", "configurations"],
  "all directed hint graphs over the stated number of entities, with optional parts of each configuration absent",
  "Tests only use acyclic honest topologies in which every optional part is present.",
  ["trustresolver.go"],
  [("loop prevention by visited set", "trustresolver.go:resolve")])
p("P06", "A JWT of one purpose is never accepted as one of another purpose",
  "Parsing an entity statement, trust mark, trust mark delegation or resolve response succeeds only for a signed JWT whose protected type header is exactly the type registered for that purpose. A JWT with a missing or different type is rejected, and the claims handed out are exactly those in the signed payload. Likewise every document signed by the library for a purpose carries exactly that type and is signed with the key its signer publishes.",
  ["inputs"],
  "all type header values (absent, any string) and all four document kinds, parsed by all four parsers",
  "Tests only parse documents of the right type; header confusion is an input-space property.",
  ["internal/jwx/jws.go", "entitystatement.go", "trustmark.go", "metadata_resolver.go"],
  [("type check", "internal/jwx/jws.go:VerifyType")])
p("P07", "Policy operators transform a metadata value as the specification defines",
  "Applying a valid policy entry to a metadata value applies value, add, default, one_of, subset_of, superset_of and essential in that order with their specified meaning: value replaces or removes, add unions without duplicates, default fills only an absent value, subset_of intersects, and one_of, superset_of and essential either pass the value through or fail. Absent values are only rejected when the parameter is essential.",
  ["inputs"],
  "all combinations of operators, all operand lists and metadata values up to the stated list lengths, over arbitrary strings, for present and absent values",
  "2019 test vectors fix the operand strings to four literals; duplicates, empty lists, null operands and other equality patterns are unsampled.",
  ["metadataPolicy.go", "policyoperators.go", "internal/utils/slices.go"],
  [("operator order and application", "metadataPolicy.go:ApplyTo"), ("operator definitions", "policyoperators.go")])
p("P08", "A merged policy is at least as restrictive as each policy merged into it",
  "Whenever merging the policies of superiors and subordinates succeeds and the merged policy accepts a metadata value, the resulting value satisfies the restrictions (value, one_of, subset_of, superset_of, essential, add) that each single policy imposes. Policies that contradict each other are rejected when merging, not silently weakened.",
  ["inputs"],
  "all pairs of policy entries over all operator combinations and operand lists of the stated size, and all metadata values",
  "Test vectors sample literal operands for two-level chains; the claim quantifies over all operands and values.",
  ["metadataPolicy.go", "policyoperators.go", "policyverifiers.go"],
  [("merge per operator", "policyoperators.go:Merge"), ("entry merge and verification", "metadataPolicy.go:combineMetadataPolicy, mergeMetadataPolicyEntries")])
p("P09", "Forbidden operator combinations are rejected wherever they appear",
  "A policy (merged or single, from whichever superior in the chain) whose operators may not be combined or contradict each other according to the specification (for example one_of beside subset_of, add outside subset_of, superset_of outside subset_of, value outside subset_of, an empty one_of) is rejected with an error. Valid combinations are accepted.",
  ["inputs", "configurations"],
  "all operator combinations with all operand lists of the stated size, placed in any subset of up to three chain positions",
  "Verifier functions are unit-tested in isolation; whether they are run for every entry point and chain position is not.",
  ["metadataPolicy.go", "policyverifiers.go"],
  [("verification", "metadataPolicy.go:Verify, CombineMetadataPolicy"), ("verifier functions", "policyverifiers.go")])
p("P10", "Unknown policy operators: critical ones reject, others are ignored",
  "A chain (of at least two statements) in which any statement declares a policy operator critical that the library does not understand yields no resolved metadata. Unknown operators that are not critical have no effect at all: the resolved metadata is the same as if they were absent, including the effect of all understood operators on the same parameter.",
  ["inputs", "configurations"],
  "all operator names, critical lists and positions in chains of the stated length",
  "One test with a single critical operator exists; non-critical unknown operators next to known ones are unsampled.",
  ["trustchain.go", "metadataPolicy.go"],
  [("crit check", "trustchain.go:Metadata"), ("unknown operator handling", "metadataPolicy.go:mergeMetadataPolicyEntries, ApplyTo")])
p("P11", "Policies change exactly the metadata parameters they name",
  "Resolved metadata equals the subject's metadata except for parameters of those entity types for which some superior set a policy in a statement of the chain; all other parameters, entity types and unknown (extra) claims are preserved unchanged. Policies for entity types the subject does not have never create metadata for them.",
  ["inputs"],
  "all metadata contents (several entity types, parameters, extra claims) and all policies over them within the stated size",
  "Tests compare a few fixed documents; preservation of everything not named is a universally quantified frame property.",
  ["metadata.go", "trustchain.go"],
  [("policy application", "metadata.go:ApplyPolicy, applyPolicy")])
p("P12", "Resolving metadata never mutates its inputs or other chains",
  "Computing the resolved metadata of a chain, merging or verifying policies leaves the statements, policies and metadata passed in unchanged. Evaluating the same chain again, or other chains that share statements with it, in any order, gives the same results as evaluating each on its own.",
  ["inputs", "histories"],
  "all policies within the stated size, all orders of evaluating chains that share statements, all slice capacities",
  "Aliasing damage only shows after a second evaluation on shared statements with spare slice capacity; tests evaluate each chain once.",
  ["metadataPolicy.go", "policyoperators.go", "internal/utils/slices.go", "metadata.go"],
  [("set operations on operand slices", "internal/utils/slices.go:ReflectUnion, ReflectIntersect")])
p("P13", "Untrusted policies and metadata never crash the resolver",
  "For every metadata policy and metadata document that can be parsed from JSON, computing the resolved metadata either succeeds or returns an error; it never panics. This includes operands of the wrong JSON type, null operands, empty lists, mixed-type lists and policies for parameters or entity types unknown to the library.",
  ["inputs"],
  "all JSON shapes of operands (null, bool, number, string, lists, objects) for all operators, on string, list, bool, number and unknown parameters",
  "Tests use well-typed documents; the panic sites are type mismatches an attacker can choose freely.",
  ["metadata.go", "metadataPolicy.go", "policyoperators.go", "policyverifiers.go", "internal/utils/slices.go"],
  [("reflection based set operations", "internal/utils/slices.go"), ("reflection based field assignment", "metadata.go:applyPolicy")])
p("P14", "A trust mark is accepted only if issued, delegated and currently valid",
  "Verifying a trust mark against issuer keys (and an owner) succeeds exactly when the mark is currently valid, its signature verifies under the issuer keys, the type announced beside it equals the type in the signed mark, and - when an owner is given - it carries a currently valid delegation for the same type, to the same issuer, from that owner, signed with the owner's keys. A delegation verified on its own is accepted exactly when it is currently valid, signed with the owner's keys and - with a trust anchor - issued by the owner the anchor names for its type. Otherwise an error is returned.",
  ["inputs"],
  "all claim values, times and signing keys of mark and delegation",
  "Tests check some single faults; the accept condition is a conjunction over all combinations and boundary times.",
  ["trustmark.go", "unixtime/unixtime.go", "internal/jwx/jws.go"],
  [("verification", "trustmark.go:VerifyExternal")])
p("P15", "Federation trust marks honour the anchor's issuer and owner lists",
  "Verifying a trust mark within a federation succeeds only if the trust anchor does not restrict issuers for that type (no entry or an empty list) or lists the mark's issuer, the issuer is the anchor itself or is trusted through a valid chain to it, the mark verifies with that issuer's keys, and, where the anchor names an owner for the type, a valid delegation from that owner is present. Marks meeting all of this are accepted. Marks reported for a resolved entity name that entity as their subject.",
  ["inputs", "configurations"],
  "all issuer lists, owner entries, issuers, keys, chain availability and times",
  "Tests cover a fixed issuer with a fixed anchor; issuer/owner/key combinations are unsampled.",
  ["trustmark.go", "metadata_resolver.go"],
  [("federation verification", "trustmark.go:VerifyFederation, getTrustMarkIssuerJWKS")])
p("P16", "Issued trust marks and delegations carry the configured claims and lifetime",
  "A trust mark or delegation that is issued names the issuer, the requested subject and type, and the configured reference, logo, delegation and extra claims, is signed with the issuer's key and the right type header, and expires exactly the effective lifetime after issuance, where a lifetime passed to the call overrides the configured one and zero means no expiry. The last specification added for a type applies, unknown types are refused, and neither issuing a document nor what the caller does with it affects later ones.",
  ["inputs", "histories"],
  "all specs, subjects, configured and passed lifetimes; histories of adding and issuing",
  "Tests use one lifetime per case; zero/non-zero combinations of configured and passed lifetimes are unsampled.",
  ["trustmark.go", "jwtsigning.go"],
  [("issuance", "trustmark.go:IssueTrustMark, DelegationJWT")])
p("P17", "Own entity configurations contain only fresh trust marks and refresh them",
  "A trust mark an entity includes in its configuration is the configured one when refreshing is off, and otherwise never one that is expired; a mark is served unchanged while its remaining lifetime exceeds the minimum, is renewed when it does not (and in the background within the grace period), and marks without expiry keep being served. Renewal is attempted at most once a minute, and failed renewals never replace a mark by a broken one.",
  ["histories", "inputs", "fault_sequences"],
  "all sequences of requests of the stated length, with all times between them, all mark lifetimes and all issuer responses (failure, garbage, new mark)",
  "There is no test for the refresher; its behaviour depends on history and time.",
  ["trustmark_refresher.go", "federation.go"],
  [("refresh state machine", "trustmark_refresher.go:TrustMarkJWT, refresh")])
p("P18", "Serialization preserves claims, including unknown ones",
  "Serializing any entity statement, metadata, trust mark, delegation, resolve response, collected entity or UI info to JSON and parsing it again yields the same claims; unknown claims survive in the extra claims and never shadow or alter registered ones. Absent optional claims stay absent.",
  ["inputs"],
  "all claim values and presence combinations within the stated size, for every document type with extra claims",
  "Tests round-trip a few fixed documents.",
  ["entitystatement.go", "metadata.go", "metadata_generated.go", "trustmark.go", "trustresolver.go", "discovery.go", "metadataPolicy.go"],
  [("extra claim handling", "entitystatement.go:extraMarshalHelper, unmarshalWithExtra"), ("generated marshalers", "metadata_generated.go")])
p("P19", "Timestamps, durations and single-or-list values round-trip exactly",
  "Whole-second timestamps and durations representable in JSON survive serialization exactly, fractional ones to within a microsecond, and a single-or-list value parses from both notations and serializes back to the same value. Values too large to represent are rejected or saturate; they never wrap around to the past or to a negative duration.",
  ["inputs"],
  "all timestamps and durations in the stated range, all lists up to the stated length",
  "Tests sample a few small values; overflow and rounding cases are rare points of a 64-bit domain.",
  ["unixtime/unixtime.go", "sliceorsinglevalue.go"],
  [("conversions", "unixtime/unixtime.go"), ("list handling", "sliceorsinglevalue.go")])
p("P20", "The statement cache is transparent: right statement, never after expiry",
  "A statement answered from the cache is the very statement (all claims and signature) that was last obtained for the same subject and issuer, never one of another subject or issuer, and never one that has expired. It is refreshed in the background exactly if it is within the grace period and the configured share of its lifetime has elapsed. Distinct cache entries never collide for distinct subject/issuer pairs. The same holds with a redis server as cache, and a cache that fails changes neither what is obtained nor whether it is obtained.",
  ["histories", "inputs"],
  "all pairs of subject/issuer identifiers within the stated length, all statement contents of the stated shape, all elapsed times",
  "Tests never look at cached statements after time has passed and use a few identifiers.",
  ["trustresolver.go", "cache/cache.go", "cache/redis.go", "entitystatement.go"],
  [("cache keys", "cache/cache.go:EntityStmtCacheKey"), ("cache codec", "entitystatement.go:MarshalMsgpack, UnmarshalMsgpack"), ("cache lifetime", "trustresolver.go:entityStmtCacheSet"), ("redis cache", "cache/redis.go:Get, Set")])
p("P21", "Chain utilities select, order and date chains correctly",
  "Filters return exactly the chains that satisfy their condition, in the original order; the minimal-path filter returns exactly the shortest ones; sorting returns a permutation ordered by score; a chain's path length is its number of intermediates and its expiry is the earliest expiry of its statements.",
  ["inputs"],
  "all lists of chains up to the stated number and length, with all anchors and expiry times",
  "Tests use fixed lists; ties, empty chains and extreme times are unsampled.",
  ["trustchainfilter.go", "trustchain.go"],
  [("filters and sorting", "trustchainfilter.go"), ("path length and expiry", "trustchain.go:PathLen, ExpiresAt")])
p("P22", "OIDC requests are bound to this client and to the intended provider",
  "A request object or client assertion names this entity as issuer (and client), the intended audience, is issued now, expires after the configured lifetime, carries a token identifier, and is signed with this entity's key; callers cannot override issuer, client or times or smuggle in a subject or client secret. The authorization URL points at the provider's authorization endpoint and carries the same client, redirect and scope values as the signed request object.",
  ["inputs"],
  "all caller-supplied claim maps and parameters within the stated size",
  "Tests check two fixed maps; overriding attempts are unsampled.",
  ["authcode.go"],
  [("request object", "authcode.go:RequestObject"), ("client assertion", "authcode.go:ClientAssertion"), ("authorization URL", "authcode.go:GetAuthorizationURL")])
p("P23", "An entity's own configuration is self-issued, complete and dated correctly",
  "The entity configuration produced for an entity names it as issuer and subject, carries exactly its keys, hints, metadata, trust mark issuers and owners and extra claims, is issued now and expires after the configured lifetime (the default lifetime if none is configured), and is signed with its own key under the entity statement type.",
  ["inputs", "configurations"],
  "all configured lifetimes, hints, metadata presence and extra claims within the stated size",
  "No test inspects the produced configuration over the lifetime domain.",
  ["federation.go", "jwtsigning.go"],
  [("payload construction", "federation.go:EntityConfigurationPayload, NewFederationEntity")])
p("P24", "Entity collection finds each matching subordinate exactly once and terminates",
  "Collecting entities below a trust anchor terminates for every subordinate graph (including cycles and unreachable entities) and returns each entity that is listed by a visited authority, reachable and matches the requested entity types and trust marks exactly once, and no others. Each returned entity carries exactly the requested claims: the entity types and display information of its own metadata, its valid trust marks, and a valid trust chain. Faults of one entity or authority do not affect the others and have no effect on later collections.",
  ["inputs", "configurations", "schedules"],
  "all listing graphs over the stated number of entities, all type filters and fault placements, and interleavings within the stated bound",
  "Tests collect two honest acyclic federations; results depend on graph shape, faults and goroutine schedule.",
  ["discovery.go"],
  [("recursive concurrent collection", "discovery.go:collect")])
p("P25", "Remote resolution: verdicts are mapped faithfully and failures fall back",
  "A remote resolver reports metadata only from a successfully parsed positive resolve response and reports validity only as the endpoint answered; the smart resolver uses the first anchor's endpoint that gives a usable answer and otherwise falls back to local resolution, so that unreachable or failing endpoints never turn a valid entity into an invalid one nor an invalid entity into a valid one.",
  ["fault_sequences", "inputs"],
  "all endpoint behaviours (unreachable, each error code, garbage, wrong type, valid response) per anchor, with the stated number of anchors",
  "There is no test of the remote resolvers at all.",
  ["metadata_resolver.go", "internal/http/http.go"],
  [("status mapping", "metadata_resolver.go:ResolveResponse, ResolvePossible"), ("fallback", "metadata_resolver.go:SmartRemoteMetadataResolver")])
p("P26", "Collection filters return exactly the entities meeting the criterion",
  "The filterable collector returns exactly the collected entities for which the verified-chain requirement and every supplied filter hold, in the original order; the grant-type and scope filters accept an entity exactly if its resolved provider metadata contains all required values, and the registration filters exactly if the registration type is supported.",
  ["inputs"],
  "all filter verdict combinations over the stated number of entities and filters, and all supported/required value lists of the stated size",
  "Tests use a few fixed providers.",
  ["discovery.go"],
  [("filters", "discovery.go:EntityCollectionFilter*"), ("filter combination", "discovery.go:filterableVerifiedChainsEntityCollector")])
p("P27", "Metadata lookups report exactly what the metadata contains",
  "Looking up the metadata of an entity type yields all its claims, or an error if there is none of that type. The entity types, display names, and string and list claims reported across entity types are exactly those present, each type once, and queries leave the metadata as it was.",
  ["inputs"],
  "all presence combinations of entity types and claims within the stated size, arbitrary values and type names",
  "Tests look up four fixed types and never inspect what is returned.",
  ["metadata.go"],
  [("lookup", "metadata.go:FindEntityMetadata"), ("queries", "metadata.go:GuessEntityTypes, GuessDisplayNames, IterateStringClaim, IterateStringSliceClaim")])
p("P28", "Local resolution yields the shortest usable chain and only valid trust marks",
  "Resolving an entity locally succeeds exactly if some valid trust chain to one of the requested anchors gives metadata; the metadata is that of the shortest such chain, restricted to the requested entity types, and the trust chain given with it is the chain it stems from. The trust marks given are exactly those issued to the entity that are valid in the federation. An entity is reported valid exactly if it can be resolved, and never both valid and invalid; a published resolve response carries the same.",
  ["inputs", "configurations"],
  "two ways to the anchor with every combination of signature, expiry and policy faults, all type and anchor selections, and all trust mark lists of the stated size",
  "Tests resolve honest federations; selection among several chains of different fate is not sampled.",
  ["metadata_resolver.go", "trustmark.go", "trustresolver.go"],
  [("selection", "metadata_resolver.go:resolveResponsePayloadWithoutTrustMarks"), ("trust marks", "metadata_resolver.go:ResolveResponsePayload"), ("verdict", "metadata_resolver.go:LocalMetadataResolver.ResolvePossible")])
p("P29", "Concurrent use gives the results of sequential use, without data races",
  "Resolving chains and metadata, verifying and issuing trust marks, producing the own entity configuration and creating request objects may happen at the same time, on shared chains, statements, trust marks, issuers and entities and with cached statements being refreshed in the background: every operation gives the result it gives on its own, no goroutine blocks forever, and there is no data race.",
  ["schedules"],
  "every pair of operations; interleavings within the stated number of deviations from the default schedule, data races by happens-before order in each",
  "The tests run the operations one after the other.",
  ["cache/cache.go", "trustmark.go", "trustresolver.go", "federation.go", "authcode.go"],
  [("shared caches", "cache/cache.go"), ("shared statements", "trustmark.go:TrustMark; trustchain.go:Metadata"), ("background refresh", "trustresolver.go:getEntityStatementOrConfiguration")])
p("P30", "YAML configuration means what it says and survives being written",
  "Trust mark specifications, trust mark configurations, trust anchors, trust mark owners and single-or-list values read from YAML have exactly the values given there; keys a specification does not know become extra claims, just as in JSON, and never shadow or alter registered ones. Writing any of these values as YAML and reading it again gives the same value.",
  ["inputs"],
  "all presence combinations of the keys, arbitrary strings, whole-second durations and numbers, key sets of up to two keys",
  "Tests read a few fixed documents and write none.",
  ["trustmark.go", "entitystatement.go", "jwks/jwks.go", "sliceorsinglevalue.go", "unixtime/unixtime.go", "trustanchor.go", "trustmark_refresher.go"],
  [("specifications", "trustmark.go:TrustMarkSpec.MarshalYAML, UnmarshalYAML"), ("extra claims", "entitystatement.go:yamlExtraMarshalHelper, yamlUnmarshalWithExtra"), ("keys", "jwks/jwks.go:MarshalYAML, UnmarshalYAML"), ("values", "sliceorsinglevalue.go; unixtime/unixtime.go")])
p("P31", "Signed documents have the type, key and exactly the claims asked for",
  "A signer for entity statements, trust marks, delegations, resolve responses or a given type produces compact JWTs of exactly that type, signed with its key, with exactly the claims passed. Such a token is valid with the signer's published keys, and with other sets exactly if they contain that key; only the parser for this purpose accepts it, and reads the claims back. Signers derived from one general signer do not influence each other, nothing changes the caller's claims, and without a key, or with claims that are no JSON, there is an error and no token.",
  ["inputs"],
  "every kind of signer, made directly or derived, arbitrary keys, types and claims",
  "Tests sign fixed documents with one signer each and do not ask which purposes accept them.",
  ["jwtsigning.go", "internal/jwx/jws.go", "jwks/jwks.go"],
  [("signers", "jwtsigning.go"), ("type, key ID and signature", "internal/jwx/jws.go:SignWithType, SignPayload"), ("published keys", "jwks/jwks.go:KeyToJWKS")])
p("P32", "Requests carry exactly what is asked for, and failures are errors",
  "Entity configurations, statements about subordinates, trust marks, remote resolutions and remote collections are requested once, at exactly the published endpoint (keeping a query of its own) or the well-known location of the entity identifier with or without trailing slash, with exactly the parameters asked for, whatever characters they have. A failed request of any kind gives an error (with the server's error code and description, if it gave any) and no document, and is not remembered: the next request succeeds if the server does. The error documents of the library are understood by its own clients.",
  ["inputs", "faults"],
  "endpoints with and without own queries, identifiers of every shape, all kinds of failures followed by success",
  "Tests use mock endpoints of one shape that do not examine the request, and rarely fail.",
  ["trustresolver.go", "internal/http/http.go", "metadata_resolver.go", "discovery.go", "trustmark_refresher.go", "apimodel/", "error.go"],
  [("statements", "trustresolver.go:httpGetEntityConfiguration, httpFetchEntityStatement"), ("responses", "internal/http/http.go:Get"), ("remote resolution", "metadata_resolver.go:SimpleRemoteMetadataResolver"), ("remote collection", "discovery.go:SimpleRemoteEntityCollector"), ("trust marks", "trustmark_refresher.go:refresh"), ("error documents", "error.go")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P), "properties")
