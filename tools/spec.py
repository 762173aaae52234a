#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json: `python3 tools/spec.py` rewrites both."""
import json, pathlib
ROOT = pathlib.Path(__file__).resolve().parent.parent
P = []
def prop(id, title, statement, over, quant, why, files, mech, level, technique, note, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech,
                  level=level, technique=technique, note=note, state=state, observe=observe))

EXH = "Bounded exhaustive enumeration on the real code; nothing is claimed beyond the stated bounds. "

prop("C01", "URL-encoding round trip",
 "Whatever value of the supported data model is URL-encoded (a struct, map or enum whose parameters are strings, unit variants, options, lists, tuples, maps or structs, and within these also numbers, booleans, null and further nesting, with any string content), decoding the result as the same type gives back an equal value. Encoding and decoding such values never panic, and a value that cannot be serialized is an error wherever it occurs, never a shortened encoding.",
 ["inputs"], "every value up to the size bound, over an alphabet with all URL, JSON and percent-encoding syntax",
 "The unit tests encode three hand-written requests with plain strings; the guarantee is over all string contents, nestings and positions.",
 ["crates/core/src/urlencode.rs", "crates/core/src/urlencode/ser.rs", "crates/core/src/urlencode.rs"],
 [("percent-encoding of keys and values, JSON text for nested values", "crates/core/src/urlencode/ser.rs"), ("splitting and decoding into a JSON object", "crates/core/src/urlencode.rs")],
 "exploration", "bounded-exhaustive enumeration of values through encode/decode of the real code",
 EXH + "Excluded by the statement's data model: top-level tuple and struct variants of enums with text in them (the repository's test fixes a form that is not JSON), a top-level string that is itself the text of a JSON object or array, and top-level scalars that are not strings, which the format cannot represent.")
prop("C02", "URL-encoded parameters cannot be injected or misread",
 "The query string produced for a flat request contains exactly the parameters of the request, with exactly their values, when read by any standard query-string parser: no value or key can add, remove or change another parameter. Decoding a query string yields exactly the parameters it contains or an error, never a panic and never a different value.",
 ["inputs"], "every pair of neighbouring keys/values and every raw query string up to the length bound over structural characters",
 "Tests only decode strings the encoder produced from benign input; attacker-controlled characters need every string of a hostile alphabet.",
 ["crates/core/src/urlencode/ser.rs", "crates/core/src/urlencode.rs"],
 [("percent-encoding set", "crates/core/src/urlencode/ser.rs"), ("key=value splitting and decoding", "crates/core/src/urlencode.rs")],
 "exploration", "bounded-exhaustive enumeration against an independent query-string parser",
 EXH + "The oracle is a 30-line parser of application/x-www-form-urlencoded in the harness.")
prop("C03", "Generated identifiers are well-formed and carry full entropy",
 "Every generated authorization code, issuer state, nonce, notification id, URI token, access token and transaction id is unpadded base64url text of 32 random characters (more than 128 bits), and every random choice made for it changes the identifier, so that two identifiers differ whenever their random choices do. A transaction code (PIN) is six decimal digits, and every such PIN can occur. This holds for every outcome of the random source.",
 ["inputs"], "every value of every random draw (one at a time, over several backgrounds)",
 "A test samples a few draws of the random source; the claim is about all of its outcomes.",
 ["crates/core/src/gen.rs"], [("random identifier generators", "crates/core/src/gen.rs")],
 "exploration", "exhaustive enumeration of random choices with the random source under the checker's control",
 EXH + "fastrand is replaced by a scripted source with the same API; quality of the real generator is outside the check.")
prop("C04", "PKCE challenges follow RFC 7636 S256",
 "Generated code verifiers have 43 to 128 unreserved characters and at least 256 bits of entropy. The challenge of any verifier is the unpadded base64url encoding of its SHA-256 digest, so that a challenge matches its own verifier and no other.",
 ["inputs"], "every verifier of the bounded set, every draw of the verifier generator",
 "Tests hash one verifier; the claim is over all verifiers and all random outcomes.",
 ["crates/core/src/pkce.rs"], [("code_challenge / code_verifier", "crates/core/src/pkce.rs")],
 "exploration", "bounded-exhaustive enumeration against an independent S256 computation",
 EXH + "Trusts the sha2 crate.")
prop("C05", "One-or-many values keep their content and order",
 "A value that may be one item or a list behaves as the list of the items added to it, in order, after any sequence of additions, and its length, emptiness and JSON form agree with that list. A value that may be a string or an object reads back from JSON as what was written.",
 ["histories", "inputs"], "every sequence of operations up to the depth bound from every initial value",
 "No test covers these containers beyond the samples embedded in credentials.",
 ["crates/core/src/lib.rs"], [("Quota and Kind", "crates/core/src/lib.rs")],
 "model_checking", "explicit enumeration of operation sequences against a list model, each replayed on the real code",
 EXH)
prop("C06", "Presentation constraints: fields, paths and filters combine correctly",
 "A credential satisfies the constraints of an input descriptor exactly when every field is satisfied: at least one of the field's paths selects a value (its first, if several) that matches the field's filter, or any value if there is no filter. An optional field is also satisfied when none of its paths selects anything, but when a value is present the filter applies to it. Constraints without fields are satisfied, and the order of fields and of alternative paths does not matter.",
 ["inputs", "configurations"], "every combination of fields, paths, filters and documents of the bounded menus",
 "Tests evaluate a few single-field examples; the defect classes (short-circuits, first-path-only, optional handling) only show in combinations.",
 ["crates/dif-exch/src/lib.rs"], [("Constraints::satisfied, Field evaluation", "crates/dif-exch/src/lib.rs")],
 "exploration", "bounded-exhaustive enumeration against an independent evaluator",
 EXH + "JSONPath evaluation itself (serde_json_path) is trusted for the paths of the menu.")
prop("C07", "Filter semantics: const, pattern and format",
 "A const filter matches a string equal to it, a number or boolean whose JSON text is equal to it, or a list that contains it as a string, and nothing else. A pattern filter matches when the regular expression matches the content of a string value (the JSON text of other values); a format filter matches a string that is a valid calendar date ('date') or RFC 3339 timestamp ('date-time'), and nothing else.",
 ["inputs"], "every string up to the bound, every calendar date and time of day, every JSON kind of value",
 "Tests try one pattern and one const; boundary dates, quoting and non-string values are not sampled.",
 ["crates/dif-exch/src/lib.rs"], [("filter evaluation", "crates/dif-exch/src/lib.rs")],
 "exploration", "bounded-exhaustive enumeration against independent matchers",
 EXH)
prop("C08", "Constraint evaluation is total and fails closed",
 "Evaluating constraints never panics or loops, whatever path, pattern or format the (remote) verifier put in the presentation definition and whatever the credential contains. A constraint that cannot be evaluated is never reported as satisfied.",
 ["inputs"], "every path and pattern string up to the length bound over the syntax characters, on every kind of document",
 "The inputs come from another party over the network; tests contain only well-formed ones.",
 ["crates/dif-exch/src/lib.rs"], [("error propagation out of filter and path evaluation", "crates/dif-exch/src/lib.rs")],
 "exploration", "bounded-exhaustive enumeration of hostile inputs with panic and hang detection",
 EXH + "serde_json_path parses nested filter expressions in exponential time; nesting is bounded to 6.")
prop("C09", "Presentation Exchange objects keep their meaning on the wire",
 "Presentation definitions, descriptors, constraints and submissions that are written to JSON read back equal, with every member under its specified name and no member lost. JSON that lacks a required member or has a member of the wrong kind is rejected, and so is a filter with criteria that cannot be represented (they are never dropped).",
 ["inputs"], "every presence pattern of optional members, every small arity of lists",
 "Tests deserialise one sample definition.",
 ["crates/dif-exch/src/lib.rs"], [("serde definitions", "crates/dif-exch/src/lib.rs")],
 "exploration", "bounded-exhaustive enumeration of documents against a schema oracle", EXH)
prop("C10", "Request macros build exactly the request written",
 "For every invocation the request macros accept, the value built is equal to the one obtained by reading the same members as JSON: no member is dropped, renamed or changed, whatever the order of members and whether values are literals, constants, variables or calls.",
 ["programs"], "every presence pattern of members, every value form in every member, pairs of value forms, lists and nested definitions, for all four macros",
 "The macro tests expand one invocation per macro and compare a few fields.",
 ["crates/macros/src/*.rs"], [("parsing and expansion of the JSON-like input", "crates/macros/src")],
 "exploration", "bounded-exhaustive enumeration of programs, compiled with the real macros and run",
 EXH + "rustc is trusted; claim definitions inside a credential subject are outside the grammar the macros accept.")
prop("C11", "Request macros reject invalid invocations at compile time",
 "An invocation that lacks a required member, has a member the request does not have, has a member twice, or has a member of the wrong kind or with an unsupported value, at the top or inside a nested object, does not compile; the rejection happens at that invocation. Valid invocations compile.",
 ["programs"], "every required member removed, every foreign member added at every level, every member repeated, every invalid value of the menu, singly and in pairs",
 "No test covers rejected invocations.",
 ["crates/macros/src/*.rs"], [("required-field and unknown-field checks", "crates/macros/src")],
 "exploration", "bounded-exhaustive enumeration of damaged programs, compiled with the real macros",
 EXH + "rustc is trusted.")

exec((ROOT/"tools/spec_more.py").read_text()) if (ROOT/"tools/spec_more.py").exists() else None

def main():
    with open(ROOT/"properties.jsonl", "w") as f:
        for p in P:
            a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
            if p["state"]: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
            if p["observe"]: a["observe_at"] = list(p["observe"])
            a["hook_needed"] = None
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
              "quantifier": {"over": p["over"], "text": p["quant"]}, "why_tests_cant": p["why"], "anchors": a}, ensure_ascii=False) + "\n")
    man = {"version": 1, "setup_cmd": "./check.sh build",
      "hooks": {"guard": "none", "enable": "no hooks: the checks compile /repo's sources unchanged in a shadow workspace with stand-ins for unavailable crates", "source_commits": []},
      "checks": [{"property": p["id"], "quick_cmd": f"./check.sh {p['id']} quick", "thorough_cmd": f"./check.sh {p['id']} thorough",
                  "technique": p["technique"], "level": p["level"], "level_note": p["note"].strip()} for p in P],
      "not_applicable": []}
    (ROOT/"MANIFEST.json").write_text(json.dumps(man, indent=1, ensure_ascii=False) + "\n")
main()
