"""C07-C15, C17, C18: contracts on the extracted source (layer A), with a
bounded comparison against an independent oracle that finds failing inputs and
stands in, labelled bounded, for what the verifier does not reach."""
import os
import bounded, corpus, guide, run, layera

RULE = {
    "C07": "valid configurations, each also with one conflict added at every kind of place; distinct by configuration",
    "C08": "valid configurations, every generated action type compared field by field; distinct by configuration",
    "C09": "configurations of the language, printed by the real code and parsed back; distinct by configuration",
    "C10": "texts: printed configurations and one- or two-edit mutations of them, real parser against a reference parser; distinct by text",
    "C11": "host, segment, mounted triples; distinct by triple",
    "C12": "method, handler path, redirect flag, parameter tuples; distinct by tuple",
    "C13": "configurations generated repeatedly in one process and in others; distinct by configuration",
    "C14": "configuration and write-failure point (byte limit or n-th call, failing forever, once, or accepting nothing); distinct by pair",
    "C15": "valid configurations, the generated module tree compared whole; distinct by configuration",
    "C17": "text and list of failure positions; distinct by pair",
    "C18": "build-script settings, file contents and environments; distinct by tuple",
}


def check(rep, prop):
    run.build("harness")
    run.build("xtract")
    # contracts
    a = layera.prove(prop, rep)
    # oracle
    f = getattr(bounded, prop.lower())
    g = guide.Guide(rep.seed)
    # where the text is another, or an obligation is open, the search for a failing input goes deeper
    corpus.DEEP = g.on or bool(a and (a["failed"] or a["undecided"]))
    corpus.FOUND[:] = g.found
    if g.notes:
        rep.notes.append(g.notes)
    # (C14's quick one already fails every write)
    deep = rep.thorough or (corpus.DEEP and prop != "C14")
    o = f(rep.seed, deep, rep.work) if prop in ("C12", "C18") else f(rep.seed, deep)
    if o.n == 0:
        raise SystemExit("%s: no case was evaluated" % prop)
    for what, data in o.bad:
        rep.violation(what, **data)
    if a:
        for name, msg in a["failed"]:
            rep.violation("obligation of %s fails:\n%s" % (name, msg), found_input=False, obligation=name, verifier_output=msg)
        rep.coverage.update(a["coverage"])
        rep.assumptions += a["assumptions"]
    rep.coverage.update({"evaluations": o.n, "distinct_nontrivial": len(o.distinct), "rule": RULE[prop],
                         "samples": o.samples or ["(see rule)"], "bounded": "the oracle comparison is bounded: %d cases from seed %d" % (o.n, rep.seed)})
    rep.coverage.update(o.extra if isinstance(getattr(o, "extra", None), dict) else {})
