"""Registry of properties; the p_*.py files beside it fill it."""
PROPS, NA = [], []


def prop(id, title, statement, over, text, why, files, mechanism, technique, note, state=None, observe=None,
         hook=False):
    assert len(title) <= 80, (id, len(title))
    anchors = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism]}
    if state:
        anchors["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe:
        anchors["observe_at"] = observe
    PROPS.append(dict(row={
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": anchors,
    }, technique=technique, note=note))


def na(id, title, statement, over, text, why, files, mechanism, reason):
    prop(id, title, statement, over, text, why, files, mechanism, None, None)
    NA.append({"property": id, "reason": reason})
