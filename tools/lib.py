PROPS = []

def H(func, pkg, files, seconds, reach, bounds, **k):
    d = dict(func=func, pkg=pkg, files=files, seconds=seconds, reach=reach, bounds=bounds)
    d.update(k)
    return d

def prop(id, title, statement, over, text, why, files, mech, harness, assumptions, module="shuttermint", models=(), rewrite=(), **k):
    assert len(title) <= 80, (id, len(title))
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
        harness=harness, assumptions=assumptions, module=module, models=list(models), rewrite=list(rewrite), extra=k))

NA = []
def na(id, title, statement, over, text, why, files, mech, reason):
    NA.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, reason=reason))
