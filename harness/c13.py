"""C13: what counts as a Nek field file."""


def nek(env, codes):
    """the name ends in .fld, or in .f and five decimal digits"""
    def lit(tail):
        if len(codes) < len(tail):
            return False
        return env.all([c == ord(t) for c, t in zip(codes[len(codes) - len(tail):], tail)])

    numbered = False
    if len(codes) >= 7:
        t = codes[len(codes) - 7:]
        numbered = env.all([t[0] == ord("."), t[1] == ord("f")] + [env.all([c >= ord("0"), c <= ord("9")]) for c in t[2:]])
    return env.any([lit(".fld"), numbered])


def same(env, label, got, want):
    env.check(label, env.any([want if got else env.not_(want)]))


def recognise(env, n, how="function"):
    ds = env.mod("dataset")
    s = env.chars("s", n)
    want = nek(env, env.codes(s))
    if how == "function":
        got = bool(ds.can_open_nek_dataset(s))
    elif how == "plugin":
        got = bool(ds.PymechXarrayBackend().guess_can_open(s))
    else:
        got = bool(ds.nek_ext_pattern.match(s))
    same(env, "taken for a Nek field file exactly when the name has that form", got, want)


def suffix(env, before, n, how="function"):
    """a fixed beginning and any n characters"""
    ds = env.mod("dataset")
    s = before + env.chars("s", n)
    want = nek(env, env.codes(s))
    f = ds.can_open_nek_dataset if how == "function" else ds.PymechXarrayBackend().guess_can_open
    same(env, "taken for a Nek field file exactly when the name has that form", bool(f(s)), want)


def agree(env, n):
    ds = env.mod("dataset")
    s = env.chars("s", n)
    a = bool(ds.can_open_nek_dataset(s))
    b = bool(ds.PymechXarrayBackend().guess_can_open(s))
    env.check("the plugin and the function agree", a == b)


def opened(env, n, before=""):
    """open_dataset refuses any other name; files of the right form are opened (there is none here)"""
    ds = env.mod("dataset")
    s = before + env.chars("s", n)
    want = nek(env, env.codes(s))
    e = env.raises(Exception, lambda: ds.open_dataset(s))
    env.check("no data set comes from nowhere", e is not None)
    same(env, "refused exactly when the name has not that form", not isinstance(e, NotImplementedError), want)
    if isinstance(e, NotImplementedError):
        return
    env.check("the file was looked for", isinstance(e, (OSError, ValueError)))


NAMES = [("a.f00001", True), (".f00001", True), ("dir.f00001/b.fld", True), ("dir/.fld", True), ("dir.f00001/b", False), ("x.f90", False), ("x.f", False), ("x.fort", False),
         ("x.f0001", False), ("x.f000001", False), ("x.f00001.gz", False), ("xf00001", False), ("x.fld2", False), ("x.FLD", False), ("phill0.f12345", True), ("a.b.f99999", True)]


def paths(env, kind):
    ds = env.mod("dataset")
    name, want = env.pick("name", NAMES)
    p = env.Path(name) if kind == "path" else name
    env.check("taken for a Nek field file", bool(ds.can_open_nek_dataset(p)) == want)
    env.check("by the plugin", bool(ds.PymechXarrayBackend().guess_can_open(p)) == want)
    e = env.raises(Exception, lambda: ds.open_dataset(p))
    env.check("opened or refused", (e is not None) and isinstance(e, NotImplementedError) != want)


SCENARIOS = {"paths": (paths, dict(kind="path")), "names": (paths, dict(kind="str"))}
for _n in (0, 1, 3, 4, 5, 6, 7, 8, 9, 12, 16):
    SCENARIOS[f"function_{_n}"] = (recognise, dict(n=_n))
for _n in (4, 7, 8, 12):
    SCENARIOS[f"plugin_{_n}"] = (recognise, dict(n=_n, how="plugin"))
    SCENARIOS[f"pattern_{_n}"] = (recognise, dict(n=_n, how="pattern"))
    SCENARIOS[f"opened_{_n}"] = (opened, dict(n=_n), {"tier": "quick" if _n < 7 else "thorough"})
for _n in (2, 5, 8):
    SCENARIOS[f"agree_{_n}"] = (agree, dict(n=_n))
SCENARIOS.update({
    "after_dot_f": (suffix, dict(before="dir/name.f", n=6)),
    "after_fld": (suffix, dict(before="dir/name.fld", n=2)),
    "after_number": (suffix, dict(before="name0.f00001", n=2, how="plugin")),
    "after_number_and_dot": (suffix, dict(before="a.f00001.", n=5)),
    "opened_after_fld": (opened, dict(before="name.fld", n=1)),
    "opened_after_number": (opened, dict(before="name.f0000", n=2)),
})
for _n in (20, 40, 80):
    SCENARIOS[f"function_{_n}"] = (recognise, dict(n=_n))
