"""P24 configuration loading."""
import builtins, math, os, pathlib, shutil, tempfile
import yaml
import z3
from vf import core
from vf.core import Num, Sym, SBool, SymRaise, Unsupported, equal, zb, ctx
from vf.interp import SObj, MODELS, METHOD_MODELS
from vf.session import Fail, Skip, expect
from tatc import config
from tatc.config import ConfigError, RuntimeConfiguration, load_yaml_config

ASSUMPTIONS = ["pydantic enforces the declared type and bounds of each setting and raises ValidationError otherwise",
               "yaml.safe_load returns the value of the document or raises; the exceptions considered are listed in props/P24.py (READ_ERRORS, PARSE_ERRORS)",
               "names that are no settings are ignored; an empty file may either load as no settings or fail"]
# setting: (type, test of permitted values)
SPEC = {
    "footprint_points_elliptical": (int, lambda x: x >= 4),
    "footprint_points_rectangular_side": (int, lambda x: x >= 1),
    "repeat_cycle_delta_position_m": (float, lambda x: x > 0),
    "repeat_cycle_delta_velocity_m_per_s": (float, lambda x: x > 0),
    "repeat_cycle_search_elevation_deg": (float, lambda x: x > 0),
    "repeat_cycle_search_duration_days": (float, lambda x: True),
    "repeat_cycle_lazy_load": (bool, lambda x: True),
    "repeat_cycle_for_orbit_track": (bool, lambda x: True),
    "repeat_cycle_for_observation_events": (bool, lambda x: True),
    "orbit_tle_lazy_load": (bool, lambda x: True),
}
DEFAULT = dict(footprint_points_elliptical=32, footprint_points_rectangular_side=8, repeat_cycle_delta_position_m=10000, repeat_cycle_delta_velocity_m_per_s=10,
               repeat_cycle_search_elevation_deg=88, repeat_cycle_search_duration_days=30, repeat_cycle_lazy_load=True, repeat_cycle_for_orbit_track=True,
               repeat_cycle_for_observation_events=True, orbit_tle_lazy_load=True)


def same(a, b):
    return a == b or (isinstance(a, float) and isinstance(b, float) and math.isnan(a) and math.isnan(b))


def in_range(c, what):
    for k, (t, ok) in SPEC.items():
        x = getattr(c, k)
        expect(isinstance(x, t) or t is float and isinstance(x, int), f"{what}: {k} = {x!r} is no {t.__name__}", "type")
        expect(ok(x), f"{what}: {k} = {x!r} is out of range", "range")


def load(content, kind="file", as_str=False):
    d = tempfile.mkdtemp(prefix="vf24-")
    try:
        p = pathlib.Path(d) / "c.yml"
        if kind == "file":
            p.write_bytes(content if isinstance(content, bytes) else content.encode("utf-8", "surrogateescape"))
        elif kind == "directory":
            p.mkdir()
        elif kind == "dangling":
            p.symlink_to(pathlib.Path(d) / "nowhere")
        elif kind == "nul":
            p = pathlib.Path(d) / "a\0b"
        return load_yaml_config(str(p) if as_str else p)
    finally:
        shutil.rmtree(d)


def check_valid(i):
    text = yaml.safe_dump(i["given"], default_flow_style=i["flow"], sort_keys=False)
    if i["extra"]:
        text = "# settings\n---\n" + text
    c = load(text, as_str=i["as_str"])
    what = f"file {text!r}"
    expect(isinstance(c, RuntimeConfiguration), f"{what}: {type(c)}", "type")
    for k, v in i["given"].items():
        if k in SPEC:
            expect(same(getattr(c, k), v), f"{what}: {k} loaded as {getattr(c, k)!r}", "honoured")
    for k in SPEC:
        if k not in i["given"]:
            expect(same(getattr(c, k), DEFAULT[k]), f"{what}: {k} is {getattr(c, k)!r}, not the default {DEFAULT[k]!r}", "default")
    in_range(c, what)


def check_bad(i):
    """a file giving one setting a value that is not permitted, others permitted."""
    text = yaml.safe_dump(i["given"])
    try:
        c = load(text)
    except ConfigError:
        return
    raise Fail(f"file {text!r} loaded as {c!r}", "accepted")


def check_raw(i):
    text = i["text"].encode("latin-1") if i["bytes"] else i["text"]
    what = f"{i['kind']} {text!r}"
    try:
        c = load(text, i["kind"])
    except ConfigError:
        return
    expect(isinstance(c, RuntimeConfiguration), f"{what}: {type(c)}", "type")
    in_range(c, what)
    expect(i["kind"] == "file", f"{what} loaded", "accepted")
    try:
        d = yaml.safe_load(text)
    except Exception as e:
        raise Fail(f"{what} loaded although it cannot be read: {e}", "accepted")
    if d is None:
        d = {}
    expect(isinstance(d, dict), f"{what} loaded although it is no mapping", "accepted")
    for k, v in d.items():
        if k in SPEC:
            x = getattr(c, k)
            ok = same(x, v) or isinstance(v, str) and str(x).lower() == v.strip().lower() or isinstance(v, (str, int, float, bool)) and not isinstance(v, bool) and str(v) in ("0", "1", "0.0", "1.0") and SPEC[k][0] is bool \
                or isinstance(v, str) and SPEC[k][0] is not bool and same(float(v), float(x)) or isinstance(v, str) and SPEC[k][0] is bool
            expect(ok, f"{what}: {k} loaded as {x!r}", "honoured")
    for k in SPEC:
        if k not in d:
            expect(same(getattr(c, k), DEFAULT[k]), f"{what}: {k} is {getattr(c, k)!r}, not the default", "default")


def check_default(i):
    c = config.rc
    in_range(c, "the configuration in use at start")
    f = os.path.join(os.path.dirname(config.__file__), "resources", "defaults.yml")
    d = yaml.safe_load(open(f, encoding="utf-8")) if os.path.exists(f) else {}
    for k in SPEC:
        expect(same(getattr(c, k), d.get(k, DEFAULT[k])), f"{k} is {getattr(c, k)!r} at start, file {d.get(k)!r}", "default")


RAW = ["", "   \n", "# nothing\n", "~", "null", "[]", "{}", "- 1\n- 2", "3", "text", "a: b: c", "a: [1", "{", "}", "'", "\"", "%", "@", "`x", "\t- x", "key: @x", "a: *b", "*a", "&a", "!x y", "!!python/object:os.system x",
       "a: 1\n b: 2", "--- {}\n--- {}", "? [1]\n: 2", "{[1]: 2}", "{{}: 1}", "1: 2", "1.5: x", "true: 3", "~: 3", "2020-13-45", "a: 2020-13-45", "!!timestamp x", "!!int x", "!!bool x", "!!float x", "!!binary é", "!!null x",
       "a: !!timestamp 'no'", "footprint_points_elliptical: !!int 'x'", "<<: 3", "a: &x [*x]", "a: &x {b: *x}", "\x00", "\x07", "a: \x1b", "[" * 2000, "{a: " * 1500, "!!set {a, b}", "!!omap [a: 1]", "!!pairs [a: 1]",
       "footprint_points_elliptical:", "footprint_points_elliptical: 5\nfootprint_points_elliptical: 6", "footprint_points_elliptical: 5\n1: 2", "footprint_points_elliptical: [4]", "footprint_points_elliptical: {a: 1}",
       "footprint_points_elliptical: 0x10", "footprint_points_elliptical: 1_000", "footprint_points_elliptical: 1:30", "repeat_cycle_lazy_load: off", "repeat_cycle_lazy_load: maybe", "repeat_cycle_delta_position_m: .inf",
       "repeat_cycle_delta_position_m: .nan", "repeat_cycle_delta_position_m: -.inf", "repeat_cycle_search_duration_days: 1e3", "orbit_tle_lazy_load: 2020-01-01", "self: 1", "model_config: 1", "cls: 2"]
BYTES = ["\xff\xfe", "\x80", "a: \xe9", "\xff\xfea\x00:\x00 \x001\x00", "\xef\xbb\xbffootprint_points_elliptical: 7", "\xfe\xff\x00a"]


def concrete(C):
    def val(r, k, ok=True):
        t = SPEC[k][0]
        if t is bool:
            return r.random() < 0.5 if ok else r.choice([None, "maybe", 3, 2.5, [True], {}, "x"])
        if t is int:
            lo = 4 if k == "footprint_points_elliptical" else 1
            return r.choice([lo, lo + 1, r.randrange(lo, 50), r.randrange(lo, 10**6)]) if ok else r.choice([lo - 1, 0, -1, -r.randrange(1, 10**6), 4.5, None, "x", [4], {}, float("nan"), float("inf")])
        if k == "repeat_cycle_search_duration_days":
            return r.choice([0.0, 1, 30, -1.5, r.uniform(0, 1000), 0.25]) if ok else r.choice([None, "x", [1], {}])
        return r.choice([1e-9, 1, 5e-324, r.uniform(0, 90), r.uniform(0, 1e6), float("inf"), 10**12]) if ok else r.choice([0, 0.0, -0.0, -1e-9, -r.uniform(0, 1e6), None, "x", [1.0], {}, float("nan"), float("-inf")])

    def gen(r):
        ks = [k for k in SPEC if r.random() < r.choice([0.1, 0.5, 1.0])]
        r.shuffle(ks)
        g = {k: val(r, k) for k in ks}
        if not g or r.random() < 0.3:
            g["comment" + str(r.randrange(9))] = r.choice([1, "x", [1], None])
        return dict(given=g, flow=r.random() < 0.5, extra=r.random() < 0.3, as_str=r.random() < 0.5)
    C.cases("permitted settings", gen, check_valid, 400, "any subset of the settings with permitted values (bounds included), block or flow style")

    def gbad(r):
        ks = [k for k in SPEC if r.random() < 0.4]
        k = r.choice(list(SPEC))
        g = {x: val(r, x) for x in ks}
        g[k] = val(r, k, False)
        items = list(g.items())
        r.shuffle(items)
        return dict(given=dict(items))
    C.cases("one setting not permitted", gbad, check_bad, 400, "one setting of a wrong type or out of range (bounds included), any others permitted")

    def graw(r):
        for t in RAW:
            yield dict(text=t, bytes=False, kind="file")
        for t in BYTES:
            yield dict(text=t, bytes=True, kind="file")
        for k in ("missing", "directory", "dangling", "nul"):
            yield dict(text="", bytes=False, kind=k)
        frag = ["a", ":", " ", "\n", "- ", "[", "]", "{", "}", ",", "'", "\"", "&x", "*x", "!", "!!int", "#", "|", ">", "%", "@", "1", "2.5", "true", "~", "\t", "?", "footprint_points_elliptical: ", "repeat_cycle_delta_position_m: ", "\x01", "é", "---", "..."]
        while True:
            if r.random() < 0.3:
                yield dict(text="".join(chr(r.randrange(256)) for _ in range(r.randrange(1, 30))), bytes=True, kind="file")
            else:
                yield dict(text="".join(r.choice(frag) for _ in range(r.randrange(1, 15))), bytes=False, kind="file")
    C.cases("any path and content", graw, check_raw, 500, "listed malformed documents and paths, then random fragments and random bytes")
    C.cases("configuration at start", lambda r: dict(), check_default, 1, "the configuration in use when tatc is imported")


# ------------------------------------------------------------------ deductive
READ_ERRORS = [FileNotFoundError, IsADirectoryError, PermissionError, OSError]
PARSE_ERRORS = [yaml.parser.ParserError, yaml.scanner.ScannerError, yaml.reader.ReaderError, yaml.composer.ComposerError, yaml.constructor.ConstructorError,
                UnicodeDecodeError, ValueError, KeyError, AttributeError, TypeError, RecursionError, OverflowError, IndexError]


class File(Sym):
    def _enter(self, interp):
        return self

    def _exit(self, interp):
        pass

    def read(self, *a):
        return Text()

    def close(self):
        pass


class Text(Sym):
    pass


class Junk(Sym):
    """a value that pydantic rejects for every setting (wrong type)."""
    _invalid = True


class NoMapping(Sym):
    """a document that is no mapping."""


def mk(c):
    if c is UnicodeDecodeError:
        return UnicodeDecodeError("utf-8", b"\xff", 0, 1, "invalid")
    if c is yaml.reader.ReaderError:
        return c("x", 0, 0, "utf-8", "bad")
    if issubclass(c, yaml.MarkedYAMLError):
        return c("x", None, "y", None)
    return c("failed")


def deductive(V):
    def setup(v, exists, opened=None, parsed=None, doc=None):
        """the environment: does the path exist, does opening / parsing fail, else the document."""
        for f in (os.path.exists, os.path.isfile, os.path.lexists):
            MODELS[f] = lambda interp, a, k: SBool(exists)
        METHOD_MODELS[(pathlib.PosixPath, "exists")] = METHOD_MODELS[(pathlib.PosixPath, "is_file")] = lambda interp, s, a, k: SBool(exists)

        def op(interp, a, k):
            if not core.decide(exists):
                raise SymRaise(FileNotFoundError("no such file"))
            if opened is not None:
                raise SymRaise(mk(opened))
            return File()
        MODELS[builtins.open] = op
        METHOD_MODELS[(pathlib.PosixPath, "open")] = lambda interp, s, a, k: op(interp, a, k)

        def ld(interp, a, k):
            if not isinstance(a[0], (File, Text)):
                return NotImplemented
            ctx.trust("yaml: safe_load returns the document's value or raises")
            if parsed is not None:
                raise SymRaise(mk(parsed))
            return doc
        MODELS[yaml.safe_load] = ld
        MODELS[yaml.load] = ld

    def outcome(v):
        try:
            return v.call(load_yaml_config, pathlib.PosixPath("/x/c.yml"))
        except SymRaise as r:
            if isinstance(r.cls, type) and issubclass(r.cls, ConfigError):
                return "error"
            nm = r.cls if isinstance(r.cls, str) else r.cls.__name__
            return "escapes: " + nm

    def body_missing(v):
        e = v.bool("exists").e
        setup(v, e, doc={})
        r = outcome(v)
        if isinstance(r, str):
            v.ensure("only a missing file fails, with the configuration error", z3.And(z3.BoolVal(r == "error"), z3.Not(e)))
        else:
            v.ensure("a missing file fails", e)
    V.vc("missing file", body_missing)
    for stage, errs in (("open", READ_ERRORS), ("parse", PARSE_ERRORS)):
        for c in errs:
            def body_err(v, stage=stage, c=c):
                setup(v, z3.BoolVal(True), opened=c if stage == "open" else None, parsed=c if stage == "parse" else None, doc={})
                r = outcome(v)
                v.ensure("fails with the configuration error", z3.BoolVal(r == "error"))
            V.vc(f"{stage} fails with {c.__name__}", body_err)
    for nm, d in (("nothing", None), ("a list", [1]), ("an empty list", []), ("a number", 3), ("zero", 0), ("false", False), ("true", True), ("a text", "x"), ("an empty text", ""), ("an empty set", set()), ("a set of names", {"repeat_cycle_lazy_load"}), ("names that are no text", {1: 2}), ("one name that is no text", {"repeat_cycle_lazy_load": True, 2: 3})):
        def body_map(v, d=d, nm=nm):
            setup(v, z3.BoolVal(True), doc=d)
            r = outcome(v)
            if isinstance(r, str) or nm != "nothing":
                v.ensure("fails with the configuration error or ignores what is no setting", z3.BoolVal(r == "error" or isinstance(r, (SObj, RuntimeConfiguration)) and isinstance(d, dict)))
            else:
                v.ensure("no settings", z3.BoolVal(isinstance(r, (SObj, RuntimeConfiguration))))
        V.vc(f"document is {nm}", body_map)

    def sym(v, k):
        t = SPEC[k][0]
        return v.bool(k) if t is bool else v.int(k) if t is int else v.real(k)

    def fields(r):
        if isinstance(r, SObj):
            return r.fields if hasattr(r, "fields") else r._f
        return {k: getattr(r, k) for k in SPEC}

    def body_given(v, ks):
        g = {k: sym(v, k) for k in ks}
        setup(v, z3.BoolVal(True), doc=dict(g))
        permitted = z3.And(*[core.zb(SPEC[k][1](g[k])) if not isinstance(SPEC[k][1](g[k]), bool) else z3.BoolVal(SPEC[k][1](g[k])) for k in ks]) if ks else z3.BoolVal(True)
        r = outcome(v)
        if isinstance(r, str):
            v.ensure("fails only with the configuration error, for a value out of range", z3.And(z3.BoolVal(r == "error"), z3.Not(permitted)))
            return
        v.ensure("values out of range are refused", permitted)
        f = fields(r)
        for k in SPEC:
            v.ensure(f"{k}: as given, or the default", equal(f[k], g[k] if k in g else DEFAULT[k]))
    for k in SPEC:
        V.vc(f"only {k} given", lambda v, k=k: body_given(v, [k]), replay=rep)
    V.vc("every setting given", lambda v: body_given(v, list(SPEC)), replay=rep)
    V.vc("no setting given", lambda v: body_given(v, []))
    V.vc("one half of the settings given", lambda v: body_given(v, list(SPEC)[::2]), replay=rep)
    V.vc("the other half given", lambda v: body_given(v, list(SPEC)[1::2]), replay=rep)

    def body_junk(v, k):
        g = {x: DEFAULT[x] for x in SPEC if x != k}
        g[k] = Junk()
        setup(v, z3.BoolVal(True), doc=g)
        r = outcome(v)
        v.ensure("a value of a wrong type is refused with the configuration error", z3.BoolVal(r == "error"))
    for k in SPEC:
        V.vc(f"{k} of a wrong type", lambda v, k=k: body_junk(v, k))


def rep(i):
    """a countermodel's values, in a file."""
    g = {k: (bool(x) if SPEC[k][0] is bool else int(x) if SPEC[k][0] is int else float(x)) for k, x in i.items() if k in SPEC}
    if all(SPEC[k][1](x) for k, x in g.items()):
        check_valid(dict(given=g, flow=False, extra=False, as_str=False))
    else:
        check_bad(dict(given=g))
