"""C23: configuration precedence and paths."""
import argparse
import json
import os

import numpy as np

PROPERTY = "C23"
NEEDS_KERNEL = False
TECHNIQUE = "runtime monitor: every option traced from command line, file, default and environment to the namespace a run receives"
RULE = "distinct (option, where it was given, form on the command line) combinations that reached the configuration"
ASSUMPTIONS = ["store file names are relative or absolute as written; a name that starts with a shell variable is not combined with a store directory", "abbreviated options are unambiguous"]
CASES = {"quick": 1000, "thorough": 20000}
MIN = {"options": 15000, "cli": 3000, "file": 3000, "both": 500, "expanded": 300, "stores": 200, "repeat": 400, "shipped": 300}
STORES = ("pixelstorefile", "metastorefile", "psfstorefile")

# the shipped options: type, number of values, default
COMMON = {
    "pix_dtype": (str, 1, "float32"), "meta_dtype": (str, 1, "float32"), "outbase": (str, 1, "output/"), "write_residuals": (int, 1, 1), "peak_catalog": (str, 1, ""),
    "big_catalog": (str, 1, None), "bandlist": (str, "*", ["F200W"]), "splinedatafile": (str, 1, ""), "psfstorefile": (str, 1, ""), "max_snr": (float, 1, 0), "tweak_background": (str, 1, None),
    "sqrtq_range": (float, 2, [0.4, 1]), "pa_range": (float, 2, [-2, 2]), "rhalf_range": (float, 2, [0.03, 1.0]), "sersic_range": (float, 2, [0.8, 6.0]), "dpos": (float, 2, [0.06, 0.06]),
    "use_gradients": (int, 1, 1), "linear_optimize": (int, 1, 0), "gtol": (float, 1, 1e-05), "add_barriers": (int, 1, 0), "sampling_draws": (int, 1, 256), "warmup": (int, "*", [256]),
    "max_treedepth": (int, 1, 9), "full_cov": (int, 1, 1), "progressbar": (int, 1, 0), "target_niter": (int, 1, 256), "patch_maxradius": (float, 1, 15), "patch_minradius": (float, 1, 1),
    "maxactive_per_patch": (int, 1, 15), "strict": (int, 1, 1), "max_active_fraction": (float, 1, 0.1), "ntry_checkout": (int, 1, 1000), "buffer_size": (float, 1, 5e7)}
SPEC = dict(fits=dict(COMMON, fitsfiles=(str, "*", [])), store=dict(COMMON, pixelstorefile=(str, 1, None), metastorefile=(str, 1, None)),
            pre={"do_fluxcal": (int, 1, 1), "bitmask": (int, 1, 1), "super_pixel_size": (int, 1, 8), "nside_full": (int, 2, [2048, 2048]), "pixelstorefile": (str, 1, None), "metastorefile": (str, 1, None)})


def shipped(ctx, rng, parser, kind):
    """The options a run can rely on, and what they are when not given."""
    got = vars(parser.parse_args([]))
    for k, (t, n, d) in SPEC[kind].items():
        ctx.check(k in got and (got[k] == d) and (isinstance(got[k], list) == isinstance(d, list)), "default of option %s" % k, got=got.get(k, "absent"), want=d)
        m = int(rng.integers(1, 4)) if n == "*" else n
        v = [t(x) for x in (rng.integers(1, 99, m) if t is not str else ["w%d" % x for x in rng.integers(0, 99, m)])]
        g = getattr(parser.parse_args(["--" + k] + [str(x) for x in v]), k)
        ctx.check(g == (v[0] if n == 1 else v) and all(type(x) is t for x in (g if isinstance(g, list) else [g])), "value of option %s" % k, got=g, want=v)
        ctx.count("shipped")


def value(rng, a, env):
    """Random value for a parser action: (python value, list of words)."""
    t = a.type or str
    n = a.nargs if isinstance(a.nargs, int) else 1 if a.nargs is None else int(rng.choice([0, 1, 2, 3, 3, 90], p=[0.15, 0.25, 0.25, 0.15, 0.15, 0.05]))
    out = []
    for _ in range(n):
        if "dtype" in a.dest:
            out.append(str(rng.choice(["float32", "float64", "int32"])))
        elif t is int:
            out.append(int(rng.integers(0, 400)))
        elif t is float:
            out.append(round(float(rng.normal(0, 5)), 4) if rng.random() < 0.8 else 0.0)
        else:
            s = ("/abs/dir%d/file%d.h5" if rng.random() < 0.1 else "dir%d/file%d.h5") % tuple(rng.integers(0, 99, 2))
            if rng.random() < 0.25 and a.dest != "config_file":
                v = str(rng.choice(env))
                s = str(rng.choice(["x/$%s/y", "x/${%s}/y.fits", "pre_${%s}", "$%s/z" if a.dest not in STORES else "q/$%s"])) % v
            elif rng.random() < 0.1:
                s = str(rng.choice(["~/x.h5", "a~b", "~", "100%", "a b", "x#y", "é"])) if a.dest not in STORES and a.dest != "config_file" else s
            out.append(s)
    return (out if a.nargs is not None else out[0]), [str(x) for x in out]


def expand(x):
    return os.path.expandvars(x) if isinstance(x, str) else x


def expected(vals):
    """What a run has to see for the raw values."""
    vals = dict(vals)
    d = vals.get("store_directory", None)
    out = {}
    for k, v in vals.items():
        if k in STORES and d and v:
            v = os.path.join(d, v)
        if "dtype" in k:
            v = np.dtype(v).type
        elif isinstance(v, list):
            v = np.array([expand(x) for x in v])
        else:
            v = expand(v)
        out[k] = v
    return out


def same(a, b):
    if isinstance(b, np.ndarray):
        return isinstance(a, np.ndarray) and a.shape == b.shape and bool(np.all(a == b))
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return a == b
    return type(a) is type(b) and a == b


def compare(ctx, config, want, where, forms):
    got = dict(vars(config))
    bk = got.pop("bounds_kwargs", None)
    ctx.check(set(got) == set(want), "options of the configuration", extra=sorted(set(got) - set(want)), missing=sorted(set(want) - set(got)))
    for k, w in want.items():
        ctx.check(same(got[k], w), "option %s does not have the value it was given" % k, given=where.get(k, "default"), form=forms.get(k), got=got[k], want=w)
        ctx.count("options")
        ctx.sig(k, where.get(k, "default"), forms.get(k))
    names = ["sqrtq_range", "sersic_range", "rhalf_range", "pa_range", "dpos", "n_sig_flux", "n_pix", "pixscale"]
    wb = {k: want[k] for k in names if want.get(k) is not None}
    ctx.check(bk is not None and set(bk) == set(wb) and all(same(bk[k], wb[k]) for k in wb), "bounds arguments of the configuration", got=bk, want=wb)


def case(ctx, i):
    import yaml
    from forcepho import config as C
    from forcepho.utils import NumpyEncoder
    rng = ctx.rng
    kind = str(rng.choice(["fits", "store", "pre"]))
    parser = C.preprocess_config_parser() if kind == "pre" else C.main_config_parser(FITS=kind == "fits")
    if i % 20 == 0:
        shipped(ctx, rng, parser, kind)
    env = ["FPV_%s" % x for x in ("A", "LONG_NAME", "B2")]
    for e in env:
        os.environ[e] = "val%d" % rng.integers(1000)
    os.environ[env[0]] = "/abs/dir%d" % rng.integers(100)
    # what a run adds to the shared options
    have = [a.dest for a in parser._actions]
    if rng.random() < 0.9:
        parser.add_argument("--config_file", type=str, default=None)
    if rng.random() < 0.5:
        parser.add_argument("--store_directory", type=str, default=["", "stores", "/data/$FPV_B2/st"][int(rng.integers(3))])
    if rng.random() < 0.5:
        parser.add_argument("--max-things", dest="max_things", type=int, default=3)
        parser.add_argument("--n_pix", type=float, default=None)
    if rng.random() < 0.5:
        parser.add_argument("--work_dtype", type=str, default="float64")
    flag = bool(rng.random() < 0.5)
    if flag:
        parser.add_argument("--verbose", action="store_true")
        parser.add_argument("--label", action="append", type=str, default=None)
    if rng.random() < 0.3 and "outbase" in have:
        parser.set_defaults(outbase="other/")
    acts = [a for a in parser._actions if a.dest != "help"]
    vals, where, forms, cli, fil = {}, {}, {}, [], {}
    for a in acts:
        vals[a.dest] = parser.get_default(a.dest)
    defaults = {k: (list(v) if isinstance(v, list) else v) for k, v in vals.items()}
    infile, oncli = set(), set()
    usefile = "config_file" in vals and rng.random() < 0.85
    dens = float(rng.choice([0.1, 0.3, 0.7]))
    words = {}
    for a in acts:
        if a.dest == "config_file":
            continue
        special = a.nargs == 0 or a.dest == "label"
        if usefile and rng.random() < dens:
            if rng.random() < 0.1:
                fil[a.dest] = None    # null in the file: not given
            else:
                v = bool(rng.integers(2)) if a.nargs == 0 else ["l1", "$FPV_B2"] if a.dest == "label" else value(rng, a, env)[0]
                if rng.random() < 0.2 and not special and isinstance(v, list) is False:
                    v = parser.get_default(a.dest) if parser.get_default(a.dest) is not None else v
                fil[a.dest] = vals[a.dest] = v
                infile.add(a.dest)
                where[a.dest] = "file"
        if rng.random() < dens:
            if a.nargs == 0:
                vals[a.dest], w, form = True, [a.option_strings[0]], "flag"
            elif a.dest == "label":
                # appended values start from nothing when they come from the command line
                vals[a.dest], w, form = ["a", "b"], ["--label", "a", "--label=b"], "append"
            else:
                v, ws = value(rng, a, env)
                if rng.random() < 0.2 and defaults[a.dest] not in (None, [], ""):
                    v = defaults[a.dest]     # the default, given explicitly
                    ws = [str(x) for x in (v if isinstance(v, list) else [v])]
                opt = a.option_strings[0]
                form = "plain"
                if rng.random() < 0.25:
                    # shortest unambiguous abbreviation
                    others = [o for b in parser._actions for o in b.option_strings if o != opt]
                    n = 3
                    while n < len(opt) and any(o.startswith(opt[:n]) for o in others):
                        n += 1
                    if n < len(opt):
                        opt, form = opt[:n], "abbreviated"
                # words that look like options only work with "="
                if a.nargs is None and (rng.random() < 0.4 or ws[0].startswith("-") and not ws[0][1:].replace(".", "").isdigit()):
                    w, form = ["%s=%s" % (opt, ws[0])], form + "="
                else:
                    w = [opt] + ws
                vals[a.dest] = v
            words[a.dest] = w
            oncli.add(a.dest)
            forms[a.dest] = form
            where[a.dest] = "both" if a.dest in infile else "cli"
    fn = None
    if usefile:
        if rng.random() < 0.3:
            for k, v in (("n_sig_flux", 4.5), ("dpos", 0.1), ("pixscale", 0.05)):
                if k not in vals and rng.random() < 0.7:
                    vals[k] = fil[k] = v
                    where[k] = "file"
        for k in range(int(rng.integers(0, 3))):
            vals["user_%d" % k] = fil["user_%d" % k] = [1.5, "s$FPV_A", [1, 2], True][int(rng.integers(4))]
            where["user_%d" % k] = "file"
        if not fil:
            fil["user_x"] = vals["user_x"] = 1
        fn = os.path.join(ctx.tmp, "conf%d.yml" % ctx.case)
        with open(fn, "w") as f:
            yaml.dump(fil, f)
        raw = open(fn, "rb").read()
        vals["config_file"] = fn
        words["config_file"] = ["--config_file", fn] if rng.random() < 0.5 else ["--config_file=" + fn]
    order = [str(x) for x in rng.permutation(sorted(words))]
    argv = ["prog"] + [w for k in order for w in words[k]]
    keep = list(argv)
    ctx.desc = dict(argv=argv, file=fil)
    config = C.parse_all(parser, argv)
    want = expected(vals)
    compare(ctx, config, want, where, forms)
    ctx.check(argv == keep, "parsing changes the command line")
    if fn:
        ctx.check(open(fn, "rb").read() == raw, "reading changes the configuration file")
    ctx.count("cli", len(oncli))
    ctx.count("file", len(infile))
    ctx.count("both", len(oncli & infile))
    ctx.count("expanded", sum("$" in str(v) for v in vals.values()))
    if vals.get("store_directory"):
        ctx.count("stores", sum(bool(vals.get(s)) for s in STORES))
    # the parser is not used up, and nothing leaks into the next configuration
    compare(ctx, C.parse_all(parser, list(argv)), want, where, forms)
    if "config_file" not in vals or parser.get_default("config_file") is None:
        compare(ctx, C.parse_all(parser, ["prog"]), expected(defaults), {}, {})
    ctx.count("repeat")
    # a configuration file alone, with or without overriding arguments, as a file or as a dictionary
    if fn:
        alone = {k: v for k, v in fil.items()}
        src = fn if rng.random() < 0.6 else dict(fil)
        snap = json.dumps(fil, sort_keys=True)
        over = None
        if rng.random() < 0.6:
            over = argparse.Namespace(**{k: (None if rng.random() < 0.3 else vals[k]) for k in oncli if "dtype" not in k})
            alone.update({k: v for k, v in vars(over).items() if v is not None})
        alone = {k: v for k, v in alone.items() if not ("dtype" in k and v is None)}
        if not any("dtype" in k and v is None for k, v in fil.items()):
            compare(ctx, C.read_config(src, over), expected(alone), where, forms)
            ctx.check(json.dumps(fil, sort_keys=True) == snap, "reading changes the configuration given")
    # the stored copy reproduces the configuration
    back = json.loads(json.dumps(vars(config), cls=NumpyEncoder))
    for k, w in want.items():
        if not isinstance(w, type):
            ctx.check(back[k] == (w.tolist() if isinstance(w, np.ndarray) else w), "stored copy of the configuration", option=k, got=back[k])
    # the default configuration as a file
    if i % 10 == 0 and kind != "pre":
        d = os.path.join(ctx.tmp, "default%d.yml" % ctx.case)
        args = dict(FITS=kind == "fits")
        text = C.default_config_file(d, **args)
        fresh = C.main_config_parser(**args)
        ref = {a.dest: fresh.get_default(a.dest) for a in fresh._actions if a.dest != "help"}
        ctx.check(yaml.safe_load(open(d)) == ref and yaml.safe_load(text) == ref, "default configuration written to a file")
        ctx.check(yaml.safe_load(C.default_config_file(**args)) == ref, "default configuration as text")
    ctx.sample(cli=len(oncli), file=len(infile), kind=kind)
