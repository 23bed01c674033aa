"""The checks of P28: called by P28.cpp inside the interpreter of the repository, with _pbt.draw as the source of choices."""
import io
import math
import os
import sys
import traceback
import types

import _pbt

REPO = SCRATCH = None


class Failure(Exception):
    pass


def start(repo, scratch):
    global REPO, SCRATCH
    REPO, SCRATCH = repo, scratch
    sys.dont_write_bytecode = False
    sys.pycache_prefix = os.path.join(scratch, "pyc%d" % os.getpid())
    sys.path.insert(0, os.path.join(repo, "SEImplementation", "python"))
    # what the scripts take from astropy: angles on the sphere
    astropy, units, coordinates = (types.ModuleType(n) for n in ("astropy", "astropy.units", "astropy.coordinates"))
    units.degree = units.deg = 1.0
    coordinates.SkyCoord = SkyCoord
    astropy.units, astropy.coordinates = units, coordinates
    sys.modules.update({"astropy": astropy, "astropy.units": units, "astropy.coordinates": coordinates})


def describe(t, v, b):
    return "".join(traceback.format_exception(t, v, b))[-1500:]


class Angle:
    def __init__(self, rad):
        self.rad = self.radian = rad
        self.degree = self.deg = math.degrees(rad)


class SkyCoord:
    def __init__(self, ra, dec):
        self.a, self.d = math.radians(ra), math.radians(dec)

    def separation(self, o):
        da = o.a - self.a
        x = math.cos(self.d) * math.sin(o.d) - math.sin(self.d) * math.cos(o.d) * math.cos(da)
        y = math.cos(o.d) * math.sin(da)
        z = math.sin(self.d) * math.sin(o.d) + math.cos(self.d) * math.cos(o.d) * math.cos(da)
        return Angle(math.atan2(math.hypot(x, y), z))

    def position_angle(self, o):
        da = o.a - self.a
        return Angle(math.atan2(math.sin(da) * math.cos(o.d), math.cos(self.d) * math.sin(o.d) - math.sin(self.d) * math.cos(o.d) * math.cos(da)) % (2 * math.pi))


# --- choices
def rng(a, b):
    return a + _pbt.draw(b - a)


def pick(l):
    return l[_pbt.draw(len(l) - 1)]


def coin(p=50):
    return _pbt.draw(99) >= 100 - p


def uniform(a, b):
    return a + (b - a) * _pbt.draw(1 << 20) / float(1 << 20)


def check(c, m):
    if not c:
        raise Failure(m)


def eq(a, b, m):
    if a != b:
        raise Failure("%s: got %r, expected %r" % (m, a, b))


def close(a, b, m, rel=1e-9, ab=1e-12):
    if not abs(a - b) <= ab + rel * abs(b):
        raise Failure("%s: got %r, expected %r" % (m, a, b))


def refused(kinds, m, f, *a, **k):
    try:
        f(*a, **k)
    except kinds:
        return
    raise Failure(m + " is not refused")


def run(name):
    saved = dict(argv=sys.argv[:] if hasattr(sys, "argv") else [""], out=sys.stdout, err=sys.stderr)
    folder = os.path.join(SCRATCH, "c%d" % os.getpid())
    os.makedirs(folder, exist_ok=True)
    old = os.getcwd()
    os.chdir(folder)
    for m in [m for m in sys.modules if m.split(".")[0] == "sourcextractor"]:
        del sys.modules[m]
    sys.argv = ["x"]
    try:
        globals()["sub_" + name]()
        return ("ok", "")
    except Failure as e:
        return ("failure", str(e))
    except Exception:
        return ("error", traceback.format_exc()[-1500:])
    finally:
        os.chdir(old)
        for f in os.listdir(folder):
            os.unlink(os.path.join(folder, f))
        os.rmdir(folder)
        sys.argv, sys.stdout, sys.stderr = saved["argv"], saved["out"], saved["err"]


def fresh():
    """The configuration's modules, as when the program starts"""
    import sourcextractor.config as c
    import sourcextractor.config.measurement_config as mc
    import sourcextractor.config.model_fitting as mf
    import sourcextractor.config.measurement_images as mi
    return c, mc, mf, mi


# --- files
class Hdu:
    def __init__(self, dims, keys):
        self.dims, self.keys = dims, keys
        self.image = len(dims) in (2, 3)


def write_fits(name, hdus):
    with open(name, "wb") as f:
        for i, h in enumerate(hdus):
            cards = [("SIMPLE", "T") if i == 0 else ("XTENSION", "'IMAGE   '"), ("BITPIX", "8"), ("NAXIS", str(len(h.dims)))]
            cards += [("NAXIS%d" % (j + 1), str(d)) for j, d in enumerate(h.dims)]
            cards += [("EXTEND", "T")] if i == 0 else [("PCOUNT", "0"), ("GCOUNT", "1")]
            cards += [(k, "'%-8s'" % v if isinstance(v, str) else repr(v)) for k, v in h.keys.items()]
            text = "".join(("%-8s= %20s" % c).ljust(80) for c in cards) + "END".ljust(80)
            text = text.ljust(-(-len(text) // 2880) * 2880)
            n = 1 if h.dims else 0
            for d in h.dims:
                n *= d
            f.write(text.encode() + b"\0" * (-(-n // 2880) * 2880))


counter = [0]


def new_file(cube=None, images=None, keys=True, at=0):
    """A file of some HDUs: at least one image, 'images' of them if given; with a cube of so many layers as the image 'at'"""
    counter[0] += 1
    name = "f%d.fits" % counter[0]
    hdus = []
    want = max(at + 1, images if images is not None else pick([1, 1, 2, 3]))
    if coin(40):
        hdus.append(Hdu([], {}))
    for i in range(want):
        if hdus and coin(15):
            hdus.append(Hdu([3], {}))
        k = {}
        if keys:
            if coin(60):
                k["GAIN"] = pick([1.5, 2, 3.123456789012, 1e-3, "4.5"])
            if coin(60):
                k["SATURATE"] = pick([65535, 5e4, 123.25])
            if coin(50):
                k["FLXSCALE"] = pick([1.25, 0.000123456789, 2])
            if coin(40):
                k["MYKEY"] = pick([7.5, 8])
            k["FILTER"] = pick(["r", "g", "i-band", "r 2"])
            k["EXPTIME"] = pick([10, 20.5])
        dims = [3, 2, cube] if cube and i == at else [rng(1, 4), rng(1, 4)] + ([rng(1, 4)] if cube is None and coin(10) or cube and i != at and coin() else [])
        hdus.append(Hdu(dims, k))
    if coin(20):
        hdus.append(Hdu([4], {}))
    write_fits(name, hdus)
    return name, hdus


def image_hdus(hdus):
    return [i for i, h in enumerate(hdus) if h.image]


def draw_options(with_psf=True):
    k = {}
    for n, vs in (("gain", [2.5, 3, 0.]), ("saturation", [1000., 70000, 0]), ("flux_scale", [1.5, 2, 0.001])):
        if coin(25):
            k[n] = pick(vs)
        elif coin(25):
            k[n + "_keyword"] = pick(["MYKEY", "NOKEY", "EXPTIME"])
    if coin(25):
        k["weight_type"] = pick(["background", "rms", "variance", "weight"])
    if coin(25):
        k["weight_absolute"] = coin()
    if coin(25):
        k["weight_scaling"] = pick([2., 0.5, 3])
    if coin(25):
        k["weight_threshold"] = pick([0., 5., 1e-3])
    if coin(25):
        k["constant_background"] = pick([0., 12.5, -3])
    if with_psf and coin(25):
        k["psf_renormalize"] = coin()
    return k


def expected(name, hdus, hdu, psf, psf_hdu, weight, weight_hdu, k, cube=None, layer=0, wlayer=0):
    def value(n, default):
        key = {"gain": "GAIN", "saturation": "SATURATE", "flux_scale": "FLXSCALE"}[n]
        if n in k:
            return float(k[n])
        key = k.get(n + "_keyword", key)
        return float(hdus[hdu].keys[key]) if key in hdus[hdu].keys else default
    a = lambda p: os.path.abspath(p) if p else ""
    return dict(file=a(name), psf_file=a(psf), weight_file=a(weight), image_hdu=hdu, psf_hdu=psf_hdu, weight_hdu=weight_hdu, gain=value("gain", 0.), saturation=value("saturation", 0.),
                flux_scale=value("flux_scale", 1.), weight_type=k.get("weight_type", "none"), weight_absolute=k.get("weight_absolute", False), weight_scaling=float(k.get("weight_scaling", 1.)),
                has_weight_threshold="weight_threshold" in k, is_background_constant="constant_background" in k, psf_renormalize=k.get("psf_renormalize", True), is_data_cube=bool(cube),
                image_layer=layer, weight_layer=wlayer,
                **({"weight_threshold": float(k["weight_threshold"])} if "weight_threshold" in k else {}), **({"constant_background_value": float(k["constant_background"])} if "constant_background" in k else {}))


def compare(images, want, hdus_of):
    eq(len(images), len(want), "number of images")
    for n, (im, w) in enumerate(zip(images, want)):
        for key, v in w.items():
            g = getattr(im, key)
            if isinstance(v, float):
                close(g, v, "%s of image %d" % (key, n))
            else:
                eq(g, v, "%s of image %d" % (key, n))
        for key, v in hdus_of[n].keys.items():
            check(key in im.meta and (im.meta[key] == v if isinstance(v, str) else abs(float(im.meta[key]) - v) <= 1e-12 * abs(v)), "keyword %s of image %d is %r instead of %r" % (key, n, im.meta.get(key), v))


def psf_for(n, lists=True):
    """(argument, files, hdus) for n images, or None for the third if it has to be refused"""
    r = rng(0, 3 if lists else 2)
    if r == 0:
        return None, [None] * n, list(range(n))
    if r <= 2:
        return "p.psf", ["p.psf"] * n, list(range(n))
    m = n if coin(75) else pick([n + 1, max(1, n - 1)])
    l = ["p%d.psf" % i for i in range(m)]
    return l, l, [0] * n if m == n else None


def sub_loading():
    c, mc, mf, mi = fresh()
    api = mc.global_measurement_config
    call = c if coin() else api
    seen, all_images, wants, hdus_of = set(), [], [], []
    for _ in range(rng(1, 3)):
        mode = pick(["one", "one", "many", "cube", "single"])
        bad, want, ho, cubes = False, [], [], False
        if mode == "single":
            name, hdus = new_file()
            h = pick(image_hdus(hdus))
            k = draw_options()
            psf, weight = pick([None, "a.psf"]), pick([None, "w.fits", "FILE"])
            wf, _ = new_file(keys=False)
            if weight:
                weight = wf
            extra = {}
            if h or coin():
                extra["image_hdu"] = h
            else:
                h = 0
            if coin(30):
                extra["psf_hdu"] = rng(0, 3)
            if coin(30):
                extra["weight_hdu"] = rng(0, 3)
            neg = pick(["image_hdu", "psf_hdu", "weight_hdu"]) if coin(8) else None
            if neg:
                extra[neg] = -rng(1, 3)
            typ = pick(["gain", "saturation", "flux_scale", "weight_type", "weight_scaling", "weight_threshold", "constant_background"]) if coin(8) else None
            if typ:
                k[typ] = 5 if typ == "weight_type" else "abc"
            f = mi.FitsFile(name) if coin() else name
            w = mi.FitsFile(weight) if weight and coin() else weight
            _pbt.note("MeasurementImage(%r, %r, %r, %r, %r)" % (name, psf, weight, k, extra))
            if neg:
                refused(ValueError, "a negative HDU", c.MeasurementImage, f, psf, w, **dict(k, **extra))
                _pbt.label("refused")
                continue
            if typ:
                refused(TypeError, "%s of another type" % typ, c.MeasurementImage, f, psf, w, **dict(k, **extra))
                _pbt.label("refused")
                continue
            im = c.MeasurementImage(f, psf, w, **dict(k, **extra))
            check(im.id not in seen, "an identifier is used twice")
            seen.add(im.id)
            compare([im], [expected(name, hdus, h, psf, extra.get("psf_hdu", h), weight, extra.get("weight_hdu", h), k)], [hdus[h]])
            api.add_measurement_image(im)
            all_images.append(im)
            continue
        k = draw_options(with_psf=mode != "cube")
        if mode == "cube":
            layers = rng(1, 4)
            iscube = coin(90)
            at = pick([0, 0, 1])
            name, hdus = new_file(cube=layers if iscube else 0, at=at)
            extra, h = {}, image_hdus(hdus)[at]
            if coin(30) or at:
                extra["image_cube_hdu"] = h
            bad = len(hdus[h].dims) != 3
            n = layers
            psf, pf, ph = psf_for(n)
            bad = bad or ph is None
            wkind = pick(["none", "cube", "list", "mef"])
            weight, wf, wh, wl = None, [None] * n, [0] * n, [0] * n
            if wkind == "cube":
                m = n if coin(75) else pick([n + 1, max(1, n - 1)])
                wat = pick([0, 0, 1])
                weight, whd = new_file(cube=m, keys=False, at=wat)
                w0 = image_hdus(whd)[wat]
                wf, wh, wl = [weight] * n, [w0] * n, list(range(n))
                if coin(30) or wat:
                    extra["weight_cube_hdu"] = w0
                bad = bad or m != n
            elif wkind == "list":
                m = n if coin(75) else pick([n + 1, max(1, n - 1)])
                weight = wf = [new_file(images=1, keys=False)[0] for _ in range(m)]
                bad = bad or m != n
            elif wkind == "mef":
                m = pick([n, n, n + 1, max(1, n - 1)])
                weight, whd = new_file(cube=0, images=m, keys=False)
                wf, wh = [weight] * n, image_hdus(whd)
                if m < n:
                    bad = True
            _pbt.note("load_fits_data_cube(%r, %r, %r, %r, %r): %d layers, HDUs %r" % (name, psf, weight, extra, k, n, [x.dims for x in hdus]))
            if bad:
                before = dict(api.measurement_images)
                refused(ValueError, "a mismatched cube", call.load_fits_data_cube, name, psf, weight, **dict(k, **extra))
                eq(dict(api.measurement_images), before, "images after a refusal")
                _pbt.label("refused")
                _pbt.nontrivial(True)
                continue
            g = call.load_fits_data_cube(name, psf, weight, **dict(k, **extra))
            for i in range(n):
                want.append(expected(name, hdus, h, pf[i], ph[i], wf[i], wh[i], k, True, i, wl[i]))
                ho.append(hdus[h])
        else:
            files = [new_file() for _ in range(1 if mode == "one" else rng(1, 3))]
            psfs, weights, many = [], [], mode == "many"
            extra = {}
            hsel = None
            if not many and coin(20):
                hsel = pick(image_hdus(files[0][1]))
                extra["image_hdu"] = hsel
            for name, hdus in files:
                ih = [hsel] if hsel is not None else image_hdus(hdus)
                n = len(ih)
                psf, pf, ph = psf_for(n)
                wkind = pick(["none", "mef", "mef", "list"])
                weight, wf, wh = None, [None] * n, [0] * n
                if wkind == "list":
                    m = n if coin(75) else pick([n + 1, max(1, n - 1)])
                    weight = wf = [new_file(images=1, keys=False)[0] for _ in range(m)]
                    bad = bad or m != n
                elif wkind == "mef":
                    m = pick([n, n, n, n + 1, max(1, n - 1)]) if hsel is None else 1
                    weight, whd = new_file(images=m, keys=False)
                    wf, wh = [weight] * n, image_hdus(whd)
                    bad = bad or m < n
                if not many and not isinstance(psf, list) and coin(20):
                    extra["psf_hdu"] = rng(0, 4)
                    ph = [extra["psf_hdu"]] * n
                if not many and isinstance(weight, str) and coin(20):
                    extra["weight_hdu"] = pick(image_hdus(whd))
                    wh = [extra["weight_hdu"]] * n
                    bad = ph is None
                bad = bad or ph is None
                psfs.append(psf)
                weights.append(weight)
                if not bad:
                    for i in range(n):
                        want.append(expected(name, hdus, ih[i], pf[i], ph[i], wf[i], wh[i], k))
                        ho.append(hdus[ih[i]])
            _pbt.note("load %s %r, %r, %r, %r, %r: HDUs %r" % (mode, [f[0] for f in files], psfs, weights, extra, k, [[x.dims for x in f[1]] for f in files]))
            if many:
                P = None if all(p is None for p in psfs) and coin() else psfs
                W = None if all(w is None for w in weights) and coin() else weights
                if coin(5):
                    refused(ValueError, "an empty list", call.load_fits_images, [], None, None)
                if coin(10) and W is not None:
                    W, bad = W + [None], True
                elif coin(10) and P is not None:
                    P, bad = P[:-1] if len(P) > 1 else P + [None], True
                f = lambda: call.load_fits_images([f[0] for f in files], P, W, **k)
            else:
                f = lambda: (call.load_fits_images if coin(30) else call.load_fits_image)(files[0][0], psfs[0], weights[0], **dict(k, **extra))
            if bad:
                refused(ValueError, "mismatched files", f)
                _pbt.label("refused")
                _pbt.nontrivial(True)
                return
            g = f()
        imgs = list(g)
        check(g.is_leaf() and len(g) == len(imgs), "the images are not a leaf group of as many images")
        compare(imgs, want, ho)
        for im in imgs:
            check(im.id not in seen, "an identifier is used twice")
            seen.add(im.id)
        all_images += imgs
        _pbt.label(mode)
    eq(list(api.measurement_images.items()), [(i.id, i) for i in all_images], "configured images")
    out = io.StringIO()
    call.print_measurement_images(file=out)
    for im in all_images:
        check("Image %d\n" % im.id in out.getvalue(), "an image is not printed")
        check(str(im.id) in str(im) and im.meta["IMAGE_FILENAME"] == im.file, "the image does not describe itself")
    _pbt.nontrivial(bool(all_images))


# --- groups
def leaf_names(ids):
    return [i.id for i in ids]


class Tree:
    """Model of a group: images, or named subgroups"""

    def __init__(self, images=None):
        self.images, self.subs = list(images or []), None

    def copy(self):
        t = Tree(self.images)
        t.subs = None if self.subs is None else [(n, s.copy()) for n, s in self.subs]
        return t

    def leaves(self):
        return [self] if self.subs is None else [l for _, s in self.subs for l in s.leaves()]

    def nodes(self):
        return [self] + ([] if self.subs is None else [l for _, s in self.subs for l in s.nodes()])

    def all(self):
        return self.images if self.subs is None else [i for _, s in self.subs for i in s.all()]


def same_tree(g, t, what):
    eq(g.is_leaf(), t.subs is None, what + ": leaf")
    if t.subs is None:
        eq([i.id for i in g], [i.id for i in t.images], what + ": images")
        eq(len(g), len(t.images), what + ": length")
    else:
        eq([n for n, _ in g], [n for n, _ in t.subs], what + ": names")
        eq(len(g), len(t.subs), what + ": length")
        for n, s in t.subs:
            same_tree(g[n], s, "%s/%s" % (what, n))
        refused(KeyError, "an unknown name", lambda: g["no such group"])


def node_of(g, t, target):
    if t is target:
        return g
    for n, s in t.subs or []:
        r = node_of(g[n], s, target)
        if r is not None:
            return r
    return None


def some_images(c, n):
    r = []
    for _ in range(n):
        name, hdus = new_file(images=1)
        h = image_hdus(hdus)[0]
        im = c.MeasurementImage(name, image_hdu=h)
        im.model = hdus[h].keys
        r.append(im)
    return r


def grouped(images, key):
    r = {}
    for im in images:
        r.setdefault(key(im), []).append(im)
    return list(r.items())


def sub_grouping():
    c, mc, mf, mi = fresh()
    given = some_images(c, rng(1, 6))
    g, t = c.ImageGroup(images=given[0] if len(given) == 1 and coin() else given), Tree(given)
    frozen = []
    splits = 0
    for _ in range(rng(1, 8)):
        op = pick(["split", "split", "split", "add", "add_sub", "freeze", "freeze", "print"])
        target = pick(t.nodes())
        node = node_of(g, t, target)
        _pbt.note("%s on a group of %d" % (op, len(node)))
        if op == "split":
            kind = rng(0, 4)
            if any(not l.images for l in target.leaves()):
                continue
            if kind == 0:
                key, how = (lambda im: im.meta["FILTER"]), c.ByKeyword("FILTER")
            elif kind == 1:
                key, how = (lambda im: im.meta["FILTER"][0]), c.ByPattern("FILTER", "(.).*")
            elif kind == 2:
                key = lambda im: im.id % 2
                how = lambda images: grouped(images, key)
            elif kind == 3:
                refused(KeyError, "a keyword no image has", node.split, pick([c.ByKeyword("NOKEY"), c.ByPattern("NOKEY", "(.)")]))
                continue
            else:
                if target.subs is None:
                    refused(ValueError, "a split that loses images", node.split, lambda images: [("x", images[1:])])
                continue
            for l in target.leaves():
                l.subs = [(n, Tree(i)) for n, i in grouped(l.images, key)]
                l.images = []
            node.split(how)
            splits += 1
        elif op == "add":
            new = some_images(c, rng(1, 2))
            if target.subs is None:
                node.add_images(new[0] if len(new) == 1 and coin() else new)
                target.images += new
            else:
                refused(ValueError, "adding images to a split group", node.add_images, new)
        elif op == "add_sub":
            new = some_images(c, rng(1, 2))
            name = pick(["extra", "r", "other"])
            sub = c.ImageGroup(images=new)
            if target.subs is None or name in [n for n, _ in target.subs]:
                refused(Exception, "a subgroup that does not fit", node.add_subgroup, name, sub)
            else:
                node.add_subgroup(name, sub)
                target.subs.append((name, Tree(new)))
        elif op == "freeze":
            frozen.append((c.MeasurementGroup(node), target.copy()))
        else:
            text = str(node)
            for im in target.all():
                check(str(im) in text, "an image is not printed")
        same_tree(g, t, "group")
        for f, ft in frozen:
            same_tree(f, ft, "measurement group")
            if ft.subs is None and ft.images:
                i = rng(0, len(ft.images) - 1)
                check(f[i].id == ft.images[i].id, "image of a measurement group by index")
                refused(KeyError, "an image beyond the last", lambda: f[len(ft.images)])
            text = str(f)
            for im in ft.all():
                check(str(im) in text, "an image is not printed by the measurement group")
    nested = any(ft.subs and any(s.subs for _, s in ft.subs) for _, ft in frozen)
    _pbt.label("nested") if nested else None
    _pbt.nontrivial(splits > 0)


# --- models, parameters, apertures and columns
def value_or_call(v):
    return (lambda o, v=v: v) if coin(30) else v


def sub_models():
    c, mc, mf, mi = fresh()
    api = mc.global_measurement_config
    fit = api.model_fitting
    images = some_images(c, rng(1, 4))
    g = c.ImageGroup(images=list(images))
    if coin():
        g.split(c.ByKeyword("FILTER"))
        if coin(30):
            g.split(lambda im: grouped(im, lambda i: i.id % 2))
    group = c.MeasurementGroup(g)

    def nodes(x):
        return [x] + ([] if x.is_leaf() else [z for _, y in x for z in nodes(y)])

    def leaves(x):
        return list(x) if x.is_leaf() else [z for _, y in x for z in leaves(y)]
    params, ids = [], set()
    for _ in range(rng(0, 7)):
        kind = rng(0, 2)
        if kind == 0:
            v = uniform(-5, 5)
            p = c.ConstantParameter(value_or_call(v))
            close(p.get_value(None), v, "constant")
        elif kind == 1:
            v = uniform(-5, 5)
            r = rng(0, 3)
            if r == 0:
                p = c.FreeParameter(value_or_call(v))
                close(p.get_range().get_normalization_factor(3., None), 1, "default normalization")
            elif r == 1:
                p = c.FreeParameter(value_or_call(v), c.Unbounded((lambda v0, o: v0 * 2) if coin() else 6.))
                close(p.get_range().get_normalization_factor(3., None), 6, "normalization")
            else:
                ty = pick([c.RangeType.LINEAR, c.RangeType.EXPONENTIAL])
                p = c.FreeParameter(value_or_call(v), c.Range((lambda v0, o: (v0 - 1, v0 + 2)) if coin() else (2., 5.), ty))
                q = p.get_range()
                eq((q.get_min(3., None), q.get_max(3., None), q.get_type()), (2., 5., ty), "range")
            close(p.get_init_value(None), v, "initial value")
        else:
            deps = [pick(params) for _ in range(rng(0, 3))] if params else []
            p = c.DependentParameter(lambda *a: sum(a), *deps)
        check(p.id not in ids, "an identifier is used twice")
        ids.add(p.id)
        params.append(p)
    used, models, frames, priors, columns, apertures, acolumns = {}, {}, {}, {}, [], {}, []

    def use(p):
        used[p.id] = p
        if isinstance(p, c.DependentParameter):
            for q in p.params:
                use(q)

    def arg():
        return pick(params) if params and coin(75) else uniform(0, 3)
    names = set()
    refusals = 0
    for _ in range(rng(1, 8)):
        op = pick(["model", "model", "model", "prior", "column", "column", "aperture", "acolumn", "wrong"])
        call = rng(0, 1)
        if op == "model":
            ty = rng(0, 5)
            node = pick(nodes(group))
            a = [arg() for _ in range(7)]
            if ty == 0:
                m, attrs, n = c.ConstantModel(a[0]), ["value"], 1
            elif ty == 1:
                m, attrs, n = c.PointSourceModel(*a[:3]), ["x_coord", "y_coord", "flux"], 3
            elif ty == 2:
                m, attrs, n = c.SersicModel(*a), ["x_coord", "y_coord", "flux", "effective_radius", "aspect_ratio", "angle", "n"], 7
            elif ty == 3:
                m, attrs, n = c.ExponentialModel(*a[:6]), ["x_coord", "y_coord", "flux", "effective_radius", "aspect_ratio", "angle"], 6
            elif ty == 4:
                m, attrs, n = c.DeVaucouleursModel(*a[:6]), ["x_coord", "y_coord", "flux", "effective_radius", "aspect_ratio", "angle"], 6
            else:
                d = {"_aspect_ratio": arg(), "_angle": arg(), "_scale": arg(), "my": arg()}
                d = {k: v for k, v in d.items() if coin(70)}
                for again in range(rng(1, 2)):  # one dictionary for two models
                    m = c.ComputeGraphModel(pick(["m.onnx", ["a.onnx", "b.onnx"]]), a[0], a[1], a[2], d) if d or coin() else c.ComputeGraphModel("m.onnx", *a[:3])
                    for k, at, default in (("_aspect_ratio", "aspect_ratio", 1.), ("_angle", "angle", 0.), ("_scale", "scale", 1.)):
                        v = d.get(k, default)
                        q = getattr(m, at)
                        check(q is v if isinstance(v, mf.ParameterBase) else q.get_value(None) == v, "%s of a compute graph model is not the one given" % at)
                    eq(sorted(m.params), sorted(k for k in d if k[0] != "_"), "custom parameters")
                attrs, n = ["x_coord", "y_coord", "flux", "aspect_ratio", "angle", "scale"], 3
            for at, v in list(zip(attrs, a))[:n]:
                q = getattr(m, at)
                check(q is v if isinstance(v, mf.ParameterBase) else q.get_value(None) == v, "%s of the model is not the one given" % at)
            (c.add_model if call else fit.add_model)(node, m)
            models[m.id] = (ty, m)
            for at in attrs:
                use(getattr(m, at))
            if ty == 5:
                for q in m.params.values():
                    use(q)
            for im in leaves(node):
                frames.setdefault(im.id, []).append(m.id)
            _pbt.note("model %d of type %d on %r" % (m.id, ty, [i.id for i in leaves(node)]))
        elif op == "prior" and params:
            p, mean, sigma = pick(params), uniform(-3, 3), uniform(0.1, 2)
            before = set(fit.prior_dict)
            (c.add_prior if call else fit.add_prior)(p, value_or_call(mean), value_or_call(sigma))
            new = [i for i in fit.prior_dict if i not in before]
            eq(len(new), 1, "new priors")
            q = fit.prior_dict[new[0]]
            eq((q.param, q.value(None), q.sigma(None)), (p.id, mean, sigma), "prior")
            priors[new[0]] = q
            use(p)
        elif op == "column" and params:
            l = [pick(params) for _ in range(rng(1, 3))]
            name = pick(["a", "b", "c", "d", "e"])
            if name in names:
                refused(ValueError, "a column name used twice", c.add_output_column if call else api.add_output_column, name, l)
                refusals += 1
                continue
            (c.add_output_column if call else api.add_output_column)(name, l[0] if len(l) == 1 and coin() else l)
            names.add(name)
            columns.append((name, [p.id for p in l]))
            for p in l:
                use(p)
            _pbt.note("column %s of %r" % columns[-1])
        elif op == "aperture":
            n = rng(1, 2)
            tg = [pick(images) for _ in range(n)]
            many = n > 1 or coin()
            diam = [pick([5., 10, 2.5, 30]) for _ in range(rng(1, 3))]
            single = len(diam) == 1 and coin()
            if len(set(i.id for i in tg)) < n or any(i.id in apertures for i in tg):
                if n == 1:
                    refused(Exception, "apertures for the same image twice", c.add_aperture_photometry if call else api.add_aperture_photometry, tg if many else tg[0], diam)
                    refusals += 1
                continue
            wrap = [c.MeasurementGroup(c.ImageGroup(images=[i])) if coin(30) else i for i in tg]
            out = (c.add_aperture_photometry if call else api.add_aperture_photometry)(wrap if many else wrap[0], diam[0] if single else diam)
            eq(len(out), n, "number of apertures returned")
            for i, o in zip(tg, out):
                apertures[i.id] = o
                eq([float(x) for x in str(o).split("[")[1].split("]")[0].split(",")], [float(d) for d in diam], "diameters")
        elif op == "acolumn" and apertures:
            l = [pick(list(apertures.values())) for _ in range(rng(1, 2))]
            name = pick(["a", "b", "c", "d", "e"])
            if name in names:
                refused(ValueError, "a column name used twice", api.add_output_column, name, l)
                continue
            c.add_output_column(name, l)
            names.add(name)
            acolumns.append((name, [p.id for p in l]))
        elif op == "wrong":
            r = rng(0, 5)
            refusals += 1
            if r == 0:
                refused(TypeError, "a column of something else", api.add_output_column, "x%d" % refusals, pick(["abc", 5.]))
            elif r == 1 and params and apertures:
                refused(TypeError, "a column of parameters and apertures", api.add_output_column, "x%d" % refusals, [pick(params), pick(list(apertures.values()))])
            elif r == 2:
                refused(TypeError, "a model on something else", fit.add_model, pick([g, images[0]]), c.PointSourceModel(1, 2, 3))
            elif r == 3:
                refused(TypeError, "a window type of another type", fit.set_window_type, 3)
            elif r == 4 and len(images) > 1:
                refused(Exception, "apertures on a group of several images", api.add_aperture_photometry, c.MeasurementGroup(c.ImageGroup(images=images)), [5])
            elif r == 5:
                refused(Exception, "apertures on something else", api.add_aperture_photometry, 5, [5])
    settings = dict(fit.params_dict)
    for n, vs in (("max_iterations", [10, 500]), ("modified_chi_squared_scale", [5., 20]), ("engine", ["gsl", "levmar"]), ("meta_iterations", [2, 7]), ("meta_iteration_stop", [0.01]), ("deblend_factor", [0.5, 1]),
                  ("use_iterative_fitting", [False, True]), ("window_type", list(c.WindowType)), ("ellipse_scale", [2., 4])):
        if coin(15):
            v = pick(vs)
            f = n if n.startswith("use") else "set_" + n
            getattr(c if coin() else fit, f)(v)
            settings[n] = v
    eq(fit.params_dict, settings, "settings")
    eq(sorted(settings), sorted(["max_iterations", "modified_chi_squared_scale", "engine", "use_iterative_fitting", "meta_iterations", "deblend_factor", "meta_iteration_stop", "window_type", "ellipse_scale"]), "settings")
    # what the C++ side sees is exactly what was configured
    _pbt.setup_context()
    d = _pbt.getters()
    for name, ty in (("constant", c.ConstantParameter), ("free", c.FreeParameter), ("dependent", c.DependentParameter)):
        eq(sorted(d[name]), sorted(i for i, p in used.items() if isinstance(p, ty)), "registered %s parameters" % name)
        for i, p in d[name].items():
            check(p is used[i], "a parameter is not the one registered")
    for i, name in enumerate(["constant_models", "point", "sersic", "exponential", "devaucouleurs", "onnx"]):
        eq(sorted(d[name]), sorted(k for k, (ty, m) in models.items() if ty == i), "registered %s" % name)
        for k, m in d[name].items():
            check(m is models[k][1], "a model is not the one registered")
    eq(d["frames"], frames, "models of the frames")
    eq({k: v for k, v in d["priors"].items()}, priors, "priors")
    eq([(n, list(i)) for n, i in d["model_columns"]], columns, "columns of the model fitting")
    eq({n: list(i) for n, i in d["aperture_columns"].items()}, dict(acolumns), "columns of the apertures")
    eq({k: v[0] for k, v in d["apertures"].items()}, {k: o.id for k, o in apertures.items()}, "apertures")
    eq(d["settings"], settings, "settings read by the program")
    everything = list(used) + list(models) + list(priors) + [o.id for o in apertures.values()] + [i.id for i in images]
    eq(len(set(everything)), len(everything), "distinct identifiers")
    for i in [x for x in images if x.id in frames and False]:
        pass
    out = io.StringIO()
    c.print_output_columns(file=out)
    for n, _ in columns + acolumns:
        check(n + " :" in out.getvalue(), "a column is not printed")
    out = io.StringIO()
    fit.print_parameters(file=out)
    for i in used:
        check("%d: " % i in out.getvalue(), "a parameter is not printed")
    for show in (False, True):
        out = io.StringIO()
        c.print_model_fitting_info(group, show, file=out)
        eq(sum(l.strip().split("[")[0] in ("ConstantModel", "PointSource", "Sersic", "Exponential", "DeVaucouleurs", "ComputeGraph") for l in out.getvalue().splitlines() if "[" in l), len(models), "models printed")
    _pbt.nontrivial(bool(models or columns or priors))
    _pbt.label("refused") if refusals else None


# --- coordinates and shapes on the sky
def sub_geometry():
    c, mc, mf, mi = fresh()
    pyston = mf.pyston
    s = pick([1e-4, 1e-3])
    theta, rat, sk, fl = uniform(0, 2 * math.pi), pick([1., uniform(0.5, 2)]), pick([0., uniform(-0.4, 0.4)]), pick([-1, 1])
    cd = [[fl * s * math.cos(theta), s * rat * (sk * math.cos(theta) - fl * math.sin(theta))], [s * math.sin(theta), s * rat * math.cos(theta)]]
    a0, d0 = math.radians(uniform(0, 360)), math.radians(uniform(-70, 70))

    def world(x, y):  # gnomonic, zero-based pixels
        u, v = math.radians(cd[0][0] * x + cd[0][1] * y), math.radians(cd[1][0] * x + cd[1][1] * y)
        den = math.cos(d0) - v * math.sin(d0)
        a = a0 + math.atan2(u, den)
        return math.degrees(a) % 360, math.degrees(math.atan2(math.sin(d0) + v * math.cos(d0), math.hypot(u, den)))
    pyston.image_to_world_alpha = lambda x, y: world(x, y)[0]
    pyston.image_to_world_delta = lambda x, y: world(x, y)[1]
    x, y, rad = uniform(-50, 50), uniform(-50, 50), uniform(0.5, 20)
    ratio, ang = pick([uniform(0.1, 1), uniform(1, 5), 1.]), pick([0., math.pi / 2, uniform(-math.pi, math.pi)])
    _pbt.note("x %r y %r radius %r ratio %r angle %r matrix %r" % (x, y, rad, ratio, math.degrees(ang), cd))
    w = c.pixel_to_world_coordinate(x + 1, y + 1)
    close(w.ra, world(x, y)[0], "right ascension")
    close(w.dec, world(x, y)[1], "declination")

    def sky(px, py):
        return SkyCoord(*world(px, py))

    def point(r, a):
        return sky(x + r * math.cos(a), y + r * math.sin(a))
    centre = sky(x, y)
    x2, y2 = x + uniform(-20, 20), y + uniform(-20, 20)
    close(c.get_separation_angle(x + 1, y + 1, x2 + 1, y2 + 1), centre.separation(sky(x2, y2)).degree, "separation", 1e-6)

    def norm(a):
        return (a + 90) % 180 - 90

    def same_angle(g, e, what, tol=1e-5):
        check(-90 <= g < 90 and abs((g - e + 90) % 180 - 90) < tol, "%s: got %r, expected %r" % (what, g, e))
    if math.hypot(x2 - x, y2 - y) > 0.1:
        same_angle(c.get_position_angle(x + 1, y + 1, x2 + 1, y2 + 1), norm(centre.position_angle(sky(x2, y2)).degree), "position angle")
    close(c.radius_to_wc_angle(x + 1, y + 1, rad), (centre.separation(sky(x + rad, y)).degree + centre.separation(sky(x, y + rad)).degree) / 2, "radius", 1e-6)
    px, py, pr, pa, pq = (c.ConstantParameter(v) for v in (x + 1, y + 1, rad, ang, ratio))
    ra, dec = c.get_world_position_parameters(px, py)
    eq([ra.params, dec.params], [[px, py]] * 2, "parameters of the position")
    close(ra.func(x + 1, y + 1), w.ra, "right ascension")
    close(dec.func(x + 1, y + 1), w.dec, "declination")

    def shape(r, a, q):
        p = c.get_world_parameters(px, py, pr, pa, pq)
        out = []
        for i, d in enumerate(p):
            args = {px.id: x + 1, py.id: y + 1, pr.id: r, pa.id: a, pq.id: q}
            out.append(d.func(*[args[k.id] for k in d.params]))
        return out
    got = shape(rad, ang, ratio)
    # the axes of the ellipse: radius along the angle, radius times ratio across it
    along, across = point(rad, ang), point(rad * ratio, ang + math.pi / 2)
    major, minor = (along, across) if ratio <= 1 else (across, along)
    close(got[0], w.ra, "right ascension of the shape")
    close(got[1], w.dec, "declination of the shape")
    close(got[2], centre.separation(major).degree, "radius on the sky", 1e-3)
    same_angle(got[3], norm(centre.position_angle(major).degree), "angle on the sky", 0.05)
    close(got[4], centre.separation(minor).degree / centre.separation(major).degree, "ratio on the sky", 2e-3)
    if abs(ratio - 1) > 1e-6:
        other = shape(rad * ratio, ang + math.pi / 2, 1 / ratio)  # the same ellipse
        close(other[2], got[2], "radius of the same ellipse with its axes exchanged", 1e-3)
        same_angle(other[3], got[3], "angle of the same ellipse with its axes exchanged", 0.05)
        close(other[4], got[4], "ratio of the same ellipse with its axes exchanged", 2e-3)
    # starting values and ranges
    o = types.SimpleNamespace(centroid_x=uniform(-10, 500), centroid_y=uniform(-10, 500), radius=uniform(0.1, 20), isophotal_flux=uniform(1e-4, 1e5))
    p, q = c.get_pos_parameters()
    eq((p.get_init_value(o), q.get_init_value(o)), (o.centroid_x, o.centroid_y), "position parameters")
    for t in (p, q):
        v = t.get_init_value(o)
        r = t.get_range()
        eq((r.get_min(v, o), r.get_max(v, o), r.get_type()), (v - o.radius, v + o.radius, c.RangeType.LINEAR), "range of a position")
    scale = pick([1, uniform(0.1, 5)])
    f = c.get_flux_parameter(scale=scale) if coin() else c.get_flux_parameter(c.FluxParameterType.ISO, scale)
    v = f.get_init_value(o)
    close(v, o.isophotal_flux * scale, "flux")
    r = f.get_range()
    close(r.get_min(v, o), v * 1e-3, "smallest flux")
    close(r.get_max(v, o), v * 1e3, "largest flux")
    eq(r.get_type(), c.RangeType.EXPONENTIAL, "range of the flux")
    _pbt.label("ratio above 1") if ratio > 1 else None
    _pbt.nontrivial(abs(ratio - 1) > 1e-6)


# --- arguments of the script
def sub_arguments():
    c, mc, mf, mi = fresh()
    specs, given, want, bad = {}, {}, {}, None
    for i in range(rng(0, 5)):
        n = "arg%d" % i
        kind = rng(0, 4)
        v = rng(-50, 50)
        text = pick(["%d" % v, "%d" % v, "abc", "a=b", ""])
        if kind == 0:
            specs[n], conv, default = v + 1, int, v + 1
        elif kind == 1:
            specs[n], conv, default = v + 0.5, float, v + 0.5
        elif kind == 2:
            specs[n], conv, default = pick([int, float, str]), None, None
            conv = specs[n]
        elif kind == 3:
            specs[n], conv, default = "text%d" % v, str, "text%d" % v
        else:
            def conv(*a):
                return ("parsed", a[0]) if a else ("default",)
            specs[n], default = conv, ("default",)
        want[n] = default
        if coin(60):
            if coin(12):
                given[n] = None  # no value: True
                text = True
            else:
                given[n] = text
            try:
                want[n] = conv(text)
            except ValueError:
                bad = bad or n
    unknown = coin(12)
    argv = ["%s=%s" % (k, v) if v is not None else k for k, v in given.items()]
    if unknown:
        argv.append(pick(["what=3", "what"]))
    sys.argv = ["script"] + argv
    _pbt.note("specs %r argv %r" % (specs, argv))
    if bad:
        refused(ValueError, "the value of %s" % bad, c.Arguments, **specs)
    elif unknown:
        refused(KeyError, "an unknown argument", c.Arguments, **specs)
    else:
        a = c.Arguments(**specs)
        for n, v in want.items():
            g = getattr(a, n)
            check(g == v and type(g) is type(v), "%s: got %r, expected %r" % (n, g, v))
            check(n in str(a) and n in repr(a), "an argument is not printed")
        refused(AttributeError, "an argument that is not defined", lambda: a.no_such_argument)
    # lists of files
    names = sorted(set(pick(["a", "b", "c"]) + str(rng(0, 20)) + pick([".fits", ".psf"]) for _ in range(rng(0, 6))))
    fits = [n for n in names if n.endswith(".fits")]
    for n in names:
        if n in fits:
            write_fits(n, [Hdu([2, 2], {"FILTER": "r"})])
        else:
            open(n, "w").close()
    l = c.FileList("*.fits")
    eq((list(l), len(l), str(l)), (fits, len(fits), str(fits)), "list of files")
    if fits:
        g = (c.load_fits_images if coin() else mc.global_measurement_config.load_fits_images)(l)
        eq([os.path.basename(i.file) for i in g], fits, "images of a list of files")
    _pbt.nontrivial(bool(given))


# --- whole scripts, run by the interpreter of the program
def sub_scripts():
    fresh()
    for m in [m for m in sys.modules if m.split(".")[0] == "sourcextractor"]:
        del sys.modules[m]
    n = rng(0, 3)
    files = [new_file(images=1) for _ in range(n)]
    scale = pick([1.5, 2., 4.25])
    style = rng(0, 3)
    lines = [pick(["from sourcextractor.config import *", "from sourcextractor.config.compat import *\nfrom sourcextractor.config import *"]), "import sys"]
    argv, gain = [], 2.5
    if style:
        lines.append("args = Arguments(scale=1.0, name='x')")
        argv = ["scale=%r" % scale, "name=caf\u00e9"][:style]
        if style == 1:
            lines.append("assert args.name == 'x', args.name")
        else:
            lines.append("assert args.name == 'caf\\u00e9', args.name")
    else:
        lines.append("class args: scale = %r" % scale)
    lines.append("assert sys.argv[1:] == %r, sys.argv" % argv)
    lines.append("assert sys.argv[0] == __file__")
    want = {}
    for i, (name, hdus) in enumerate(files):
        lines.append("g%d = load_fits_images([%r], flux_scale=args.scale, gain=%r, weight_type=%r)" % (i, name, gain + i, "none"))
        if coin():
            lines.append("m%d = MeasurementGroup(g%d)" % (i, i))
            lines.append("ap%d = add_aperture_photometry(m%d, [3, %d])" % (i, i, 5 + i))
            lines.append("add_output_column('ap%d', ap%d)" % (i, i))
            want["ap%d" % i] = [3., 5. + i]
    said = pick(["hello", "two\nlines", "caf\u00e9"])
    lines.append("print(%r)" % said)
    lines.append("print('to the log', file=sys.stderr)")
    wrong = pick([None, None, "syntax", "raise", "missing"])
    if wrong == "syntax":
        lines.append("this is not python")
    elif wrong == "raise":
        lines.append("raise RuntimeError('boom')")
    name = os.path.abspath("script.py")
    if wrong != "missing":
        with open(name, "w", encoding="utf-8") as f:
            f.write("\n".join(lines) + "\n")
    _pbt.note("argv %r\n%s" % (argv, "\n".join(lines)))
    _pbt.log_lines()
    try:
        _pbt.run_file(name, argv)
        failed = None
    except Exception as e:
        failed = str(e)
    if wrong:
        check(failed is not None, "a script with an error (%s) is not reported" % wrong)
        _pbt.label("error")
        return
    logged = _pbt.log_lines()
    check(failed is None, "the script fails: %s %r" % (failed, logged))
    for l in said.split("\n"):
        check(("Python::stdout", l) in logged, "the output %r is not in the log: %r" % (l, logged))
    check(("Python::stderr", "to the log") in logged, "the errors are not in the log")
    _pbt.setup_context()
    d = _pbt.getters()
    ims = sorted(d["images"].items())
    eq(len(ims), n, "images read from the script")
    for (i, t), (fname, hdus), k in zip(ims, files, range(n)):
        h = image_hdus(hdus)[0]
        eq((t[0], t[1]), (i, os.path.abspath(fname)), "image")
        close(t[5], 1, "saturation") if False else None
        close(t[4], gain + k, "gain")
        close(t[6], scale if style else scale, "flux scale")
        eq(t[7], "none", "weight type")
        eq(t[10][4], h, "HDU")
    ap = {v[0]: list(v[1]) for v in d["apertures"].values()}
    eq({nm: [ap[i] for i in l] for nm, l in d["aperture_columns"].items()}, {nm: [v] for nm, v in want.items()}, "apertures of the columns")
    _pbt.nontrivial(n > 0)


# --- what scripts write goes to the log line by line
def sub_output():
    fresh()
    with open("s.py", "w") as f:
        f.write("import sys\nkept = (sys.stdout, sys.stderr)\n")
    _pbt.run_file(os.path.abspath("s.py"), [])
    import __main__
    _pbt.log_lines()
    w, log = __main__.kept[0], "Python::stdout"
    if coin(30):
        w, log = __main__.kept[1], "Python::stderr"
    text = ""
    for _ in range(rng(1, 8)):
        parts = ["".join(pick(["a", "b", "\n", "\n", "\u00e9", "\u65e5", "\U0001f600", " ", "%s"]) for _ in range(rng(0, 5))) for _ in range(rng(1, 3))]
        if coin(30):
            w.writelines(parts)
        elif coin(30):
            print(*parts, sep="", end="", file=w)
        else:
            for p in parts:
                w.write(p)
        text += "".join(parts)
        if coin(20):
            w.flush()
        if coin(10):
            refused(TypeError, "writing something else than text", w.write, pick([5, None, [1]]))
    eq(_pbt.log_lines(), [(log, l) for l in text.split("\n")[:-1]], "log")
    w.write("\n")
    eq(_pbt.log_lines(), [(log, text.split("\n")[-1])], "rest of the log")
    check(w.writable() and not w.readable() and not w.isatty() and not w.seekable() and w.closed is False, "the wrapper describes itself wrongly")
    for f in (w.close, w.fileno, w.tell):
        refused(OSError, "closing, position or number of the log", f)
    for f in (w.read, w.readline, w.readlines):
        refused(OSError, "reading from the log", f, 1)
    _pbt.nontrivial("\n" in text)
