"""Models of the external functions the crate uses (std, rayon, anyhow, io).

A model maps a call to a list of (state, value).  Anything not modelled is an
uninterpreted application of its arguments that havocs its &mut arguments.
"""
import sys
from terms import *
from engine import St, assume, kill, did, when

M = {}


def model(*names):
    def d(f):
        for n in names:
            M[n] = f
        return f
    return d


IT = "it"


def mkit(seq, pos=None):
    return agg(IT, "", ["seq", "pos"], [seq, pos if pos is not None else num(0)])


def seq(kind, *a):
    return mk("seq", kind, *a)


def AND(a, b):
    return ite(a, b, FALSE)


# ------------------------------------------------------------- sequences
def seqcond(s, p):
    k = s.a[0]
    if k == "range":
        return lt(add(s.a[1], p), s.a[2])
    if k in ("of",):
        return lt(p, vlen(s.a[1]))
    if k == "ofmut":
        return lt(p, s.a[3])
    if k == "opaque":
        return lt(p, mk("len", s.a[1]))
    if k in ("enum", "map", "rev", "cloned"):
        return seqcond(s.a[1], p)
    if k == "zip":
        return AND(seqcond(s.a[1], p), seqcond(s.a[2], p))
    if k == "chunks":
        return lt(mul(s.a[2], p), vlen(s.a[1]))
    if k == "chunksmut":
        return lt(mul(s.a[4], p), s.a[3])
    if k == "chunksex":
        return le(add(mul(s.a[2], p), s.a[2]), vlen(s.a[1]))
    if k == "pchunks":
        return seqcond(s.a[1], mul(s.a[2], p))
    if k == "step":
        return seqcond(s.a[1], mul(s.a[2], p))
    if k == "take":
        return AND(lt(p, s.a[2]), seqcond(s.a[1], p))
    if k == "skip":
        return seqcond(s.a[1], add(p, s.a[2]))
    if k == "chain":
        n = seqlen(s.a[1])
        return ite(lt(p, n), TRUE, seqcond(s.a[2], sub(p, n)))
    if k == "once":
        return lt(p, num(1))
    return lt(p, mk("seqlen", s))


def seqlen(s):
    k = s.a[0]
    if k == "range":
        return sub(s.a[2], s.a[1])
    if k == "of":
        return vlen(s.a[1])
    if k == "ofmut":
        return s.a[3]
    if k == "opaque":
        return mk("len", s.a[1])
    if k in ("enum", "map", "rev", "cloned"):
        return seqlen(s.a[1])
    if k == "chunksex":
        return div(vlen(s.a[1]), s.a[2])
    if k == "chunks":
        return div(sub(add(vlen(s.a[1]), s.a[2]), num(1)), s.a[2])
    if k == "step":
        return div(sub(add(seqlen(s.a[1]), s.a[2]), num(1)), s.a[2])
    if k == "chain":
        return add(seqlen(s.a[1]), seqlen(s.a[2]))
    if k == "skip":
        return sub(seqlen(s.a[1]), s.a[2])
    if k == "once":
        return num(1)
    if k == "take":
        return mmin(seqlen(s.a[1]), s.a[2])
    if k == "zip":
        return mmin(seqlen(s.a[1]), seqlen(s.a[2]))
    return mk("seqlen", s)


def pure(s):
    return s.a[0] in ("range", "of", "opaque") or s.a[0] in ("enum", "rev", "step", "take", "skip", "cloned", "chunks", "chunksex", "pchunks") and (s.a[1].op != "seq" or pure(s.a[1])) or s.a[0] in ("zip", "chain") and pure(s.a[1]) and pure(s.a[2])


def pitem(s, p):
    """item of a pure sequence"""
    k = s.a[0]
    if k == "range":
        return add(s.a[1], p)
    if k == "of":
        return elem(s.a[1], p)
    if k == "ofmut":
        return mk("ref", s.a[1], s.a[2] + (("i", p),))
    if k == "opaque":
        return elem(s.a[1], p)
    if k == "enum":
        return tup(p, pitem(s.a[1], p))
    if k == "cloned":
        return pitem(s.a[1], p)
    if k == "rev":
        return pitem(s.a[1], sub(sub(seqlen(s.a[1]), num(1)), p))
    if k == "step":
        return pitem(s.a[1], mul(s.a[2], p))
    if k == "take":
        return pitem(s.a[1], p)
    if k == "skip":
        return pitem(s.a[1], add(p, s.a[2]))
    if k == "chunks":
        lo = mul(s.a[2], p)
        return vslice(s.a[1], lo, mmin(add(lo, s.a[2]), vlen(s.a[1])))
    if k == "chunksmut":
        lo = mul(s.a[4], p)
        return mk("ref", s.a[1], s.a[2] + (("sl", lo, mmin(add(lo, s.a[4]), s.a[3])),))
    if k == "chunksex":
        lo = mul(s.a[2], p)
        return vslice(s.a[1], lo, add(lo, s.a[2]))
    if k == "pchunks":
        i = s.a[1]
        if i.a[0] in ("of", "opaque"):
            lo = mul(s.a[2], p)
            n = vlen(i.a[1]) if i.a[0] == "of" else mk("len", i.a[1])
            return mk("slice", i.a[1], lo, mmin(add(lo, s.a[2]), n))
        return mk("chunkof", i, s.a[2], p)
    if k == "zip":
        return tup(pitem(s.a[1], p), pitem(s.a[2], p))
    if k == "once":
        return s.a[1]
    if k == "chain":
        n = seqlen(s.a[1])
        return ite(lt(p, n), pitem(s.a[1], p), pitem(s.a[2], sub(p, n)))
    return mk("item", s, p)


def seqitem(c, st, s, p, site):
    """-> list of (state, value); runs mapped closures"""
    k = s.a[0]
    e = c.eng
    if k == "map":
        out = []
        for (s1, v) in seqitem(c, st, s.a[1], p, site + "m"):
            out += [(a, b) for a, b in e.call_value(c.fr, s1, s.a[2], [v], site + "M", c.sp) if a is not None]
        return out
    if k == "enum":
        return [(a, tup(p, v)) for a, v in seqitem(c, st, s.a[1], p, site)]
    if k in ("cloned", "take"):
        return seqitem(c, st, s.a[1], p, site)
    if k == "skip":
        return seqitem(c, st, s.a[1], add(p, s.a[2]), site)
    if k == "step":
        return seqitem(c, st, s.a[1], mul(s.a[2], p), site)
    if k == "rev":
        return seqitem(c, st, s.a[1], sub(sub(seqlen(s.a[1]), num(1)), p), site)
    if k == "zip":
        out = []
        for a, v in seqitem(c, st, s.a[1], p, site + "a"):
            for b, w in seqitem(c, a, s.a[2], p, site + "b"):
                out.append((b, tup(v, w)))
        return out
    return [(st, pitem(s, p))]


def filtered(s):
    return s.a[0] in ("filter", "filter_map") or s.a[0] == "map" and filtered(s.a[1])


def unfiltered(s):
    return unfiltered(s.a[1]) if filtered(s) else s


def fitem(c, st, s, p, site):
    """items of a filtered sequence, by position in the underlying one; None: dropped"""
    e = c.eng
    k = s.a[0]
    if not filtered(s):
        return seqitem(c, st, s, p, site)
    out = []
    for (s1, v) in fitem(c, st, s.a[1], p, site + "m"):
        if s1 is None:
            continue
        if v is None:
            out.append((s1, None))
            continue
        for a, b in e.call_value(c.fr, s1, s.a[2], [v], site + "M", c.sp):
            if a is None:
                continue
            if k == "map":
                out.append((a, b))
                continue
            lit = is_variant(b, "Some") if k == "filter_map" else b
            t = a.copy()
            if assume(t, lit):
                out.append((t, payload(b, "Some") if k == "filter_map" else v))
            t = a.copy()
            if assume(t, bnot(lit)):
                out.append((t, None))
    return out


def toseq(c, x, st=None, mut=False):
    """sequence denoted by an iterable value"""
    e = c.eng
    st = st or c.st
    v = e.deep(st, x)
    if v.op == "agg" and v.a[0] == IT:
        q, p = v.a[3]
        if p is num(0):
            return q
        return seq("skip", q, p)
    if v.op == "agg" and v.a[0].endswith("ops::Range"):
        return seq("range", projs(v, (("f", "start"),)), projs(v, (("f", "end"),)))
    if v.op == "agg" and v.a[0].endswith("RangeInclusive"):
        return seq("range", v.a[3][0], add(v.a[3][1], num(1)))
    if v.op == "vseq":
        return v.a[0]
    if v.op == "agg" and v.a[0].endswith("option::Option"):
        return seq("once", v.a[3][0]) if v.a[1] == "Some" else seq("range", num(0), num(0))
    if mut:
        locs = e.deref(st, x)
        if len(locs) == 1:
            return seq("ofmut", locs[0][1], locs[0][2], vlen(v))
    if v.op == "arg" or v.op in ("fld", "app", "res") and False:
        return seq("of", v)
    return seq("of", v)


def is_iter_val(v):
    return v.op == "agg" and v.a[0] == IT


# ------------------------------------------------------------- loops
def seqloop(c, s, init, step, site):
    """run step(state, acc, item) -> list of (kind, state, value); kind in
    'cont' (value = new acc) or 'break' (value = result).
    Returns list of (tag, state, value)."""
    e = c.eng
    lid = site
    idx = mk("idx", lid)
    acc = mk("L", "acc@" + lid, 0)
    st0 = c.st.copy()
    st0.mem[acc] = init

    def run(st, rr):
        backs, exits = [], []
        cond = seqcond(unfiltered(s), idx)
        s1 = st.copy()
        if assume(s1, cond):
            for (s2, item) in (fitem if filtered(s) else seqitem)(c, s1, s, idx, site + "i"):
                if s2 is None:
                    continue
                if item is None:
                    backs.append(s2)     # dropped by a filter
                    continue
                for (k, s3, v) in step(s2, s2.mem[acc], item):
                    if s3 is None:
                        continue
                    if k == "cont":
                        s3.mem[acc] = v
                        backs.append(s3)
                    else:
                        s3.mem[acc] = v
                        exits.append(("break", s3))
        s0 = st.copy()
        if assume(s0, bnot(cond)):
            exits.append(("end", s0))
        return backs, exits
    exits = e.fix_loop(lid, idx, st0, c.fr, run, [])
    if lid in e.loops:
        e.loops[lid].par = "rayon" in c.name or "rayon" in str(c.trait)
    out = []
    for (k, s1) in exits:
        v = s1.mem.pop(acc, UNIT)
        out.append((k, s1, v))
    return out


def call1(c, st, f, args, site):
    return [(s, v) for s, v in c.eng.call_value(c.fr, st, f, args, site, c.sp) if s is not None]


def collect_vec(c, s, site):
    if pure(s):
        if s.a[0] in ("of", "cloned") and (s.a[0] == "of" or s.a[1].a[0] == "of"):
            return [(c.st, s.a[1] if s.a[0] == "of" else s.a[1].a[1])]
        return [(c.st, mk("vseq", s))]
    outs = seqloop(c, s, mk("vnew"), lambda st, acc, it: [("cont", st, vpush(acc, it))], site)
    return [(st, v) for _, st, v in outs]


def payload(t, var):
    return projs(t, (("d", var), ("f", "0")))


def errpart(t):
    return payload(t, "Err")


class Models(object):
    def __init__(self, eng=None):
        pass

    def iterarg(self, v):
        """an iterator received as an argument: stands at its first item"""
        return mkit(seq("of", v))

    def lookup(self, key, disp, name, trait, selfty):
        if key is not None and trait is None:
            return None
        if key is not None and trait and not (trait.startswith("std::") or trait.startswith("rayon::") or trait.startswith("anyhow::")):
            return None
        if key is not None:
            return None
        m = M.get(name) or M.get(disp)
        if m is None:
            last = name.split("::")[-1]
            pre = "::".join(name.split("::")[:-1])
            if "iter" in pre or "rayon" in pre:
                m = ITER.get(last) or SLICE.get(last)
            elif pre.startswith("[T]") or pre in ("std::vec::Vec", "std::slice", "rayon::prelude::ParallelSlice", "rayon::prelude::ParallelSliceMut"):
                m = SLICE.get(last)
            elif pre in ("usize", "u64", "u32", "u128", "isize", "i64", "i32", "u8", "u16"):
                m = INT.get(last)
        return m

    def opaque_call(self, c):
        e = c.eng
        st = c.st
        nm = c.disp
        pure_ = False
        if c.trait in ("store::Store", "hash::Algorithm", "hash::Hashable", "merkle::Element", "std::hash::Hasher", "merkle::FromIndexedParallelIterator"):
            nm = c.trait.split("::")[-1] + "::" + c.name.split("::")[-1]
            pure_ = True
        elif nm in e.c.fns:
            pure_ = True
        elif nm in PUREFNS:
            pure_ = True
        elif nm not in KNOWN_OPAQUE and "fmt" not in nm and not nm.startswith("log::"):
            if c.t is None or c.t["t"] is not None:
                e.unknown[nm] = e.unknown.get(nm, 0) + 1
                UNKNOWN.add(nm)
        vals = [e.deep(st, a) for a in c.args]
        if nm == "Element::byte_len":
            return c.ret(mk("tysym", "byte_len"))
        if nm == "Algorithm::reset":
            c.ev(nm)
            e.store(st, e.lastref(st, c.args[0]), mk("default", "hasher"))
            return c.ret(UNIT)
        if nm == "Element::copy_to_slice":
            c.ev(nm)
            e.store(st, e.lastref(st, c.args[1]), mk("bytes", vals[0], mk("tysym", "byte_len")))
            return c.ret(UNIT)
        if pure_:
            tyarg = tuple(str(x) for x in c.targs) if nm.startswith("merkle::") or nm.startswith("Store::build") else ()
            v = mk("app", nm, *vals)
        elif nm.startswith("core::fmt") or nm.startswith("std::fmt") or nm.startswith("log::"):
            v = mk("app", nm, *vals)
        else:
            v = c.res(*vals)
        ev = c.ev(nm, ret=v)
        for i in range(len(c.args)):
            if c.ismut(i):
                ref = e.lastref(st, c.args[i])
                e.store(st, ref, mk("app", "mut%d:%s" % (i, nm), *vals) if pure_ else mk("app", "mut%d" % i, v))
        if c.t is not None and c.t["t"] is None:
            ev.kind = "panic"
            ev.need = (FALSE,)
        # post facts
        if nm in ("Store::len",):
            return c.ret(v)
        if nm == "Store::copy_from_slice" or nm == "Store::write_at" or nm == "Store::push":
            kill(st, lambda f: f.a[0] == "synced")
        if nm == "Store::sync":
            # succeeded only on the Ok side; recorded as conditional mark
            when(st, is_variant(v, "Ok"), mk("did", "synced"))
        return c.ret(v)


# callees nothing is known about, of any run
UNKNOWN = set()

# functions of their argument values alone
PUREFNS = {"[T]::" + n for n in ("ends_with", "starts_with", "contains", "is_sorted")} | \
          {"str::" + n for n in (
              "ends_with", "starts_with", "contains", "trim", "trim_start", "trim_end", "trim_matches",
              "trim_end_matches", "trim_start_matches", "strip_prefix", "strip_suffix", "replace", "replacen",
              "to_lowercase", "to_uppercase", "to_ascii_lowercase", "to_ascii_uppercase", "repeat", "split_at",
              "is_char_boundary", "find", "rfind", "eq_ignore_ascii_case")}

KNOWN_OPAQUE = {
    "std::io::Error::kind", "tempfile::tempfile", "tempfile::NamedTempFile::new",
    "tempfile::NamedTempFile::as_file", "tempfile::NamedTempFile::into_parts",
    "std::fs::remove_file", "std::fs::File::open", "core::panicking::panic",
    "std::rt::panic_fmt", "std::rt::panic_display", "f64::log",
    "rayon::iter::plumbing::bridge", "rayon::iter::plumbing::ProducerCallback::callback",
    "core::panicking::panic_fmt", "std::fs::File::sync_all", "std::fs::File::set_len", "std::fs::File::metadata",
    "std::fs::File::sync_data", "std::boxed::Box::new_uninit", "std::cmp::PartialOrd::le", "log::max_level",
}

# ---------------------------------------------------------------- identity


@model("std::boxed::Box::new", "std::sync::Arc::new", "std::sync::RwLock::new", "std::sync::Mutex::new",
       "std::rc::Rc::new", "std::hint::must_use", "*const T::cast", "*mut T::cast", "*const T::cast_mut", "*mut T::cast_const",
       "anyhow::__private::must_use", "std::path::Path::new", "std::hint::black_box", "std::pin::Pin::new",
       "std::convert::identity")
def _id(c):
    return c.ret(c.args[0])


OWNED = ("std::path::PathBuf", "std::string::String", "std::ffi::OsString", "std::vec::Vec")


@model("std::convert::Into::into", "std::convert::From::from")
def _into(c):
    a = c.args[0]
    src = c.targs[0 if c.name.endswith("into") else 1] if len(c.targs) > 1 else None
    dst = c.targs[1 if c.name.endswith("into") else 0] if len(c.targs) > 1 else None
    if src is not None and src == ("prim", "bool") and dst[0] == "prim":
        return c.ret(ite(a, num(1), num(0)))
    if src is not None and src[0] == "ref" and dst[0] == "adt" and dst[1] in OWNED:
        return c.ret(c.eng.load(c.st, a) if a.op in ("ref", "ite") else c.eng.deep(c.st, a))
    return c.ret(a)


@model("std::borrow::ToOwned::to_owned", "std::clone::Clone::clone", "std::path::Path::to_path_buf", "std::string::ToString::to_string",
       "std::path::PathBuf::as_path", "str::to_string", "str::to_owned", "std::ops::Deref::deref_owned")
def _clone(c):
    a = c.args[0]
    v = c.eng.load(c.st, a) if a.op in ("ref", "ite") else c.eng.deep(c.st, a)
    return c.ret(v)


@model("std::ops::Deref::deref", "std::ops::DerefMut::deref_mut", "std::borrow::Borrow::borrow", "std::borrow::BorrowMut::borrow_mut",
       "std::vec::Vec::as_slice", "std::vec::Vec::as_mut_slice", "std::string::String::as_str", "std::string::String::as_bytes",
       "str::as_bytes", "std::convert::AsMut::as_mut", "std::path::PathBuf::as_path", "[T]::as_ptr", "std::vec::Vec::as_ptr",
       "std::boxed::Box::as_ref", "std::vec::Vec::into_boxed_slice", "[T]::into_vec", "std::vec::Vec::as_ref")
def _deref(c):
    a = c.args[0]
    if c.selfty and c.selfty[0] == "adt" and ("Guard" in c.selfty[1] or c.selfty[1].endswith("MappedGuard")):
        return c.ret(c.eng.load(c.st, a))
    return c.ret(a)


@model("std::convert::AsRef::as_ref")
def _asref(c):
    ty = c.selfty
    tgt = c.targs[1] if len(c.targs) > 1 else None
    if ty and ty[0] == "param" and tgt and tgt[0] == "slice":
        v = c.val(0)
        return c.ret(mk("bytes", v, mk("tysym", "byte_len")))
    return c.ret(c.args[0])


@model("std::convert::TryFrom::try_from", "std::convert::TryInto::try_into")
def _trycast(c):
    if len(c.targs) < 2:
        return None
    dst, src = (c.targs[0], c.targs[1]) if c.name.endswith("try_from") else (c.targs[1], c.targs[0])
    while src[0] == "ref":
        src = src[1]
    if dst[0] == "prim" and src[0] == "prim":
        W = sys.modules["engine"].WIDTH
        if dst[1] in W and src[1] in W:
            v = c.val(0)
            if dst[1][0] == "u" and src[1][0] == "u" and W[dst[1]] >= W[src[1]]:
                return c.ret(OK(v))
            hi = 2 ** (W[dst[1]] - (dst[1][0] == "i")) - 1
            return c.ret(ite(AND(ge0(v), le(v, num(hi))), OK(v), ERR(mk("const", "err"))))
    if dst[0] == "ref":
        dst = dst[1]
    if dst[0] == "slice" and src[0] == "slice" and len(dst) > 2:
        n = str(dst[2]).replace("_usize", "")
        if n.isdigit():
            v = c.val(0)
            return c.ret(ite(eq_typed(vlen(v), num(int(n)), True), OK(v), ERR(mk("const", "err"))))
    return None


def _err(c):
    return c.ret(mk("const", "err"))


for _n in ("anyhow::__private::format_err", "anyhow::Error::msg", "anyhow::Error::new", "anyhow::__private::kind::Adhoc::new",
           "anyhow::__private::kind::Trait::new", "anyhow::__private::kind::Boxed::new", "anyhow::Error::context",
           "anyhow::kind::Adhoc::new", "anyhow::kind::Trait::new", "anyhow::Error::from", "std::io::Error::new", "std::io::Error::other"):
    M[_n] = _err


@model("anyhow::__private::not")
def _not(c):
    return c.ret(bnot(c.val(0)))


@model("std::mem::size_of")
def _sizeof(c):
    t = c.targs[0] if c.targs else (c.rargs[0] if c.rargs else ("?",))
    return c.ret(sizeof(t))


SIZES = {"u8": 1, "u16": 2, "u32": 4, "u64": 8, "usize": 8, "i8": 1, "i16": 2, "i32": 4, "i64": 8, "isize": 8, "u128": 16, "i128": 16, "bool": 1, "char": 4}


def sizeof(t):
    """64 bit targets"""
    if t[0] == "prim" and t[1] in SIZES:
        return num(SIZES[t[1]])
    if t[0] == "slice" and len(t) > 2 and t[2] is not None:
        n = str(t[2])
        return mul(num(int(n)) if n.isdigit() else mk("tysym", "const:" + n), sizeof(t[1]))
    return mk("tysym", "size_of:" + tystr(t))


@model("std::mem::size_of_val")
def _sizeofval(c):
    t = c.targs[0] if c.targs else (c.rargs[0] if c.rargs else ("?",))
    if t[0] == "slice" and (len(t) < 3 or t[2] is None):
        return c.ret(mul(vlen(c.val(0)), sizeof(t[1])))
    return c.ret(sizeof(t))


def tystr(t):
    if t[0] == "param":
        return t[1]
    if t[0] == "slice":
        return "[%s;%s]" % (tystr(t[1]), t[2])
    return str(t[1]) if len(t) > 1 else str(t)


@model("typenum::Unsigned::to_usize", "typenum::Unsigned::to_u64", "typenum::Unsigned::to_u32")
def _tousize(c):
    from engine import typenum_val
    t = c.targs[0]
    v = typenum_val(t)
    if v is not None:
        return c.ret(num(v))
    return c.ret(mk("tysym", tystr(t)))


@model("std::default::Default::default")
def _default(c):
    t = c.selfty or ("?",)
    if t[0] == "prim":
        return c.ret(FALSE if t[1] == "bool" else num(0))
    if t[0] == "adt":
        n = t[1]
        if n.endswith("Vec") or n.endswith("String"):
            return c.ret(mk("vnew"))
        if n.endswith("option::Option"):
            return c.ret(NONE)
        if n.endswith("PhantomData"):
            return c.ret(mk("const", "PhantomData"))
    if t[0] == "param":
        isel = t[1] in ("E",)
        return c.ret(mk("default", "hasher" if not isel else t[1]))
    return c.ret(mk("default", tystr(t)))


@model("std::mem::replace")
def _replace(c):
    e = c.eng
    ref = e.lastref(c.st, c.args[0])
    old = e.load(c.st, ref)
    e.store(c.st, ref, c.args[1])
    return c.ret(old)


@model("std::mem::take", "std::option::Option::take")
def _take(c):
    e = c.eng
    ref = c.args[0]
    old = e.load(c.st, ref)
    if c.name.endswith("Option::take") or old.op == "agg" and old.a[0].endswith("Option"):
        new = NONE
    elif old.op in ("vnew", "vpush", "vtab", "vext", "mu"):
        new = mk("vnew")
    else:
        new = mk("default", "taken")
    if c.name.endswith("Option::take"):
        c.ev("Option::take")
    e.store(c.st, ref, new)
    return c.ret(old)


@model("std::mem::swap")
def _swap(c):
    e = c.eng
    a, b = e.load(c.st, c.args[0]), e.load(c.st, c.args[1])
    e.store(c.st, c.args[0], b)
    e.store(c.st, c.args[1], a)
    return c.ret(UNIT)


@model("std::mem::drop", "std::mem::forget")
def _drop(c):
    v = c.args[0]
    ty = c.targs[0] if c.targs else None
    if ty and ty[0] == "adt" and "Guard" in ty[1]:
        c.ev("drop:guard", kind="drop")
        kill(c.st, lambda f: f.a[0] == "lock" and f.a[1] is v)
    return c.ret(UNIT)


@model("std::boxed::box_assume_init_into_vec_unsafe")
def _boxvec(c):
    v = c.val(0)
    while v.op == "upd" and v.a[1][0] == "f" and v.a[2].op in ("arr", "upd", "vrep"):
        v = v.a[2]
    return c.ret(v)


# ---------------------------------------------------------------- compare
def _isint(c):
    t = c.selfty
    while t and t[0] == "ref":
        t = t[1]
    return bool(t) and c.eng.is_int_ty(t)


@model("std::cmp::PartialEq::eq")
def _eq(c):
    a, b = c.val(0), c.val(1)
    v = eq_typed(a, b, _isint(c))
    c.ev("PartialEq::eq", ret=v)
    return c.ret(v)


@model("std::cmp::PartialEq::ne")
def _ne(c):
    a, b = c.val(0), c.val(1)
    v = eq_typed(a, b, _isint(c))
    c.ev("PartialEq::eq", ret=v)
    return c.ret(bnot(v))


def _cmp(fn):
    def f(c):
        if not _isint(c):
            return None
        return c.ret(fn(c.val(0), c.val(1)))
    return f


M["std::cmp::PartialOrd::lt"] = _cmp(lt)
M["std::cmp::PartialOrd::le"] = _cmp(le)
M["std::cmp::PartialOrd::gt"] = _cmp(lambda a, b: lt(b, a))
M["std::cmp::PartialOrd::ge"] = _cmp(lambda a, b: le(b, a))


@model("std::cmp::min", "std::cmp::Ord::min")
def _min(c):
    return c.ret(mmin(c.val(0), c.val(1)))


@model("std::cmp::max", "std::cmp::Ord::max")
def _max(c):
    return c.ret(mmax(c.val(0), c.val(1)))


# ---------------------------------------------------------------- ints
INT = {}


def intm(*names):
    def d(f):
        for n in names:
            INT[n] = f
        return f
    return d


@intm("saturating_sub")
def _ss(c):
    return c.ret(mmax(sub(c.args[0], c.args[1]), num(0)))


@intm("wrapping_add", "saturating_add")
def _wa(c):
    return c.ret(add(c.args[0], c.args[1]))


@intm("wrapping_sub")
def _ws(c):
    return c.ret(sub(c.args[0], c.args[1]))


@intm("wrapping_mul", "saturating_mul")
def _wm(c):
    return c.ret(mul(c.args[0], c.args[1]))


def fork(c, lit, fa, fb):
    out = []
    s1 = c.st.copy()
    if assume(s1, lit):
        out += fa(s1)
    s2 = c.st.copy()
    if assume(s2, bnot(lit)):
        out += fb(s2)
    return out


@intm("checked_sub")
def _cs(c):
    a, b = c.args[0], c.args[1]
    return c.ret(ite(le(b, a), SOME(sub(a, b)), NONE))


@intm("checked_add")
def _ca(c):
    r = add(c.args[0], c.args[1])
    return c.ret(ite(mk("app", "fits", r), SOME(r), NONE))


@intm("checked_mul")
def _cm(c):
    r = mul(c.args[0], c.args[1])
    return c.ret(ite(mk("app", "fits", r), SOME(r), NONE))


@intm("checked_div")
def _cd(c):
    a, b = c.args[0], c.args[1]
    return c.ret(ite(eq_typed(b, num(0), True), NONE, SOME(div(a, b))))


@intm("checked_rem")
def _cr(c):
    a, b = c.args[0], c.args[1]
    return c.ret(ite(eq_typed(b, num(0), True), NONE, SOME(rem(a, b))))


@intm("checked_shr")
def _cshr(c):
    return c.ret(SOME(c.eng.shr(c.args[0], c.args[1])))


@intm("div_euclid")
def _de(c):
    return c.ret(div(c.args[0], c.args[1]))


@intm("rem_euclid")
def _re(c):
    return c.ret(rem(c.args[0], c.args[1]))


@intm("div_ceil")
def _dc(c):
    a, b = c.args[0], c.args[1]
    return c.ret(div(sub(add(a, b), num(1)), b))


@intm("trailing_zeros", "ilog2")
def _tz(c):
    a = c.args[0]
    if a.op == "int" and a.a[0] > 0:
        n = a.a[0]
        k = 0
        while n % 2 == 0:
            n //= 2
            k += 1
        return c.ret(num(k))
    return c.ret(mk("tz", a))


@intm("next_power_of_two")
def _np(c):
    return c.ret(mk("app", "npow2", c.args[0]))


@intm("is_power_of_two")
def _ip(c):
    a = c.args[0]
    return c.ret(eq_typed(mk("app", "npow2", a), a, True))


@intm("pow")
def _pow(c):
    a, b = c.args
    if b.op == "int" and 0 <= b.a[0] < 8:
        r = num(1)
        for _ in range(b.a[0]):
            r = mul(r, a)
        return c.ret(r)
    return c.ret(mk("app", "pow", a, b))


@intm("min")
def _imin(c):
    return c.ret(mmin(c.args[0], c.args[1]))


@intm("max")
def _imax(c):
    return c.ret(mmax(c.args[0], c.args[1]))


# ---------------------------------------------------------------- Try
@model("std::ops::Try::branch")
def _branch(c):
    t = c.args[0]
    if c.selfty and c.selfty[0] == "adt" and c.selfty[1].endswith("Option"):
        lit = is_variant(t, "Some")
        v = payload(t, "Some")
        r = NONE
    else:
        lit = is_variant(t, "Ok")
        v = payload(t, "Ok")
        r = ERR(errpart(t))
    CF = "std::ops::ControlFlow"
    return c.ret(ite(lit, agg(CF, "Continue", ["0"], [v]), agg(CF, "Break", ["0"], [r])))


@model("std::ops::FromResidual::from_residual")
def _residual(c):
    t = c.args[0]
    if c.selfty and c.selfty[0] == "adt" and c.selfty[1].endswith("Option"):
        return c.ret(NONE)
    return c.ret(ERR(errpart(t)))


@model("std::ops::Try::from_output")
def _fo(c):
    if c.selfty and c.selfty[0] == "adt" and c.selfty[1].endswith("Option"):
        return c.ret(SOME(c.args[0]))
    return c.ret(OK(c.args[0]))


def _ctx(c):
    t = c.args[0]
    if c.selfty and c.selfty[0] == "adt" and c.selfty[1].endswith("Option"):
        return c.ret(ite(is_variant(t, "Some"), OK(payload(t, "Some")), ERR(mk("const", "err"))))
    return c.ret(t)


M["anyhow::Context::context"] = _ctx
M["anyhow::Context::with_context"] = _ctx
M["std::result::Result::map_err"] = lambda c: c.ret(c.args[0])
M["std::result::Result::or_else"] = None
del M["std::result::Result::or_else"]


@model("std::option::Option::ok_or", "std::option::Option::ok_or_else")
def _okor(c):
    t = c.args[0]
    return c.ret(ite(is_variant(t, "Some"), OK(payload(t, "Some")), ERR(mk("const", "err"))))


def _unwrap(var):
    def f(c):
        t = c.args[0]
        nm = "unwrap:" + ("Option" if var == "Some" else "Result")
        ev = c.ev(nm, kind="panic")
        lit = is_variant(t, var)
        ev.need = (c.eng.deep(c.st, lit),)
        v = payload(t, var)
        if not assume(c.st, lit, path=False):
            return []
        from engine import under_all
        return c.ret(under_all(v, c.st.facts))
    return f


for n in ("unwrap", "expect", "unwrap_unchecked"):
    M["std::option::Option::" + n] = _unwrap("Some")
    M["std::result::Result::" + n] = _unwrap("Ok")


@model("std::option::Option::is_some")
def _issome(c):
    return c.ret(is_variant(c.val(0), "Some"))


@model("std::option::Option::is_none")
def _isnone(c):
    return c.ret(is_variant(c.val(0), "None"))


@model("std::result::Result::is_ok")
def _isok(c):
    return c.ret(is_variant(c.val(0), "Ok"))


@model("std::result::Result::is_err")
def _iserr(c):
    return c.ret(is_variant(c.val(0), "Err"))


@model("std::option::Option::as_ref", "std::option::Option::as_mut", "std::option::Option::as_deref", "std::option::Option::as_deref_mut")
def _optref(c):
    a = c.args[0]
    v = c.eng.load(c.st, a)
    locs = c.eng.deref(c.st, a)
    b, p = locs[0][1], locs[0][2]
    if len(locs) > 1:
        return c.ret(v)
    inner = mk("ref", b, p + (("d", "Some"), ("f", "0")))
    if v.op == "agg" and v.a[1] == "Some" and v.a[3][0].op == "ref":
        inner = v.a[3][0] if c.name.endswith("deref") else inner
    return c.ret(ite(is_variant(v, "Some"), SOME(inner), NONE))


@model("std::result::Result::as_ref", "std::result::Result::as_mut")
def _resref(c):
    a = c.args[0]
    v = c.eng.load(c.st, a)
    locs = c.eng.deref(c.st, a)
    b, p = locs[0][1], locs[0][2]
    return c.ret(ite(is_variant(v, "Ok"), OK(mk("ref", b, p + (("d", "Ok"), ("f", "0")))), ERR(errpart(v))))


@model("std::option::Option::cloned", "std::option::Option::copied")
def _optcloned(c):
    t = c.args[0]
    return c.ret(ite(is_variant(t, "Some"), SOME(c.eng.deep(c.st, payload(t, "Some"))), NONE))


@model("std::option::Option::map")
def _optmap(c):
    t = c.args[0]
    return fork(c, is_variant(t, "Some"),
                lambda s: [(a, SOME(v)) for a, v in call1(c, s, c.args[1], [payload(t, "Some")], c.site)],
                lambda s: [(s, NONE)])


@model("std::option::Option::and_then")
def _optand(c):
    t = c.args[0]
    return fork(c, is_variant(t, "Some"),
                lambda s: call1(c, s, c.args[1], [payload(t, "Some")], c.site),
                lambda s: [(s, NONE)])


@model("std::option::Option::unwrap_or")
def _uor(c):
    t = c.args[0]
    return c.ret(ite(is_variant(t, "Some"), payload(t, "Some"), c.args[1]))


@model("std::option::Option::unwrap_or_else")
def _uore(c):
    t = c.args[0]
    return fork(c, is_variant(t, "Some"),
                lambda s: [(s, payload(t, "Some"))],
                lambda s: call1(c, s, c.args[1], [], c.site))


@model("std::option::Option::map_or")
def _mapor(c):
    t = c.args[0]
    return fork(c, is_variant(t, "Some"),
                lambda s: call1(c, s, c.args[2], [payload(t, "Some")], c.site),
                lambda s: [(s, c.args[1])])


@model("std::option::Option::map_or_else")
def _mapore(c):
    t = c.args[0]
    return fork(c, is_variant(t, "Some"),
                lambda s: call1(c, s, c.args[2], [payload(t, "Some")], c.site),
                lambda s: call1(c, s, c.args[1], [], c.site + "e"))


@model("std::option::Option::or")
def _optor(c):
    t = c.args[0]
    return c.ret(ite(is_variant(t, "Some"), t, c.args[1]))


@model("std::option::Option::or_else")
def _optorelse(c):
    t = c.args[0]
    return fork(c, is_variant(t, "Some"),
                lambda s: [(s, t)],
                lambda s: call1(c, s, c.args[1], [], c.site))


@model("std::option::Option::insert", "std::option::Option::replace")
def _optins(c):
    old = c.eng.load(c.st, c.args[0])
    c.eng.store(c.st, c.args[0], SOME(c.args[1]))
    if c.name.endswith("replace"):
        return c.ret(old)
    l = c.eng.deref(c.st, c.args[0])[0]
    return c.ret(mk("ref", l[1], l[2] + (("d", "Some"), ("f", "0"))))


@model("std::result::Result::map")
def _resmap(c):
    t = c.args[0]
    return fork(c, is_variant(t, "Ok"),
                lambda s: [(a, OK(v)) for a, v in call1(c, s, c.args[1], [payload(t, "Ok")], c.site)],
                lambda s: [(s, ERR(errpart(t)))])


@model("std::result::Result::and_then")
def _resand(c):
    t = c.args[0]
    return fork(c, is_variant(t, "Ok"),
                lambda s: call1(c, s, c.args[1], [payload(t, "Ok")], c.site),
                lambda s: [(s, ERR(errpart(t)))])


@model("std::result::Result::and")
def _resand0(c):
    t = c.args[0]
    return c.ret(ite(is_variant(t, "Ok"), c.args[1], ERR(errpart(t))))


@model("std::result::Result::or_else")
def _reselse(c):
    t = c.args[0]
    c.ev("handled:Result", ret=t)
    return fork(c, is_variant(t, "Ok"),
                lambda s: [(s, t)],
                lambda s: call1(c, s, c.args[1], [errpart(t)], c.site))


@model("std::result::Result::unwrap_or", "std::result::Result::unwrap_or_default")
def _resuor(c):
    t = c.args[0]
    c.ev("discard:Result", ret=t)
    d = c.args[1] if len(c.args) > 1 else mk("default", "T")
    return c.ret(ite(is_variant(t, "Ok"), payload(t, "Ok"), d))


@model("std::result::Result::unwrap_or_else")
def _resuore(c):
    t = c.args[0]
    c.ev("handled:Result", ret=t)
    return fork(c, is_variant(t, "Ok"),
                lambda s: [(s, payload(t, "Ok"))],
                lambda s: call1(c, s, c.args[1], [errpart(t)], c.site))


@model("std::result::Result::ok")
def _resok(c):
    t = c.args[0]
    c.ev("discard:Result", ret=t)
    return c.ret(ite(is_variant(t, "Ok"), SOME(payload(t, "Ok")), NONE))


@model("std::result::Result::err")
def _reserrf(c):
    t = c.args[0]
    return c.ret(ite(is_variant(t, "Ok"), NONE, SOME(errpart(t))))


# ---------------------------------------------------------------- bool
@model("bool::then_some")
def _thens(c):
    return c.ret(ite(c.args[0], SOME(c.args[1]), NONE))


@model("bool::then")
def _then(c):
    return fork(c, c.args[0],
                lambda s: [(a, SOME(v)) for a, v in call1(c, s, c.args[1], [], c.site)],
                lambda s: [(s, NONE)])


# ---------------------------------------------------------------- vectors
SLICE = {}


def slm(*names):
    def d(f):
        for n in names:
            SLICE[n] = f
        return f
    return d


@slm("new", "with_capacity")
def _vnew(c):
    return c.ret(mk("vnew"))


M["std::vec::from_elem"] = lambda c: c.ret(mk("vrep", c.args[0], c.args[1]))
M["std::string::String::new"] = _vnew


def tgt(c, i=0):
    return c.eng.lastref(c.st, c.args[i])


@slm("push")
def _push(c):
    e = c.eng
    r = tgt(c)
    v = e.load(c.st, r)
    c.ev("Vec::push", [v, c.args[1]])
    e.store(c.st, r, vpush(v, c.args[1]))
    return c.ret(UNIT)


@slm("pop")
def _pop(c):
    e = c.eng
    r = tgt(c)
    v = e.load(c.st, r)
    n = vlen(v)
    c.ev("Vec::pop", [v])
    nz = lt(num(0), n)
    e.store(c.st, r, ite(nz, vslice(v, num(0), sub(n, num(1))), v))
    return c.ret(ite(nz, SOME(elem(v, sub(n, num(1)))), NONE))


@slm("insert")
def _ins(c):
    e = c.eng
    r = tgt(c)
    v = e.load(c.st, r)
    c.ev("Vec::insert", [v, c.args[1], c.args[2]])
    if c.args[1] is vlen(v):
        e.store(c.st, r, vpush(v, c.args[2]))
    else:
        i = c.args[1]
        assume(c.st, le(i, vlen(v)), path=False)
        e.store(c.st, r, vext(vpush(vslice(v, num(0), i), c.args[2]), vslice(v, i, vlen(v))))
    return c.ret(UNIT)


@slm("remove")
def _remove(c):
    e = c.eng
    r = tgt(c)
    v = e.load(c.st, r)
    i = c.args[1]
    c.ev("Vec::remove", [v, i])
    assume(c.st, lt(i, vlen(v)), path=False)
    e.store(c.st, r, vext(vslice(v, num(0), i), vslice(v, add(i, num(1)), vlen(v))))
    return c.ret(elem(v, i))


@slm("len")
def _len(c):
    v = c.val(0)
    return c.ret(vlen(v))


@slm("is_empty")
def _isempty(c):
    return c.ret(eq_typed(vlen(c.val(0)), num(0), True))


@slm("clear")
def _clear(c):
    c.ev("Vec::clear")
    c.eng.store(c.st, tgt(c), mk("vnew"))
    return c.ret(UNIT)


@slm("extend_from_slice")
def _efs(c):
    e = c.eng
    r = tgt(c)
    v, w = e.load(c.st, r), c.val(1)
    c.ev("Vec::extend", [v, w])
    e.store(c.st, r, vext(v, w))
    return c.ret(UNIT)


@model("std::iter::Extend::extend")
def _extend(c):
    e = c.eng
    r = tgt(c)
    v = e.load(c.st, r)
    x = c.args[1]
    s = toseq(c, x)
    outs = collect_vec(c, s, c.site)
    res = []
    for (st, w) in outs:
        if w.op == "vseq" and w.a[0].a[0] == "of":
            w = w.a[0].a[1]
        e.event(c.fr, st, "Vec::extend", [v, w], c.sp)
        st = st.copy()
        e.store(st, r, vext(v, w))
        res.append((st, UNIT))
    return res


@slm("append")
def _append(c):
    e = c.eng
    r = tgt(c)
    v, w = e.load(c.st, r), c.val(1)
    c.ev("Vec::extend", [v, w])
    e.store(c.st, r, vext(v, w))
    e.store(c.st, tgt(c, 1), mk("vnew"))
    return c.ret(UNIT)


@slm("reserve", "reserve_exact", "shrink_to_fit", "shrink_to")
def _nop(c):
    return c.ret(UNIT)


@slm("truncate")
def _trunc(c):
    e = c.eng
    r = tgt(c)
    v = e.load(c.st, r)
    c.ev("Vec::truncate", [v, c.args[1]])
    n = c.val(1)
    e.store(c.st, r, ite(le(n, vlen(v)), vslice(v, num(0), n), v))
    return c.ret(UNIT)


@slm("resize")
def _resize(c):
    e = c.eng
    r = tgt(c)
    v = e.load(c.st, r)
    c.ev("Vec::resize", [v, c.args[1], c.args[2]])
    e.store(c.st, r, mk("app", "vresize", v, c.args[1], c.args[2]))
    return c.ret(UNIT)


@slm("split_off")
def _splitoff(c):
    e = c.eng
    r = tgt(c)
    v = e.load(c.st, r)
    at = c.args[1]
    tail = vslice(v, at, vlen(v))
    c.ev("Vec::split_off", [v, at])
    e.store(c.st, r, vslice(v, num(0), at))
    return c.ret(tail)


@slm("drain")
def _drain(c):
    e = c.eng
    r = tgt(c)
    v = e.load(c.st, r)
    lo, hi = rangeof(c, c.val(1), v)
    c.ev("Vec::drain", [v, lo, hi])
    if lo is num(0):
        e.store(c.st, r, vslice(v, hi, vlen(v)))
    else:
        e.store(c.st, r, vext(vslice(v, num(0), lo), vslice(v, hi, vlen(v))))
    return c.ret(mkit(seq("of", vslice(v, lo, hi))))


@slm("reverse")
def _reverse(c):
    e = c.eng
    r = tgt(c)
    v = e.load(c.st, r)
    c.ev("Vec::reverse", [v])
    e.store(c.st, r, mk("app", "vrev", v))
    return c.ret(UNIT)


@slm("splice")
def _splice(c):
    e = c.eng
    r = tgt(c)
    v = e.load(c.st, r)
    lo, hi = rangeof(c, c.val(1), v)
    s = toseq(c, c.args[2])
    out = []
    for st, w in collect_vec(c, s, c.site):
        c.st = st
        v = e.load(st, r)
        c.ev("Vec::splice", [v, lo, hi, w])
        e.store(st, r, mk("app", "vsplice", v, lo, hi, w))
        out.append((st, mk("const", "splice")))
    return out


@slm("copy_from_slice", "clone_from_slice")
def _cfs(c):
    e = c.eng
    r = tgt(c)
    w = c.val(1)
    c.ev("slice::copy_from_slice", [c.args[0], c.args[1]]).raw = [r, c.args[1]]
    e.store(c.st, r, w)
    return c.ret(UNIT)


@slm("fill")
def _fill(c):
    e = c.eng
    r = tgt(c)
    v = e.load(c.st, r)
    e.store(c.st, r, mk("vrep", c.args[1], vlen(v)))
    return c.ret(UNIT)


@slm("to_vec", "to_owned", "into_boxed_slice", "into_vec")
def _tovec(c):
    return c.ret(c.val(0))


def _firstlast(c, i):
    v = c.val(0)
    return c.ret(ite(lt(num(0), vlen(v)), SOME(elem(v, i(v))), NONE))


SLICE["first"] = lambda c: _firstlast(c, lambda v: num(0))
SLICE["last"] = lambda c: _firstlast(c, lambda v: sub(vlen(v), num(1)))


@slm("get", "get_mut")
def _get(c):
    v = c.val(0)
    i = c.val(1)
    if i.op == "agg":
        lo, hi = rangeof(c, i, v)
        x = vslice(v, lo, hi)
        cond = AND(le(lo, hi), le(hi, vlen(v)))
        if c.args[0].op == "ref":
            x = mk("ref", c.args[0].a[0], c.args[0].a[1] + (("sl", lo, hi),))
        return c.ret(ite(cond, SOME(x), NONE))
    if c.name.endswith("get_mut") and c.args[0].op == "ref":
        x = mk("ref", c.args[0].a[0], c.args[0].a[1] + (("i", i),))
    else:
        x = elem(v, i)
    return c.ret(ite(lt(i, vlen(v)), SOME(x), NONE))


def rangeof(c, r, v):
    n = r.a[0] if r.op == "agg" else ""
    if n.endswith("ops::Range"):
        return proj(r, ("f", "start")), proj(r, ("f", "end"))
    if n.endswith("RangeFrom"):
        return proj(r, ("f", "start")), vlen(v)
    if n.endswith("RangeTo"):
        return num(0), proj(r, ("f", "end"))
    if n.endswith("RangeFull"):
        return num(0), vlen(v)
    if n.endswith("RangeToInclusive"):
        return num(0), add(proj(r, ("f", "end")), num(1))
    if n.endswith("RangeInclusive"):
        return r.a[3][0], add(r.a[3][1], num(1))
    return proj(r, ("f", "start")), proj(r, ("f", "end"))


M["std::ops::Range::contains"] = M["std::ops::RangeInclusive::contains"] = lambda c: _contains(c)
M["std::ops::RangeInclusive::new"] = lambda c: c.ret(agg("std::ops::RangeInclusive", "", ["start", "end"], c.args[:2]))


@model("std::ops::Index::index", "std::ops::IndexMut::index_mut")
def _index(c):
    e = c.eng
    a = c.args[0]
    v = c.val(0)
    i = c.val(1)
    # location of the container
    r = a
    loc = e.deref(c.st, r)[0]
    if i.op == "agg" or (c.targs and len(c.targs) > 1 and c.targs[1][0] == "adt" and "Range" in c.targs[1][1]):
        full = i.op == "const" or (i.op == "agg" and i.a[0].endswith("RangeFull")) or (c.targs[1][0] == "adt" and c.targs[1][1].endswith("RangeFull"))
        if full:
            return c.ret(a)
        lo, hi = rangeof(c, i, v)
        c.ev("index:range", [a, lo, hi], kind="panic").need = (c.eng.deep(c.st, le(lo, hi)), c.eng.deep(c.st, le(hi, vlen(v))))
        el = ("sl", lo, hi)
        assume(c.st, le(lo, hi), path=False)
        assume(c.st, le(hi, vlen(v)), path=False)
    else:
        c.ev("index:elem", [a, i], kind="panic").need = (c.eng.deep(c.st, lt(i, vlen(v))),)
        el = ("i", i)
        assume(c.st, lt(i, vlen(v)), path=False)
    return c.ret(mk("ref", loc[1], loc[2] + (el,)))


@slm("iter")
def _iter(c):
    return c.ret(mkit(toseq(c, c.args[0])))


@slm("iter_mut")
def _itermut(c):
    return c.ret(mkit(toseq(c, tgt(c), mut=True)))


@slm("chunks", "par_chunks")
def _chunks(c):
    assume(c.st, le(num(1), c.val(1)), path=False)
    return c.ret(mkit(seq("chunks", c.val(0), c.val(1))))


@slm("chunks_exact", "par_chunks_exact")
def _chunksex(c):
    assume(c.st, le(num(1), c.val(1)), path=False)
    return c.ret(mkit(seq("chunksex", c.val(0), c.val(1))))


@slm("chunks_mut", "par_chunks_mut")
def _chunksmut(c):
    r = tgt(c)
    v = c.eng.load(c.st, r)
    l = c.eng.deref(c.st, r)[0]
    c.ev("slice::chunks_mut", [c.args[0], c.args[1]])
    return c.ret(mkit(seq("chunksmut", l[1], l[2], vlen(v), c.val(1))))


@slm("swap")
def _vswap(c):
    e = c.eng
    r = tgt(c)
    v = e.load(c.st, r)
    c.ev("Vec::swap", [v, c.args[1], c.args[2]])
    i, j = c.val(1), c.val(2)
    a, b = elem(v, i), elem(v, j)
    e.store(c.st, r, setproj(setproj(v, (("i", i),), b), (("i", j),), a))
    return c.ret(UNIT)


@slm("concat")
def _concat(c):
    return c.ret(mk("app", "concat", c.val(0)))


@slm("contains")
def _contains(c):
    r = c.eng.deep(c.st, c.args[0])
    if "Range" in c.name:
        x = c.eng.deep(c.st, c.args[1])
        if r.op == "agg" and r.a[0].endswith("ops::Range"):
            lo, hi = r.a[3]
            return c.ret(ite(ge0(sub(x, lo)), ge0(sub(sub(hi, x), num(1))), FALSE))
        if r.op == "agg" and r.a[0].endswith("ops::RangeInclusive"):
            lo, hi = r.a[3][:2]
            return c.ret(ite(ge0(sub(x, lo)), ge0(sub(hi, x)), FALSE))
    return c.ret(mk("app", "vcontains", c.val(0), c.val(1)))


M["std::slice::from_raw_parts"] = lambda c: (c.ev("slice::from_raw_parts"), c.ret(mk("app", "rawslice", c.val(0), c.val(1))))[1]

# ---------------------------------------------------------------- iterators
ITER = {}


def itm(*names):
    def d(f):
        for n in names:
            ITER[n] = f
        return f
    return d


@itm("into_iter", "into_par_iter", "par_iter")
def _intoiter(c):
    v = c.val(0)
    if is_iter_val(v):
        return c.ret(v)
    t = c.selfty
    mut = bool(t and t[0] == "ref") and c.args[0].op == "ref" and c.t is not None and c.eng.c.types[c.t["at"][0]].get("m")
    if mut:
        return c.ret(mkit(toseq(c, tgt(c), mut=True)))
    return c.ret(mkit(toseq(c, c.args[0])))


@itm("iter", "par_iter_mut")
def _iter2(c):
    return _intoiter(c)


@itm("next")
def _next(c):
    e = c.eng
    r = tgt(c)
    v = e.load(c.st, r)
    if v.op == "agg" and v.a[0].endswith("ops::Range"):
        v = mkit(seq("range", v.a[3][0], v.a[3][1]))
    if not is_iter_val(v):
        if v.op == "arg" or v.op in ("fld", "elem", "res", "app"):
            v = mkit(seq("of", v))
        else:
            return None
    s, p = v.a[3]
    cond = seqcond(s, p)
    out = []
    s1 = c.st.copy()
    if assume(s1, cond):
        e.store(s1, r, mkit(s, add(p, num(1))))
        for (s2, x) in seqitem(c, s1, s, p, c.site):
            if s2 is not None:
                out.append((s2, SOME(x)))
    s0 = c.st.copy()
    if assume(s0, bnot(cond)):
        e.store(s0, r, v)
        out.append((s0, NONE))
    return out


def _adapt(kind, n=0):
    def f(c):
        v = c.val(0)
        s = toseq(c, v)
        ex = [c.args[i + 1] if kind in ("map", "filter", "filter_map") else c.val(i + 1) for i in range(n)]
        return c.ret(mkit(seq(kind, s, *ex)))
    return f


ITER["enumerate"] = _adapt("enum")
ITER["rev"] = _adapt("rev")
ITER["cloned"] = _adapt("cloned")
ITER["copied"] = _adapt("cloned")
ITER["by_ref"] = lambda c: c.ret(c.args[0])
ITER["fuse"] = lambda c: c.ret(c.args[0])
ITER["map"] = _adapt("map", 1)
ITER["step_by"] = _adapt("step", 1)
ITER["take"] = _adapt("take", 1)
ITER["skip"] = _adapt("skip", 1)
ITER["chunks"] = _adapt("pchunks", 1)
ITER["with_min_len"] = lambda c: c.ret(c.args[0])
ITER["with_max_len"] = lambda c: c.ret(c.args[0])
ITER["filter"] = _adapt("filter", 1)
ITER["filter_map"] = _adapt("filter_map", 1)


@itm("zip")
def _zip(c):
    return c.ret(mkit(seq("zip", toseq(c, c.args[0]), toseq(c, c.args[1]))))


@itm("chain")
def _chain(c):
    return c.ret(mkit(seq("chain", toseq(c, c.args[0]), toseq(c, c.args[1]))))


@itm("fold")
def _fold(c):
    s = toseq(c, c.args[0])
    outs = seqloop(c, s, c.args[1],
                   lambda st, acc, it: [("cont", a, v) for a, v in call1(c, st, c.args[2], [acc, it], c.site + "f")],
                   c.site)
    return [(st, v) for _, st, v in outs]


@itm("for_each")
def _foreach(c):
    s = toseq(c, c.args[0])
    outs = seqloop(c, s, UNIT,
                   lambda st, acc, it: [("cont", a, UNIT) for a, v in call1(c, st, c.args[1], [it], c.site + "f")],
                   c.site)
    return [(st, UNIT) for _, st, v in outs]


def _trystep(c, st, v):
    lit = is_variant(v, "Ok")
    r = []
    a = st.copy()
    if assume(a, lit):
        r.append(("cont", a, OK(UNIT)))
    b = st.copy()
    if assume(b, bnot(lit)):
        r.append(("break", b, ERR(errpart(v))))
    return r


@itm("try_for_each")
def _tryforeach(c):
    s = toseq(c, c.args[0])

    def step(st, acc, it):
        out = []
        for a, v in call1(c, st, c.args[1], [it], c.site + "f"):
            c.eng.event(c.fr, a, "closure:result", [v], c.sp, kind="result")
            out += _trystep(c, a, v)
        return out
    c.ev("try_for_each", [c.args[0]])
    outs = seqloop(c, s, OK(UNIT), step, c.site)
    return [(st, OK(UNIT) if k == "end" else v) for k, st, v in outs]



@itm("all", "any")
def _all(c):
    neg_ = c.name.endswith("any")
    s = toseq(c, c.args[0])
    body = []
    lid = c.site
    bvv = mk("bv", lid)

    def step(st, acc, it):
        out = []
        for a, v in call1(c, st, c.args[1], [it], c.site + "f"):
            body.append(v)
            out.append(("cont", a, UNIT))
        return out
    outs = seqloop(c, s, UNIT, step, lid)
    idx = mk("idx", lid)
    if not body:
        return c.ret(FALSE if neg_ else TRUE)
    b = body[-1]
    if len(set(body[-1:])) == 1:
        b = bnot(b) if neg_ else b
        v = mk("all", seqlen(s), bvv, subst(b, {idx: bvv}))
        return c.ret(bnot(v) if neg_ else v)
    return None


@itm("collect")
def _collect(c):
    s = toseq(c, c.args[0])
    tgtty = c.targs[1] if len(c.targs) > 1 else None
    if tgtty and tgtty[0] == "adt" and tgtty[1].endswith("result::Result"):
        def step(st, acc, it):
            out = []
            lit = is_variant(it, "Ok")
            a = st.copy()
            if assume(a, lit):
                out.append(("cont", a, vpush(acc, payload(it, "Ok"))))
            b = st.copy()
            if assume(b, bnot(lit)):
                out.append(("break", b, ERR(errpart(it))))
            return out
        outs = seqloop(c, s, mk("vnew"), step, c.site)
        return [(st, OK(x) if k == "end" else x) for k, st, x in outs]
    return collect_vec(c, s, c.site)


@model("std::iter::FromIterator::from_iter")
def _fromiter(c):
    return collect_vec(c, toseq(c, c.args[0]), c.site)


@itm("count")
def _count(c):
    return c.ret(seqlen(toseq(c, c.args[0])))


@itm("len")
def _itlen(c):
    return c.ret(seqlen(toseq(c, c.args[0])))


@itm("opt_len")
def _optlen(c):
    s = toseq(c, c.args[0])
    return c.ret(SOME(seqlen(s)))


@itm("size_hint")
def _sizehint(c):
    s = toseq(c, c.args[0])
    n = seqlen(s)
    h = mk("app", "size_hint", s)
    return c.ret(tup(mk("fld", h, "", "0"), ite(mk("is", h, "Some"), SOME(n), NONE)))


@itm("sum")
def _sum(c):
    s = toseq(c, c.args[0])
    outs = seqloop(c, s, num(0), lambda st, acc, it: [("cont", st, add(acc, c.eng.deep(st, it)))], c.site)
    return [(st, v) for _, st, v in outs]


@itm("last")
def _itlast(c):
    s = toseq(c, c.args[0])
    n = seqlen(s)
    if pure(s):
        return c.ret(ite(lt(num(0), n), SOME(pitem(s, sub(n, num(1)))), NONE))
    return None


# ---------------------------------------------------------------- locks
def _lock(mode):
    def f(c):
        a = c.args[0]
        ref = a
        c.ev("lock:" + mode, [ref]).raw = [ref]
        did(c.st, "lock", ref, mode)
        return c.ret(OK(ref))
    return f


M["std::sync::RwLock::read"] = _lock("read")
M["std::sync::RwLock::write"] = _lock("write")
M["std::sync::Mutex::lock"] = _lock("write")


# ---------------------------------------------------------------- files
OO = "std::fs::OpenOptions"
FLAGS = ["read", "write", "append", "truncate", "create", "create_new"]


@model("std::fs::OpenOptions::new", "std::fs::File::options")
def _oonew(c):
    return c.ret(agg(OO, "", FLAGS, [FALSE] * 6))


def _ooset(n):
    def f(c):
        e = c.eng
        r = tgt(c)
        v = e.load(c.st, r)
        e.store(c.st, r, setproj(v, (("f", n),), c.args[1]))
        return c.ret(c.args[0])
    return f


for _n in FLAGS:
    M["std::fs::OpenOptions::" + _n] = _ooset(_n)


@model("std::fs::OpenOptions::open")
def _open(c):
    o, p = c.val(0), c.val(1)
    v = c.res(o, p)
    c.ev("open", [o, p], ret=v)
    return c.ret(v)


@model("std::fs::File::open")
def _fopen(c):
    o = agg(OO, "", FLAGS, [TRUE] + [FALSE] * 5)
    p = c.val(0)
    v = c.res(o, p)
    c.ev("open", [o, p], ret=v)
    return c.ret(v)


@model("std::fs::File::create")
def _fcreate(c):
    o = agg(OO, "", FLAGS, [FALSE, TRUE, FALSE, TRUE, TRUE, FALSE])
    p = c.val(0)
    v = c.res(o, p)
    c.ev("open", [o, p], ret=v)
    return c.ret(v)


@model("std::fs::File::create_new")
def _fcreaten(c):
    o = agg(OO, "", FLAGS, [TRUE, TRUE, FALSE, FALSE, FALSE, TRUE])
    p = c.val(0)
    v = c.res(o, p)
    c.ev("open", [o, p], ret=v)
    return c.ret(v)


@model("std::path::Path::exists", "std::path::Path::is_file", "std::path::Path::try_exists")
def _exists(c):
    v = mk("app", "exists", c.val(0))
    c.ev("exists", ret=v)
    if c.name.endswith("try_exists"):
        return c.ret(ite(mk("app", "exists_ok", c.val(0)), OK(v), ERR(mk("const", "err"))))
    return c.ret(v)


@model("std::path::Path::join")
def _join(c):
    return c.ret(mk("app", "path_join", c.val(0), c.val(1)))


def _io(name):
    def f(c):
        v = c.res(*[c.val(i) for i in range(len(c.args))])
        c.ev("io:" + name, ret=v)
        st = c.st
        ok = is_variant(v, "Ok")
        if name in ("sync_all", "sync_data"):
            when(st, ok, mk("did", "filesync"))
        if name in ("set_len", "write_all_at", "copy", "write_all"):
            kill(st, lambda f: f.a[0] == "filesync")
        return c.ret(v)
    return f


M["std::fs::File::sync_all"] = _io("sync_all")
M["std::fs::File::sync_data"] = _io("sync_data")
M["std::fs::File::set_len"] = _io("set_len")
M["std::fs::File::metadata"] = _io("metadata")
M["std::fs::remove_file"] = _io("remove_file")
M["std::fs::metadata"] = _io("metadata")
M["std::io::Seek::seek"] = _io("seek")


@model("std::io::Seek::rewind")
def _rewind(c):
    v = c.res(c.val(0), agg("std::io::SeekFrom", "Start", ["0"], [num(0)]))
    c.name = "std::io::Seek::seek"
    c.args = [c.args[0], agg("std::io::SeekFrom", "Start", ["0"], [num(0)])]
    c.ev("io:seek", ret=v)
    return c.ret(v)


@model("std::slice::from_ref", "std::array::from_ref")
def _fromref(c):
    return c.ret(mk("arr", (c.val(0),)))

M["std::io::copy"] = _io("copy")
M["positioned_io::WriteAt::write_all_at"] = _io("write_all_at")
M["std::os::unix::fs::FileExt::write_all_at"] = _io("write_all_at_unix")


@model("std::fs::Metadata::len")
def _mlen(c):
    return c.ret(mk("app", "metalen", c.val(0)))


@model("positioned_io::ReadAt::read_exact_at", "positioned_io::ReadAt::read_at")
def _readat(c):
    e = c.eng
    buf = c.val(2)
    v = c.res(c.val(0), c.val(1), vlen(buf))
    nm = c.name.split("::")[-1]
    c.ev("io:" + nm, ret=v)
    r = tgt(c, 2)
    e.store(c.st, r, mk("app", "filedata" if nm == "read_exact_at" else "filepart", c.val(0), c.val(1), vlen(buf), v))
    return c.ret(v)


# memmap
@model("memmap2::MmapOptions::new")
def _mmo(c):
    return c.ret(agg("MmapOptions", "", ["offset", "len"], [num(0), NONE]))


@model("memmap2::MmapOptions::offset")
def _mmoff(c):
    r = tgt(c)
    c.eng.store(c.st, r, setproj(c.eng.load(c.st, r), (("f", "offset"),), c.args[1]))
    return c.ret(c.args[0])


@model("memmap2::MmapOptions::len")
def _mmlen(c):
    r = tgt(c)
    c.eng.store(c.st, r, setproj(c.eng.load(c.st, r), (("f", "len"),), SOME(c.args[1])))
    return c.ret(c.args[0])


@model("memmap2::MmapOptions::map_mut", "memmap2::MmapOptions::map")
def _mmmap(c):
    o = c.val(0)
    v = c.res(o, c.val(1))
    c.ev("mmap", [o, c.args[1]], ret=v)
    ln = payload(proj(o, ("f", "len")), "Some")
    return c.ret(ite(is_variant(v, "Ok"), OK(mk("mmap", payload(v, "Ok"), proj(o, ("f", "offset")), ln)), ERR(errpart(v))))


@model("memmap2::MmapMut::map_mut")
def _mmapmut(c):
    v = c.res(c.val(0))
    c.ev("mmap_full", [c.args[0]], ret=v)
    return c.ret(v)


@model("std::io::Write::flush")
def _wflush(c):
    t = c.selfty
    while t and t[0] == "ref":
        t = t[1]
    if not t or t[0] != "adt" or not t[1].endswith("fs::File"):
        return None
    # files are not buffered: nothing happens
    return c.ret(OK(UNIT))


@model("memmap2::MmapMut::flush", "memmap2::MmapMut::flush_async")
def _mflush(c):
    v = c.res(c.val(0))
    c.ev("io:flush", ret=v)
    return c.ret(v)
