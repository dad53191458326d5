"""Contracts for std / alloc / regex functions (the executor's trusted base for library code)."""
import z3
from val import *
import strs
from sym import Unsupported, X, State

I = {}
def intr(*paths):
    def d(f):
        for p in paths: I[p] = f
        return f
    return d
PATTERNS = []
I["__patterns__"] = PATTERNS
def pattern(pred):
    def d(f):
        PATTERNS.append((pred, f)); return f
    return d

NONE = lambda: Adt(None, 0, ())
SOME = lambda v: Adt(None, 1, (v,))
OK = lambda v: Adt(None, 0, (v,))
ERR = lambda v: Adt(None, 1, (v,))
def opt(st, cond, v):
    """Option that is Some(v) under cond"""
    if not is_z(cond): return SOME(v) if cond else NONE()
    return Sum(None, z3.If(cond, z3.IntVal(1), z3.IntVal(0)), {0: (), 1: (v,)})

def S(x, st, v):
    """Str payload behind any chain of references"""
    v = x.deref_all(st, v)
    if isinstance(v, Ite):
        a, b = S(x, st, v.a), S(x, st, v.b)
        return ite(v.g, a, b)
    if isinstance(v, Str): return v
    if isinstance(v, Adt) and len(v.f) == 1: return S(x, st, v.f[0])
    if isinstance(v, Adt) and v.ty is None and v.v in (0, 1) and len(v.f) == 1: return S(x, st, v.f[0])
    raise Unsupported(f"string expected, got {type(v).__name__} {str(v)[:80]}")

# ------------------------------------------------------------------ identity-like
def _id(x, st, fn, a, w): return a[0]
def _load(x, st, fn, a, w): return x.load(st, a[0])
def _unit(x, st, fn, a, w): return UNIT
for p in ["std::hint::must_use", "std::convert::identity", "<I as std::iter::IntoIterator>::into_iter",
          "std::boxed::Box::<T>::pin", "std::pin::Pin::<Ptr>::new_unchecked", "std::pin::Pin::<Ptr>::new",
          "<T as std::convert::From<T>>::from", "<T as std::convert::Into<U>>::into_id",
          "std::boxed::Box::<T, A>::into_pin", "std::string::String::as_str", "std::string::String::into_boxed_str",
          "std::str::<impl str>::into_string"]:
    pass
I["std::hint::must_use"] = _id
I["<I as std::iter::IntoIterator>::into_iter"] = _id
I["std::hint::black_box"] = _id

@intr("std::string::String::as_str", "<std::string::String as std::ops::Deref>::deref", "<std::string::String as std::convert::AsRef<str>>::as_ref",
      "std::str::<impl std::borrow::Borrow<str> for std::string::String>::borrow", "<std::string::String as std::ops::DerefMut>::deref_mut",
      "std::string::String::as_mut_str", "<str as std::convert::AsRef<str>>::as_ref", "std::string::String::into_boxed_str", "<T as std::string::ToString>::to_string_str",
      "<str as std::string::ToString>::to_string", "<std::string::String as std::string::ToString>::to_string",
      "std::str::<impl std::borrow::ToOwned for str>::to_owned", "<std::string::String as std::clone::Clone>::clone", "<std::string::String as std::convert::From<&str>>::from",
      "<std::string::String as std::convert::From<std::string::String>>::from", "<std::string::String as std::convert::From<&std::string::String>>::from",
      "<std::string::String as std::convert::From<char>>::from_", "std::str::<impl str>::to_owned", "core::str::<impl str>::to_owned",
      "<std::sync::Arc<str> as std::convert::From<std::string::String>>::from", "<std::sync::Arc<str> as std::convert::From<&str>>::from",
      "<std::boxed::Box<str> as std::convert::From<&str>>::from", "<std::boxed::Box<str> as std::convert::From<std::string::String>>::from",
      "std::string::String::into_string", "<std::borrow::Cow<'a, str> as std::convert::From<&'a str>>::from",
      "std::borrow::Cow::<'_, B>::into_owned_", "core::str::<impl str>::trim_ascii_", "std::string::String::from_utf8_lossy_",
      "std::slice::<impl [T]>::into_vec_str", "<std::string::String as std::str::FromStr>::from_str_", "std::string::String::into_bytes_")
def str_id(x, st, fn, a, w):
    return S(x, st, a[0])

@intr("<T as std::string::ToString>::to_string")
def to_string(x, st, fn, a, w):
    return display(x, st, a[0], fn, w)

@intr("std::string::String::new", "<std::string::String as std::default::Default>::default", "std::string::String::with_capacity", "<&str as std::default::Default>::default")
def string_new(x, st, fn, a, w): return Str("")

@intr("std::mem::take")
def mem_take(x, st, fn, a, w):
    v = x.load(st, a[0])
    e = Str("") if isinstance(v, Str) else Vec(()) if isinstance(v, Vec) else None
    if e is None:
        t = fn.prog.types[fn.targs[0]]
        if t[0] == "adt" and t[1] == "std::option::Option": e = NONE()
        else: raise Unsupported("mem::take")
    x.store(st, a[0], e)
    return v
@intr("std::mem::replace")
def mem_replace(x, st, fn, a, w):
    v = x.load(st, a[0]); x.store(st, a[0], a[1]); return v
@intr("std::mem::swap")
def mem_swap(x, st, fn, a, w):
    v, u = x.load(st, a[0]), x.load(st, a[1]); x.store(st, a[0], u); x.store(st, a[1], v); return UNIT
@intr("std::option::Option::<T>::take")
def opt_take(x, st, fn, a, w):
    v = x.load(st, a[0]); x.store(st, a[0], NONE()); return v
@intr("std::mem::drop", "std::mem::forget")
def drop(x, st, fn, a, w): return UNIT

@intr("std::boxed::Box::<T>::new", "std::sync::Arc::<T>::new", "std::rc::Rc::<T>::new", "std::boxed::Box::<T>::pin")
def box_new(x, st, fn, a, w): 
    r = x.alloc(st, a[0], "B")
    if fn.path.endswith("pin"): return Adt(None, 0, (r,))
    return r
@intr("std::boxed::Box::<T>::new_uninit")
def box_uninit(x, st, fn, a, w): return x.alloc(st, UNDEF, "B")
@intr("std::boxed::box_assume_init_into_vec_unsafe")
def box_to_vec(x, st, fn, a, w):
    """the literal elements of a vec! written into a fresh box"""
    v = x.load(st, a[0])
    for _ in range(6):
        if isinstance(v, Arr): return Vec([(True, e) for e in v.f], mono=True)
        if isinstance(v, Tup) and v.f: v = [e for e in v.f if e is not UNDEF][-1]
        elif isinstance(v, Adt) and v.f: v = v.f[0]
        else: break
    raise Unsupported("elements of a vec!")
@intr("<std::sync::Arc<T, A> as std::ops::Deref>::deref", "<std::boxed::Box<T, A> as std::ops::Deref>::deref", "<std::boxed::Box<T, A> as std::convert::AsRef<T>>::as_ref",
      "<std::boxed::Box<T, A> as std::ops::DerefMut>::deref_mut", "<std::boxed::Box<T, A> as std::borrow::Borrow<T>>::borrow", "<std::sync::Arc<T, A> as std::convert::AsRef<T>>::as_ref",
      "<std::rc::Rc<T, A> as std::ops::Deref>::deref")
def box_deref(x, st, fn, a, w): return x.load(st, a[0])
@intr("<std::sync::Arc<T, A> as std::clone::Clone>::clone", "<std::rc::Rc<T, A> as std::clone::Clone>::clone", "<&T as std::clone::Clone>::clone")
def arc_clone(x, st, fn, a, w): return x.load(st, a[0])
@intr("<std::boxed::Box<T, A> as std::clone::Clone>::clone")
def box_clone(x, st, fn, a, w):
    return x.alloc(st, x.deref_all(st, a[0]), "B")

# clone of plain data: values are immutable trees
@pattern(lambda fn: fn.path.endswith("std::clone::Clone>::clone") or fn.path == "std::clone::Clone::clone")
def any_clone(x, st, fn, a, w):
    return x.load(st, a[0])

# ------------------------------------------------------------------ panics
@intr("core::panicking::panic", "core::panicking::panic_fmt", "std::option::unwrap_failed", "std::option::expect_failed", "std::result::unwrap_failed",
      "core::panicking::panic_explicit", "core::panicking::unreachable_display", "core::panicking::panic_display", "core::panicking::assert_failed",
      "std::rt::begin_panic", "std::rt::panic_fmt", "core::panicking::panic_bounds_check", "core::panicking::panic_nounwind", "core::slice::index::slice_index_fail",
      "core::str::slice_error_fail", "core::panicking::panic_str_2015", "core::panicking::panic_const::panic_const_add_overflow", "std::result::unwrap_failed::unwrap_failed_inner")
def panic(x, st, fn, a, w):
    fr, line = w
    x.panic(st, fn.path, fr, line)
    return []

# ------------------------------------------------------------------ formatting
def to_str_int(x, v):
    if not is_z(v): return Str(str(v))
    return Str(z3.If(v >= 0, z3.IntToStr(v), z3.Concat(z3.StringVal("-"), z3.IntToStr(-v))))

def opaque_display(x, what, *args):
    """the display text of an opaque value: some string that is a function of the value"""
    for o in x.memo.get(("disp", what), []):
        if same(o[0], args): return o[1] if isinstance(o[1], Str) else Str(o[1])
    if x.memo.get("bstr"):
        import bstr
        x.nfresh += 1
        s = bstr.new_text(x, f"display!{x.nfresh}", 4)[1]
        x.memo.setdefault(("disp", what), []).append((args, s))
        return s
    s = x.fresh("str", "display")
    x.note_str(s)
    x.memo.setdefault(("disp", what), []).append((args, s))
    return Str(s)

def display(x, st, v, fn, w, kind="display"):
    v = x.deref_all(st, v)
    if isinstance(v, Ite):
        return ite(v.g, one(display(x, st, v.a, fn, w, kind)), one(display(x, st, v.b, fn, w, kind)))
    if kind == "display":
        if isinstance(v, Str): return v
        if isinstance(v, bool) or (is_z(v) and z3.is_bool(v)):
            return ite(v, Str("true"), Str("false"))
        if isinstance(v, int) or is_z(v):
            # char or integer: decided by the static type of the argument
            t = fn.prog.types[fn.targs[-1]] if fn.targs else ("int", 64, False)
            while t[0] in ("ref",): t = fn.prog.types[t[1]]
            if t[0] == "char": return char_str(x, v)
            return to_str_int(x, v)
        if isinstance(v, (Adt, Sum)) and not (x.memo.get("bstr") and (v.ty is None or fn.prog.types[v.ty][1].endswith("Error"))):
            f = None
            if v.ty is not None:
                tn = fn.prog.types[v.ty][1]
                f = fn.prog.fn(f"<{tn} as std::fmt::Display>::fmt")
            if f is not None and f.body:
                acc = x.alloc(st, Str(""), "F")
                r = x.alloc(st, v)
                res = x.call(st, f, [r, acc], w)
                if len(res) == 1:
                    s2, _ = res[0]
                    if s2 is not st:
                        st.mem = s2.mem; st.pc = s2.pc
                    return x.load(st, acc)
                raise Unsupported("Display impl with several paths")
    return opaque_display(x, kind, v)
def one(v): return v
def char_str(x, v):
    if not is_z(v):
        return Str(chr(v).encode().decode("latin-1") if x.bytes_mode else chr(v))
    if x.bytes_mode: 
        x.axiom(z3.BoolVal(True))
        return Str(z3.StrFromCode(v)) if True else None
    return Str(z3.StrFromCode(v))

@intr("core::fmt::rt::Argument::<'_>::new_display")
def arg_display(x, st, fn, a, w): return Opq("fmtarg", display(x, st, a[0], fn, w))
@intr("core::fmt::rt::Argument::<'_>::new_debug")
def arg_debug(x, st, fn, a, w): return Opq("fmtarg", display(x, st, a[0], fn, w, "debug"))
@intr("core::fmt::rt::Argument::<'_>::new_lower_hex", "core::fmt::rt::Argument::<'_>::new_upper_hex", "core::fmt::rt::Argument::<'_>::new_lower_exp")
def arg_other(x, st, fn, a, w): return Opq("fmtarg", display(x, st, a[0], fn, w, fn.path))
@intr("std::fmt::Arguments::<'a>::from_str", "std::fmt::Arguments::<'_>::from_str", "std::fmt::Arguments::<'a>::from_str_nonconst", "std::fmt::Arguments::<'a>::new_const")
def args_str(x, st, fn, a, w): return S(x, st, a[0])
@intr("std::fmt::Arguments::<'a>::new", "std::fmt::Arguments::<'_>::new", "std::fmt::Arguments::<'a>::new_v1")
def args_new(x, st, fn, a, w):
    tpl = x.deref_all(st, a[0])
    if isinstance(tpl, (Ite, Opq)): raise Unsupported("format template")
    b = [int(v) for v in tpl.f]
    arr = x.deref_all(st, a[1])
    out, i, k = [], 0, 0
    while i < len(b):
        c = b[i]
        if c == 0: break
        if c == 0xC0:
            out.append(arr.f[k].args[0]); k += 1; i += 1
        elif c < 0x80:
            lit = bytes(b[i + 1:i + 1 + c])
            out.append(Str(lit.decode("latin-1") if x.bytes_mode else lit.decode())); i += 1 + c
        elif c == 0x80:
            n = b[i + 1] | b[i + 2] << 8
            lit = bytes(b[i + 3:i + 3 + n])
            out.append(Str(lit.decode("latin-1") if x.bytes_mode else lit.decode())); i += 3 + n
        elif c > 0xC0:
            # placeholder with flags/width/precision/explicit argument index
            j = i + 1; idx = k
            if c & 1: j += 4
            if c & 2: j += 2
            if c & 4: j += 2
            if c & 8: idx = b[j] | b[j + 1] << 8; j += 2
            if c & 7: out.append(opaque_display(x, "fmtspec", arr.f[idx].args[0], c))
            else: out.append(arr.f[idx].args[0])
            k = idx + 1
            i = j
        else: raise Unsupported(f"format template byte {c:#x}")
    return concat(x, st, out)
def concat(x, st, parts):
    parts = [p if isinstance(p, (Str, Ite)) else S(x, st, p) for p in parts]
    for i, p in enumerate(parts):
        if isinstance(p, Ite):
            if not x.memo.get("bstr"): raise Unsupported("guarded string in concatenation")
            return ite(p.g, concat(x, st, parts[:i] + [p.a] + parts[i + 1:]), concat(x, st, parts[:i] + [p.b] + parts[i + 1:]))
    r = []
    for p in parts:
        t = p.t
        for q in (t.parts if isinstance(t, Rope) else [t]):
            if isinstance(q, str):
                if q == "": continue
                if r and isinstance(r[-1], str): r[-1] += q; continue
            r.append(q)
    if not r: return Str("")
    if len(r) == 1: return Str(r[0])
    if x.bytes_mode: return Str(Rope(r))
    return Str(z3.Concat(*[st_of(q) for q in r]))
from rope import Rope, st_of

@intr("std::fmt::format", "alloc::fmt::format", "std::fmt::format::format_inner")
def fmt_format(x, st, fn, a, w): return S(x, st, a[0])
@intr("std::fmt::Formatter::<'a>::write_str", "std::fmt::Formatter::<'_>::write_str", "std::fmt::Formatter::<'a>::write_fmt", "std::fmt::Formatter::<'_>::write_fmt",
      "<std::fmt::Formatter<'_> as std::fmt::Write>::write_str", "<std::string::String as std::fmt::Write>::write_str", "std::fmt::Write::write_fmt")
def fmt_write(x, st, fn, a, w):
    acc = a[0]
    x.store(st, acc, concat(x, st, [x.deref_all(st, acc), S(x, st, a[1])]))
    return OK(UNIT)

# ------------------------------------------------------------------ Vec / slices
@intr("std::vec::Vec::<T>::new", "std::vec::Vec::<T>::with_capacity", "<std::vec::Vec<T> as std::default::Default>::default")
def vec_new(x, st, fn, a, w): return Vec(())
@intr("std::vec::Vec::<T, A>::push")
def vec_push(x, st, fn, a, w):
    for g, r in cases(a[0]):
        v = x.load(st, r)
        nv = push(v, a[1])
        x.store(st, r, ite(g, nv, v) if is_z(g) else nv)
    return UNIT
def push(v, e):
    if isinstance(v, Arr): v = Vec([(True, y) for y in v.f])
    if isinstance(v, Ite): return ite(v.g, push(v.a, e), push(v.b, e))
    if not isinstance(v, Vec): raise Unsupported(f"push on {type(v).__name__}")
    return Vec(v.e + ((True, e),), False)
@intr("std::vec::Vec::<T, A>::len", "core::slice::<impl [T]>::len")
def vec_len(x, st, fn, a, w): return x.length(st, a[0])
@intr("std::vec::Vec::<T, A>::is_empty", "core::slice::<impl [T]>::is_empty")
def vec_is_empty(x, st, fn, a, w):
    v = x.deref_all(st, a[0])
    return is_empty(x, v)
def is_empty(x, v):
    if isinstance(v, Ite): return ite(v.g, is_empty(x, v.a), is_empty(x, v.b))
    if isinstance(v, Arr): return len(v.f) == 0
    return Not(Or(*[g for g, _ in v.e]))
@intr("<std::vec::Vec<T, A> as std::ops::Deref>::deref", "std::vec::Vec::<T, A>::as_slice", "<std::vec::Vec<T, A> as std::ops::DerefMut>::deref_mut", "<std::vec::Vec<T, A> as std::convert::AsRef<[T]>>::as_ref")
def vec_deref(x, st, fn, a, w): return a[0]
@intr("<&'a std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter", "core::slice::<impl [T]>::iter", "<&'a [T] as std::iter::IntoIterator>::into_iter",
      "core::slice::iter::<impl std::iter::IntoIterator for &'a [T]>::into_iter", "core::array::<impl std::iter::IntoIterator for &'a [T; N]>::into_iter",
      "<&'a mut std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter", "core::slice::<impl [T]>::iter_mut", "std::array::<impl std::iter::IntoIterator for &'a [T; N]>::into_iter",
      "core::slice::iter::<impl std::iter::IntoIterator for &'a mut [T]>::into_iter")
def slice_iter(x, st, fn, a, w):
    return It(a[0], 0)
@intr("<std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter", "std::array::<impl std::iter::IntoIterator for [T; N]>::into_iter", "std::array::iter::<impl std::iter::IntoIterator for [T; N]>::into_iter", "core::array::iter::<impl std::iter::IntoIterator for [T; N]>::into_iter", "core::array::<impl std::iter::IntoIterator for [T; N]>::into_iter")
def vec_into_iter(x, st, fn, a, w):
    return It(x.alloc(st, a[0]), 0, "owned")
@intr("<std::slice::Iter<'a, T> as std::iter::Iterator>::next", "<std::slice::IterMut<'a, T> as std::iter::Iterator>::next", "<std::vec::IntoIter<T, A> as std::iter::Iterator>::next",
      "<std::array::IntoIter<T, N> as std::iter::Iterator>::next")
def iter_next(x, st, fn, a, w):
    it = x.load(st, a[0])
    return iter_next_v(x, st, a[0], it)
def elem(x, st, it, i):
    if it.kind == "slice":
        c = it.ref
        if isinstance(c, Ref): return Ref(c.cell, c.path + (("i", i),))
        if isinstance(c, Ite): return x.map_ref(c, ("i", i))
        raise Unsupported("iterator over a value")
    v = x.load(st, it.ref)
    v = x.get1(v, ("i", i))
    return x.expand(v) if isinstance(v, Lazy) else v
def iter_next_v(x, st, ref, it):
    if isinstance(it, Ite):
        out = []
        for s2, b in x.branch(st, it.g):
            s2 = s2.copy() if s2 is st else s2
            out += iter_next_v(x, s2, ref, it.a if b else it.b)
        return out
    if not isinstance(it, It): raise Unsupported(f"next on {type(it).__name__}")
    if isinstance(it.ref, Ite):
        out = []
        for s2, b in x.branch(st, it.ref.g):
            s2 = s2.copy() if s2 is st else s2
            i2 = It(it.ref.a if b else it.ref.b, it.pos, it.kind)
            out += iter_next_v(x, s2, ref, i2)
        return out
    seq = x.deref_all(st, it.ref)
    if isinstance(seq, Ite):
        out = []
        for s2, b in x.branch(st, seq.g):
            s2 = s2.copy() if s2 is st else s2
            x_it = It(x.alloc(s2, seq.a if b else seq.b), it.pos, it.kind)
            out += iter_next_v(x, s2, ref, x_it)
        return out
    if isinstance(seq, Arr):
        if it.pos < len(seq.f):
            v = elem(x, st, it, it.pos)
            x.store(st, ref, It(it.ref, it.pos + 1, it.kind))
            return [(st, SOME(v))]
        return [(st, NONE())]
    if isinstance(seq, Vec):
        out = []; cur = st
        for i in range(it.pos, len(seq.e)):
            g = seq.e[i][0]
            last = None
            nxt = None
            for s2, b in x.branch(cur, g):
                if b:
                    s3 = s2.copy()
                    x.store(s3, ref, It(it.ref, i + 1, it.kind))
                    out.append((s3, SOME(elem(x, s3, it, i))))
                else: nxt = s2
            if nxt is None: return out
            if seq.mono:
                s3 = nxt.copy(); x.store(s3, ref, It(it.ref, len(seq.e), it.kind))
                out.append((s3, NONE()))
                return out
            cur = nxt
        s3 = cur.copy()
        x.store(s3, ref, It(it.ref, len(seq.e), it.kind))
        out.append((s3, NONE()))
        return out
    raise Unsupported(f"iteration over {type(seq).__name__}")
@intr("<std::vec::Vec<T> as std::iter::FromIterator<T>>::from_iter")
def from_iter(x, st, fn, a, w):
    it = x.deref_all(st, a[0])
    if isinstance(it, (It, Ite)): return collect_it(x, st, it)
    if hasattr(it, "collected"): return it.collected(x, st)
    raise Unsupported(f"collect from {type(it).__name__}")
def collect_it(x, st, it):
    if isinstance(it, Ite): return ite(it.g, collect_it(x, st, it.a), collect_it(x, st, it.b))
    if isinstance(it.ref, Ite): return ite(it.ref.g, collect_it(x, st, It(it.ref.a, it.pos, it.kind)), collect_it(x, st, It(it.ref.b, it.pos, it.kind)))
    seq = x.deref_all(st, it.ref)
    if isinstance(seq, Ite):
        r = [conv_iter(x, st, It(x.alloc(st, q), it.pos, it.kind), q) for q in (seq.a, seq.b)]
        return ite(seq.g, *r)
    return conv_iter(x, st, it, seq)
def conv_iter(x, st, it, seq):
    if isinstance(seq, Arr): return Vec([(True, elem(x, st, it, i)) for i in range(it.pos, len(seq.f))])
    return Vec([(seq.e[i][0], elem(x, st, it, i)) for i in range(it.pos, len(seq.e))], seq.mono)
def drive(x, st, itref, step, end):
    """run a slice iterator: step(state, item) -> [(state, done?, value)]; end(state) -> value when exhausted"""
    results, cur = [], [st]
    for _ in range(100000):
        nxt = []
        for s in cur:
            for s2, o in iter_next_v(x, s, itref, x.load(s, itref)):
                alts = [(1, o.f[0])] if isinstance(o, Adt) and o.v == 1 else []
                if not alts: results.append((s2, end(s2))); continue
                for s3, done, v in step(s2, o.f[0]):
                    if done: results.append((s3, v))
                    else: nxt.append(s3)
        if not nxt: break
        cur = [x.merge_states(nxt)] if x.merge and len(nxt) > 1 else nxt
    else: raise Unsupported("long iteration")
    return results
def call_pred(x, st, f, args, w):
    """[(state, bool)] of a closure answer, split"""
    out = []
    for s2, v in x.call_value(st, f, args, w):
        for s3, b in x.branch(s2, v):
            out.append((s3.copy() if s3 is s2 else s3, b))
    return out
SI = ["<std::slice::Iter<'a, T> as std::iter::Iterator>::", "<std::slice::IterMut<'a, T> as std::iter::Iterator>::", "<std::vec::IntoIter<T, A> as std::iter::Iterator>::"]
def si(*names):
    def d(f):
        for n in names:
            for p in SI: I[p + n] = f
        return f
    return d
def itcell(x, st, v):
    """reference to an iterator passed by value or by reference"""
    if isinstance(v, It): return x.alloc(st, v)
    return v
@si("find")
def it_find(x, st, fn, a, w):
    def step(s, item):
        r = x.alloc(s, item)
        return [(s2, b, SOME(item)) for s2, b in call_pred(x, s, a[1], [r], w)]
    return drive(x, st, itcell(x, st, a[0]), step, lambda s: NONE())
@si("any")
def it_any(x, st, fn, a, w):
    return drive(x, st, itcell(x, st, a[0]), lambda s, item: [(s2, b, True) for s2, b in call_pred(x, s, a[1], [item], w)], lambda s: False)
@si("all")
def it_all(x, st, fn, a, w):
    return drive(x, st, itcell(x, st, a[0]), lambda s, item: [(s2, not b, False) for s2, b in call_pred(x, s, a[1], [item], w)], lambda s: True)
@si("find_map")
def it_find_map(x, st, fn, a, w):
    def step(s, item):
        out = []
        for s2, v in x.call_value(s, a[1], [item], w):
            v = x.expand(v) if isinstance(v, Lazy) else v
            if isinstance(v, Ite): raise Unsupported("guarded option")
            if isinstance(v, Adt): out.append((s2, v.v == 1, v)); continue
            for s3, b in x.branch(s2, Eq(v.d, 1)): out.append((s3.copy() if s3 is s2 else s3, b, SOME(v.alts[1][0]) if b else NONE()))
        return out
    return drive(x, st, itcell(x, st, a[0]), step, lambda s: NONE())
@si("position")
def it_position(x, st, fn, a, w):
    c = x.alloc(st, 0)
    def step(s, item):
        i = x.load(s, c); x.store(s, c, i + 1)
        return [(s2, b, SOME(i)) for s2, b in call_pred(x, s, a[1], [item], w)]
    return drive(x, st, itcell(x, st, a[0]), step, lambda s: NONE())
@si("for_each")
def it_for_each(x, st, fn, a, w):
    return drive(x, st, itcell(x, st, a[0]), lambda s, item: [(s2, False, None) for s2, _ in x.call_value(s, a[1], [item], w)], lambda s: UNIT)
@si("fold")
def it_fold(x, st, fn, a, w):
    c = x.alloc(st, a[1])
    def step(s, item):
        out = []
        for s2, v in x.call_value(s, a[2], [x.load(s, c), item], w):
            x.store(s2, c, v); out.append((s2, False, None))
        return out
    return drive(x, st, itcell(x, st, a[0]), step, lambda s: x.load(s, c))
@si("count")
def it_count(x, st, fn, a, w):
    c = x.alloc(st, 0)
    def step(s, item):
        v = x.load(s, c); x.store(s, c, v + 1); return [(s, False, None)]
    return drive(x, st, itcell(x, st, a[0]), step, lambda s: x.load(s, c))
@si("nth")
def it_nth(x, st, fn, a, w):
    if is_z(a[1]): raise Unsupported("nth of a symbolic index")
    c = x.alloc(st, 0)
    def step(s, item):
        i = x.load(s, c); x.store(s, c, i + 1)
        if is_z(i): return [(s2.copy() if s2 is s else s2, b, SOME(item)) for s2, b in x.branch(s, i == a[1])]
        return [(s, i == a[1], SOME(item))]
    return drive(x, st, itcell(x, st, a[0]), step, lambda s: NONE())
@intr("core::slice::<impl [T]>::first")
def slice_first(x, st, fn, a, w):
    v = x.deref_all(st, a[0])
    n = len(v.f) if isinstance(v, Arr) else len(v.e)
    if n == 0: return NONE()
    r = Ref(a[0].cell, a[0].path + (("i", 0),))
    if isinstance(v, Arr): return SOME(r)
    if not v.mono and len(v.e) > 1: raise Unsupported("first of a guarded list")
    return opt(st, v.e[0][0], r)

# ------------------------------------------------------------------ strings, character mode (merge)
@intr("core::str::<impl str>::len", "std::string::String::len")
def str_len(x, st, fn, a, w):
    s = S(x, st, a[0])
    return lenof(x, s)
def lenof(x, s):
    if isinstance(s, Ite): return ite(s.g, lenof(x, s.a), lenof(x, s.b))
    if isinstance(s.t, Rope): return s.t.length()
    return x.bytelen(s)
@intr("core::str::<impl str>::is_empty", "std::string::String::is_empty")
def str_is_empty(x, st, fn, a, w):
    s = S(x, st, a[0])
    return str_empty(x, st, s)
def str_empty(x, st, s):
    if isinstance(s, Ite): return ite(s.g, str_empty(x, st, s.a), str_empty(x, st, s.b))
    if isinstance(s.t, str): return s.t == ""
    if isinstance(s.t, Rope):
        if any(isinstance(p, str) and p for p in s.t.parts): return False
        return And(*[z3.Length(p) == 0 for p in s.t.parts])
    if isinstance(s.meta, tuple) and s.meta[0] == "trim":
        return z3.InRe(st_of(s.meta[1].t), z3.Star(strs.ws_re(x.bytes_mode)))
    return z3.Length(s.t) == 0
@intr("core::str::<impl str>::chars")
def str_chars(x, st, fn, a, w): return Opq("chars", S(x, st, a[0]))
@intr("<std::str::Chars<'a> as std::iter::Iterator>::count")
def chars_count(x, st, fn, a, w):
    c = a[0]
    return ccount(x, c.args[0]) if isinstance(c, Opq) else ite(c.g, ccount(x, c.a.args[0]), ccount(x, c.b.args[0]))
def ccount(x, s):
    if isinstance(s, Ite): return ite(s.g, ccount(x, s.a), ccount(x, s.b))
    if isinstance(s.t, str):
        return len(s.t.encode("latin-1").decode("utf-8", "replace")) if x.bytes_mode else len(s.t)
    if x.bytes_mode: raise Unsupported("character count in bytes mode")
    if isinstance(s.meta, tuple) and s.meta[0] == "trim":
        return z3.Length(trim_term(x, s.meta[1]))
    return z3.Length(s.t)
def trim_term(x, s):
    """a string constant equal to the trimmed form of s (character mode)"""
    k = ("trimt", s.t.get_id())
    if k in x.memo: return x.memo[k][0]
    t, l, r = x.fresh("str", "trim"), x.fresh("str", "ws"), x.fresh("str", "ws")
    x.memo[k] = (t, s.t)
    ws, nws = strs.ws_re(False), strs.nonws_re(False)
    x.axiom(s.t == z3.Concat(l, t, r))
    x.axiom(z3.InRe(l, z3.Star(ws))); x.axiom(z3.InRe(r, z3.Star(ws)))
    x.axiom(z3.InRe(t, z3.Union(strs.re_lit(""), nws, strs.re_cat([nws, strs.ALL, nws]))))
    return t
@intr("core::str::traits::<impl std::cmp::PartialEq for str>::eq", "<std::string::String as std::cmp::PartialEq>::eq", "<std::string::String as std::cmp::PartialEq<str>>::eq",
      "<std::string::String as std::cmp::PartialEq<&'a str>>::eq", "<&'a str as std::cmp::PartialEq<std::string::String>>::eq", "<str as std::cmp::PartialEq<std::string::String>>::eq", "<&'a str as std::cmp::PartialEq<std::string::String>>::eq",
      "std::string::impl_eq_", "core::str::<impl str>::eq")
def str_eq(x, st, fn, a, w):
    return seq(x, S(x, st, a[0]), S(x, st, a[1]))
def seq(x, s, t):
    if isinstance(s, Ite): return ite(s.g, seq(x, s.a, t), seq(x, s.b, t))
    if isinstance(t, Ite): return ite(t.g, seq(x, s, t.a), seq(x, s, t.b))
    if isinstance(s.t, str) and isinstance(t.t, str): return s.t == t.t
    a, b = cterm(x, s), cterm(x, t)
    return Eq(a, b)
def cterm(x, s):
    """z3 term of a string value"""
    if isinstance(s.meta, tuple) and s.meta[0] == "trim" and not x.bytes_mode: return trim_term(x, s.meta[1])
    return st_of(s.t)
@intr("core::str::<impl str>::trim")
def str_trim(x, st, fn, a, w):
    s = S(x, st, a[0])
    return trim(x, st, s)
def trim(x, st, s):
    if isinstance(s, Ite): return Ite(s.g, trim(x, st, s.a), trim(x, st, s.b))
    if isinstance(s.t, str):
        return Str(pytrim(s.t, x.bytes_mode))
    if x.bytes_mode:
        import rope
        return rope.trim(x, st, s)
    if s.meta: return s
    return Str(z3.String(f"trim({s.t.get_id()})"), ("trim", s))
def pytrim(t, bm, left=True, right=True):
    u = t.encode("latin-1").decode() if bm else t
    i, j = 0, len(u)
    while left and i < j and strs.is_ws(u[i]): i += 1
    while right and j > i and strs.is_ws(u[j - 1]): j -= 1
    u = u[i:j]
    return u.encode().decode("latin-1") if bm else u

# ------------------------------------------------------------------ regex crate
@intr("regex::Regex::new")
def regex_new(x, st, fn, a, w):
    p = S(x, st, a[0])
    return rx_new(x, st, p)
def rx_new(x, st, p):
    if isinstance(p, Ite): return ite(p.g, rx_new(x, st, p.a), rx_new(x, st, p.b))
    if isinstance(p.t, str):
        try:
            strs.search_re(p.t, x.bytes_mode); ok = True
        except strs.BadRegex:
            ok = False
        import re
        if not ok:
            try: re.compile(p.t)
            except re.error: return ERR(Opq("regex::Error", p))
            raise Unsupported(f"regex {p.t!r}")
        return OK(Opq("regex", p))
    b = x.uf_bool("regex_valid", p)
    return Sum(None, z3.If(b, z3.IntVal(0), z3.IntVal(1)), {0: (Opq("regex", p),), 1: (Opq("regex::Error", p),)})
@intr("regex::Regex::is_match")
def regex_is_match(x, st, fn, a, w):
    r = x.deref_all(st, a[0]); s = S(x, st, a[1])
    return rx_match(x, st, r, s)
def rx_match(x, st, r, s):
    if isinstance(r, Ite): return ite(r.g, rx_match(x, st, r.a, s), rx_match(x, st, r.b, s))
    if isinstance(s, Ite): return ite(s.g, rx_match(x, st, r, s.a), rx_match(x, st, r, s.b))
    p = r.args[0]
    if not isinstance(p.t, str): return x.uf_bool("regex_match", p, s)
    R = strs.search_re(p.t, x.bytes_mode)
    if isinstance(s.meta, tuple) and s.meta[0] == "trim":
        return z3.InRe(st_of(s.meta[1].t), strs.trimmed_re(R, x.bytes_mode))
    t = z3.simplify(z3.InRe(st_of(s.t), R))
    return True if z3.is_true(t) else False if z3.is_false(t) else t

# ------------------------------------------------------------------ bool / Option helpers met without bodies
@intr("std::bool::<impl bool>::then_some", "core::bool::<impl bool>::then_some")
def then_some(x, st, fn, a, w): return opt(st, a[0], a[1])
