"""Harness generators for the run-time properties (declarations compiled with the real macros)."""
from fam import *


def esc(d, *names):
    return names


def mk_fn(d):
    """fn mk(which, vals, base): builds the variant `which`, field j gets id base + j."""
    s = f"fn mk(w: u32, vals: &[u64; {d.maxn}], base: u16) -> D{d.inst_()} {{\n    match w {{\n"
    for i, v in enumerate(d.variants):
        arm = f"{i}" if i < len(d.variants) - 1 else "_"
        if v.style == "unit":
            e = d.ctor(v)
        else:
            fs = [f"Tv::new(base + {j}, vals[{j}])" for j in range(len(v.fields))]
            e = d.ctor(v) + ("{" + ", ".join(f"{f.name}: {x}" for f, x in zip(v.fields, fs)) + "}" if v.style == "named" else "(" + ", ".join(fs) + ")")
        s += f"        {arm} => {e},\n"
    return s + "    }\n}\n"


def each_variant(d, scrut, prefix, body, binds="x", mutref=False):
    """match scrut { pat => body(i, v), ... }"""
    s = f"match {scrut} {{\n"
    for i, v in enumerate(d.variants):
        b = [f"{binds}{j}" for j in range(len(v.fields))]
        s += f"    {d.pat(prefix, v, b)} => {{ {body(i, v)} }}\n"
    return s + "}\n"


def addrs_fn(d):
    s = f"fn addrs(d: &D{d.inst_()}) -> [usize; {d.maxn}] {{\n    let mut a = [0usize; {d.maxn}];\n    "
    s += each_variant(d, "d", "D", lambda i, v: " ".join(f"a[{j}] = x{j}.here();" for j in range(len(v.fields))))
    return s + "    a\n}\n"


def holds_fn(d):
    """checks that *d is the variant w with ids base.. and the given values"""
    s = f"fn holds(d: &D{d.inst_()}, w: u32, vals: &[u64; {d.maxn}], base: u16, e: u32) {{\n"
    s += each_variant(d, "d", "D", lambda i, v: f"check(w == {i}, e); " + " ".join(f"check(x{j}.is_id(base + {j}), e + 1); check(x{j}.is_val(vals[{j}]), e + 2);" for j in range(len(v.fields))))
    return s + "}\n"


def arm_fn(d):
    s = f"fn arm(d: &mut D{d.inst_()}, a: &[bool; {d.maxn}]) {{\n"
    s += each_variant(d, "d", "D", lambda i, v: " ".join(f"x{j}.arm(a[{j}]);" for j in range(len(v.fields))))
    return s + "}\n"


def tables(d):
    n = ", ".join(str(len(v.fields)) for v in d.variants)
    p = ", ".join("[" + ", ".join("true" if j < len(v.fields) and v.fields[j].pin else "false" for j in range(d.maxn)) + "]" for v in d.variants)
    k = len(d.variants)
    t = ", ".join("[" + ", ".join("true" if j < len(v.fields) and v.fields[j].tracked else "false" for j in range(d.maxn)) + "]" for v in d.variants)
    nt = ", ".join(str(sum(f.tracked for f in v.fields)) for v in d.variants)
    return f"static TR: [[bool; {d.maxn}]; {k}] = [{t}];\nstatic NT: [usize; {k}] = [{nt}];\nstatic NF: [usize; {k}] = [{n}];\nstatic PIN: [[bool; {d.maxn}]; {k}] = [{p}];\n"


def proj_fields(d, p, prefix, body):
    """Access the fields of projection value expression p: struct by field access, enum by match."""
    if d.kind == "enum":
        return each_variant(d, p, prefix, body)
    v = d.variants[0]
    s = f"{{ let p = {p};\n"
    for j, f in enumerate(v.fields):
        acc = f.name if v.style == "named" else str(j)
        s += f"    let x{j} = p.{acc};\n"
    return s + body(0, v) + "}\n"


def sym_arr(n, what="u64s()"):
    return "[" + ", ".join(what for _ in range(n)) + "]"


def common(d):
    return mk_fn(d) + addrs_fn(d) + holds_fn(d) + arm_fn(d) + tables(d)


Decl.inst_ = lambda self: self.inst


def c01(d):
    n, k = d.maxn, len(d.variants)
    s = common(d)
    s += f"""
pub fn h() {{
    let vals: [u64; {n}] = {sym_arr(n)};
    let w = choice({k});
    let mut b: Pin<Box<D{d.inst_()}>> = Box::pin(mk(w, &vals, 0));
    let a = addrs(&b);
    let new: [u64; {n}] = {sym_arr(n)};
    reach(1);
    allow(0, 0);
    """
    s += proj_fields(d, "b.as_mut().project()", "PMut", lambda i, v: f"check(w == {i}, 1); " + " ".join(
        f"let mut x{j} = x{j}; check(Get::addr(&x{j}) == a[{j}], 2); check(Get::has_id(&x{j}, {j}), 3); check(Get::has_val(&x{j}, vals[{j}]), 4); Set::set(&mut x{j}, new[{j}]);" for j in range(len(v.fields))))
    s += """    holds(&b, w, &new, 0, 5);
    """
    s += proj_fields(d, "b.as_ref().project_ref()", "PRef", lambda i, v: f"check(w == {i}, 11); " + " ".join(
        f"check(Get::addr(&x{j}) == a[{j}], 12); check(Get::has_id(&x{j}, {j}), 13); check(Get::has_val(&x{j}, new[{j}]), 14);" for j in range(len(v.fields))))
    s += f"""    holds(&b, w, &new, 0, 15);
    // a second projection still refers to the same places
    """
    s += proj_fields(d, "b.as_mut().project()", "PMut", lambda i, v: f"check(w == {i}, 21); " + " ".join(
        f"check(Get::addr(&x{j}) == a[{j}], 22); check(Get::has_val(&x{j}, new[{j}]), 24);" for j in range(len(v.fields))))
    s += f"""    check(nlog() == 0, 30);
    allow(0, IDS as u16);
    drop(b);
    check(nlog() == NT[w as usize], 31);
    reach(2);
}}
"""
    return d.text(d.args(replace=False)) + s


def arming(d):
    """Which destructors panic: any set of them, or (above four fields) any at most two of them."""
    n = d.maxn
    if n <= 4:
        return f"""    for j in 0..{n} {{
        if j < nf && TR[w as usize][j] {{
            armed[j] = flag();
        }}
    }}
"""
    return """    for _ in 0..2 {
        let j = choice(nf as u32 + 1) as usize;
        if j < nf && TR[w as usize][j] {
            armed[j] = true;
        }
    }
"""


# id of the first field of the replacement value
R = 32


def c06(d, panics):
    n, k = d.maxn, len(d.variants)
    s = common(d)
    s += f"""
pub fn h() {{
    let old: [u64; {n}] = {sym_arr(n)};
    let new: [u64; {n}] = {sym_arr(n)};
    let w = choice({k});
    let w2 = choice({k});
    let nf = NF[w as usize];
    let mut armed = [false; {n}];
    let mut np = 0u32;
    let mut nt = 0u32;
"""
    if panics:
        s += arming(d) + f"""    for j in 0..{n} {{
        if armed[j] {{
            nt += 1;
            if PIN[w as usize][j] {{
                np += 1;
            }}
        }}
    }}
"""
    s += f"""    let mut b: Pin<Box<D{d.inst_()}>> = Box::pin(mk(w, &old, 0));
    arm(unsafe {{ b.as_mut().get_unchecked_mut() }}, &armed);
    let a = addrs(&b);
    let mut out = None;
    // the replacement is not dropped by the call
    allow(0, {R});
    abort_ok(np >= 1 && nt >= 2);
    reach(1);
    let new_value = mk(w2, &new, {R});
    let panicked = catch(|| {{
        out = Some(b.as_mut().project_replace(new_value));
    }});
    abort_ok(false);
    check(panicked == (np >= 1), 1);
    check(!(np >= 1 && nt >= 2), 2);
    let s = st();
    // the place holds the replacement
    holds(&b, w2, &new, {R}, 3);
    // each pinned field was dropped once, in place
    let mut last = 0usize;
    for j in 0..{n} {{
        if j < nf && PIN[w as usize][j] && TR[w as usize][j] {{
            check(s.dropped[j] == 1, 6);
            check(s.at[j] == a[j], 7);
            check(s.val[j] == old[j], 8);
"""
    if not panics:
        s += "            check(s.log[last] == j as u16, 9);\n"
    s += f"""            last += 1;
        }}
        if j < nf && !PIN[w as usize][j] && TR[w as usize][j] {{
            check(s.dropped[j] == panicked as u8, 10);
            if panicked {{
                check(s.val[j] == old[j], 11);
            }}
        }}
    }}
    if !panicked {{
        check(nlog() == last, 12);
    }}
    if panicked {{
        reach(2);
        check(out.is_none(), 13);
    }}
    match out {{
        None => check(panicked, 14),
        Some(r) => {{
            reach(3);
            """
    def b(i, v):
        t = f"check(w == {i}, 15); "
        for j, f in enumerate(v.fields):
            if f.pin:
                t += f"check(core::mem::size_of_val(&x{j}) == 0, 16); check(Own::take(x{j}).is_none(), 17);\n"
            else:
                t += f"match Own::take(x{j}) {{ None => check(false, 18), Some(mut f) => {{ check(f.is_id({j}), 19); check(f.is_val(old[{j}]), 20); f.arm(false); allow({j}, {j} + 1); drop(f); }} }}\n"
        return t
    s += proj_fields(d, "r", "POwn", b)
    s += f"""
        }}
    }}
    // finally every value has been dropped exactly once
    for j in 0..{n} {{
        if j < nf && TR[w as usize][j] {{
            check(s.dropped[j] == 1, 21);
        }}
    }}
    allow({R}, {2 * R});
    drop(b);
    for j in 0..{n} {{
        if j < NF[w2 as usize] && TR[w2 as usize][j] {{
            check(s.dropped[{R} + j] == 1, 22);
        }}
    }}
    reach(4);
}}
"""
    return d.text(d.args(project=False)) + s


def pd_impl(d, body):
    g = d.gen
    # strip defaults, collect parameter names
    return body


def gen_params(gen):
    """'<T: Tr, const N: usize>' -> ('<T: Tr, const N: usize>', '<T, N>') without defaults."""
    if not gen:
        return "", ""
    ps = [p.strip() for p in gen[1:-1].split(",")]
    decl, use = [], []
    for p in ps:
        p = p.split("=")[0].strip() if not p.startswith("const") else p.split("=")[0].strip()
        decl.append(p)
        use.append(p.replace("const ", "").split(":")[0].strip())
    return "<" + ", ".join(decl) + ">", "<" + ", ".join(use) + ">"


def c08(d, pinned_drop):
    n, k = d.maxn, len(d.variants)
    s = common(d)
    gd, gu = gen_params(d.gen)
    if pinned_drop:
        # fields are of a type parameter in generic declarations: access through Fld
        s += f"""
impl{gd} Drop2 for D{gu} {d.where} {{}}
#[::pin_project::pinned_drop]
impl{gd} PinnedDrop for D{gu} {d.where} {{
    fn drop(self: Pin<&mut Self>) {{
        let here = &*self as *const Self as *const u8 as usize;
        check(here == unsafe {{ SELF_AT }}, 1);
        // every field is intact
        for j in 0..{n} {{
            if j < unsafe {{ NOW_NF }} {{
                check(st().dropped[j] == 0, 2);
            }}
        }}
        {"match &*self {" if True else ""}
"""
        for i, v in enumerate(d.variants):
            b = [f"x{j}" for j in range(len(v.fields))]
            chk = " ".join(f"let x{j} = unsafe {{ &*(x{j} as *const _ as *const {v.fields[j].conc}) }}; check(x{j}.is_id({j}), 4); check(x{j}.is_val(unsafe {{ NOW[{j}] }}), 5);" for j in range(len(v.fields)))
            s += f"            {d.pat('Self', v, b)} => {{ check(unsafe {{ NOW_W }} == {i}, 3); {chk} }}\n"
        s += """        }
        log(100);
        if unsafe { PD_ARMED } {
            sym_throw();
        }
    }
}
"""
    s += f"""
static mut SELF_AT: usize = 0;
static mut NOW_NF: usize = 0;
static mut NOW_W: u32 = 0;
static mut NOW: [u64; {n}] = [0; {n}];
static mut PD_ARMED: bool = false;
pub trait Drop2 {{}}
pub fn h() {{
    let vals: [u64; {n}] = {sym_arr(n)};
    let w = choice({k});
    let nf = NF[w as usize];
    let mut armed = [false; {n}];
    let mut nt = 0u32;
    {arming(d)}
    for j in 0..{n} {{
        if armed[j] {{
            nt += 1;
        }}
    }}
    let pd = {"flag()" if pinned_drop else "false"};
    if pd {{
        nt += 1;
    }}
    let mut b: Pin<Box<D{d.inst_()}>> = Box::pin(mk(w, &vals, 0));
    arm(unsafe {{ b.as_mut().get_unchecked_mut() }}, &armed);
    let a = addrs(&b);
    unsafe {{
        SELF_AT = &*b as *const D{d.inst_()} as usize;
        NOW_NF = nf;
        NOW_W = w;
        NOW = vals;
        PD_ARMED = pd;
    }}
    check(nlog() == 0, 6);
    abort_ok(nt >= 2);
    reach(1);
    let panicked = catch(move || drop(b));
    abort_ok(false);
    check(panicked == (nt >= 1), 7);
    let s = st();
    let p = {1 if pinned_drop else 0}usize;
    check(nlog() == NT[w as usize] + p, 8);
    let mut q = p;
    if p == 1 {{
        check(s.log[0] == 100, 9);
    }}
    for j in 0..{n} {{
        if j < nf && TR[w as usize][j] {{
            check(s.log[q] == j as u16, 10);
            q += 1;
            check(s.dropped[j] == 1, 11);
            check(s.at[j] == a[j], 12);
            check(s.val[j] == vals[j], 13);
        }}
    }}
    reach(2);
    if panicked {{
        reach(3);
    }}
}}
"""
    return d.text(d.args(extra=["PinnedDrop"] if pinned_drop else [], replace=False)) + s


def c09(d, steps, pinned_drop=False):
    """Operation sequences over one pinned place; ids 0..31 are handed out as values are created."""
    n, k = d.maxn, len(d.variants)
    rep = not pinned_drop
    nops = 4 if rep else 3
    s = common(d)
    s += f"""
#[derive(Clone, Copy)]
struct M {{ w: u32, base: [u16; {n}], val: [u64; {n}] }}
fn verify(d: &D{d.inst_()}, m: &M, e: u32) {{
    let _ = m;
    {each_variant(d, "d", "D", lambda i, v: f"check(m.w == {i}, e); " + " ".join(f"check(x{j}.is_id(m.base[{j}]), e + 1); check(x{j}.is_val(m.val[{j}]), e + 2);" for j in range(len(v.fields))))}
}}
fn fresh(base: u16, w: u32) -> (D{d.inst_()}, M) {{
    let vals: [u64; {n}] = {sym_arr(n)};
    let mut m = M {{ w, base: [0; {n}], val: vals }};
    for j in 0..{n} {{
        m.base[j] = base + j as u16;
    }}
    (mk(w, &vals, base), m)
}}
fn register(d: &D{d.inst_()}, m: &M) {{
    // from here on the pinned fields may not move
    let a = addrs(d);
    for j in 0..{n} {{
        if j < NF[m.w as usize] && PIN[m.w as usize][j] {{
            st().pinned_at[m.base[j] as usize] = a[j];
        }}
    }}
}}
pub fn h() {{
    let mut used = [false; IDS];
    let (v, mut m) = fresh(0, choice({k}));
    let mut b: Pin<Box<D{d.inst_()}>> = Box::pin(v);
    for j in 0..NF[m.w as usize] {{ used[j] = true; }}
    register(&b, &m);
    let mut next = {n}u16;
    for step in 0..{steps} {{
        let op = choice({nops});
        let nf = NF[m.w as usize];
        // at most one destructor of the current value is set to panic
        let t = if op == 1 && nf > 0 {{ choice(nf as u32) as usize }} else {{ 0 }};
        let who = if op == 1 && nf > 0 {{ if flag() {{ t }} else {{ nf }} }} else if op == 3 {{ choice(nf as u32 + 1) as usize }} else {{ nf }};
        let mut armed = [false; {n}];
        if who < nf {{
            armed[who] = true;
        }}
        arm(unsafe {{ b.as_mut().get_unchecked_mut() }}, &armed);
        allow(0, next);
        if op == 0 {{
            // look, through both projections
            let a = addrs(&b);
            {proj_fields(d, "b.as_ref().project_ref()", "PRef", lambda i, v: " ".join(f"check(Get::addr(&x{j}) == a[{j}] && Get::has_val(&x{j}, m.val[{j}]) && Get::has_id(&x{j}, m.base[{j}]), 1);" for j in range(len(v.fields))))}
            {proj_fields(d, "b.as_mut().project()", "PMut", lambda i, v: " ".join(f"check(Get::addr(&x{j}) == a[{j}] && Get::has_val(&x{j}, m.val[{j}]) && Get::has_id(&x{j}, m.base[{j}]), 2);" for j in range(len(v.fields))))}
            reach(10);
        }} else if op == 1 && nf > 0 {{
            // assign to one field through the projection, whatever reference there is
            let x = u64s();
            let a = addrs(&b);
            let panicked = catch(|| {{
                {proj_fields(d, "b.as_mut().project()", "PMut", lambda i, v: " ".join(f"let mut x{j} = x{j}; if t == {j} {{ Put::put(&mut x{j}, F::new(next, x)); }}" for j in range(len(v.fields))))}
            }});
            check(panicked == (who == t), 3);
            check(st().dropped[m.base[t] as usize] == 1, 4);
            used[next as usize] = true;
            m.base[t] = next;
            m.val[t] = x;
            if PIN[m.w as usize][t] {{
                st().pinned_at[next as usize] = a[t];
            }}
            next += 1;
            reach(11);
        }} else if op == 2 {{
            // write through the projection
            let x = u64s();
            {proj_fields(d, "b.as_mut().project()", "PMut", lambda i, v: " ".join(f"let mut x{j} = x{j}; Set::set(&mut x{j}, x ^ {j}); m.val[{j}] = x ^ {j};" for j in range(len(v.fields))))}
            reach(12);
        }}
"""
    if rep:
        s += f"""        else if op == 3 {{
            let (v, m2) = fresh(next, choice({k}));
            for j in 0..NF[m2.w as usize] {{ used[next as usize + j] = true; }}
            let will = who < nf && PIN[m.w as usize][who];
            let mut out = None;
            let panicked = catch(|| {{ out = Some(b.as_mut().project_replace(v)); }});
            check(panicked == will, 5);
            match out {{
                None => {{}}
                Some(r) => {{
                    {proj_fields(d, "r", "POwn", lambda i, v: " ".join(f"match Own::take(x{j}) {{ None => check(PIN[m.w as usize][{j}], 6), Some(mut f) => {{ check(!PIN[m.w as usize][{j}], 7); check(f.is_id(m.base[{j}]) && f.is_val(m.val[{j}]), 8); f.arm(false); drop(f); }} }}" for j in range(len(v.fields))))}
                }}
            }}
            for j in 0..nf {{
                check(st().dropped[m.base[j] as usize] == 1, 9);
            }}
            m = m2;
            register(&b, &m);
            next += {n};
            reach(13);
        }}
"""
    s += f"""        verify(&b, &m, 20);
    }}
    let who = choice(NF[m.w as usize] as u32 + 1) as usize;
    let mut armed = [false; {n}];
    if who < NF[m.w as usize] {{
        armed[who] = true;
    }}
    arm(unsafe {{ b.as_mut().get_unchecked_mut() }}, &armed);
    allow(0, next);
    let panicked = catch(move || drop(b));
    check(panicked == (who < NF[m.w as usize]), 30);
    let mut created = 0usize;
    for i in 0..next as usize {{
        if used[i] {{
            created += 1;
            check(st().dropped[i] == 1, 31);
        }}
    }}
    check(nlog() == created{' + 1' if pinned_drop else ''}, 32);
    reach(2);
}}
trait Put {{
    fn put(&mut self, f: F);
}}
impl Put for &mut F {{
    fn put(&mut self, f: F) {{
        **self = f;
    }}
}}
impl Put for Pin<&mut F> {{
    fn put(&mut self, f: F) {{
        self.as_mut().set(f);
    }}
}}
"""
    gd, gu = gen_params(d.gen)
    if pinned_drop:
        s += f"""
#[::pin_project::pinned_drop]
impl{gd} PinnedDrop for D{gu} {d.where} {{
    fn drop(self: Pin<&mut Self>) {{
        log(100);
    }}
}}
"""
    return d.text(d.args(extra=["PinnedDrop"] if pinned_drop else [], replace=rep)) + s
