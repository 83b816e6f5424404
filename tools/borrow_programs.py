"""The programs of the C30 check.

Every program is safe Rust (`#![forbid(unsafe_code)]`) that sets out to do one thing the borrow rules
must make impossible: use a reference or iterator after the container was changed, moved or dropped, or
have two live references to one element of which one is mutable. Its control does the same things in an
order that is allowed. A hostile program the compiler turns down has no execution; one it accepts is run.
"""

# name, maker; borrows: name -> (how to borrow from c, the first element from what was borrowed)
V_SH = {
    "as_slice": ("c.as_slice()", "&h[0]"),
    "index": ("&c[0]", "h"),
    "first": ("c.first().unwrap()", "h"),
    "iter": ("c.iter()", "h.next().unwrap()"),
    "item": ("c.iter().next().unwrap()", "h"),
    "last_item": ("c.iter().next_back().unwrap()", "h"),
    "as_ref": ("AsRef::<[Can]>::as_ref(&*c)", "&h[0]"),
    "deref": ("&(**c)[..]", "&h[0]"),
}
V_MU = {
    "as_slice_mut": ("c.as_slice_mut()", "&mut h[0]"),
    "index_mut": ("&mut c[0]", "h"),
    "iter_mut": ("c.iter_mut()", "h.next().unwrap()"),
    "item_mut": ("c.iter_mut().next().unwrap()", "h"),
    "first_mut": ("c.first_mut().unwrap()", "h"),
    "deref_mut": ("&mut (**c)[..]", "&mut h[0]"),
}
V_WR = {
    "push": "for i in 0..9 { c.push(can(9)); }",
    "pop": "for _ in 0..3 { c.pop(); }",
    "insert": "for i in 0..9 { c.insert(0, can(9)); }",
    "remove": "for _ in 0..3 { c.remove(0); }",
    "reserve": "c.reserve(64);",
    "clear": "c.clear();",
    "append": "c.append(&[can(7), can(8)]);",
    "assign": "c.assign(&[can(7)]);",
    "write": "c[0] = can(9);",
    "swap": "let mut d = MK; std::mem::swap(&mut *c, &mut *d); drop(d);",
    "overwrite": "c = MK;",
}
V_RD = {
    "len": "c.len();",
    "is_empty": "c.is_empty();",
    "capacity": "c.capacity();",
    "is_full": "c.is_full();",
    "as_slice": "look(&c.as_slice()[0]);",
    "index": "look(&c[0]);",
    "format": "format!(\"{:?}\", &*c);",
}
LISTY_SH = {
    "iter": ("c.iter()", "h.next().unwrap()"),
    "item": ("c.iter().next().unwrap()", "h"),
    "front": ("c.front().unwrap()", "h"),
    "back": ("c.back().unwrap()", "h"),
}
LISTY_MU = {
    "iter_mut": ("c.iter_mut()", "h.next().unwrap()"),
    "item_mut": ("c.iter_mut().next().unwrap()", "h"),
    "front_mut": ("c.front_mut().unwrap()", "h"),
    "back_mut": ("c.back_mut().unwrap()", "h"),
}
LISTY_WR = {
    "push_back": "for i in 0..200 { c.push_back(can(9)); }",
    "push_front": "for i in 0..200 { c.push_front(can(9)); }",
    "pop_back": "for _ in 0..3 { c.pop_back(); }",
    "pop_front": "for _ in 0..3 { c.pop_front(); }",
}
LISTY_RD = {
    "len": "c.len();",
    "is_empty": "c.is_empty();",
    "front": "look(c.front().unwrap());",
    "iter": "for x in c.iter() { look(x); }",
    "format": "format!(\"{:?}\", &*c);",
}
OVER = {"overwrite": "c = MK;"}
LIST_WR = dict(LISTY_WR, clear="c.clear();", extend="c.extend((0..5).map(can));", **OVER)
DROP = {"drop": "drop(c);"}
MOVE = {"drop": "drop(c);", "move": "let d = Box::new(c); drop(d);"}

MAP_WR = {
    "insert_new": "for i in 10..40 { c.insert(i, can(9)); }",
    "insert_old": "for i in 1..4 { c.insert(i, can(9)); }",
    "remove": "for i in 1..4 { c.remove(&i); }",
    "remove_entry": "for i in 1..4 { c.remove_entry(&i); }",
    "clear": "c.clear();",
    "overwrite": "c = MK;",
    "swap": "let mut d = MK; std::mem::swap(&mut c, &mut d); drop(d);",
}

CONTAINERS = {
    "vector": dict(
        mk="mk_vector()", sh={k: (v[0].replace("(**c)", "(*c)").replace("&*c", "&c"), v[1]) for k, v in V_SH.items()},
        mu={k: (v[0].replace("(**c)", "(*c)"), v[1]) for k, v in V_MU.items()},
        wr={k: v.replace("&mut *", "&mut ") for k, v in V_WR.items()}, rd={k: v.replace("&*c", "&c") for k, v in V_RD.items()},
        mv=dict(MOVE, into_iter="drop(c.into_iter());"), main=("clear", "push")),
    "fixed_vector": dict(mk="mk_fvec()", sh={k: v for k, v in V_SH.items() if k != "deref"}, mu={k: v for k, v in V_MU.items() if k != "deref_mut"},
        wr={k: v for k, v in V_WR.items() if k != "swap"}, rd=V_RD, mv=DROP, main=("clear", "push")),
    "vector_into_iter": dict(
        mk="mk_vector().into_iter()",
        sh={"as_slice": ("c.as_slice()", "&h[0]")},
        mu={"as_slice_mut": ("c.as_slice_mut()", "&mut h[0]")},
        wr={"next": "c.next(); c.next(); c.next();", "next_back": "c.next_back(); c.next_back(); c.next_back();", "overwrite": "c = MK;"},
        rd={"len": "c.len();", "is_empty": "c.is_empty();", "capacity": "c.capacity();", "as_slice": "look(&c.as_slice()[0]);", "size_hint": "c.size_hint();"},
        mv=dict(MOVE, collect="let _: Vec<Can> = c.collect();"), main=("next", "next_back")),
    "deque": dict(
        mk="mk_deque()", sh=dict(LISTY_SH, last_item=("c.iter().next_back().unwrap()", "h")), mu=LISTY_MU,
        wr=dict(LISTY_WR, remove="c.remove(1); c.remove(0); c.remove(0);", overwrite="c = MK;", swap="let mut d = MK; std::mem::swap(&mut c, &mut d); drop(d);"),
        rd={k: v.replace("&*c", "&c") for k, v in LISTY_RD.items()}, mv=dict(MOVE, into_iter="drop(c.into_iter());"), main=("pop_front", "push_back")),
    "queue": dict(
        mk="mk_queue()",
        sh={"iter": ("c.iter()", "h.next().unwrap()"), "item": ("c.iter().next().unwrap()", "h"), "top": ("c.top().unwrap()", "h")},
        mu={"iter_mut": ("c.iter_mut()", "h.next().unwrap()"), "item_mut": ("c.iter_mut().next().unwrap()", "h")},
        wr={"push": "for i in 0..200 { c.push(can(9)); }", "pop": "for _ in 0..3 { c.pop(); }", "overwrite": "c = MK;", "swap": "let mut d = MK; std::mem::swap(&mut c, &mut d); drop(d);"},
        rd={"len": "c.len();", "is_empty": "c.is_empty();", "top": "look(c.top().unwrap());", "iter": "for x in c.iter() { look(x); }", "format": "format!(\"{:?}\", c);"},
        mv=dict(MOVE, into_iter="drop(c.into_iter());", into_inner="drop(c.into_inner());"), main=("pop", "push")),
    "list": dict(mk="mk_list()", sh=LISTY_SH, mu=LISTY_MU, wr=LIST_WR, rd=LISTY_RD, mv=DROP, main=("clear", "push_back")),
    "fixed_list": dict(mk="mk_flist()", sh=LISTY_SH, mu=LISTY_MU, wr=LIST_WR, rd=LISTY_RD, mv=DROP, main=("clear", "push_back")),
    "conformant_list": dict(mk="mk_clist()", sh=LISTY_SH, mu=LISTY_MU, wr={k: v for k, v in LIST_WR.items() if k not in ("extend",)},
        rd=LISTY_RD, mv=DROP, main=("clear", "push_back"), needs="mk_clist"),
    "hash_map": dict(
        mk="mk_map()",
        sh={"get": ("c.get(&1).unwrap()", "h"), "iter": ("c.iter()", "h.next().unwrap().1"), "item": ("c.iter().next().unwrap()", "h.1")},
        mu={"get_mut": ("c.get_mut(&1).unwrap()", "h"), "iter_mut": ("c.iter_mut()", "h.next().unwrap().1"), "item_mut": ("c.iter_mut().next().unwrap()", "h.1"),
            "entry": ("c.entry(1)", "h.or_insert_with(|| can(1))"), "entry_vacant": ("c.entry(77)", "h.or_insert_with(|| can(77))"), "or_insert": ("c.entry(1).or_insert(can(1))", "h"),
            "or_insert_with": ("c.entry(1).or_insert_with(|| can(1))", "h"), "or_insert_new": ("c.entry(78).or_insert(can(1))", "h"),
            "and_modify": ("c.entry(1).and_modify(|x| { look(x); })", "h.or_insert(can(1))")},
        wr=MAP_WR, rd={"len": "c.len();", "is_empty": "c.is_empty();", "contains_key": "c.contains_key(&2);", "get": "look(c.get(&1).unwrap());", "iter": "for x in c.iter() { look(x.1); }", "format": "format!(\"{:?}\", c);"},
        mv=MOVE, main=("clear", "insert_old")),
    "hash_set": dict(
        mk="mk_set()",
        sh={"get": ("c.get(&can(1)).unwrap()", "h"), "iter": ("c.iter()", "h.next().unwrap()"), "item": ("c.iter().next().unwrap()", "h")}, mu={},
        wr={"insert": "for i in 10..40 { c.insert(can(i)); }", "remove": "for i in 1..4 { c.remove(&can(i)); }", "clear": "c.clear();", "overwrite": "c = MK;", "swap": "let mut d = MK; std::mem::swap(&mut c, &mut d); drop(d);"},
        rd={"len": "c.len();"}, mv=MOVE, main=("clear", "insert")),
    "vector_map": dict(
        mk="mk_vmap()",
        sh={"get": ("c.get(&1).unwrap()", "h"), "as_ref": ("AsRef::<[(u32, Can)]>::as_ref(&c)", "&h[0].1"), "iter": ("c.iter()", "&h.next().unwrap().1"), "index": ("&c[0]", "&h.1"), "first": ("c.first().unwrap()", "&h.1")},
        mu={"get_mut": ("c.get_mut(&1).unwrap()", "h"), "entry": ("c.entry(1)", "occ(&mut h)"),
            "entry_vacant": ("c.entry(77)", "vac(h)")},
        wr=MAP_WR, rd={"len": "c.len();", "is_empty": "c.is_empty();", "capacity": "c.capacity();", "contains_key": "c.contains_key(&2);", "get": "look(c.get(&1).unwrap());", "iter": "for x in c.iter() { look(&x.1); }", "format": "format!(\"{:?}\", c);"},
        mv=MOVE, main=("clear", "insert_new")),
    "tree": dict(
        mk="mk_tree()", sh={"get": ("c.get(&1).unwrap()", "h")}, mu={"get_mut": ("c.get_mut(&1).unwrap()", "h")},
        wr={"clear": "c.clear();", "overwrite": "c = MK;"},
        rd={"len": "c.len();", "is_empty": "c.is_empty();", "contains_key": "c.contains_key(&2);", "get": "look(c.get(&1).unwrap());", "format": "format!(\"{:?}\", &*c);"},
        mv=DROP, main=("clear", "overwrite")),
}
STRING = dict(
    mk="mk_string()",
    sh={"as_str": ("c.as_str()", "h"), "as_bytes": ("c.as_bytes()", "std::str::from_utf8(h).unwrap()"), "deref": ("&*c", "h"),
        "as_ref": ("AsRef::<str>::as_ref(&c)", "h"), "as_ref_bytes": ("AsRef::<[u8]>::as_ref(&c)", "std::str::from_utf8(h).unwrap()"), "chars": ("c.chars()", "h.as_str()"), "slice": ("&c[..]", "h")},
    mu={"deref_mut": ("&mut *c", "h"), "slice_mut": ("&mut c[..]", "h")},
    wr={"push": "for _ in 0..99 { c.push('x'); }", "pop": "c.pop();", "insert": "c.insert(0, 'x');", "remove": "c.remove(0);", "reserve": "c.reserve(99);", "assign": "c.assign(\"other\");",
        "upper": "c.make_ascii_uppercase();", "overwrite": "c = MK;", "swap": "let mut d = MK; std::mem::swap(&mut c, &mut d); drop(d);"},
    rd={"len": "c.len();", "is_empty": "c.is_empty();", "capacity": "c.capacity();", "is_full": "c.is_full();", "as_str": "c.as_str().len();", "format": "format!(\"{}{:?}\", c, c);"},
    mv=MOVE, main=("assign", "push"))

PRE = """
fn occ<'x>(e: &'x mut vector_map::Entry<'_, u32, Can, DefaultAllocator, Less<u32>>) -> &'x mut Can {
    match e { vector_map::Entry::Occupied(o) => o.get_mut(), _ => panic!() }
}
fn vac<'x>(e: vector_map::Entry<'x, u32, Can, DefaultAllocator, Less<u32>>) -> &'x mut Can {
    match e { vector_map::Entry::Vacant(v) => v.insert(can(77)), _ => panic!() }
}
"""


class P:
    def __init__(self, name, hostile, control, needs=""):
        self.name, self.hostile, self.control, self.needs = name, hostile, control, needs


def matrix(thorough):
    out = []
    for cn, d in list(CONTAINERS.items()) + [("string", STRING)]:
        mk, needs = d["mk"], d.get("needs", "")
        st = cn == "string"
        use = (lambda e: "text(%s, TEXT);" % e) if st else (lambda e: "look(%s);" % e)
        usem = (lambda e: "textm(%s);" % e) if st else (lambda e: "lookm(%s);" % e)
        both = [(b, e, use(x), "sh") for b, (e, x) in d["sh"].items()] + [(b, e, usem(x), "mu") for b, (e, x) in d["mu"].items()]

        def add(name, host, ctl):
            host, ctl = (s.replace("MK", mk).replace("MAKE", mk) for s in (host, ctl))
            out.append(P("%s/%s" % (cn, name), host, ctl, needs))

        for n, (b, e, u, kind) in enumerate(both):
            hold = "let mut c = MAKE; let mut h = %s;" % e
            conf = [(w, s) for w, s in d["wr"].items() if thorough or n == 0 or w in d["main"]] + list(d["mv"].items())
            for w, s in conf:
                add("%s then %s" % (b, w), "%s %s %s" % (hold, s, u), "%s %s %s" % (hold, u, s))
            add("%s outlives" % b, "let mut h; { let mut c = MAKE; h = %s; } %s" % (e, u), "let mut c = MAKE; let mut h; { h = %s; } %s" % (e, u))
            add("%s returned" % b, "fn f() -> impl FnOnce() { let mut c = MAKE; let mut h = %s; move || { %s } } f()();" % (e, u), "let mut c = MAKE; let mut h = %s; (move || { %s })();" % (e, u))
            if kind == "mu":
                first = n == len(d["sh"])
                for r, s in d["rd"].items():
                    if thorough or first or r in ("len", "get"):
                        add("%s across %s" % (b, r), "%s %s %s" % (hold, s, u), "%s %s %s" % (hold, u, s))
        el = lambda bx, v: bx.replace("h.", v + ".").replace("h[", v + "[").replace("&mut h)", "&mut %s)" % v) if bx not in ("h", "vac(h)") else bx.replace("h)", v + ")") if bx != "h" else v
        if not st:
            mus = list(d["mu"].items())
            for i, (a, (ea, xa)) in enumerate(mus):
                if a in ("entry_vacant", "or_insert_new"):
                    continue
                pa = el(xa, "p")
                for b, (eb, xb) in list(d["sh"].items()) + mus:
                    if b in ("entry_vacant", "or_insert_new"):
                        continue
                    qb = el(xb, "q")
                    hs = "let mut c = MAKE; let mut p = %s; let mut q = %s; two(%s, %s);" % (ea, eb, pa, qb)
                    ct = "let mut c = MAKE; { let mut p = %s; lookm(%s); } { let mut q = %s; look(%s); }" % (ea, pa, eb, qb)
                    add("%s with %s" % (a, b), hs, ct)
                # the borrow itself must not be copied or cloned
                add("%s copied" % a, "let mut c = MAKE; let h = %s; let mut p = h; let mut q = h; two(%s, %s);" % (ea, pa, el(xa, "q")),
                    "let mut c = MAKE; let h = %s; let mut p = h; lookm(%s);" % (ea, pa))
                if a.startswith("iter"):
                    add("%s cloned" % a, "let mut c = MAKE; let mut p = %s; let mut q = Clone::clone(&p); two(%s, %s);" % (ea, pa, el(xa, "q")),
                        "let mut c = MAKE; let mut p = %s; lookm(%s);" % (ea, pa))
                # a mutable borrow from a shared one
                ec = ea.replace("c.", "s.").replace("c[", "s[").replace("(**c)", "(**s)").replace("(*c)", "(*s)")
                add("%s through a shared reference" % a, "let c = MAKE; let s = &c; let mut p = %s; let mut q = %s; two(%s, %s);" % (ec, ec, pa, el(xa, "q")),
                    "let mut c = MAKE; let s = &mut c; let mut p = %s; lookm(%s);" % (ec, pa))
    return out


def specials():
    out = []

    def add(n, h, c, needs=""):
        out.append(P("special/" + n, h, c, needs))

    # what a mutable iterator hands out must not be the container's type at a shorter lifetime
    mks = {
        "vector": ("DefaultVector<&'static str>", "[\"a\"].into_iter().collect()", ["c.iter_mut()", "c.as_slice_mut().iter_mut()"], "c[0]"),
        "deque": ("DefaultDeque<'_, &'static str>", "[\"a\"].into_iter().collect()", ["c.iter_mut()"], "c.front().unwrap()"),
        "queue": ("DefaultQueue<'_, &'static str>", "[\"a\"].into_iter().collect()", ["c.iter_mut()"], "c.top().unwrap()"),
        "list": ("L<&'static str>", "list_of([\"a\"].into_iter())", ["c.iter_mut()"], "c.front().unwrap()"),
        "fixed_list": ("F<&'static str>", "flist_of([\"a\"].into_iter())", ["c.iter_mut()"], "c.front().unwrap()"),
        "hash_map": ("DefaultHashMap<u32, &'static str>", "[(1, \"a\")].into_iter().collect()", ["c.iter_mut().map(|x| x.1)"], "c.get(&1).unwrap()"),
    }
    for n, (ty, mk, its, get) in mks.items():
        for i, it in enumerate(its):
            base = it.split(".map")[0]
            tail = it[len(base):]
            h = "let mut c: %s = %s; { let s = std::string::String::from(TEXT); let mut it = %s; *it%s.next().unwrap() = s.as_str(); } text(%s, TEXT);"
            t = ".by_ref()" + tail if tail else ""
            add("%s: short-lived reference through iter_mut %d" % (n, i), h % (ty, mk, base, t, get), "let mut c: %s = %s; { let mut it = %s; *it%s.next().unwrap() = TEXT; } text(%s, TEXT);" % (ty, mk, base, t, get))
    for n, put, get in [
        ("hash_map get_mut", "*c.get_mut(&1).unwrap() = X;", "c.get(&1).unwrap()"),
        ("hash_map entry", "*c.entry(1).or_insert(\"b\") = X;", "c.get(&1).unwrap()"),
        ("hash_map entry new", "c.entry(2).or_insert(X);", "c.get(&2).unwrap()"),
        ("hash_map insert", "c.insert(2, X);", "c.get(&2).unwrap()"),
    ]:
        add("%s: short-lived reference" % n, "let mut c: DefaultHashMap<u32, &'static str> = [(1, \"a\")].into_iter().collect(); { let s = std::string::String::from(TEXT); %s } text(%s, TEXT);" % (put.replace("X", "s.as_str()"), get),
            "let mut c: DefaultHashMap<u32, &'static str> = [(1, \"a\")].into_iter().collect(); { %s } text(%s, TEXT);" % (put.replace("X", "TEXT"), get))
    # the container drops its elements, which look at what they borrow: it must go first
    for n, ty, mk, put in [
        ("vector", "DefaultVector<Insp>", "DefaultVector::new()", "c.push(Insp(&x));"),
        ("deque", "DefaultDeque<Insp>", "DefaultDeque::new()", "c.push_back(Insp(&x));"),
        ("queue", "DefaultQueue<Insp>", "DefaultQueue::default()", "c.push(Insp(&x));"),
        ("hash_map", "DefaultHashMap<u32, Insp>", "DefaultHashMap::new()", "c.insert(1, Insp(&x));"),
        ("vector_map", "DefaultVectorMap<u32, Insp>", "DefaultVectorMap::new()", "c.insert(1, Insp(&x));"),
        ("list", "L<Insp>", "list_of(std::iter::empty())", "c.push_back(Insp(&x));"),
        ("fixed_list", "F<Insp>", "flist_of(std::iter::empty())", "c.push_back(Insp(&x));"),
    ]:
        add("%s: element outlived by what it borrows" % n, "let mut c: %s = %s; let x = can(1); %s" % (ty, mk, put), "let x = can(1); let mut c: %s = %s; %s" % (ty, mk, put))
        if n in ("vector", "deque", "queue"):
            add("%s into_iter: element outlived by what it borrows" % n, "let it; let x = can(1); let mut c: %s = %s; %s it = c.into_iter();" % (ty, mk, put), "let x = can(1); let it; let mut c: %s = %s; %s it = c.into_iter();" % (ty, mk, put))
    # a closure must not carry the value's reference out of the entry
    add("and_modify: reference carried out", "let mut c = mk_map(); let out = std::cell::Cell::new(None); let e = c.entry(1).and_modify(|v| { out.set(Some(v)); }); let p = e.or_insert(can(1)); let q = out.take().unwrap(); two(p, q);",
        "let mut c = mk_map(); let out = std::cell::Cell::new(None); let e = c.entry(1).and_modify(|v| { out.set(Some(look(v))); }); let p = e.or_insert(can(1)); lookm(p); out.take().unwrap();")
    # entries
    E = "vector_map::Entry"
    occ = "let mut c = mk_vmap(); let %s::Occupied(mut o) = c.entry(1) else { panic!() };" % E
    vac = "let mut c = mk_vmap(); let %s::Vacant(v) = c.entry(9) else { panic!() };" % E
    add("occupied: get with get_mut", occ + "let q = o.get(); let p = o.get_mut(); two(p, q);", occ + "{ let q = o.get(); look(q); } let p = o.get_mut(); lookm(p);")
    add("occupied: get_mut twice", occ + "let q = o.get_mut(); let p = o.get_mut(); two(p, q);", occ + "{ let q = o.get_mut(); look(q); } let p = o.get_mut(); lookm(p);")
    add("occupied: get_mut after the entry, then clear", occ + "let p = o.get_mut(); c.clear(); lookm(p);", occ + "let p = o.get_mut(); lookm(p); c.clear();")
    add("occupied: get then clear", occ + "let p = o.get(); c.clear(); look(p);", occ + "let p = o.get(); look(p); c.clear();")
    add("occupied: get_mut through a shared reference", occ + "let s = &o; let p = s.get_mut(); let q = s.get_mut(); two(p, q);", occ + "let s = &mut o; let p = s.get_mut(); lookm(p);")
    occm = occ.replace("mk_vmap", "mk_vmap")
    add("occupied: key then clear", occ + "let k = o.key(); c.clear(); assert!(*k == 1);", occ + "let k = o.key(); assert!(*k == 1); c.clear();")
    add("occupied: moved out of the map's life", "let mut o; { let mut c = mk_vmap(); let %s::Occupied(e) = c.entry(1) else { panic!() }; o = e; } lookm(o.get_mut());" % E, "let mut o; let mut c = mk_vmap(); { let %s::Occupied(e) = c.entry(1) else { panic!() }; o = e; } lookm(o.get_mut());" % E)
    add("occupied: two at once", "let mut c = mk_vmap(); let %s::Occupied(mut a) = c.entry(1) else { panic!() }; let %s::Occupied(b) = c.entry(1) else { panic!() }; two(a.get_mut(), b.get());" % (E, E),
        "let mut c = mk_vmap(); { let %s::Occupied(mut a) = c.entry(1) else { panic!() }; lookm(a.get_mut()); } let %s::Occupied(b) = c.entry(1) else { panic!() }; look(b.get());" % (E, E))
    add("vacant: insert result then clear", vac + "let p = v.insert(can(9)); c.clear(); lookm(p);", vac + "let p = v.insert(can(9)); lookm(p); c.clear();")
    add("vacant: used twice", vac + "let p = v.insert(can(9)); let q = v.insert(can(9)); two(p, q);", vac + "let p = v.insert(can(9)); lookm(p);")
    add("vacant: map changed under it", vac + "for i in 1..4 { c.remove(&i); } lookm(v.insert(can(9)));", vac + "lookm(v.insert(can(9))); for i in 1..4 { c.remove(&i); }")
    add("hash vacant: map changed under it", "let mut c = mk_map(); let e = c.entry(9); for i in 100..300 { c.insert(i, can(9)); } lookm(e.or_insert(can(9)));", "let mut c = mk_map(); let e = c.entry(9); lookm(e.or_insert(can(9))); for i in 100..300 { c.insert(i, can(9)); }")
    add("hash entry used twice", "let mut c = mk_map(); let e = c.entry(1); let p = e.or_insert(can(9)); let q = e.or_insert(can(9)); two(p, q);", "let mut c = mk_map(); let e = c.entry(1); let p = e.or_insert(can(9)); lookm(p);")
    # a key handed in by reference may go away, the answer stays with the map
    add("get: answer outlives the key and the map", "let r; { let c = mk_map(); let k = 1; r = c.get(&k); } look(r.unwrap());", "let c = mk_map(); let r; { let k = 1; r = c.get(&k); } look(r.unwrap());")
    add("hash_set get: answer outlives the set", "let k = can(1); let r; { let c = mk_set(); r = c.get(&k); } look(r.unwrap());", "let c = mk_set(); let r; { let k = can(1); r = c.get(&k); } look(r.unwrap());")
    # what is appended is copied: the source may go away, and the container cannot be its own source
    add("append from itself", "let mut c = mk_vector(); c.append(c.as_slice()); look(&c[0]);", "let mut c = mk_vector(); let d = mk_vector(); c.append(d.as_slice()); drop(d); look(&c[5]);")
    add("assign from itself", "let mut c = mk_vector(); c.assign(c.as_slice()); look(&c[0]);", "let mut c = mk_vector(); let d = mk_vector(); c.assign(d.as_slice()); drop(d); look(&c[2]);")
    add("string assign from itself", "let mut c = mk_string(); c.assign(c.as_str()); text(&c, TEXT);", "let mut c = mk_string(); let d = mk_string(); c.assign(d.as_str()); drop(d); text(&c, TEXT);")
    add("extend from itself", "let mut c = mk_list(); c.extend(c.iter().map(|x| x.clone())); look(c.back().unwrap());", "let mut c = mk_list(); let d = mk_list(); c.extend(d.iter().map(|x| x.clone())); drop(d); look(c.back().unwrap());")
    add("push while iterating a deque", "let mut c = mk_deque(); for x in c.iter() { if look(x) > 8 { break; } c.push_back(can(9)); }", "let mut c = mk_deque(); let n = c.iter().map(look).sum::<u64>(); for _ in 0..n { c.push_back(can(9)); }")
    add("pop while iterating a queue", "let mut c = mk_queue(); for x in c.iter() { drop(c.pop()); look(x); }", "let mut c = mk_queue(); for x in c.iter() { look(x); } drop(c.pop());")
    add("pop while iterating a list", "let mut c = mk_list(); for x in c.iter() { drop(c.pop_front()); look(x); }", "let mut c = mk_list(); for x in c.iter() { look(x); } drop(c.pop_front());")
    add("remove while iterating a map", "let mut c = mk_map(); for (k, x) in c.iter() { drop(c.remove(k)); look(x); }", "let mut c = mk_map(); for (k, x) in c.iter() { look(x); } drop(c.remove(&1));")
    add("remove while iterating a set", "let mut c = mk_set(); for k in c.iter() { drop(c.remove(k)); look(k); }", "let mut c = mk_set(); for k in c.iter() { look(k); } drop(c.remove(&can(1)));")
    add("compat pair of a deque", "let mut c = mk_deque(); let it = c.iter(); for _ in 0..3 { c.pop_front(); } let (a, b) = it.into_compat(); reached();", "let mut c = mk_deque(); let it = c.iter(); let (a, b) = it.into_compat(); drop((a, b)); for _ in 0..3 { c.pop_front(); }")
    # containers bound to their address must not be swappable out of it
    for n, mk, tgt, first, needs in [
        ("list", "mk_list()", "*", "c.front().unwrap()", ""),
        ("fixed_list", "mk_flist()", "*", "c.front().unwrap()", ""),
        ("fixed_list base", "mk_flist()", "**", "c.front().unwrap()", ""),
        ("conformant_list", "mk_clist()", "*", "c.front().unwrap()", "mk_clist"),
        ("fixed_vector", "mk_fvec()", "*", "&c[0]", ""),
        ("fixed_vector base", "mk_fvec()", "**", "&c[0]", ""),
    ]:
        add("%s: contents swapped out of place" % n, "let mut c = %s; { let mut d = %s; std::mem::swap(&mut %sc, &mut %sd); } look(%s);" % (mk, mk, tgt, tgt, first),
            "let mut c = %s; { let mut d = %s; std::mem::swap(&mut c, &mut d); } look(%s);" % (mk, mk, first), needs)
    # all values at once, twice over
    for n, mk, it in [("vector", "mk_vector()", "c.iter_mut()"), ("deque", "mk_deque()", "c.iter_mut()"), ("queue", "mk_queue()", "c.iter_mut()"), ("list", "mk_list()", "c.iter_mut()"), ("fixed_list", "mk_flist()", "c.iter_mut()"), ("hash_map", "mk_map()", "c.iter_mut().map(|x| x.1)")]:
        add("%s: everything collected mutably, twice" % n, "let mut c = %s; let mut a: Vec<&mut Can> = %s.collect(); let b: Vec<&mut Can> = %s.collect(); for (x, y) in a.iter_mut().zip(&b) { two(x, y); }" % (mk, it, it),
            "let mut c = %s; let a: Vec<&mut Can> = %s.collect(); for x in a { lookm(x); }" % (mk, it))
        add("%s: a thread keeps the values" % n, "let t = { let mut c = %s; let a: Vec<&mut Can> = %s.collect(); std::thread::spawn(move || { for x in a { lookm(x); } }) }; t.join();" % (mk, it),
            "let mut c = %s; let a: Vec<&mut Can> = %s.collect(); std::thread::scope(|s| { s.spawn(move || { for x in a { lookm(x); } }); });" % (mk, it))
    return out


def programs(thorough):
    return matrix(thorough) + specials()


HEAD = "#![forbid(unsafe_code)]\n#![allow(warnings)]\n"


def hostile(p):
    return HEAD + feature(p) + "use bh::*;\n" + PRE + "fn main() {\n    start(%s);\n    %s\n    reached();\n}\n" % (quote(p.name), p.hostile)


def controls(ps):
    s = HEAD + (feature(ps[0]) if any(p.needs for p in ps) else "") + "use bh::*;\n" + PRE
    if any(p.needs for p in ps):
        s = HEAD + "#![feature(generic_const_exprs)]\n#![allow(incomplete_features)]\nuse bh::*;\n" + PRE
    for i, p in enumerate(ps):
        s += "fn c%d() {\n    start(%s);\n    { %s }\n    reached();\n}\n" % (i, quote(p.name), p.control)
    return s + "fn main() {\n" + "".join("    c%d();\n" % i for i in range(len(ps))) + "}\n"


def feature(p):
    return "#![feature(generic_const_exprs)]\n#![allow(incomplete_features)]\n" if p.needs else ""


def quote(s):
    return '"' + s.replace('"', "'") + '"'


if __name__ == "__main__":
    for t in (False, True):
        print(len(programs(t)))
