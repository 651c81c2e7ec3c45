"""Rules and grammars as JSGF text, and what compiling them leaves alone (C02, C03)."""
import z3
from .model import *
from . import theory as TH
from .theory import sel, unf, HeapS, SpecFn, Fold, AllQ, HEAPS
from .world import Contract, Ctx, World, OWNED
from .engine import T, Cand, ExtV, Val, FileV
from .solve import Lemma
from . import comp, trav
from .comp import comp as jsgf, okc, tree, sim, SV, JOIN

# --------------------------------------------------------------- specification functions


def rx(Hr, r):
    return V.r(sel(Hr, "_expansion")[r])


def act(Hr, r):
    return sel(Hr, "_active")[r] == vb(True)


def vis(Hr, r):
    return sel(Hr, "visible")[r] == vb(True)


def nm(Hr, r):
    return V.s(sel(Hr, "_name")[r])


def cat(*xs):
    return z3.Concat(*xs)


def rtext(Hr, Hc, r, priv, ig=z3.BoolVal(False)):
    """the one-line definition of rule r"""
    return z3.If(act(Hr, r), cat(
        z3.If(z3.And(vis(Hr, r), z3.Not(priv)), SV("public "), SV("")),
        SV("<"), nm(Hr, r), SV("> = "), jsgf(Hc, rx(Hr, r), ig), SV(";")), SV(""))


def fR(k):
    return V.r(k)


# definitions of the enabled rules, one per line
gtext = Fold("definitions", "rule", [HeapS, Bool], Str, lambda H, Hc, p: SV(""),
             lambda H, Hc, p, a, k: cat(a, z3.If(act(H, fR(k)), cat(
                 rtext(H, Hc, fR(k), p), SV("\n")), SV(""))))
itext = Fold("imports", "rule", [], Str, lambda H: SV(""),
             lambda H, a, k: cat(a, SV("import <"), nm(H, fR(k)), SV(">;\n")))
fvis = Fold("visible_of", "rule", [], SeqV, lambda H: EMPTY,
            lambda H, a, k: z3.If(vis(H, fR(k)), Cat(a, Unit(k)), a))
fact = Fold("active_of", "rule", [], SeqV, lambda H: EMPTY,
            lambda H, a, k: z3.If(act(H, fR(k)), Cat(a, Unit(k)), a))
nfold = Fold("names_of_enabled_visible", "rule", [], SeqV, lambda H: EMPTY,
             lambda H, a, k: z3.If(z3.And(vis(H, fR(k)), act(H, fR(k))),
                                   Cat(a, Unit(V.S(nm(H, fR(k))))), a))
rfold = Fold("references_to", "rule", [], SeqV, lambda H: EMPTY,
             lambda H, a, k: Cat(a, Unit(V.S(cat(SV("<"), V.s(k), SV(">"))))))
okrules = AllQ("enabled_rules_compile", "rule", [HeapS], lambda H, Hc, k: z3.Implies(
    act(H, fR(k)), okc(Hc, rx(H, fR(k)))))
trules = AllQ("rules_are_trees", "rule", [HeapS], lambda H, Hc, k: tree(Hc, rx(H, fR(k))))
FOLDS = [gtext, itext, fvis, fact, nfold, rfold, okrules, trules]

isin = z3.Function("isin", SeqV, Int, V, Bool)     # among the first i elements
ixof = z3.Function("ixof", SeqV, Int, V, Int)


SEE = z3.Function("see", Bool, Bool)


def see(f):
    """makes the term f known to the solver and says nothing about it"""
    return SEE(f)


def isin_axioms():
    s, v = z3.Const("s!in", SeqV), z3.Const("v!in", V)
    i, j = z3.Ints("i!in j!in")
    return [
        z3.ForAll([s, i, v], z3.Implies(isin(s, i, v), z3.And(
            0 <= ixof(s, i, v), ixof(s, i, v) < i, sat_(s, ixof(s, i, v)) == v)),
            patterns=[isin(s, i, v)]),
        z3.ForAll([s, i, v, j], z3.Implies(z3.And(
            0 <= j, j < i, sat_(s, j) == v), isin(s, i, v)),
            patterns=[z3.MultiPattern(isin(s, i, v), sat_(s, j))]),
    ]


def filter_lemmas():
    """a filtered list holds exactly the elements that satisfy the predicate, and no
    name is listed exactly if no rule is enabled and visible (proved in lemmas())"""
    H, s, v = z3.Const("H!fl", HeapS), z3.Const("s!fl", SeqV), z3.Const("v!fl", V)
    i, n = z3.Ints("i!fl n!fl")
    out = []
    for F, p in ((fvis, vis), (fact, act)):
        q = F(H, s, i)
        out.append(z3.ForAll([H, s, i, n, v], z3.Implies(
            z3.And(0 <= i, i <= slen(s), n == slen(q)),
            isin(q, n, v) == z3.And(isin(s, i, v), p(H, fR(v)))),
            patterns=[isin(q, n, v)]))
    return out


def names_lemma():
    H, s, v = z3.Const("H!nl", HeapS), z3.Const("s!nl", SeqV), z3.Const("v!nl", V)
    i, j = z3.Ints("i!nl j!nl")
    q = nfold(H, s, i)
    k = fR(sat_(s, j))
    return [z3.ForAll([H, s, i], z3.Implies(z3.And(0 <= i, i <= slen(s)), (
        slen(q) == 0) == z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < i), z3.Not(
            z3.And(vis(H, k), act(H, k)))), patterns=[sat_(s, j)])), patterns=[q])]


def listed_lemma():
    """no rule passes both filters exactly if no name is listed"""
    H, s = z3.Const("H!ll", HeapS), z3.Const("s!ll", SeqV)
    i, n = z3.Ints("i!ll n!ll")
    q = fvis(H, s, i)
    return [z3.ForAll([H, s, i, n], z3.Implies(
        z3.And(0 <= i, i <= slen(s), n == slen(q)),
        (slen(fact(H, q, n)) == 0) == (slen(nfold(H, s, i)) == 0)),
        patterns=[z3.MultiPattern(fact(H, q, n), nfold(H, s, i))])]


def longer_lemma():
    H, x, ig = z3.Const("H!lg", HeapS), z3.Int("x!lg"), z3.Bool("ig!lg")
    return [z3.ForAll([H, x, ig], z3.Implies(z3.And(tree(H, x), okc(H, x)),
                                             z3.Length(jsgf(H, x, ig)) >= 1),
                      patterns=[jsgf(H, x, ig)])]


def join_axiom():
    """joining strings gives a string that is not shorter than any of them"""
    sep, q, i = z3.Const("sep!j", Str), z3.Const("q!j", SeqV), z3.Int("i!j")
    return z3.ForAll([sep, q, i], z3.Implies(
        z3.And(0 <= i, i < slen(q), V.is_S(sat_(q, i))),
        z3.Length(JOIN(sep, q)) >= z3.Length(V.s(sat_(q, i)))),
        patterns=[z3.MultiPattern(JOIN(sep, q), sat_(q, i))])


# ------------------------------------------------------------------------- contracts


class RuleCompile(Contract):
    cls, member = "Rule", "compile"
    params = ("self", "ignore_tags")
    defaults = {"ignore_tags": False}
    types = {"self": "@Rule", "ignore_tags": "B"}
    ret_type = "S"
    raises = ("CompilationError", "GrammarError")
    allocates = True
    touch = {"items": OWNED, "_matcher_element": None}

    def reads(self, c):
        r = c.ref("self")
        return [c.old(f, r) for f in ("_expansion", "_name", "visible", "_active")]

    def requires(self, c):
        return [("the rule's expansion is a finite tree",
                 tree(c.H("comp"), rx(c.H("rule"), c.ref("self"))))]

    def ensures(self, c):
        Hr, Hc, r = c.H("rule"), c.H("comp"), c.ref("self")
        return [
            ("the text is the rule's definition", c.ret == V.S(rtext(
                Hr, Hc, r, z3.BoolVal(False), V.b(c.a["ignore_tags"])))),
            ("an enabled rule that compiles is compilable",
             z3.Implies(act(Hr, r), okc(Hc, rx(Hr, r)))),
            ("only empty groupings are filled, with <NULL>",
             sim(Hc, c.H("comp", "post"), c.n0, c.n1))]

    def ensures_exc(self, c):
        Hr, Hc, r = c.H("rule"), c.H("comp"), c.ref("self")
        return [("raises only for an enabled rule that is not compilable", z3.And(
            act(Hr, r), z3.Not(okc(Hc, rx(Hr, r))))),
            ("only empty groupings are filled, with <NULL>",
             sim(Hc, c.H("comp", "post"), c.n0, c.n1))]


class VisibleRules(trav.GrammarRules):
    member = "visible_rules"

    def ensures(self, c):
        q = c.eng.items(c.post, un("R", c.ret))
        src = c.eng.items(c.pre, V.r(c.old("_rules", c.ref("self"))))
        return [("the visible rules in order",
                 seq_eq(q, fvis(c.H("rule"), src, slen(src)))),
                ("a new list", z3.And(un("R", c.ret) >= c.n0))]

    def folds(self, c):
        return [("visible", lambda q, i: fvis(c.H("rule"), q, i))]

    def fold_terms(self, c):
        return [(fvis, c.H("rule"), [])]


class Header(Contract):
    cls, member, kind = "Grammar", "jsgf_header", "get"
    params = ("self",)
    types = {"self": "@Grammar"}
    ret_type = "S"

    def text(self, c):
        g = c.ref("self")

        def part(f):
            v = c.old(f, g)
            return z3.If(z3.And(V.is_S(v), V.s(v) != SV("")), cat(SV(" "), V.s(v)), SV(""))
        return cat(SV("#JSGF V"), V.s(c.old("jsgf_version", g)), part("charset_name"),
                   part("language_name"), SV(";\n"))

    def ensures(self, c):
        return [("the header line", c.ret == V.S(self.text(c)))]


class GrammarText(Contract):
    """common to everything that compiles a grammar"""
    cls = "Grammar"
    params = ("self",)
    types = {"self": "@Grammar"}
    ret_type = "S"
    raises = ("CompilationError", "GrammarError")
    allocates = True
    touch = {"items": OWNED, "_matcher_element": None}

    def reads(self, c):
        return [c.old(f, c.ref("self")) for f in ("_rules", "_imports")]

    def rules(self, c):
        return c.eng.items(c.pre, V.r(c.old("_rules", c.ref("self"))))

    def start(self, c):
        g = c.ref("self")
        im = c.eng.items(c.pre, V.r(c.old("_imports", g)))
        Hr = c.H("rule")
        return cat(Header.text(self, c), SV("grammar "), nm(Hr, g), SV(";\n"),
                   itext(Hr, im, slen(im)))

    def requires(self, c):
        rs = self.rules(c)
        Hr = c.H("rule")
        i, j = z3.Ints("i!gt j!gt")
        k = lambda x: fR(sat_(rs, x))
        return [
            ("every rule's expansion is a finite tree", trules(
                Hr, c.H("comp"), rs, slen(rs))),
            ("rules have distinct names", z3.ForAll([i, j], z3.Implies(
                z3.And(0 <= i, i < slen(rs), 0 <= j, j < slen(rs),
                       sel(Hr, "_name")[k(i)] == sel(Hr, "_name")[k(j)]),
                sat_(rs, i) == sat_(rs, j)),
                patterns=[z3.MultiPattern(sat_(rs, i), sat_(rs, j))]))]

    def plain(self, c):
        rs, Hr, Hc = self.rules(c), c.H("rule"), c.H("comp")
        return cat(self.start(c), gtext(Hr, Hc, z3.BoolVal(False), rs, slen(rs)))

    def none_public(self, c):
        rs = self.rules(c)
        return slen(nfold(c.H("rule"), rs, slen(rs))) == 0

    def rooted(self, c):
        rs, Hr, Hc = self.rules(c), c.H("rule"), c.H("comp")
        names = nfold(Hr, rs, slen(rs))
        return z3.If(self.none_public(c), self.start(c), cat(
            self.start(c), SV("public <root> = ("),
            JOIN(SV("|"), rfold(Hr, names, slen(names))), SV(");\n"),
            gtext(Hr, Hc, z3.BoolVal(True), rs, slen(rs))))

    def all_ok(self, c):
        rs = self.rules(c)
        return okrules(c.H("rule"), c.H("comp"), rs, slen(rs))

    def text(self, c):
        raise NotImplementedError

    def fine(self, c):
        """the text is defined"""
        return self.all_ok(c)

    def ensures(self, c):
        return [("the grammar's text", c.ret == V.S(self.text(c))),
                ("every enabled rule that is written is compilable", self.fine(c)),
                ("only empty groupings are filled, with <NULL>",
                 sim(c.H("comp"), c.H("comp", "post"), c.n0, c.n1))]

    def ensures_exc(self, c):
        return [("raises only if an enabled rule is not compilable",
                 z3.Not(self.fine(c))),
                ("only empty groupings are filled, with <NULL>",
                 sim(c.H("comp"), c.H("comp", "post"), c.n0, c.n1))]

    def fold_terms(self, c):
        Hr, Hc = c.H("rule"), c.H("comp")
        t, f = z3.BoolVal(True), z3.BoolVal(False)
        return [(gtext, Hr, [Hc, t]), (gtext, Hr, [Hc, f]), (itext, Hr, []),
                (fvis, Hr, []), (fact, Hr, []), (nfold, Hr, []), (rfold, Hr, [])]

    def folds(self, c):
        Hr, Hc = c.H("rule"), c.H("comp")
        t, f = z3.BoolVal(True), z3.BoolVal(False)
        return [("definitions, private", lambda q, i: gtext(Hr, Hc, t, q, i)),
                ("definitions", lambda q, i: gtext(Hr, Hc, f, q, i)),
                ("imports", lambda q, i: itext(Hr, q, i)),
                ("visible rules", lambda q, i: fvis(Hr, q, i)),
                ("active rules", lambda q, i: fact(Hr, q, i)),
                ("names of enabled visible rules", lambda q, i: nfold(Hr, q, i)),
                ("references", lambda q, i: rfold(Hr, q, i))]

    def extra_cands(self, c, ctx):
        Hr, Hc = c.H("rule"), c.H("comp")
        out = []
        if "items" in ctx.fields:
            out.append(Cand("only empty groupings filled so far", lambda e, s0, s, i, q: sim(
                Hc, HEAPS.of(e, s, "comp"), c.n0, s.next)))
        out.append(Cand("enabled rules so far compile", lambda e, s0, s, i, q: okrules(
            Hr, Hc, q, i) if q is not None else None))
        if "visible" in ctx.fields:
            r = z3.Int("r!vs")
            for b in (True, False):
                if not any(x.eq(vb(b)) for x in ctx.writes.get(("value", "visible"), [])):
                    continue
                def f(e, s0, s, i, q, b=b):
                    if q is None:
                        return None
                    x, y = e.arr(s, "visible"), e.arr(s0, "visible")
                    return z3.ForAll([r], z3.Implies(z3.And(0 < r, r < c.n0), x[r] == z3.If(
                        isin(q, i, V.R(r)), vb(b), y[r])), patterns=[x[r]])
                ctx.framed.add("visible")
                out.append(Cand("visible = %s for the rules so far" % b, f))
        return out


class CompileAsRoot(GrammarText):
    member = "compile_as_root_grammar"

    def text(self, c):
        return self.rooted(c)

    def fine(self, c):
        return z3.Or(self.none_public(c), self.all_ok(c))


class GrammarCompile(GrammarText):
    member = "compile"

    def is_root(self, c):
        cls = c.eng.prog.classes
        return typ(c.ref("self")) == cls["RootGrammar"].id

    def text(self, c):
        return z3.If(self.is_root(c), self.rooted(c), self.plain(c))

    def fine(self, c):
        return z3.Or(z3.And(self.is_root(c), self.none_public(c)), self.all_ok(c))


class CompileGrammar(GrammarCompile):
    """sets the header values, then compiles"""
    member = "compile_grammar"
    params = ("self", "charset_name", "language_name", "jsgf_version")
    defaults = {"charset_name": "UTF-8", "language_name": "en", "jsgf_version": "1.0"}
    types = {"self": "@Grammar", "charset_name": "None|S", "language_name": "None|S",
             "jsgf_version": "S"}
    touch = dict(GrammarText.touch, charset_name=lambda c: [c.ref("self")],
                 language_name=lambda c: [c.ref("self")],
                 jsgf_version=lambda c: [c.ref("self")])

    def start(self, c):
        g = c.ref("self")
        im = c.eng.items(c.pre, V.r(c.old("_imports", g)))
        Hr = c.H("rule")

        def part(f):
            v = c.a[f]
            return z3.If(z3.And(V.is_S(v), V.s(v) != SV("")), cat(SV(" "), V.s(v)), SV(""))
        return cat(SV("#JSGF V"), V.s(c.a["jsgf_version"]), part("charset_name"),
                   part("language_name"), SV(";\n"), SV("grammar "), nm(Hr, g), SV(";\n"),
                   itext(Hr, im, slen(im)))


class CompileToFile(GrammarCompile):
    """the text is written to the file (the file is a ghost string)"""
    member = "compile_to_file"
    params = ("self", "file_path", "compile_as_root_grammar")
    types = {"self": "@Grammar", "file_path": "S", "compile_as_root_grammar": "B"}
    ret_type = "None"

    def init_ghost(self, eng, st):
        st.ghost["file"] = z3.Const("file0", Str)

    def text(self, c):
        return z3.If(V.b(c.a["compile_as_root_grammar"]), self.rooted(c),
                     GrammarCompile.text(self, c))

    def fine(self, c):
        return z3.Or(z3.And(z3.Or(V.b(c.a["compile_as_root_grammar"]), self.is_root(c)),
                            self.none_public(c)), self.all_ok(c))

    def ensures(self, c):
        return [("the file holds the grammar's text",
                 c.post.ghost["file"] == self.text(c))] + GrammarCompile.ensures(self, c)[1:]

    def ensures_exc(self, c):
        return GrammarCompile.ensures_exc(self, c) + [
            ("the file is not touched", c.post.ghost["file"] == c.pre.ghost["file"])]


class NamesDiffer(Contract):
    """rules of different names are not equal, and finding that out changes nothing"""
    cls, member, variant = "Rule", "__eq__", "different names"
    params = ("self", "other")
    types = {"self": "@Rule", "other": "@Rule"}
    ret_type = "B"

    def requires(self, c):
        return [("the names differ", c.old("_name", c.ref("self")) !=
                 c.old("_name", c.ref("other")))]

    def ensures(self, c):
        return [("not equal", c.ret == vb(False))]


class GramWorld(World):
    def read_facts(self, eng, st, f, r, t):
        out = World.read_facts(self, eng, st, f, r, t)
        if f in ("_rules", "_imports"):
            out.append(z3.Not(TH.xlist(V.r(t))))
        return out

    def member(self, eng, st, seq, t):
        if known_items(seq) is None and eng.kind(st, t) == "R":
            j = z3.Int("j!mb")
            e = sat_(seq, j)
            names = eng.arr(st, "_name")
            # (an element of a sequence is in the sequence: isin only names that)
            eng.oblige(st, "only rules of different names are compared", z3.ForAll(
                [j], z3.Implies(z3.And(0 <= j, j < slen(seq),
                                       isin(seq, slen(seq), e)), z3.Or(
                    e == t, names[V.r(e)] != names[V.r(t)])), patterns=[e]))
            return isin(seq, slen(seq), t)
        return World.member(self, eng, st, seq, t)

    def ext_call(self, eng, st, name, args, kw):
        if name in ("open", "builtins.open"):
            ok = len(args) == 2 and const_str(args[1].t) in ("w", "w+") and not kw
            if ok:
                return iter([(st, FileV())])
        return World.ext_call(self, eng, st, name, args, kw)

    def with_hook(self, eng, st, c):
        if isinstance(c, FileV):
            def enter(s):
                s = s.copy()
                s.ghost["file"] = SV("")
                yield s, c

            def exit_(s, o):
                yield s
            return enter, exit_
        return None


PLAIN = {"Rule": ["Rule", "PublicRule", "PrivateRule"],
         "Grammar": ["Grammar", "RootGrammar"]}


def world(prog):
    fns, folds = comp.FNS + trav.FNS, comp.FOLDS + trav.FOLDS + FOLDS
    w = GramWorld(prog, [
        RuleCompile(), VisibleRules(), Header(), CompileAsRoot(), GrammarCompile(),
        CompileGrammar(), CompileToFile(), comp.Compile(), comp.InvalidateMatcher()] +
        trav.CONTRACTS, fns, folds, [], concrete=PLAIN)
    w.variants = [NamesDiffer()]
    base = comp.theory(w) + trav.theory(w) + isin_axioms()
    w.theory = base + comp.height_lemma(w) + comp.sim_lemmas(w) + filter_lemmas() + \
        names_lemma() + listed_lemma() + longer_lemma()
    w.lemma_axioms = seq_axioms() + TH.agree_axioms(fns, folds) + base
    return w


def lemmas(w):
    defs = w.lemma_axioms
    H, s, v = z3.Const("H!q", HeapS), z3.Const("s!q", SeqV), z3.Const("v!q", V)
    i, j = z3.Ints("i!q j!q")
    out = []
    for F, p in ((fvis, vis), (fact, act)):
        def iff(t):
            q = F(H, s, t)
            return isin(q, slen(q), v) == z3.And(isin(s, t, v), p(H, fR(v)))
        a, k = F(H, s, i), sat_(s, i)
        q = F(H, s, i + 1)
        out.append(Lemma("%s holds exactly the elements with the property" % F.name, [
            ("base", F.unfold(H, [], s, z3.IntVal(0)), iff(z3.IntVal(0))),
            ("step, in", F.unfold(H, [], s, i + 1) + [
                0 <= i, i < slen(s), iff(i), isin(q, slen(q), v)],
             z3.And(z3.Or(isin(s, i, v), v == k), isin(s, i + 1, v), p(H, fR(v)))),
            ("step, out, last", F.unfold(H, [], s, i + 1) + [
                0 <= i, i < slen(s), isin(s, i + 1, v), p(H, fR(v)), v == k,
                sat_(q, slen(a)) == sat_(q, slen(a))],
             isin(q, slen(q), v)),
            ("step, out, earlier", F.unfold(H, [], s, i + 1) + [
                0 <= i, i < slen(s), iff(i), isin(s, i + 1, v), p(H, fR(v)), v != k,
                isin(s, i, v), sat_(q, ixof(a, slen(a), v)) == sat_(
                    q, ixof(a, slen(a), v))],
             isin(q, slen(q), v)),
            ("step, split", [0 <= i, i < slen(s), isin(s, i + 1, v), v != k],
             isin(s, i, v)),
        ], defs))

    def none(t):
        k = fR(sat_(s, j))
        return (slen(nfold(H, s, t)) == 0) == z3.ForAll([j], z3.Implies(
            z3.And(0 <= j, j < t), z3.Not(z3.And(vis(H, k), act(H, k)))),
            patterns=[sat_(s, j)])
    out.append(Lemma("no name exactly if no rule is enabled and visible", [
        ("base", nfold.unfold(H, [], s, z3.IntVal(0)), none(z3.IntVal(0))),
        ("step", nfold.unfold(H, [], s, i + 1) + [
            0 <= i, i < slen(s), none(i), sat_(s, i) == sat_(s, i)], none(i + 1))], defs))
    q = fvis(H, s, i)
    a = fact(H, q, slen(q))
    k = sat_(s, j)
    z = z3.IntVal(0)
    fl = filter_lemmas() + [0 <= i, i <= slen(s)]
    out.append(Lemma("no rule passes both filters exactly if no name is listed", [
        ("only if", fl + names_lemma() + [
            slen(nfold(H, s, i)) == 0, sat_(a, z) == v, see(isin(a, slen(a), v)),
            see(isin(q, slen(q), v)), see(isin(s, i, v))],
         slen(a) == 0),
        ("if", fl + [0 <= j, j < i, vis(H, fR(k)), act(H, fR(k)), see(isin(s, i, k)),
                     see(isin(q, slen(q), k)), see(isin(a, slen(a), k))],
         z3.And(isin(a, slen(a), k), slen(a) > 0)),
        ("if, names", names_lemma() + [0 <= i, i <= slen(s), slen(nfold(H, s, i)) != 0],
         z3.Exists([j], z3.And(0 <= j, j < i, vis(H, fR(k)), act(H, fR(k))),
                   patterns=[sat_(s, j)]))], defs))
    # compilable trees have a text that is not empty
    x, y, ig = z3.Int("x!q"), z3.Int("y!q"), z3.Bool("ig!q")
    m = comp.mapcomp
    ks = comp.kids(H, x)
    n = slen(ks)
    Lx = lambda t: z3.Length(t)
    ih = z3.ForAll([y], z3.Implies(z3.And(tree(H, y), okc(H, y), comp.ht(H, y) <
                                          comp.ht(H, x)), Lx(jsgf(H, y, ig)) >= 1),
                   patterns=[jsgf(H, y, ig)])
    pre = [tree(H, x), okc(H, x), unf(x)] + comp.height_lemma(w)
    first = z3.IntVal(0)
    grp = comp.groupings(w, x)

    def starts(t):
        q = m(H, ig, ks, t)
        return z3.And(slen(q) == t, z3.Implies(t > 0, sat_(q, first) == V.S(
            jsgf(H, V.r(sat_(ks, first)), ig))))
    seqs = z3.Or([typ(x) == w.prog.classes[c].id for c in ("Sequence",)])
    known = z3.Or([typ(x) == w.prog.classes[c].id for c in comp.w_expansions(w)])
    out.append(Lemma("compilable trees have a text", [
        ("texts of the children, base", m.unfold(H, [ig], ks, first), starts(first)),
        ("texts of the children, step", m.unfold(H, [ig], ks, i + 1) + [
            0 <= i, i < n, starts(i)], starts(i + 1)),
        ("conclusion", pre + [ih, known, z3.Implies(grp, starts(n)), join_axiom(),
                              sat_(ks, first) == sat_(ks, first)],
         Lx(jsgf(H, x, ig)) >= 1)], defs))
    return comp.lemmas(w) + out
