"""C21: console commands are parsed faithfully and malformed ones explained."""
from __future__ import annotations

import importlib

from vf import HarnessError, Recorder, Test, Violation, guard, import_hypothesis, require

import_hypothesis()
from hypothesis import strategies as st

_repl = importlib.import_module("ansibug.ansible_collections.ansibug.dap.plugins.plugin_utils._repl_util")
parse = _repl.parse_repl_args

PROPERTY = "C21"
TECHNIQUE = "property-based testing: commands generated as (verb, name, quoting, expression) and compared with what was put in; fuzzing of arbitrary text"
LEVEL_NOTE = "Random search; the oracle is the structure each command line was built from. Evaluation of the parsed command at a real stop is covered by C18 and C19."
RULE = (
    "A case is a verb, a name with a way of quoting it, the white space between, and an expression of random Jinja-like pieces; or a malformed or arbitrary line. "
    "Non-trivial: a quoted or escaped name, an expression with a quote, a dash word, a repeated word or inner runs of spaces, or a malformed line."
)
ASSUMPTIONS = [
    "White space around the expression as a whole carries no meaning, so expressions are compared without it.",
    "A command line whose first word after the verb is -h or --help is a help request; a set command with no expression, or an empty quoted name, may be read either way.",
    "Unbalanced quotes inside an expression may be explained right away or left to the evaluation of the expression.",
]
BUDGET_S = {"quick": 25, "thorough": 400}

VERBS = {
    "remove_option": "remove_option", "ro": "remove_option", "set_option": "set_option", "so": "set_option",
    "set_hostvar": "set_hostvar", "sh": "set_hostvar", "template": "template", "t": "template",
}
verbs = st.sampled_from(sorted(VERBS))
gaps = st.sampled_from([" ", " ", "  ", "\t", " \t ", "\n", "     "])
leads = st.sampled_from(["", "", " ", "  ", "\t"])

word_chars = st.sampled_from(list("abestormphv_xy019.-=/,:+$@*éß漢") + ["\U0001f600"])
words = st.one_of(
    st.text(word_chars, min_size=1, max_size=8),
    st.sampled_from(["so", "sh", "t", "ro", "set_option", "template", "name", "a", "e", "msg", "_raw_params", "o", "h", "{}", "a[0]", "a#b", "#x", "(x)", "1"]),
).filter(lambda w: not w.startswith("-"))
free = st.text(st.characters(blacklist_categories=("Cs",), blacklist_characters="\x00"), min_size=1, max_size=8)
spaced = st.one_of(st.lists(words, min_size=1, max_size=3).map(" ".join), free, st.sampled_from(["my name", " lead", "trail ", "a  b", "-dash", "--help me", "a#b", "x=y"]))


def plain(w):
    return w, w


names = st.one_of(
    words.map(plain),
    words.map(plain),
    spaced.filter(lambda s: "'" not in s).map(lambda s: (s, f"'{s}'")),
    spaced.filter(lambda s: '"' not in s and "\\" not in s).map(lambda s: (s, f'"{s}"')),
    # escaped, and partly quoted
    spaced.filter(lambda s: s.isprintable()).map(lambda s: (s, "".join(c if c.isalnum() else "\\" + c for c in s))),
    st.tuples(words, spaced.filter(lambda s: "'" not in s), words).map(lambda x: (x[0] + x[1] + x[2], f"{x[0]}'{x[1]}'{x[2]}")),
    st.tuples(words, spaced.filter(lambda s: '"' not in s and "\\" not in s)).map(lambda x: (x[0] + x[1], f'{x[0]}"{x[1]}"')),
    # a double quoted name with escaped quotes
    st.tuples(words, words).map(lambda x: (f'{x[0]}"{x[1]}', f'"{x[0]}\\"{x[1]}"')),
).filter(lambda n: n[0] not in ("-h", "--help"))

pieces = st.one_of(
    words,
    st.sampled_from([
        "-h", "--help", "-", "--", "-1", "-x", "--he", "-hx", "+ 1", "'a b'", '"c  d"', "'it\\'s'", '"say \\"hi\\""', '"it\'s"', "\\'", "\\", "|", "| default('-h')",
        "{'a': 'b'}", "[1,  2]", "==", "!=", "#c", "{{ x }}", "so", "t", "template", "set_option", "~ 'x'", "''", '""', "'\\\\'", "@file", ";", "&&", "$(x)", "`x`",
    ]),
    free.filter(lambda s: True),
)
expressions = st.lists(st.tuples(pieces, st.sampled_from([" ", " ", "  ", "", "\t", "\n", "    "])), min_size=1, max_size=6).map(lambda ps: "".join(a + b for a, b in ps))
expressions = st.one_of(
    expressions, st.lists(words, min_size=1, max_size=3).map(" ".join), st.sampled_from(["x -h", "a --help", "foo  -  bar", "'a\\'b'", '"', "it's"])
).filter(lambda e: e.strip() and e[0] not in "\\" and "\x00" not in e)


def balanced(e: str) -> bool:
    import shlex

    try:
        shlex.split(e)
        return True
    except ValueError:
        return False


def show(r):
    return f"{type(r).__name__}({r!r})"


def t_commands(case, rec: Recorder):
    verb, lead, gap1, gap2, (name, name_text), expr, trail = case
    want = VERBS[verb]
    if want == "remove_option":
        text = lead + verb + gap1 + name_text + trail
    elif want == "template":
        # A first word starting like a help request is ambiguous.
        if expr.split()[0][:2] == "-h" or expr.split()[0].startswith("--h"):
            return
        text = lead + verb + gap1 + expr
    else:
        text = lead + verb + gap1 + name_text + gap2 + expr
    got = guard(lambda: parse(text), f"parsing {text!r}")
    if isinstance(got, str):
        if want != "remove_option" and not balanced(expr):
            require(got.strip() != "", f"{text!r} was refused without an explanation")
            rec.tag("unbalanced expression explained")
            return
        raise Violation(f"{text!r} was refused: {got[:200]!r}")
    require(got.command == want, f"{text!r} was read as command {got.command!r}")
    if want == "template":
        require(not hasattr(got, "name"), f"{text!r} was read as {show(got)}")
    else:
        require(got.name == name, f"{text!r}: the name was read as {got.name!r}, not {name!r}")
    if want == "remove_option":
        require(not hasattr(got, "expression"), f"{text!r} was read as {show(got)}")
    else:
        # Only the white space around the whole expression may differ.
        require(got.expression.strip() == expr.strip(), f"{text!r}: the expression was read as {got.expression!r}, not {expr!r}")
    rec.tag(want)
    interesting = name != name_text if want != "template" else False
    if want != "remove_option":
        toks = expr.split()
        interesting = interesting or any(c in expr for c in "'\"\\") or any(w.startswith("-") for w in toks) or verb in toks or name in toks or "  " in expr.strip()
    if interesting:
        rec.nontrivial()


unknown = words.filter(lambda w: w not in VERBS and "'" not in w and '"' not in w)
malformed = st.one_of(
    st.tuples(st.just("empty"), leads),
    st.tuples(st.just("unknown"), st.tuples(leads, unknown, st.sampled_from(["", " ", " x", " x y"])).map("".join)),
    st.tuples(st.just("no name"), st.tuples(leads, st.sampled_from(["ro", "remove_option", "so", "set_option", "sh", "set_hostvar"]), st.sampled_from(["", " ", "  \t"])).map("".join)),
    st.tuples(st.just("quote"), st.tuples(st.sampled_from(["ro ", "so ", "sh ", "remove_option ", "set_option ", "set_hostvar "]), words, st.sampled_from(["'", '"']), words, st.sampled_from(["", " 1", " x y"])).map(lambda x: x[0] + x[2] + x[1] + x[4])),
    st.tuples(st.just("quote"), st.tuples(st.sampled_from(["'", '"']), words).map("".join)),
    st.tuples(st.just("quote"), st.tuples(st.sampled_from(["ro ", "so "]), words).map(lambda x: x[0] + x[1] + "\\")),
    st.tuples(st.just("help"), st.tuples(st.sampled_from(["", "ro ", "so ", "sh ", "t ", "remove_option ", "set_option ", "set_hostvar ", "template "]), st.sampled_from(["-h", "--help"])).map("".join)),
)


def t_malformed(case, rec: Recorder):
    kind, text = case
    got = guard(lambda: parse(text), f"parsing {text!r}")
    if not isinstance(got, str):
        raise Violation(f"{text!r} ({kind}) was accepted as {show(got)}")
    require(got.strip() != "", f"{text!r} ({kind}) was refused without an explanation")
    if kind == "help":
        for v in VERBS if text.strip() in ("-h", "--help") else text.split()[:1]:
            require(v in got or VERBS[v] in got, f"the help for {text!r} does not mention {v!r}: {got!r}")
    if kind == "unknown":
        require(text.split()[0] in got or "invalid" in got.lower() or "unknown" in got.lower(), f"{text!r}: {got!r} does not explain")
    rec.tag(kind)
    rec.nontrivial()


arbitrary = st.one_of(
    st.text(max_size=30),
    st.lists(st.one_of(verbs, words, pieces, st.sampled_from(["'", '"', "\\", " ", "\n", "--", "-h"])), max_size=8).map(" ".join),
    st.lists(st.one_of(verbs, words, pieces, st.sampled_from(["'", '"', "\\", " ", "\n", "-"])), max_size=8).map("".join),
)


def t_arbitrary(case, rec: Recorder):
    got = guard(lambda: parse(case), f"parsing {case!r}")
    if isinstance(got, str):
        require(got.strip() != "", f"{case!r} was refused without an explanation")
        rec.tag("message")
    else:
        require(got.command in set(VERBS.values()), f"{case!r} was read as {show(got)}")
        first = case.strip().split()[0] if case.strip() else ""
        if first in VERBS:
            require(got.command == VERBS[first], f"{case!r} was read as {show(got)}")
        if hasattr(got, "expression"):
            require(case.rstrip().endswith(got.expression.rstrip()), f"{case!r}: the expression {got.expression!r} is not what was typed last")
        rec.tag(got.command)
        rec.nontrivial()


TESTS = [
    Test("commands", lambda: st.tuples(verbs, leads, gaps, gaps, names, expressions, st.sampled_from(["", " ", "\t"])), t_commands, quick=16000, thorough=400000),
    Test("malformed", lambda: malformed, t_malformed, quick=4000, thorough=60000),
    Test("arbitrary", lambda: arbitrary, t_arbitrary, quick=6000, thorough=200000),
]
