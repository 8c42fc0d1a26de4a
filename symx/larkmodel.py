"""Symbolic execution of Lark's lexer: the terminals' regular expressions (taken
from the live Lark object, i.e. from the current grammar) are matched
symbolically; everything else in Lark (contextual lexer, LALR tables, parse-tree
builder, Transformer) is executed as is."""
from __future__ import annotations

import re

from . import engine
from . import rx
from . import text as tx
from . import values as vals
from .formula import FALSE, TRUE, Not

_has = tx.MARK_RE.search
PLACE = re.compile(r"ZQ(\d+)Z\Z")
SCANNERS_USED = {}


def _prog(scanner):
    p = getattr(scanner, "_symx_prog", None)
    if p is None:
        alts = [(t.name, t.pattern.to_regexp()) for t in scanner.terminals]
        p = rx.Prog(scanner.re_, None, scanner.g_regex_flags, alternatives=alts, captures=False)
        scanner._symx_prog = p
    return p


class _LexFail(Exception):
    pass


def install():
    import lark
    from lark import lexer as L
    from lark import Token, Tree
    from lark.exceptions import UnexpectedInput

    L.Scanner.__init_orig__ = L.Scanner.__init__
    orig_match = L.Scanner.match
    orig_full = L.Scanner.fullmatch
    orig_feed = L.LineCounter.feed
    orig_ctx_lex = L.ContextualLexer.lex
    orig_parse = lark.Lark.parse

    def match(self, text, pos):
        t = text.text
        m = _has(t, pos)
        if m is None or m.start() >= text.end:
            return orig_match(self, text, pos)
        try:
            outs, fail = rx.run(_prog(self), t, pos, text.end)
        except engine.Unsupported as e:
            engine.CTX.notes.append(f"terminal not modelled: {e}")
            raise
        if not outs:
            return None
        i = engine.CTX.branch([c for _, c in outs] + [fail])
        if i == len(outs):
            return None
        tag, e, _ = outs[i][0]
        SCANNERS_USED[tag] = SCANNERS_USED.get(tag, 0) + 1
        return t[pos:e], tag

    def fullmatch(self, text):
        if _has(text) is None:
            return orig_full(self, text)
        outs, fail = rx.run(_prog(self), str(text), 0, len(text), full=True)
        if not outs:
            return None
        i = engine.CTX.branch([c for _, c in outs] + [fail])
        return None if i == len(outs) else outs[i][0][0]

    def feed(self, token, test_newline=True):
        s = token if isinstance(token, str) else token.text[token.start:token.end]
        if not test_newline or _has(s) is None:
            return orig_feed(self, token, test_newline)
        newlines = 0
        last = -1
        for i, c in enumerate(s):
            if engine.CTX.decide(tx.ch_eq(c, self.newline_char)):
                newlines += 1
                last = i
        if newlines:
            self.line += newlines
            self.line_start_pos = self.char_pos + last + 1
        self.char_pos += len(s)
        self.column = self.char_pos - self.line_start_pos + 1

    def ctx_lex(self, lexer_state, parser_state):
        # a failing scan always ends in an UnexpectedInput error; skip the root-lexer
        # retry, which only words the message
        try:
            while True:
                lexer = self.lexers[parser_state.position]
                yield lexer.next_token(lexer_state, parser_state)
        except EOFError:
            pass

    def parse(self, text, *a, **kw):
        if isinstance(text, str) and _has(text) is None or not isinstance(text, str):
            tree = orig_parse(self, text, *a, **kw)
        else:
            L.ContextualLexer.lex = ctx_lex
            try:
                tree = orig_parse(self, text, *a, **kw)
            finally:
                L.ContextualLexer.lex = orig_ctx_lex
        if engine.CTX is not None and engine.CTX.opaques and isinstance(tree, Tree):
            tree = substitute(tree)
        return tree

    def substitute(tree):
        kids = tree.children
        for i, c in enumerate(kids):
            if isinstance(c, Tree):
                if len(c.children) == 1 and isinstance(c.children[0], Token):
                    o = lookup(c.children[0])
                    if o is not None and c.data in STRING_RULES:
                        kids[i] = o
                        continue
                substitute(c)
        return tree

    def lookup(tok):
        m = PLACE.match(str(tok)) if _has(tok) is None else None
        if m is None:
            return None
        n = int(m.group(1))
        ops = engine.CTX.opaques
        return ops[n].occurrence() if n < len(ops) else None

    # UnexpectedCharacters.__init__ formats context from the text: harmless on markers
    L.Scanner.match = match
    L.Scanner.fullmatch = fullmatch
    L.LineCounter.feed = feed
    lark.Lark.parse = parse

    # constructing Lark twice for the same grammar is pure: share the result
    cache = {}
    LAST.clear()
    orig_init = lark.Lark.__init__

    def init(self, grammar, **options):
        LAST[:] = [self]
        if not isinstance(grammar, str):
            return orig_init(self, grammar, **options)
        key = (grammar, tuple(sorted((k, repr(v)) for k, v in options.items() if k != "cache")))
        d = cache.get(key)
        if d is None:
            opts = dict(options)
            opts["cache"] = False
            orig_init(self, grammar, **opts)
            cache[key] = dict(self.__dict__)
        else:
            self.__dict__.update(d)

    lark.Lark.__init__ = init


# rule names whose single token child is an identifier reference in value position;
# filled in from a probe parse so that a renamed rule still works
STRING_RULES = set()


LAST = []


def probe(parser_factory):
    """Find which rule wraps an identifier in value position."""
    from lark import Token

    STRING_RULES.clear()
    parser_factory()
    t = LAST[0].parse("var x = qqq\n")
    for st in t.iter_subtrees():
        if len(st.children) == 1 and isinstance(st.children[0], Token) and str(st.children[0]) == "qqq":
            STRING_RULES.add(st.data)
