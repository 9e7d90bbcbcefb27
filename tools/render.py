"""Turning specification behaviours into Rust source."""
from vlib import rust_str

KEYWORDS = {"as", "break", "const", "continue", "else", "enum", "extern", "false", "fn", "for", "if", "impl", "in",
            "let", "loop", "match", "mod", "move", "mut", "pub", "ref", "return", "static", "struct", "trait", "true",
            "type", "unsafe", "use", "where", "while", "async", "await", "dyn", "abstract", "become", "box", "do",
            "final", "macro", "override", "priv", "typeof", "unsized", "virtual", "yield", "try", "gen"}


def real(s):
    """Stand-in characters of the specification to real ones."""
    return s.replace("~", "é").replace("`", "🦀").replace("@", "\u2003").replace("%", "\u094d")


def ident(name):
    n = real(name)
    return "r#" + n if n in KEYWORDS else n


def lit(s, style=0):
    """A Rust string literal for s in one of several spellings."""
    if style == 1 and "\r" not in s:
        h = ""
        while '"' + h in s or (h == "" and '"' in s):
            h += "#"
        return f'r{h}"{s}"{h}'
    if style == 2:
        out = '"'
        for ch in s:
            if ch.isalnum() and ch.isascii() and ch not in "ux0":
                out += ch
            elif ch.isascii() and ch not in '"\\':
                out += "\\x%02x" % ord(ch)
            else:
                out += "\\u{%x}" % ord(ch)
        return out + '"'
    if style == 3 and len(s) > 2 and not s[len(s) // 2].isspace():
        k = len(s) // 2
        a, b = rust_str(s[:k])[:-1], rust_str(s[k:])[1:]
        if not a.endswith("\\"):
            return a + "\\\n        " + b
    return rust_str(s)
