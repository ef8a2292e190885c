"""Generators shared by the checks (cases are JSON values)."""
import unicodedata
from urllib.parse import quote, unquote

from hypothesis import strategies as st

PLAIN = "abcdxyzAB012789"
PUNCT = ".-_~!@$%^&*()+=[]{};:'\",<>|`# "
WIDE = "\u00fc\u00df\u00c4\u6f22\u00e9\u0301\U0001f600"
CONTROL = "\t\n\r\x01\x1b\x7f"

TRICKY_NAMES = [
    "a", "b", "c", "ab", "a.b", ".hidden", "..x", "...", "x.tar.gz", ".a.b", "a.", "file.txt",
    " ", " lead", "trail ", "in side", "#", "a#", "#b", "a#b", "##", ".#lock", "((x))", "((", "))",
    "a((b))c", "%20", "100%", "a%2Fb", "a+b", "a&b=c", "key=value", ";x", "a;b", "a:b:c", "::", "@",
    "u@h", "~", "~user", "*", "[a]", "a*b", "{b}", "$HOME", "`x`", "'q'", '"d"', "-", "--", "-rf",
    "\u00fc", "V\u00f6gel", "\u6f22\u5b57", "e\u0301", "\U0001f600", "__inner_part__", "a\nb", "\n",
    "x\ty", "http:", "file:", "C", "C:", "memory:", "None", "0", "\u2028", "\u00a0", ".zip", "a.zip",
    "__MACOSX", ".DS_Store", "Thumbs.db", ".git", ".svn", "CVS", "lost+found", "__pycache__", "nul", "CON",
    "a~", "#a#", "a.bak", "a.tmp", "._a", ".nfs01", "core", "-", "a" * 60,
    "a" * 200, "a" * 199 + "b",
]


def names(extra="", exclude="", control=False, tricky=True):
    """One plain file name: no '/', '\\', '?', NUL, not '.' or '..'."""
    alphabet = "".join(c for c in PLAIN + PUNCT + WIDE + (CONTROL if control else "") + extra
                       if c not in exclude)
    free = st.text(alphabet=alphabet, min_size=1, max_size=6)
    opts = [st.sampled_from(list("abc")), free]
    if tricky:
        pool = [n for n in TRICKY_NAMES if not any(c in exclude for c in n) and
                (control or not any(c in CONTROL for c in n))]
        opts.append(st.sampled_from(pool))
    return st.one_of(opts).filter(lambda s: s not in (".", ".."))


def twin(n, k):
    """A name that is easily taken for n, or None."""
    t = [lambda: n + ".", lambda: n + " ", lambda: " " + n, lambda: n.swapcase(), lambda: n + n,
         lambda: n[:-1], lambda: n[1:], lambda: n + "0", lambda: "." + n, lambda: n + "~",
         lambda: unicodedata.normalize("NFD", n), lambda: unicodedata.normalize("NFC", n),
         lambda: unicodedata.normalize("NFKC", n), lambda: n[::-1], lambda: n + "a", lambda: n.casefold(),
         lambda: n.replace(" ", ""), lambda: n.replace(".", "_"), lambda: unquote(n), lambda: quote(n)][k]()
    if t in ("", ".", "..") or t == n or any(c in t for c in "/\\?\x00") or len(t.encode("utf-8", "replace")) > 240:
        return None
    return t


TWINS = 20


def alike(lists, usable=None, control=False):
    """In every third of the lists of names one name is made much like another one."""
    def related(names, k, i, j):
        i, j = i % len(names), j % len(names)
        t = twin(names[i], k)
        if (i != j and t and t not in names and (control or not any(ord(c) < 32 or ord(c) == 127 for c in t)) and
                (usable is None or usable(t))):
            names = names[:j] + [t] + names[j + 1:]
        return names
    few = st.integers(0, 4)
    return st.one_of(lists, lists, st.builds(related, lists, st.integers(0, TWINS - 1), few, few))


def texts(max_size=8):
    """Any text without surrogates."""
    return st.one_of(
        st.text(alphabet=PLAIN + PUNCT + WIDE + CONTROL + "/?\\", max_size=max_size),
        st.text(max_size=max_size).filter(lambda s: not any(0xd800 <= ord(c) < 0xe000 for c in s)),
        st.sampled_from(["", "a=b", "a&b", "?", "a?b", "/", "a/b", "//", "%", "%41", "+", " ", " x ",
                         "&", "=", "==", "#", "a#b", "\u00fc", "\n", "a;b", "((x))", "file:///x",
                         "username", "\\", "a\\b", "\x00",
                         "x&password=y", "1&username=u", "&k=v", "%26", "a%26password%3Db", "\u00fc&key=1",
                         "x" * 300, "x" * 299 + "y", "y" * 4999 + " "]))


def is_plain(s):
    return all(c in PLAIN for c in s)
