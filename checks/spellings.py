"""
Different spellings of a text, such as software likes to equate.
"""

import unicodedata
import urllib.parse

TEXT = " Straße e\u0301é \ufb01\uff21 =%20\tI\u0130\r\n".encode()
EDGES = (
    b" ", b"\n", b"\r\n", b"\t", b"\x00", b"\x01", b"\xff", b"\x7f", b"=", b"==",
    b".", b"/", b'"', b"\xef\xbb\xbf", b"\xe2\x80\x8b", b"\xc2\xa0",
)


def spellings(text=TEXT):
    """
    The text first, then others, all of which differ.
    """
    out = [text]
    for edge in EDGES:
        out += [text + edge, edge + text, edge + text + edge]
        if text.endswith(edge):
            out.append(text[: -len(edge)])
        if text.startswith(edge):
            out.append(text[len(edge) :])
    out += [
        text.lower(),
        text.upper(),
        text.swapcase(),
        text.title(),
        text.strip(),
        text.lstrip(),
        text.rstrip(),
        b" ".join(text.split()),
        b"".join(text.split()),
        text.replace(b"\r\n", b"\n"),
        text.replace(b"\r\n", b"\r"),
        text.replace(b"\n", b"\r\n"),
        text.expandtabs(),
        text.replace(b"\\", b"/"),
        text[::-1],
        text + text,
        text + b"\x00" + text,
        text.hex().encode(),
        urllib.parse.quote_from_bytes(text).encode(),
        urllib.parse.unquote_to_bytes(text),
    ]
    try:
        words = text.decode()
    except UnicodeDecodeError:
        return list(dict.fromkeys(out))
    for form in ("NFC", "NFD", "NFKC", "NFKD"):
        out.append(unicodedata.normalize(form, words).encode())
    out += [
        words.lower().encode(),
        words.upper().encode(),
        words.casefold().encode(),
        words.strip().encode(),
        words.encode("utf-16"),
        words.encode("ascii", "ignore"),
        words.encode("ascii", "replace"),
        words.encode("ascii", "backslashreplace"),
    ]
    return list(dict.fromkeys(out))
