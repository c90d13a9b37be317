"""The recorded, unrepaired findings (see known-findings.txt): how to reproduce each, and what exactly each covers."""
import binascii
import io
from decimal import Decimal


def hex_looking(data):
    """KF1 covers values whose bytes are all ASCII hexadecimal digits."""
    return len(data) % 2 == 0 and all(chr(b) in '0123456789abcdefABCDEF' for b in data)


def kf1_matches(data, written):
    """... and only the deviation that exactly the decoded digits are written."""
    return hex_looking(data) and bytes(written) == binascii.unhexlify(bytes(data))


def kf2_matches(units, text):
    """KF2 covers amounts that the nearest double does not identify, and only the text of that double."""
    near = Decimal(repr(units / 100000000))
    return near * 100000000 != units and text in (format(near, 'f'), format(near, 'f')[:-2] if format(near, 'f').endswith('.0') else None)


def reproduces(ident):
    if ident == 'KF1':
        from neocore.IO.BinaryWriter import BinaryWriter
        from neocore.UInt160 import UInt160
        s = io.BytesIO()
        BinaryWriter(s).WriteUInt160(UInt160(data=b'12345678901234567890'))
        return s.getvalue() == bytes.fromhex('12345678901234567890')
    if ident == 'KF2':
        from neocore.Fixed8 import Fixed8
        return Fixed8(4050765991976829550).ToString() == '40507659919.768295' or Fixed8(2 ** 62 + 1).ToString() != '46116860184.27387905'
    return False
