"""Vocabulary shared by the frame contracts (C01-C04)."""
import re

from pyown.exceptions import ParseError
from pyown.messages import parse_message

CORPUS = [
    "*1*1*12##", "*#*1##", "*#*0##", "*#1*12##", "*#1*12*1##", "*#1*12*#1*2##", "*#1*12*#1##", "*#1*12*1*2##",
    "*#13**0*12*34*56*001##", "*#13**#0*12##", "*1*1000#1*12##", "*#4*1*0*0251##", "*99*0##", "*99*9##", "*98*1##",
    "*#603356072##", "*#18*51*1200#1##", "*#18*71#0*#1200#1*2##", "*1*1*12", "**##", "*##", "*1##", "####", "*1*1###",
    "*#1*1#4#01##", "*#1*12*##", "*#1*12*#*1##", "*#1*12**5##", "*1000*1*1##", "*#1000*1*1*1##", "*#**##", "*#*##",
    "*1*2*3*4##", "*1*1*12##\n", " *1*1*12## ", "*1*1*12## x", "x*1*1*12##", "*1*1*12##*1##", "*#2*#5*1##", "*1*#1*12##",
    "*#1#2*12*1##", "*1#2*1*12##", "*#1*12*1#2*3##", "*#1*#*#1*2##", "*#1*12*#1*##", "", "##", "*", "*1*1*12#",
    "*1*1*1\u0662##", "*1*a*1##", "*2*1*##", "*1*1**##", "*#22*7*#1*10*##", "*#1018*1*#19##", "*#1*1*1*##", "*#1*1*2###",
    "*#25#1*1##", "*#1*2*#3#4*5##", "*1*0*0#3##",
]
FRAME = "\\*(#?[0-9*])*##"  # starts *, ends ##, no other ##, digits * # only

KNOWN = ("0", "1", "2", "3", "4", "5", "6", "7", "8", "13", "14", "15", "16", "17", "18", "22", "24", "25", "1001", "1004",
         "1013", "1018")
WHO_RE = "(" + "|".join(KNOWN) + ")"
# the frames whose structure names them, with a known WHO
STRUCTURED = ("\\*(#\\*[01]|" + WHO_RE + "\\*[0-9#]*\\*[0-9#]*|#" + WHO_RE + "(\\*[0-9#]*)+)##")


def accepted(vc, s):
    """The acceptance rule of C02 on the raw text s."""
    t = s.strip()
    return (t.startswith("*") and t.endswith("##") and t.count("##") == 1
            and re.fullmatch("[0-9*#]*", t) is not None)


def parse(vc, s):
    return vc.outcome(parse_message, s)
