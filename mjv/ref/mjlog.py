"""Logs as plain data: a game is {"type": int, "rounds": [[ [tag, attr], ... ], ...]}."""
import xml.etree.ElementTree as ET
from xml.sax.saxutils import quoteattr

HEAD_UN = {"n0": "A", "n1": "B", "n2": "C", "n3": "D", "dan": "16,16,16,16",
           "rate": "2000.00,2000.00,2000.00,2000.00", "sx": "M,M,M,M"}


def to_xml(game):
    out = ['<mjloggm ver="2.3"><SHUFFLE seed="x" ref=""/>']
    if game.get("go", True):
        out.append(elem("GO", {"type": str(game["type"]), "lobby": "0"}))
    out.append(elem("UN", HEAD_UN))
    out.append(elem("TAIKYOKU", {"oya": "0"}))
    for r in game["rounds"]:
        for tag, attr in r:
            out.append(elem(tag, attr))
    out.append("</mjloggm>")
    return "".join(out)


def elem(tag, attr):
    return "<" + tag + "".join(f" {k}={quoteattr(str(v))}" for k, v in attr.items()) + "/>"


def n_rounds(gtype):
    return 8 if gtype & 8 else 4


def from_file(path):
    root = ET.parse(path).getroot()
    game = {"type": None, "rounds": []}
    for e in root:
        if e.tag == "GO":
            game["type"] = int(e.attrib["type"])
        elif e.tag in ("SHUFFLE", "UN", "TAIKYOKU", "BYE"):
            continue
        elif e.tag == "INIT":
            game["rounds"].append([["INIT", dict(e.attrib)]])
        else:
            game["rounds"][-1].append([e.tag, dict(e.attrib)])
    return game
