"""C03, C05, C06, C08: round trip of sheets, styles, metadata, validations/annotations/drawings/scripts."""
import json
import os
import roundtrip
from roundtrip import Check

SPEC = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "locations.json"))) if os.path.exists(
    os.path.join(os.path.dirname(os.path.abspath(__file__)), "locations.json")) else {}

SHEET = {"table:table", "table:table-column", "table:table-row", "table:table-cell", "table:covered-table-cell", "table:table-column-group",
         "table:table-row-group", "table:table-header-rows", "table:table-header-columns"}
META = {"dc:title", "dc:description", "dc:subject", "dc:language", "dc:creator", "dc:date"}


def part(el):
    el = el or ""
    if el in SHEET:
        return "C03"
    if el.startswith(("style:", "number:")) or el in ("loext:text", "loext:fill-character"):
        return "C05"
    if el.startswith("meta:") or el in ("dc:title", "dc:description", "dc:subject", "dc:language", "office:meta"):
        return "C06"
    if el in ("dc:creator", "dc:date"):
        return "C06+C08"
    if el.startswith("config:"):
        return "C07"
    if el.startswith(("draw:", "svg:", "script:")) or el in ("table:content-validation", "table:content-validations", "table:error-message", "table:help-message",
                                                            "office:annotation", "office:binary-data", "office:script", "office:scripts", "office:event-listeners"):
        return "C08"
    return "other"


def sel(prop):
    return lambda el: prop in part(el).split("+")


CELLS = ("table:table-cell", "table:covered-table-cell")
SPECIAL = {"C03": {}, "C05": {}, "C06": {}, "C07": {}, "C08": {}}
for c in CELLS:
    SPECIAL["C03"].update({
        # value type and value attributes belong together: decided in C04
        (c, "office:value-type"): 1, (c, "office:value"): 1, (c, "office:currency"): 1, (c, "office:date-value"): 1, (c, "office:time-value"): 1,
        (c, "office:boolean-value"): 1, (c, "office:string-value"): 1,
        # a default style for the value type is written for cells without a style of their own
        (c, "table:style-name", "src", "WorkBook.def_styles"): 1, (c, "table:style-name", "guard", "CellData.style"): 1,
        # run lengths are computed from positions
        (c, "table:number-columns-repeated", "alter"): {"op:AddWithOverflow", "op:SubWithOverflow", "op:Sub", "op:Add"},
        (c, "table:number-columns-repeated", "default"): 1,
    })
SPECIAL["C03"][("table:table-row", "table:number-rows-repeated", "alter")] = {"op:AddWithOverflow", "op:SubWithOverflow", "op:Sub", "op:Add", "max", "min"}
SPECIAL["C03"][("table:table-column", "table:number-columns-repeated", "alter")] = {"op:AddWithOverflow", "op:SubWithOverflow", "op:Sub", "op:Add", "max", "min"}
SPECIAL["C03"][("table:table-row", "table:number-rows-repeated", "alter-read")] = {"max"}
SPECIAL["C03"][("table:table-column", "table:number-columns-repeated", "alter-read")] = {"max"}
for c in CELLS:
    SPECIAL["C03"][(c, "table:number-columns-repeated", "alter-read")] = {"max"}
for k in ("header-first", "header-left", "footer-first", "footer-left"):
    # an empty special header/footer is always marked as not displayed, and such a tag is not read at all
    SPECIAL["C05"][("style:" + k, "style:display")] = 1
    SPECIAL["C05"][("style:" + k, "kind", "empty")] = 1
SPECIAL["C05"].update({
    # default styles are only written with StyleUse::Default: see sections()
    ("style:default-style", "place", "office:automatic-styles"): 1,
    # the reader also knows LibreOffice's extension names
    ("loext:text", ""): 1, ("loext:fill-character", ""): 1, ("loext:text", "*"): 1, ("loext:fill-character", "*"): 1,
    # the text belongs to the enclosing number:number in the model
    ("number:embedded-text", "", "alias"): ("number:number", ""),
})
SPECIAL["C05"].update({
    # the kind of a format part is the name of its element; text with a position goes into an embedded text
    ("number:*", "elem", "FormatPart.part_type"): 1, ("number:*", "elem", "FormatPart.position"): 1, ("number:*", "elem", "FormatPart.content"): 1,
    ("loext:*", "elem", "FormatPart.part_type"): 1, ("loext:*", "elem", "FormatPart.position"): 1,
    # an empty element without tab stops, one with content with them
    ("style:paragraph-properties", "elem", "ParagraphStyle.tabstops"): 1,
})
# type and text of user-defined values belong together: see meta_values()
SPECIAL["C06"][("meta:user-defined", "meta:value-type")] = 1
SPECIAL["C08"].update({
    # the attribute is looked up in the parsed tag: see script_language()
    ("office:script", "script:language"): 1,
    # 'of:' prefix
    ("table:content-validation", "table:condition", "alter"): {"split_at", "strip_prefix", "unwrap_or"},
    ("table:error-message", "", "alter"): {"pop"}, ("table:help-message", "", "alter"): {"pop"},
})


def run(prop):
    def fn(s, rep):
        c = Check(s, rep, sel(prop), SPEC.get(prop, {}), SPECIAL[prop])
        c.run()
        EXTRA.get(prop, lambda c: None)(c)
        import p_content
        if prop in ("C05", "C08"):
            p_content.content(s, rep)
        elif prop == "C06":
            p_content.common(s, rep)
    return fn


def meta_values(c):
    import p_value
    enum = next((x for x, a in c.s.p.adts.items() if x.rsplit("::", 1)[-1] == "MetaValue" and a["kind"] == "enum"), None)
    if c.rep.need(enum, "MetaValue", "the enum of user-defined metadata"):
        p_value.union(c.s, c.rep, c.rt, enum, "meta:user-defined", "meta:value-type", default="String")


def cells(c):
    import readrules
    readrules.dropping(c)
    readrules.headers(c)
    import p_options
    p_options.cloning(c.s.p, c.rep)
    import p_headers
    p_headers.check(c)


def drawings(c):
    import p_store
    p_store.parsers(c.s.p, c.rep, True)


EXTRA = {"C03": cells, "C06": meta_values, "C08": drawings,
         "C05": lambda c: c.elem_tokens(lambda x: x.startswith("number:"))}

PROPS = {p: (run(p), "other", "round trip") for p in ("C03", "C05", "C06", "C08")}
