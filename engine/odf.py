"""Names of OpenDocument 1.3 used as an oracle (chapters 16 to 20: attributes per element, tokens per data type)."""


def ns(prefix, names):
    return {prefix + ":" + n for n in names.split()}


SIDES = " {0}-bottom {0}-left {0}-right {0}-top"
BORDERS = ns("fo", "border" + SIDES.format("border")) | ns("style", "border-line-width" + SIDES.format("border-line-width"))
PADDING = ns("fo", "padding" + SIDES.format("padding"))
MARGIN = ns("fo", "margin" + SIDES.format("margin"))
BREAKS = ns("fo", "break-after break-before")

CELL = BORDERS | PADDING | ns("fo", "background-color wrap-option") | ns("style", """cell-protect decimal-places diagonal-bl-tr diagonal-bl-tr-widths diagonal-tl-br diagonal-tl-br-widths direction
    glyph-orientation-vertical print-content repeat-content rotation-align rotation-angle shadow shrink-to-fit text-align-source vertical-align writing-mode""")
COLUMN = BREAKS | ns("style", "column-width rel-column-width use-optimal-column-width")
ROW = BREAKS | ns("fo", "background-color keep-together") | ns("style", "min-row-height row-height use-optimal-row-height")
TABLE = BREAKS | MARGIN | ns("fo", "background-color keep-with-next") | ns("style", "may-break-between-rows page-number rel-width shadow width writing-mode") | ns(
    "table", "align border-model display tab-color")
_FONT = "font-name font-size font-size-rel font-style font-weight"
TEXT = ns("fo", """background-color color country language script font-size font-style font-weight font-variant font-family hyphenate hyphenation-push-char-count
    hyphenation-remain-char-count letter-spacing text-shadow text-transform""") | ns("style", """font-name font-size-rel font-relief letter-kerning text-blinking text-combine text-combine-end-char
    text-combine-start-char text-emphasize text-outline text-position text-rotation-angle text-rotation-scale text-scale use-window-font-color
    text-line-through-color text-line-through-mode text-line-through-style text-line-through-text text-line-through-text-style text-line-through-type text-line-through-width
    text-overline-color text-overline-mode text-overline-style text-overline-type text-overline-width
    text-underline-color text-underline-mode text-underline-style text-underline-type text-underline-width""") | {
    "style:%s-%s" % (a, b) for a in "country language script font-name font-size font-size-rel font-style font-weight".split() for b in ("asian", "complex")} | ns("text", "condition display")
PARAGRAPH = BORDERS | PADDING | MARGIN | BREAKS | ns("fo", """background-color hyphenation-keep hyphenation-ladder-count keep-together keep-with-next line-height orphans text-align text-align-last text-indent
    widows""") | ns("style", """auto-text-indent background-transparency contextual-spacing font-independent-line-spacing join-border justify-single-word line-break line-height-at-least line-spacing page-number
    punctuation-wrap register-true shadow snap-to-layout-grid tab-stop-distance text-autospace vertical-align writing-mode writing-mode-automatic""") | ns("text", "line-number number-lines")
PAGE = BORDERS | PADDING | MARGIN | ns("fo", "background-color page-height page-width") | ns("style", """first-page-number footnote-max-height num-format num-letter-sync num-prefix num-suffix paper-tray-name print
    print-orientation print-page-order register-truth-ref-style-name scale-to scale-to-pages shadow table-centering writing-mode""")
# PageStyle::set_dynamic_spacing() is there too
PAGE |= ns("style", "dynamic-spacing")
HEADERFOOTER = BORDERS | PADDING | MARGIN | ns("fo", "background-color min-height") | ns("style", "dynamic-spacing shadow") | ns("svg", "height")
TABSTOP = ns("style", "char leader-color leader-style leader-text leader-text-style leader-type leader-width position type")
FONTFACE = ns("style", "font-family-generic font-pitch font-adornments name") | ns("svg", "font-family font-size font-stretch font-style font-variant font-weight")
STYLE = ns("style", "auto-update class data-style-name default-outline-level display-name master-page-name name next-style-name parent-style-name")
FORMAT = ns("number", """automatic-order country language script format-source title transliteration-country transliteration-format transliteration-language transliteration-style
    truncate-on-overflow""") | ns("style", "display-name name volatile")
SHAPE = ns("draw", "caption-id class-names id layer name style-name text-style-name transform z-index") | ns("svg", "height width x y") | ns(
    "table", "end-cell-address end-x end-y table-background") | {"xml:id"}
ANNOTATION = SHAPE | ns("draw", "caption-point-x caption-point-y corner-radius") | ns("office", "display name")
FRAME = SHAPE | ns("draw", "copy-of corner-radius") | ns("style", "rel-height rel-width")
IMAGE = ns("draw", "filter-name mime-type") | ns("xlink", "actuate href show type") | {"xml:id"}

NUM = {
    "Number": "decimal-places decimal-replacement display-factor grouping min-decimal-places min-integer-digits",
    "Scientific": "decimal-places exponent-interval forced-exponent-sign grouping min-decimal-places min-exponent-digits min-integer-digits",
    "Fraction": "denominator-value grouping max-denominator-value min-denominator-digits min-integer-digits min-numerator-digits",
    "CurrencySymbol": "country language script rfc-language-tag",
    "Day": "calendar style", "Month": "calendar possessive-form style textual", "Year": "calendar style", "Era": "calendar style", "DayOfWeek": "calendar style", "WeekOfYear": "calendar",
    "Quarter": "calendar style", "Hours": "style", "Minutes": "style", "Seconds": "decimal-places style", "AmPm": "", "Boolean": "", "Text": "", "TextContent": "", "FillCharacter": "",
}
PARTS = {k: ns("number", v) for k, v in NUM.items()}
ANYPART = set().union(*PARTS.values())

_P = ns("text", "class-names cond-style-name id style-name") | {"xml:id"}
TEXTTAGS = {
    "TextP": ("text:p", _P), "TextH": ("text:h", _P | ns("text", "is-list-header outline-level restart-numbering start-value")),
    "TextSpan": ("text:span", ns("text", "class-names style-name")),
    "TextA": ("text:a", ns("text", "style-name visited-style-name") | ns("xlink", "href type show actuate") | ns("office", "name title target-frame-name")),
    "TextS": ("text:s", ns("text", "c")), "TextTab": ("text:tab", ns("text", "tab-ref")), "SoftPageBreak": ("text:soft-page-break", set()),
    "MetaAuthorInitials": ("text:author-initials", None), "MetaAuthorName": ("text:author-name", None), "MetaCharacterCount": ("text:character-count", None), "MetaCreationDate": ("text:creation-date", None),
    "MetaCreationTime": ("text:creation-time", None), "MetaCreator": ("text:creator", None), "MetaDate": ("text:date", None), "MetaDescription": ("text:description", None),
    "MetaEditingCycles": ("text:editing-cycles", None), "MetaEditingDuration": ("text:editing-duration", None), "MetaFileName": ("text:file-name", None), "MetaInitialCreator": ("text:initial-creator", None),
    "MetaKeywords": ("text:keywords", None), "MetaModificationDate": ("text:modification-date", None), "MetaModificationTime": ("text:modification-time", None), "MetaPageCount": ("text:page-count", None),
    "MetaPageNumber": ("text:page-number", None), "MetaPrintDate": ("text:print-date", None), "MetaPrintTime": ("text:print-time", None), "MetaPrintedBy": ("text:printed-by", None),
    "MetaSheetName": ("text:sheet-name", None), "MetaSubject": ("text:subject", None), "MetaTime": ("text:time", None), "MetaTitle": ("text:title", None),
}

# (type, field) or field -> attributes of the element the map is written to
GROUPS = {
    "cellstyle": CELL, "colstyle": COLUMN, "rowstyle": ROW, "tablestyle": TABLE, "textstyle": TEXT, "paragraphstyle": PARAGRAPH,
    ("PageStyle", "style"): PAGE, ("HeaderFooterStyle", "style"): HEADERFOOTER, ("TabStop", "attr"): TABSTOP, ("FontFaceDecl", "attr"): FONTFACE,
    ("Annotation", "attr"): ANNOTATION, ("DrawFrame", "attr"): FRAME, ("DrawImage", "attr"): IMAGE, ("FormatPart", "attr"): ANYPART,
}

# methods not named after the attribute
ALIAS = {
    "background-transpareny": "background-transparency", "font-text-outline": "text-outline", "rotation-scale": "text-rotation-scale", "master-page": "master-page-name", "next-style": "next-style-name",
    "parent-style": "parent-style-name", "rel-col-width": "rel-column-width", "vertical-align-para": "vertical-align", "text-condition": "condition", "text-display": "display", "col-width": "column-width",
    "use-optimal-col-width": "use-optimal-column-width", "value-format": "data-style-name", "long-style": "style", "short-style": "style", "condstyle-name": "cond-style-name", "list-header": "is-list-header",
    "denominator": "denominator-value", "max-denominator": "max-denominator-value", "expontent-interval": "exponent-interval", "display": "display", "count": "c",
}
for _s in ("", "-asian", "-complex"):
    ALIAS["font-bold" + _s] = "font-weight" + _s
    ALIAS["font-italic" + _s] = "font-style" + _s

# enum variant -> token, where it is not the variant's name in kebab case
TOKENS = {
    "FormatCalendarStyle": {"Roc": "ROC"},
    "Visibility": {"Collapsed": "collapse", "Filtered": "filter"},
    "CellProtect": {"ProtectedFormulaHidden": "protected formula-hidden"},
    "FontWeight": {"W%d00" % i: "%d00" % i for i in range(1, 10)},
    "GlyphOrientation": {"Zero": "0"},
    "StyleNumFormat": {"None": "", "Number": "1", "LowerAlpha": "a", "Alpha": "A", "LowerRoman": "i", "Roman": "I"},
    "MessageType": {"Error": "stop", "Info": "information"},
    "XLinkActuate": {"OnRequest": "onRequest", "OnLoad": "onLoad"},
    "TextCondition": {"None": "none"},
    "Length": {"Default": ""},
}
UNITS = {"Cm": "cm", "Mm": "mm", "In": "in", "Pt": "pt", "Pc": "pc", "Em": "em", "Percent": "%", "Deg": "deg", "Grad": "grad", "Rad": "rad"}
